// Characters wider than a byte: each stands for one char, recognisable as such.
#pragma once
#include <sim.h>
#include <string>
#include <memory>
namespace wide {
template <class T> T widen(char c) { return (T)(0x100u | (unsigned char)c); }
template <class T> std::basic_string<T> widen(const std::string& t) { std::basic_string<T> r; for(char c : t) r += widen<T>(c); return r; }
template <class T> std::string narrow(const T* p, size_t n)
{
    std::string r;
    for(size_t i = 0; i < n; ++i)
    {
        SIM_CHECK(((unsigned long)p[i] & ~0xfful) == 0x100, "wrong-content", "character %zu is %lx, none like it was written", i, (unsigned long)p[i]);
        r += (char)p[i];
    }
    return r;
}
// an output streambuf of wide characters, used through plain ones
template <class T, class SB> struct Out
{
    SB& sb;
    estd::streamsize sputn(const char* s, estd::streamsize n)
    {
        std::unique_ptr<T[]> v(new T[n]);      // exact-size block
        for(estd::streamsize i = 0; i < n; ++i) v[i] = widen<T>(s[i]);
        return sb.sputn(v.get(), n);
    }
    int sputc(char c) { return sb.sputc(widen<T>(c)) == estd::char_traits<T>::eof() ? -1 : 1; }
    int pubsync() { return sb.pubsync(); }
};
// what get() and the like of a wide source mean in plain characters
template <class T, class I> int code(I c)
{
    if(c == estd::char_traits<T>::eof()) return -1;
    T t = (T)c;
    return (int)(unsigned char)narrow(&t, 1)[0];
}
}
