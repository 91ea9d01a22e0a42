// Independent model of the text a formatted insertion produces, and small generators.
#pragma once
#include <sim.h>
#include <string>
#include <cstring>
#include <cstdint>
#include <climits>
#include <limits>
#include <type_traits>
#include <estd/ostream.h>
#include <estd/iomanip.h>

namespace txt {

inline std::string digits(unsigned long long v, unsigned base, bool upper)
{
    std::string r;
    do { unsigned d = (unsigned)(v % base); r.insert(r.begin(), (char)(d < 10 ? '0' + d : (upper ? 'A' : 'a') + d - 10)); v /= base; } while(v);
    return r;
}
inline std::string number(long long v, unsigned base, bool upper)
{
    if(v < 0) return "-" + digits(0ull - (unsigned long long)v, base, upper);
    return digits((unsigned long long)v, base, upper);
}
// deterministic text of n printable characters; position-dependent so that duplication and reordering show
struct TextGen
{
    uint32_t next = 0;
    // one of the fill characters there are (0x20 to 0x5F)
    static char fill() { static const char f[] = { '-', ' ', '0', '*', '_', 'A' }; return sim::choose(2) ? sim::pick(f) : char(' ' + sim::choose(64)); }
    // now and then with characters which are easily taken for something else: NUL, 0xFF (end of input as a char), ...
    std::string wild(size_t n, bool nul = true)
    {
        std::string r = (*this)(n);
        if(sim::chance(1, 4)) { static const char odd[] = { '\xff', '\0', '\x80', '\xfe', '\x7f', '\r', '\x1a' }; SIM_PROBE("odd-characters"); for(char& c : r) if(sim::chance(1, 3)) { c = sim::pick(odd); if(!c && !nul) c = '\x80'; } }
        return r;
    }
    std::string operator()(size_t n)
    {
        static const char al[] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789.,:;!?";
        std::string r;
        for(size_t i = 0; i < n; ++i) { uint32_t h = next * 2654435761u; h ^= h >> 15; r += al[(next + (h % 7)) % (sizeof al - 1)]; ++next; }
        return r;
    }
};
// An integer of any type, base, width, alignment and fill is inserted; returns the text which that should be.
template <class T> T some_number()
{
    typedef std::numeric_limits<T> L;
    switch(sim::choose(6))
    {
        case 0: return T(sim::choose(10));
        case 1: return L::max();
        case 2: return L::min();
        case 3: return T(L::max() - T(sim::choose(3)));
        case 4: return T(L::is_signed ? -int(sim::choose(300)) : int(sim::choose(300)));
        default: { uint64_t x = 0; for(int i = 0; i < 4; ++i) x = x << 16 | sim::choose(65536); return T(x >> sim::choose(64)); }
    }
}
template <class T, class OS> std::string number_as(OS& os, bool& padded, bool manipulators)
{
    static const unsigned bases[] = { 10, 16, 8 }; static const char fills[] = { ' ', '*', '-', '0', '#', '.' };
    unsigned base = sim::pick(bases), w = sim::choose(3) == 2 ? sim::range(1, 15) : 0; bool upper = sim::choose(2), left = sim::choose(2); char fill = sim::choose(3) ? sim::pick(fills) : char(' ' + sim::choose(64));   // every fill character there is
    T v = some_number<T>(); if(base != 10 && v < T(0)) v = T(-(v + 1));
    typedef estd::ios_base B;
    if(manipulators && sim::choose(4) == 3) os << estd::setbase(int(base)); else if(manipulators && sim::choose(2)) { switch(base) { case 8: os << estd::oct; break; case 10: os << estd::dec; break; default: os << estd::hex; } } else os.setf(base == 8 ? B::oct : base == 10 ? B::dec : B::hex, B::basefield);
    if(sim::choose(3) == 2)
    {
        // all flags at once, and what they were
        const B::fmtflags was = os.flags(), f = B::fmtflags((was & ~(B::basefield | B::uppercase | B::adjustfield)) | (base == 8 ? B::oct : base == 10 ? B::dec : B::hex) | (upper ? B::uppercase : 0) | (left ? B::left : B::right));
        const B::fmtflags told = os.flags(f); SIM_CHECK(told == was && os.flags() == f, "flags", "flags(%u) told %u, were %u, are %u", f, told, was, (unsigned)os.flags());
    }
    else
    {
        if(upper) os.setf(B::uppercase); else os.unsetf(B::uppercase);
        os.setf(left ? B::left : B::right, B::adjustfield);
    }
    if(manipulators && sim::choose(2)) os << estd::setfill(fill); else os.fill(fill);
    if(w) { if(manipulators && sim::choose(2)) os << estd::setw(w); else os.width(w); }
    std::string d = std::is_signed<T>::value ? number((long long)v, base, upper) : digits((unsigned long long)v, base, upper), pad(w > d.size() ? w - d.size() : 0, fill);
    padded = !pad.empty();
    std::string t = left ? d + pad : pad + d;
    sim::log("op number [%s] of %zu bytes", t.c_str(), sizeof(T));
    os << v;
    return t;
}
template <class OS> std::string number_op(OS& os, bool& padded, bool manipulators = true)
{
    switch(sim::choose(8))
    {
        case 0: return number_as<short>(os, padded, manipulators);
        case 1: return number_as<unsigned short>(os, padded, manipulators);
        case 2: return number_as<unsigned>(os, padded, manipulators);
        case 3: return number_as<long>(os, padded, manipulators);
        case 4: return number_as<unsigned long>(os, padded, manipulators);
        case 5: return number_as<long long>(os, padded, manipulators);
        case 6: return number_as<unsigned long long>(os, padded, manipulators);
        default: return number_as<int>(os, padded, manipulators);
    }
}
inline std::string show(const std::string& s)
{
    std::string r;
    for(unsigned char c : s) if(c >= 32 && c < 127 && c != '\\') r += (char)c; else { char b[8]; snprintf(b, sizeof b, "\\x%02x", c); r += b; }
    return r.size() > 160 ? r.substr(0, 160) + "..." : r;
}
inline bool subsequence(const std::string& sub, const std::string& of)
{
    size_t j = 0;
    for(char c : of) if(j < sub.size() && sub[j] == c) ++j;
    return j == sub.size();
}
}
