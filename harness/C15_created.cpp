// strings brought into being in every way there is, over memory whose surroundings are watched
#include <estd/string.h>
#include <estd/string_view.h>
#include <sim.h>
#include <cstring>
#include <memory>
#include <string>
namespace {
const char ALPHA[] = "ab cZ09-";
std::string text(unsigned longest) { std::string t; for(unsigned n = sim::choose(longest + 1); t.size() < n; ) t += ALPHA[sim::choose(sizeof ALPHA - 1)]; return t; }
template <class S> std::string all(const S& s) { std::string r; for(auto i = s.begin(), e = s.end(); i != e; ++i) { char c = *i; r += c; if(r.size() > 400) break; } return r; }
// memory of exactly n characters between watched ones
struct Guarded
{
    std::unique_ptr<char[]> mem; size_t n;
    explicit Guarded(size_t n) : mem(new char[n + 32]), n(n) { memset(mem.get(), 0x5B, n + 32); }
    char* at() { return mem.get() + 16; }
    void intact(const char* how) { for(int i = 0; i < 16; ++i) SIM_CHECK(mem[i] == 0x5B && mem[16 + n + i] == 0x5B, "writes-elsewhere", "%s wrote outside the string's memory", how); }
};
template <class S> void holds(const S& s, const std::string& want, const char* how)
{
    if constexpr(!std::is_same<S, estd::string_view>::value) SIM_CHECK(s.empty() == want.empty(), "created", "%s of \"%s\": empty is %d", how, want.c_str(), int(s.empty()));
    SIM_CHECK(s.size() == want.size(), "created", "%s of \"%s\": %zu characters instead of %zu", how, want.c_str(), size_t(s.size()), want.size());
    SIM_CHECK(all(s) == want, "created", "%s of \"%s\" holds \"%s\"", how, want.c_str(), all(s).c_str());
    sim::state(sim::mix(want.size(), how[0] * 31 + how[strlen(how) - 1])); sim::nontrivial();
}
// from a source of text; what does not fit leaves an empty string
template <size_t N, bool Z> void owner()
{
    typedef estd::layer1::string<N, Z> S; const size_t cap = N - Z;
    std::string t = text(N + 3), want; std::unique_ptr<char[]> e(new char[t.size() + 1]); memcpy(e.get(), t.c_str(), t.size() + 1);
    estd::layer1::string<64> a(t.c_str()); holds(a, t, "a roomy string");
    struct alignas(S) { char pre[16]; char obj[sizeof(S)]; char post[16]; } m; memset(&m, 0x5B, sizeof m);
    S* s = nullptr; const char* how = ""; want = t.size() <= cap ? t : "";
    switch(sim::choose(6))
    {
        case 0: how = "creation from text"; s = new (m.obj) S(static_cast<const char*>(e.get())); break;
        case 1: { how = "creation from a part of text"; size_t n = sim::choose(t.size() + 1); e.reset(new char[n ? n : 1]); memcpy(e.get(), t.data(), n); s = new (m.obj) S(static_cast<const char*>(e.get()), n); t.resize(n); want = n <= cap ? t : ""; break; }
        case 2: how = "creation from another string"; s = new (m.obj) S(a); break;
        case 3: { how = "creation from a view"; e.reset(new char[t.size() ? t.size() : 1]); memcpy(e.get(), t.data(), t.size()); s = new (m.obj) S(estd::string_view(e.get(), t.size())); break; }
        case 4: { how = "creation from constant text"; s = new (m.obj) S(estd::layer2::const_string(e.get())); break; }
        case 5: { how = "creation from a string without terminator"; estd::layer1::string<64, false> b; b.append(t.data(), t.size()); s = new (m.obj) S(b); break; }
    }
    sim::log("%s \"%s\" for %zu", how, t.c_str(), cap); if(t.size() > cap) SIM_PROBE("does-not-fit"); else if(t.size() == cap) SIM_PROBE("just-fits");
    holds(*s, want, how);
    const S& c = *s;
    if constexpr(Z)
    {
        SIM_CHECK(want == s->c_str() && want == c.c_str() && s->c_str() == c.c_str(), "created", "%s: as C text \"%s\" instead of \"%s\"", how, c.c_str(), want.c_str());
        estd::layer2::string<0> over(*s); holds(over, want, "looking through another string");
    }
    SIM_CHECK(std::string(s->data(), s->size()) == want && c.data() == s->data(), "created", "%s: data() differs", how);
    { estd::string_view v = c; holds(v, want, "a view of a string"); }
    { S copy(c); holds(copy, want, "a copy"); if(want.size() < cap) { copy += '!'; holds(c, want, how); holds(copy, want + '!', "a changed copy"); } }
    for(int i = 0; i < 16; ++i) SIM_CHECK(m.pre[i] == 0x5B && m.post[i] == 0x5B, "writes-elsewhere", "%s wrote outside the string", how);
    s->~S();
}
// over somebody else's memory
void wrapping()
{
    enum { N = 24 }; Guarded g(N); std::string t = text(N - 1); memset(g.at(), '#', N); memcpy(g.at(), t.c_str(), t.size() + 1);
    const char* how = ""; typedef char Array[N]; Array& arr = *reinterpret_cast<Array*>(g.at());
    auto use = [&](auto& s, size_t cap) {
        holds(s, t, how); std::string more = text(6); bool ok = t.size() + more.size() <= cap; s.append(more.data(), more.size());
        if(ok) t += more; holds(s, t, "an appended string"); SIM_CHECK(!memcmp(g.at(), t.data(), t.size()), "elsewhere", "%s does not hold its text in the memory it was given", how); g.intact(how); };
    size_t k = sim::choose(t.size() + 1);
    switch(sim::choose(9))
    {
        case 0: { how = "wrapping text"; estd::layer2::string<N> s(g.at()); use(s, N - 1); SIM_CHECK(t == s.c_str(), "created", "c_str"); break; }
        case 1: { how = "wrapping a part of text"; estd::layer2::string<N> s(g.at(), int(k)); t.resize(k); use(s, N - 1); break; }
        case 2: { how = "wrapping memory for an empty string"; bool z = sim::choose(2); estd::layer2::string<N> s(g.at(), z); if(z) t.clear(); use(s, N - 1); break; }
        case 3: { how = "wrapping an array"; estd::layer2::string<N> s(arr); use(s, N - 1); break; }
        case 4: { how = "wrapping an array with a length"; auto s = estd::layer2::string<N>(arr, int(k)); t.resize(k); use(s, N - 1); break; }
        case 5: { how = "wrapping a sized array"; estd::layer3::basic_string<char, true> s(arr); use(s, N - 1); break; }
        case 6: { how = "wrapping a sized array with a length"; estd::layer3::basic_string<char, false> s(arr, (unsigned short)k); t.resize(k); use(s, N); break; }
        case 8: { how = "wrapping a sized array that keeps its length"; estd::layer3::basic_string<char, false> s(arr); use(s, N); break; }
        case 7: { how = "wrapping sized memory"; estd::layer3::basic_string<char, false> s(g.at(), (unsigned short)k, (unsigned short)N); t.resize(k); use(s, N); break; }
    }
    sim::log("%s", how);
}
}
void s_created() { for(unsigned k = 1 + sim::choose(6); k; --k) { sim::step("op"); switch(sim::choose(5)) { case 0: owner<16, true>(); break; case 1: owner<16, false>(); break; case 2: owner<2, true>(); break; case 3: owner<7, false>(); break; default: wrapping(); } } }
