#include <estd/ostream.h>
#include <estd/istream.h>
#include <estd/string.h>
#include <estd/sstream.h>
#include <vector>
#include <memory>
#include "textmodel.h"
#include "streamstate.h"
#include "wide.h"
using std::string;

namespace {
// what the memory must look like
struct Model
{
    string mem; size_t cap = 0, pos = 0;     // mem: bytes stored (span: whole area)
    bool nul = true;                          // may hold NUL characters
    bool grows = false;                      // string: mem is the text itself, pos == mem.size()
    size_t put(const string& t)
    {
        size_t k = t.size() < cap - pos ? t.size() : cap - pos;
        if(grows) { mem.append(t, 0, k); pos = mem.size(); }
        else { mem.replace(pos, k, t, 0, k); pos += k; }
        if(k < t.size()) SIM_FAULT("memory-full");
        return k;
    }
};

// Rig: how the memory is seen from outside
struct Rig { std::function<string()> content; std::function<void()> clear, fresh; };

void compare(const Model& m, const Rig& r, const char* op)
{
    string c = r.content();
    SIM_CHECK(c == m.mem, "wrong-content", "after %s memory holds [%s], expected [%s]", op, txt::show(c).c_str(), txt::show(m.mem).c_str());
}

// one formatted piece; returns its text
template <class OS> string piece(OS& os, txt::TextGen& text, size_t cap, bool nul)
{
    string t;
    switch(sim::choose(8))
    {
        case 0: t = text.wild(sim::range(0, (uint32_t)cap + 4), false); sim::log("op str %zu", t.size()); os << t.c_str(); break;
        case 1: t = text.wild(1, nul); sim::log("op put"); os.put(t[0]); break;
        case 2: t = text.wild(sim::range(0, (uint32_t)cap / 2 + 2), nul); sim::log("op write %zu", t.size()); os.write(t.data(), (estd::streamsize)t.size()); break;
        case 3:
        {
            bool padded; t = txt::number_op(os, padded);
            break;
        }
        case 4: { unsigned w = sim::choose(7); t = text.wild(1, nul); char c = t[0]; char fc = text.fill(); if(sim::choose(2)) os.fill(fc); else os << estd::setfill(fc); os.width(w); t = string(w > 1 ? w - 1 : 0, fc) + t; sim::log("op char w %u", w); os << c; break; }
        case 5: { estd::layer1::string<32> s; t = text(sim::range(0, 30)); s += t.c_str(); sim::log("op estd-str %zu", t.size()); os << s; break; }
        case 6: t = "\n"; sim::log("op endl"); os << estd::endl; break;
        default: { t = text(sim::choose(300)); sim::log("op long %zu", t.size()); os << t.c_str(); break; }
    }
    return t;
}

template <class OS>
void via_stream(OS& os, Model& m, const Rig& rig, bool seekable)
{
    txt::TextGen text;
    unsigned n = sim::range(1, 16);
    compare(m, rig, "start");
    for(unsigned i = 0; i < n; ++i)
    {
        if(!os.good() && sim::chance(2, 3)) { os.clear(); sim::log("clear"); }
        bool was_good = os.good();
        uint32_t k = sim::choose(10);
        if(k == 8)
        {
            bool failed = os.fail();
            long p = (long)(std::streamoff)os.tellp();
            SIM_CHECK(p == (failed ? -1 : (long)m.pos), "tellp-wrong", "tellp %ld, expected %ld", p, failed ? -1l : (long)m.pos);
        }
        else if(k == 9 && rig.fresh && sim::choose(4) == 3) { rig.fresh(); compare(m, rig, "new memory"); }
        else if(k == 9 && seekable)
        {
            int way = (int)sim::choose(3);
            long off = (long)sim::range(0, (uint32_t)m.cap + 6) - (way == 0 ? 3 : way == 1 ? (long)m.pos + 3 : (long)m.cap + 3);
            long target = off + (way == 0 ? 0 : way == 1 ? (long)m.pos : (long)m.cap);
            bool ok = target >= 0 && target <= (long)m.cap;
            if(!ok) SIM_FAULT("seek-out-of-range"); else SIM_PROBE("seek");
            sim::log("op seekp %ld way %d", off, way);
            if(sim::choose(2))
            {
                os.seekp(off, way == 0 ? estd::ios_base::beg : way == 1 ? estd::ios_base::cur : estd::ios_base::end);
                if(!ok) SIM_CHECK(os.fail(), "bad-seek-unreported", "seek to %ld in %zu reported nothing", target, m.cap);
                else if(was_good) SIM_CHECK(os.good(), "seek-failed", "seek to %ld in %zu failed", target, m.cap);
            }
            else
            {
                long p = (long)(std::streamoff)os.rdbuf()->pubseekoff(off, way == 0 ? estd::ios_base::beg : way == 1 ? estd::ios_base::cur : estd::ios_base::end, estd::ios_base::out);
                SIM_CHECK(p == (ok ? target : -1), "seek-result", "seek to %ld in %zu gave %ld", target, m.cap, p);
            }
            if(ok) m.pos = (size_t)target;
            compare(m, rig, "seek");
        }
        else if(k == 9 && rig.clear && sim::choose(2)) { rig.clear(); m.mem = ""; m.pos = 0; sim::log("clear text"); compare(m, rig, "clear"); }
        else
        {
            string t = piece(os, text, m.cap, m.nul);
            size_t stored = m.put(t);
            sim::log("stored %zu of %zu state %d", stored, t.size(), os.rdstate());
            compare(m, rig, "output");
            if(stored < t.size()) SIM_CHECK(!os.good(), "silent-loss", "%zu of %zu characters fit and the stream says good", stored, t.size());
            else if(was_good) SIM_CHECK(os.good(), "spurious-error", "everything fit, state %d", os.rdstate());
        }
        state_agrees(os);
        if(!was_good) SIM_CHECK(!os.good(), "error-forgotten", "the error state vanished without clear()");
        sim::state(sim::mix(m.cap, sim::mix(m.pos, os.rdstate())));
    }
}

template <class SB>
void via_buf(SB& sb, Model& m, const Rig& rig)
{
    txt::TextGen text;
    unsigned n = sim::range(1, 20);
    for(unsigned i = 0; i < n; ++i)
    {
        if(rig.fresh && sim::choose(12) == 11) { rig.fresh(); compare(m, rig, "new memory"); }
        if(sim::choose(2))
        {
            string t = text.wild(sim::choose(4) == 3 ? sim::choose(300) : sim::range(0, (uint32_t)m.cap + 3), m.nul);
            std::vector<char> v(t.begin(), t.end());
            auto r = sb.sputn(v.data(), (estd::streamsize)v.size());
            size_t k = m.put(t);
            sim::log("sputn %zu -> %d", t.size(), (int)r);
            SIM_CHECK((size_t)r == k, "wrong-count", "%zu of %zu fit, reported %d", k, t.size(), (int)r);
        }
        else
        {
            string t = text.wild(1, m.nul);
            auto r = sb.sputc(t[0]);
            size_t k = m.put(t);
            sim::log("sputc -> %d", (int)r);
            SIM_CHECK((r != -1) == (k == 1), "wrong-count", "%s, sputc gave %d", k ? "fits" : "full", (int)r);
        }
        compare(m, rig, "block output");
    }
}

typedef estd::detail::ospanbuf ospanbuf;
void s_span()
{
    static const uint32_t caps[] = { 0, 1, 2, 7, 16, 40, 300 };
    uint32_t cap = sim::pick(caps);
    std::unique_ptr<char[]> mem(new char[cap]);      // exact-size block: any overrun is seen
    memset(mem.get(), '#', cap);
    Model m; m.mem = string(cap, '#'); m.cap = cap;
    Rig r; r.content = [&] { return string(mem.get(), cap); };
    sim::log("span %u", cap);
    estd::span<char> sp(mem.get(), cap);
    ospanbuf* at = nullptr;
    r.content = [&] { return string(mem.get(), cap); };
    r.fresh = [&]
    {
        // output goes on in other memory; what it wrote so far must not be touched again
        SIM_PROBE("new-memory");
        uint32_t c2 = sim::pick(caps); sim::log("new memory of %u", c2);
        std::unique_ptr<char[]> other(new char[c2]); memset(other.get(), '#', c2);
        at->setbuf_experimental(other.get(), (estd::streamsize)c2);
        mem = std::move(other); cap = c2; m.mem = string(cap, '#'); m.cap = cap; m.pos = 0;
    };
    if(sim::choose(3)) { estd::detail::basic_ostream<ospanbuf> os(sp); at = os.rdbuf(); via_stream(os, m, r, true); }
    else { ospanbuf sb(sp); at = &sb; via_buf(sb, m, r); }
}

// a memory whose positions do not fit sixteen bits, nearly full at the start
void s_large()
{
    SIM_PROBE("more-than-sixteen-bits");
    uint32_t cap = sim::pick((uint32_t[]){ 32770, 65534, 65536, 65540, 70000 });
    std::unique_ptr<char[]> mem(new char[cap]); memset(mem.get(), '#', cap);
    Model m; m.mem = string(cap, '#'); m.cap = cap; Rig r; r.content = [&] { return string(mem.get(), cap); };
    estd::span<char> sp(mem.get(), cap); estd::detail::basic_ostream<ospanbuf> os(sp);
    size_t len = sim::choose(3) ? cap - sim::range(0, 12) : sim::pick((uint32_t[]){ 32760, 65530 }); if(sim::choose(4) == 3 || len > cap) len = cap + sim::choose(20);
    string t(len, 'a'); for(size_t i = 0; i < len; ++i) t[i] = char('a' + (i * 7 + i / 256) % 26);
    sim::log("span %u, first %zu", cap, len);
    if(sim::choose(2)) { os.write(t.data(), (estd::streamsize)len); SIM_CHECK(os.good() == (len <= cap), "wrong-state", "%zu characters into %u left state %d", len, cap, os.rdstate()); }
    else { auto n = os.rdbuf()->sputn(t.data(), (estd::streamsize)len); SIM_CHECK((size_t)n == (len < cap ? len : cap), "wrong-count", "%zu characters into %u reported %ld", len, cap, (long)n); }
    m.put(t); os.clear();
    via_stream(os, m, r, true);
}
template <unsigned N, bool Z> void str1()
{
    Model m; m.cap = N - (Z ? 1 : 0); m.grows = true; m.nul = !Z;
    sim::log("layer1 string %u %s", N, Z ? "terminated" : "counted");
    if(sim::choose(3))
    {
        typedef estd::layer1::basic_ostringstream<char, N, Z> OS;
        std::unique_ptr<OS> os(new OS);
        Rig r; r.content = [&] { auto& s = os->rdbuf()->str(); return string(s.data(), s.size()); }; r.clear = [&] { os->rdbuf()->clear(); };
        via_stream(*os, m, r, false);
    }
    else
    {
        typedef estd::layer1::basic_out_stringbuf<char, N, Z> SB;
        std::unique_ptr<SB> sb(new SB);
        Rig r; r.content = [&] { auto& s = sb->str(); return string(s.data(), s.size()); };
        via_buf(*sb, m, r);
    }
}
void s_str1()
{
    switch(sim::choose(8))
    {
        case 0: str1<2, true>(); break; case 1: str1<1, false>(); break; case 2: str1<8, true>(); break; case 3: str1<8, false>(); break;
        case 4: str1<33, true>(); break; case 5: str1<33, false>(); break; case 6: str1<255, true>(); break; default: str1<300, false>(); break;
    }
}
template <bool Z> void str3()
{
    static const uint32_t caps[] = { 1, 2, 9, 32, 260 };
    uint32_t n = sim::pick(caps);
    std::unique_ptr<char[]> mem(new char[n]);
    memset(mem.get(), 0, n);
    Model m; m.cap = n - (Z ? 1 : 0); m.grows = true; m.nul = !Z;
    sim::log("layer3 string %u %s", n, Z ? "terminated" : "counted");
    typedef estd::layer3::basic_string<char, Z> S;
    S s(mem.get(), (uint16_t)0, (uint16_t)n);
    Rig r; r.content = [&] { return string(s.data(), s.size()); };
    typedef estd::detail::streambuf<estd::internal::impl::out_stringbuf<S&>> SB;
    if(sim::choose(3)) { estd::detail::basic_ostream<SB> os(s); via_stream(os, m, r, false); }
    else { SB sb(s); via_buf(sb, m, r); }
}
void s_str3() { if(sim::choose(2)) str3<true>(); else str3<false>(); }

// ---- characters wider than a byte: the same promises, counted in characters -----------------------------------
using wide::widen; using wide::narrow;
template <class T, class OS> void wide_stream(OS& os, Model& m, const Rig& rig, bool seekable)
{
    txt::TextGen text;
    unsigned n = sim::range(1, 14);
    for(unsigned i = 0; i < n; ++i)
    {
        if(!os.good()) os.clear();
        unsigned k = sim::choose(seekable ? 5 : 4);
        if(k == 4)
        {
            long target = (long)sim::choose((uint32_t)m.cap + 3);
            int way = (int)sim::choose(3);
            long off = target - (way == 0 ? 0 : way == 1 ? (long)m.pos : (long)m.cap);
            bool ok = target <= (long)m.cap;
            if(!ok) SIM_FAULT("seek-out-of-range");
            sim::log("seekp %ld way %d", off, way);
            os.seekp(off, way == 0 ? estd::ios_base::beg : way == 1 ? estd::ios_base::cur : estd::ios_base::end);
            SIM_CHECK(os.good() == ok, "seek-result", "seek to %ld of %zu, state %d", target, m.cap, (int)os.rdstate());
            if(ok) m.pos = (size_t)target;
            compare(m, rig, "seek");
            continue;
        }
        string t = text.wild(k == 0 ? 1 : sim::range(0, (uint32_t)m.cap + 3), k < 2);
        std::basic_string<T> w = widen<T>(t);
        switch(k)
        {
            case 0: os.put(w[0]); break;
            case 1: os.write(w.data(), (estd::streamsize)w.size()); break;
            default: os << w.c_str(); break;
        }
        size_t stored = m.put(t);
        sim::log("wide op %u: %zu of %zu state %d", k, stored, t.size(), (int)os.rdstate());
        compare(m, rig, "output");
        SIM_CHECK(os.good() == (stored == t.size()), stored == t.size() ? "spurious-error" : "silent-loss", "%zu of %zu characters fit, state %d", stored, t.size(), (int)os.rdstate());
        if(!os.fail()) { long p = (long)(std::streamoff)os.tellp(); SIM_CHECK(p == (long)m.pos, "tellp-wrong", "tellp %ld, expected %ld", p, (long)m.pos); }
    }
}
template <class T> void wide_span()
{
    static const uint32_t caps[] = { 0, 1, 2, 7, 16, 40, 300 };
    uint32_t cap = sim::pick(caps);
    sim::log("span %u of %zu byte characters", cap, sizeof(T));
    std::unique_ptr<T[]> mem(new T[cap]);
    for(uint32_t i = 0; i < cap; ++i) mem[i] = widen<T>('#');
    Model m; m.mem = string(cap, '#'); m.cap = cap;
    Rig r; r.content = [&] { return narrow(mem.get(), cap); };
    estd::span<T> sp(mem.get(), cap);
    typedef estd::internal::streambuf<estd::internal::impl::out_span_streambuf<T>> SB;
    if(sim::choose(2)) { estd::detail::basic_ostream<SB> os(sp); wide_stream<T>(os, m, r, true); }
    else { SB sb(sp); wide::Out<T, SB> n{sb}; via_buf(n, m, r); }
}
template <class T, unsigned N> void wide_str()
{
    sim::log("layer1 string %u of %zu byte characters", N, sizeof(T));
    Model m; m.cap = N; m.grows = true;
    if(sim::choose(2))
    {
        typedef estd::layer1::basic_ostringstream<T, N, false> OS;
        std::unique_ptr<OS> os(new OS);
        Rig r; r.content = [&] { auto& s = os->rdbuf()->str(); return narrow(s.data(), s.size()); };
        wide_stream<T>(*os, m, r, false);
    }
    else
    {
        typedef estd::layer1::basic_out_stringbuf<T, N, false> SB;
        std::unique_ptr<SB> sb(new SB);
        Rig r; r.content = [&] { auto& s = sb->str(); return narrow(s.data(), s.size()); };
        wide::Out<T, SB> n{*sb}; via_buf(n, m, r);
    }
}
void s_wide()
{
    SIM_PROBE("wide-characters");
    switch(sim::choose(5))
    {
        case 0: wide_span<char16_t>(); break; case 1: wide_span<char32_t>(); break; case 2: wide_span<wchar_t>(); break;
        case 3: switch(sim::choose(3)) { case 0: wide_str<char16_t, 1>(); break; case 1: wide_str<char16_t, 8>(); break; default: wide_str<char16_t, 255>(); } break;
        default: wide_str<char32_t, 33>(); break;
    }
}

const sim::Scenario scen[] = { { "span", s_span, 120 }, { "inline-string", s_str1, 90 }, { "caller-owned-string", s_str3, 60 }, { "wide-characters", s_wide, 60 }, { "large-span", s_large, 1 } };
}
const sim::Harness sim::harness = {
    "C03",
    "a run is a random sequence of 1-20 outputs (text, characters, numbers with width, long text, repositioning, clears) into a memory of 0-300 bytes; non-trivial when the memory is exhausted or a seek is out of range; distinct by hash of the event log",
    "out_span_streambuf, out_stringbuf over layer1/layer3 strings (terminated and counted), detail::streambuf, basic_ostream and its insertion operators, dynamic_array growth",
    "none (exhaustion of the memory is the fault)",
    "widths up to 15; numbers shown in hex or octal are non-negative; no NUL characters in null-terminated strings|a fixed string has no repositioning for output; only spans are repositioned",
    100000, 10000000, scen, sizeof scen / sizeof *scen, nullptr,
};
