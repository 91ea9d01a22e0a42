// EXTRA: $R/src/estd/ext/willemt/bipbuffer/bipbuffer.c
#include <estd/ostream.h>
#include <estd/istream.h>
#include <estd/string.h>
#include <estd/sstream.h>
#include <vector>
#include "textmodel.h"
#include "wide.h"
using std::string;

// ---- the drain: a device that stalls, takes part of what it is offered, refuses and recovers ------------------
struct Drain
{
    string data;
    int mode = 0;          // 0 healthy, 1 stalled, 2 partial, 3 random
    size_t window = 0;     // credit left when mode 2 (flow-control window)
    uint64_t offered = 0, stalls = 0;
    size_t take(const char* s, size_t n)
    {
        sim::step();
        offered += n;
        size_t k = n;
        switch(mode)
        {
            case 1: k = 0; if(n) SIM_FAULT("drain-stalled"); break;
            case 2: k = n < window ? n : window; window -= k; if(k < n) SIM_FAULT("drain-window-exhausted"); break;
            case 3: if(n && sim::chance(1, 2)) { k = sim::choose((uint32_t)n); if(k) SIM_FAULT("drain-partial"); else SIM_FAULT("drain-refused"); } break;
        }
        data.append(s, k);
        sim::log("drain takes %zu/%zu", k, n);
        return k;
    }
};
static Drain* drain;
struct drain_buf : estd::internal::impl::streambuf_base<std::char_traits<char>>
{
    typedef char char_type;
    estd::streamsize xsputn(const char* s, estd::streamsize n) { return (estd::streamsize)drain->take(s, (size_t)n); }
    int sputc(char c) { return drain->take(&c, 1) ? std::char_traits<char>::to_int_type(c) : -1; }
    int sync() { return drain->mode == 1 ? -1 : 0; }
};
typedef estd::internal::streambuf<drain_buf> drain_streambuf;

// Drives an adapter; `cap` is its buffer size.
template <class SB>
static void drive(SB& sb, unsigned cap)
{
    txt::TextGen text;
    string accepted;
    unsigned n = sim::range(1, 24);
    const bool faults = sim::choose(4) != 0;
    bool was_stalled = false;
    for(unsigned i = 0; i < n; ++i)
    {
        if(faults && sim::chance(1, 3)) { drain->mode = (int)sim::choose(4); if(drain->mode == 2) drain->window = sim::choose(2 * cap + 2); sim::log("drain mode %d window %zu", drain->mode, drain->window); }
        if(drain->mode) was_stalled = true;
        size_t before = accepted.size(), arrived = drain->data.size();
        switch(sim::choose(5))
        {
            case 0: case 1:
            {
                string t = text.wild(sim::range(0, 3 * cap));
                // guard the source too: exact-size heap copy
                std::vector<char> v(t.begin(), t.end());
                auto r = sb.sputn(v.data(), (estd::streamsize)v.size());
                sim::log("sputn %zu -> %d", t.size(), (int)r);
                SIM_CHECK(r >= 0 && (size_t)r <= t.size(), "impossible-count", "wrote %zu, reported %d", t.size(), (int)r);
                accepted += t.substr(0, (size_t)r);
                // with room for everything, or a healthy drain and a text that fits, nothing may be refused
                size_t held = before - arrived;
                if(held + t.size() <= cap && sizeof(SB) && false) {}
                if(held == 0 && t.size() <= cap) SIM_CHECK((size_t)r == t.size(), "refused-with-room", "buffer of %u empty, %zu offered, %d accepted", cap, t.size(), (int)r);
                break;
            }
            case 2: case 3:
            {
                string t = text.wild(1);
                auto r = sb.sputc(t[0]);
                sim::log("sputc -> %s", r == -1 ? "eof" : "ok");
                if(r != -1) accepted += t;
                size_t held = before - arrived;
                if(held == 0) SIM_CHECK(r != -1, "refused-with-room", "buffer empty and one character refused");
                break;
            }
            default:
            {
                int r = sb.pubsync();
                sim::log("sync -> %d", r);
                bool all = drain->data.size() == accepted.size();
                if(r == 0) SIM_CHECK(all, "sync-lied", "flush succeeded with %zu characters still held", accepted.size() - drain->data.size());
                if(all) SIM_CHECK(r == 0, "sync-failed-empty", "flush reported failure with nothing left to deliver");
                break;
            }
        }
        SIM_CHECK(drain->data.size() <= accepted.size() && accepted.compare(0, drain->data.size(), drain->data) == 0, "not-fifo",
            "drain has [%s], accepted [%s]", txt::show(drain->data).c_str(), txt::show(accepted).c_str());
        SIM_CHECK(accepted.size() - drain->data.size() <= cap, "overcommitted", "%zu characters held in a buffer of %u", accepted.size() - drain->data.size(), cap);
        sim::state(sim::mix(cap, sim::mix(accepted.size() - drain->data.size(), drain->mode)));
    }
    // drain recovers: everything accepted arrives within a bounded number of flushes (partial drains need several)
    if(was_stalled) SIM_PROBE("recovered-after-stall");
    drain->mode = 0;
    int r = 0;
    for(int k = 0; k < 3; ++k) { r = sb.pubsync(); if(r == 0) break; }
    sim::log("final sync -> %d", r);
    SIM_CHECK(r == 0 && drain->data == accepted, "lost-in-buffer", "healthy drain; flush %d; drain has [%s], accepted [%s]", r, txt::show(drain->data).c_str(), txt::show(accepted).c_str());
    SIM_CHECK(sb.pubsync() == 0, "sync-failed-empty", "flushing an empty adapter failed");
}

// ostream on top: characters the stream says it wrote are never lost
template <class SB, class... A>
static void via_ostream(unsigned cap, A&&... a)
{
    estd::detail::basic_ostream<SB> os(std::forward<A>(a)...);
    txt::TextGen text;
    string written; bool lossy = false;
    unsigned n = sim::range(1, 16);
    for(unsigned i = 0; i < n; ++i)
    {
        if(sim::chance(1, 3)) { drain->mode = (int)sim::choose(4); if(drain->mode == 2) drain->window = sim::choose(2 * cap + 2); sim::log("drain mode %d", drain->mode); }
        if(!os.good()) { os.clear(); sim::log("clear"); }
        string t = text.wild(sim::range(0, cap));
        switch(sim::choose(4))
        {
            case 0: os.write(t.data(), (estd::streamsize)t.size()); break;
            case 1: for(char& c : t) if(!c) c = 1; os << t.c_str(); break;
            case 2: t = t.substr(0, 1); if(t.size()) os.put(t[0]); break;
            default: t = ""; os.flush(); break;
        }
        sim::log("op %zu state %d", t.size(), os.rdstate());
        written += t;
        if(os.good()) ; else lossy = true;
        SIM_CHECK(txt::subsequence(drain->data, written), "invented-or-duplicated", "drain has [%s], written [%s]", txt::show(drain->data).c_str(), txt::show(written).c_str());
        if(!lossy) SIM_CHECK(written.compare(0, drain->data.size(), drain->data) == 0, "not-fifo", "drain has [%s], written [%s]", txt::show(drain->data).c_str(), txt::show(written).c_str());
    }
    drain->mode = 0; os.clear(); os.flush();
    SIM_CHECK(os.good(), "sync-failed-empty", "flush into a healthy drain failed");
    if(!lossy) SIM_CHECK(drain->data == written, "lost-in-buffer", "stream never failed; drain has [%s], written [%s]", txt::show(drain->data).c_str(), txt::show(written).c_str());
}

static Drain the_drain;
static void setup() { the_drain = Drain(); drain = &the_drain; }

template <unsigned N> static void str_n()
{
    setup();
    estd::internal::out_buffered_stringbuf<drain_streambuf, N> sb;
    sim::log("stringbuf %u", N); drive(sb, N);
}
template <unsigned N> static void bip_n()
{
    setup();
    estd::internal::out_bipbuf_streambuf<drain_streambuf, N> sb;
    sim::log("bipbuf %u", N); drive(sb, N);
}
static void s_str() { switch(sim::choose(4)) { case 0: str_n<1>(); break; case 1: str_n<3>(); break; case 2: str_n<8>(); break; default: if(sim::choose(6) != 1) str_n<64>(); else switch(sim::choose(4)) { case 0: str_n<255>(); break; case 1: str_n<256>(); break; case 2: str_n<300>(); break; default: str_n<1000>(); } } }
static void s_bip() { switch(sim::choose(5)) { case 0: bip_n<1>(); break; case 1: bip_n<3>(); break; case 2: bip_n<8>(); break; case 3: bip_n<13>(); break; default: if(sim::choose(6) != 1) bip_n<64>(); else switch(sim::choose(4)) { case 0: bip_n<255>(); break; case 1: bip_n<256>(); break; case 2: bip_n<300>(); break; default: bip_n<1000>(); } } }
static void s_bip3()
{
    setup();
    static const unsigned caps[] = { 1, 4, 9, 24 };
    unsigned cap = sim::pick(caps);
    std::vector<unsigned long> mem((sizeof(bipbuf_t) + cap) / sizeof(long) + 1);
    // exact-size heap block so that any overrun is seen
    bipbuf_t* b = (bipbuf_t*)malloc(sizeof(bipbuf_t) + cap);
    bipbuf_init(b, cap);
    drain_streambuf d;
    {
        estd::internal::out_bipbuf_streambuf<drain_streambuf&, 0> sb(b, d);
        sim::log("bipbuf layer3 %u", cap); drive(sb, cap);
    }
    free(b);
}
static void s_os_str() { setup(); if(sim::choose(2)) via_ostream<estd::internal::out_buffered_stringbuf<drain_streambuf, 8>>(8); else via_ostream<estd::internal::out_buffered_stringbuf<drain_streambuf, 33>>(33); }
static void s_os_bip() { setup(); if(sim::choose(2)) via_ostream<estd::internal::out_bipbuf_streambuf<drain_streambuf, 8>>(8); else via_ostream<estd::internal::out_bipbuf_streambuf<drain_streambuf, 33>>(33); }

// a ring of characters wider than a byte, a drain that takes them; the byte count of a caller's ring need not be a multiple
template <class T> struct wide_drain_buf : estd::internal::impl::streambuf_base<std::char_traits<T>>
{
    typedef T char_type;
    estd::streamsize xsputn(const T* s, estd::streamsize n)
    {
        SIM_CHECK(n >= 0, "impossible-count", "drain offered %d characters", (int)n);
        string t = wide::narrow(s, (size_t)n);
        return (estd::streamsize)drain->take(t.data(), t.size());
    }
    typename std::char_traits<T>::int_type sputc(T c) { return xsputn(&c, 1) ? std::char_traits<T>::to_int_type(c) : std::char_traits<T>::eof(); }
    int sync() { return drain->mode == 1 ? -1 : 0; }
};
template <class T, unsigned N> static void wide_n()
{
    setup();
    typedef estd::internal::streambuf<wide_drain_buf<T>> D;
    if(sim::choose(2))
    {
        typedef estd::internal::out_bipbuf_streambuf<D, N> SB;
        std::unique_ptr<SB> sb(new SB);
        sim::log("bipbuf of %u characters of %zu bytes", N, sizeof(T));
        wide::Out<T, SB> o{*sb}; drive(o, N);
    }
    else
    {
        unsigned size = N * sizeof(T);
        bipbuf_t* b = (bipbuf_t*)malloc(sizeof(bipbuf_t) + size);
        bipbuf_init(b, size);
        D d;
        {
            typedef estd::internal::out_bipbuf_streambuf<D&, 0> SB;
            SB sb(b, d);
            sim::log("bipbuf layer3 of %u characters of %zu bytes", N, sizeof(T));
            wide::Out<T, SB> o{sb}; drive(o, N);
        }
        free(b);
    }
}
static void s_wide()
{
    SIM_PROBE("wide-characters");
    switch(sim::choose(5)) { case 0: wide_n<char16_t, 1>(); break; case 1: wide_n<char16_t, 8>(); break; case 2: wide_n<char16_t, 33>(); break; case 3: wide_n<char32_t, 3>(); break; default: wide_n<wchar_t, 13>(); }
}

static const sim::Scenario scen[] = {
    { "string-buffer", s_str, 3 }, { "ring-buffer", s_bip, 3 }, { "caller-owned-ring", s_bip3, 2 }, { "stream-over-string-buffer", s_os_str, 1 }, { "stream-over-ring", s_os_bip, 1 }, { "wide-characters", s_wide, 2 },
};
const sim::Harness sim::harness = {
    "C02",
    "a run is a random sequence of 1-24 block writes, single characters and flushes against one adapter (of 1-64 characters, at times 255-1000) while the drain changes between healthy, stalled, window-limited and randomly partial; non-trivial when the drain refused something; distinct by hash of the event log",
    "out_buffered_stringbuf, out_bipbuf_streambuf (inline and caller-owned ring), willemt bipbuffer, detail::streambuf sputn/overflow, basic_ostream",
    "the drain behind the adapter (a caller-supplied streambuf)",
    "a block longer than the buffer may be accepted in part, as reported",
    300000, 2500000, scen, sizeof scen / sizeof *scen, nullptr,
};
