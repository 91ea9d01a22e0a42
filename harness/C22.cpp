// C22: values written to a stream come out of a stream at the far end of a slow, bounded, chopping link as the same values.
// Writer, relay and reader are fibers; a seeded scheduler decides who runs and when the links move what.
// EXTRA: $R/src/estd/ext/willemt/bipbuffer/bipbuffer.c
// EXTRA: $R/src/estd/port/posix/streambuf.cpp
// BUILD: -DFEATURE_POSIX_IOS -I$V/fake/arduino
#define _GNU_SOURCE 1
#include <sim.h>
#include <estd/istream.h>
#include <estd/ostream.h>
#include <estd/string.h>
#include <estd/string_view.h>
#include <estd/span.h>
#include <estd/internal/streambuf.h>
#include <estd/port/arduino/streambuf.h>
#include <stdio.h>
#include <limits>
#include <memory>
#include <vector>
#include "textmodel.h"
#include "streamstate.h"
using std::string;

namespace {

// ---- fibers: everybody runs until it asks the scheduler for a turn ---------------------------------------------------
struct Actor { sim::Fiber* f = nullptr; const char* name; bool waiting = false; };
std::vector<Actor> actors;
void turn() { sim::step("no-progress"); sim::fiber_switch_main(); }
void maybe_turn() { if(sim::choose(3) == 1) turn(); else sim::step("no-progress"); }

// ---- a link: bytes accepted at one end become visible at the other when it moves them ---------------------------------
struct Link
{
    string data; size_t arrived = 0, read = 0, cap = 8; bool wait = true, closed = false, faults = false; unsigned stall = 0; const char* name = "";
    size_t room() const { return cap - (data.size() - read); }
    bool dry() const { return arrived == read; }
    bool ended() const { return closed && read == data.size(); }
    void move()
    {
        if(arrived == data.size()) return;
        if(stall) { --stall; return; }
        size_t n = data.size() - arrived, k = n > 1 && sim::choose(2) ? sim::range(1, (uint32_t)n) : n;
        arrived += k; sim::advance_time(1000);
        sim::log("%s moves %zu of %zu", name, k, n);
        if(faults && sim::chance(1, 4)) { stall = sim::range(1, 9); SIM_FAULT("link-stalled"); }
    }
    // an end that waits takes everything, piece by piece; one that does not takes what there is room for
    size_t take(const char* s, size_t n)
    {
        size_t k = 0;
        for(;;)
        {
            size_t p = n - k < room() ? n - k : room();
            if(p > 1 && faults && sim::chance(1, 4)) { p = sim::range(1, (uint32_t)p); SIM_FAULT("link-took-part"); }
            data.append(s + k, p); k += p;
            if(k == n || !wait) break;
            SIM_PROBE("writer-waited"); turn();
        }
        if(k < n) SIM_FAULT("link-full");
        return k;
    }
    void polled() { if(dry()) { SIM_PROBE("reader-waited"); turn(); } }
    size_t give(char* s, size_t n)
    {
        size_t k = arrived - read < n ? arrived - read : n;
        if(k > 1 && faults && sim::chance(1, 4)) { k = sim::range(1, (uint32_t)k); SIM_FAULT("short-read"); }
        memcpy(s, data.data() + read, k); read += k; return k;
    }
};
Link link[2];

// ---- the ends, as the library wants them --------------------------------------------------------------------------------
template <int I> struct out_end : estd::internal::impl::streambuf_base<std::char_traits<char>>
{
    typedef char char_type;
    estd::streamsize xsputn(const char* s, estd::streamsize n) { return (estd::streamsize)link[I].take(s, (size_t)n); }
    int sputc(char c) { return link[I].take(&c, 1) ? std::char_traits<char>::to_int_type(c) : -1; }
    int sync() { return 0; }
    estd::streamsize xsgetn(char*, estd::streamsize) { return 0; }
};
template <int I> struct in_end : estd::internal::impl::streambuf_base<estd::char_traits<char>>
{
    typedef estd::internal::impl::streambuf_base<estd::char_traits<char>> base;
    using base::traits_type; using base::char_type; using base::int_type;
    estd::streamsize xin_avail() const { return (estd::streamsize)(link[I].arrived - link[I].read); }
    estd::streamsize showmanyc() const { link[I].polled(); sim::step("no-progress"); return !link[I].dry() ? xin_avail() : link[I].ended() ? -1 : 0; }
    char xsgetc() const { return link[I].data[link[I].read]; }
    void gbump(int n) { SIM_CHECK(n >= 0 && link[I].read + (size_t)n <= link[I].arrived, "read-beyond-arrived", "advanced %d", n); link[I].read += (size_t)n; }
    estd::streamsize xsgetn(char* s, estd::streamsize n) { return (estd::streamsize)link[I].give(s, (size_t)n); }
    int_type underflow() { return traits_type::eof(); }
    int_type uflow() { return traits_type::eof(); }
};
template <int I> struct port : Stream
{
    size_t write(uint8_t c) override { char ch = (char)c; return link[I].take(&ch, 1); }
    size_t write(const uint8_t* s, size_t n) override { return link[I].take((const char*)s, n); }
    int available() override { link[I].polled(); sim::step("no-progress"); return (int)(link[I].arrived - link[I].read); }
    int read() override { return link[I].dry() ? -1 : (uint8_t)link[I].data[link[I].read++]; }
    int peek() override { return link[I].dry() ? -1 : (uint8_t)link[I].data[link[I].read]; }
};
template <int I> ssize_t cookie_write(void*, const char* s, size_t n) { return (ssize_t)link[I].take(s, n); }

// ---- what is sent -----------------------------------------------------------------------------------------------------
enum Kind { SHORT, USHORT, INT, UINT, LONG, ULONG, LLONG, ULLONG, WORD, LINE, CHAR, BLOCK };
const char* const kind_name[] = { "short", "unsigned short", "int", "unsigned", "long", "unsigned long", "long long", "unsigned long long", "word", "line", "character", "block" };
struct Rec { Kind kind; long long v = 0; unsigned base = 10; string text; };
txt::TextGen text;

template <class T> long long some(unsigned base) { T v = txt::some_number<T>(); if(base != 10 && v < T(0)) v = T(-(v + 1)); return (long long)v; }
Rec some_record()
{
    static const unsigned bases[] = { 10, 16, 8 };
    Rec r; r.kind = (Kind)sim::choose(12); r.base = sim::pick(bases);
    switch(r.kind)
    {
        case SHORT: r.v = some<short>(r.base); break;
        case USHORT: r.v = some<unsigned short>(r.base); break;
        case INT: r.v = some<int>(r.base); break;
        case UINT: r.v = some<unsigned>(r.base); break;
        case LONG: r.v = some<long>(r.base); break;
        case ULONG: r.v = some<unsigned long>(r.base); break;
        case LLONG: r.v = some<long long>(r.base); break;
        case ULLONG: r.v = (long long)some<unsigned long long>(r.base); break;
        case WORD: r.text = text.wild(sim::range(1, 20), false); for(char& c : r.text) if(c == ' ' || (c >= 9 && c <= 13)) c = '_'; break;
        case LINE: r.text = text.wild(sim::range(0, 30)); for(char& c : r.text) { if(sim::choose(6) == 1) c = ' '; if(c == '\n') c = '\r'; } break;
        case CHAR: r.text = text.wild(1); break;
        case BLOCK: r.text = text.wild(sim::range(1, 30)); break;
    }
    return r;
}
string show(const Rec& r) { return r.kind < WORD ? std::to_string(r.v) + (r.base == 16 ? " hex" : r.base == 8 ? " oct" : "") : "[" + txt::show(r.text) + "]"; }

const unsigned adapter = 64;        // characters a buffered adapter holds
// `lossless`: the stream waits until everything is taken. Otherwise an adapter holds back what the link did not take.
template <class OS> struct Writer
{
    OS& os; bool lossless; size_t held = 0;
    void settle()
    {
        for(;;) { os.clear(); os.flush(); state_agrees(os); if(os.good()) break; SIM_PROBE("flush-retried"); turn(); }
        held = 0;
    }
    void ok(const char* what) { SIM_CHECK(os.good(), "write-refused", "%s left state %d with %zu characters held of %u", what, (int)os.rdstate(), held, adapter); }
    template <class T> void number(const Rec& r)
    {
        typedef estd::ios_base B;
        if(sim::choose(2)) os.setf(r.base == 16 ? B::hex : r.base == 8 ? B::oct : B::dec, B::basefield); else if(r.base == 16) os << estd::hex; else if(r.base == 8) os << estd::oct; else os << estd::dec;
        if(sim::choose(2)) os.setf(B::uppercase); else os.unsetf(B::uppercase);
        os.setf(B::right, B::adjustfield);
        if(sim::choose(3) == 1) { os.width(sim::range(1, 15)); os.fill((T)r.v < T(0) || sim::choose(2) ? ' ' : '0'); }
        os << (T)r.v;
    }
    void send(const Rec& r)
    {
        maybe_turn();
        if(!lossless && held + 48 > adapter) settle();
        sim::log("send %s %s", kind_name[r.kind], show(r).c_str());
        switch(r.kind)
        {
            case SHORT: number<short>(r); break;
            case USHORT: number<unsigned short>(r); break;
            case INT: number<int>(r); break;
            case UINT: number<unsigned>(r); break;
            case LONG: number<long>(r); break;
            case ULONG: number<unsigned long>(r); break;
            case LLONG: number<long long>(r); break;
            case ULLONG: number<unsigned long long>(r); break;
            case WORD: switch(sim::choose(3)) { case 0: os << r.text.c_str(); break; case 1: { estd::layer1::string<32> s; s += r.text.c_str(); os << s; break; } default: { estd::string_view v(r.text.data(), r.text.size()); os << v; } } break;
            case LINE: case BLOCK: os.write(r.text.data(), (estd::streamsize)r.text.size()); break;
            case CHAR: if(sim::choose(2)) os.put(r.text[0]); else { os.width(0); os << r.text[0]; } break;
        }
        ok(kind_name[r.kind]);
        held += 48;          // more than any record takes
        if(r.kind <= WORD)
        {
            char sep = " \t\n"[sim::choose(3)];
            if(sim::choose(2)) os.put(sep); else { os.width(0); os << sep; }
            ok("separator");
        }
        else if(r.kind == LINE)
        {
            if(sim::choose(2)) { os << estd::endl; if(!lossless) { if(!os.good()) SIM_PROBE("endl-kept-back"); os.clear(); } } else os.put('\n');
            ok("end of line");
        }
        if(sim::choose(4) == 1) { if(lossless) { os.flush(); ok("flush"); } else settle(); }
    }
    void finish() { if(lossless) { os.flush(); ok("flush"); } else settle(); }
};
template <class IS> struct Reader
{
    IS& in;
    void ok(const char* what, const Rec& want) { state_agrees(in); SIM_CHECK(in.good(), "read-failed", "%s, sent as %s, left state %d", what, show(want).c_str(), (int)in.rdstate()); }
    char one(const Rec& want)
    {
        int c = in.peek();                           // waits
        ok("peek", want);
        SIM_CHECK(c != -1, "false-end", "end of input where %s was sent", show(want).c_str());
        int g = in.get(); ok("get", want);
        SIM_CHECK(g == c, "peek-differs", "peek gave %d, get %d", c, g);
        return (char)c;
    }
    template <class T> Rec number(const Rec& want)
    {
        typedef estd::ios_base B; Rec r = want;
        in.setf(want.base == 16 ? B::hex : want.base == 8 ? B::oct : B::dec, B::basefield);
        T v = (T)55; in >> v; r.v = (long long)v; return r;
    }
    // reads one record of the agreed kind and says what came
    Rec take(const Rec& want)
    {
        maybe_turn();
        Rec r = want; r.text = "";
        switch(want.kind)
        {
            case SHORT: r = number<short>(want); break;
            case USHORT: r = number<unsigned short>(want); break;
            case INT: r = number<int>(want); break;
            case UINT: r = number<unsigned>(want); break;
            case LONG: r = number<long>(want); break;
            case ULONG: r = number<unsigned long>(want); break;
            case LLONG: r = number<long long>(want); break;
            case ULLONG: r = number<unsigned long long>(want); break;
            case WORD: { estd::layer1::string<32> s; in >> s; r.text = string(s.data(), s.size()); break; }
            case LINE: { char b[40]; memset(b, '#', sizeof b); in.getline(b, sizeof b); auto n = in.gcount(); SIM_CHECK(n >= 1 && n <= 31, "wrong-value", "line of %zu characters counted as %d", want.text.size(), (int)n); r.text = string(b, (size_t)n - 1); break; }
            case CHAR: r.text = string(1, one(want)); break;
            case BLOCK:
                while(r.text.size() < want.text.size())
                {
                    std::unique_ptr<char[]> b(new char[want.text.size()]); size_t n = want.text.size() - r.text.size();
                    switch(sim::choose(3))
                    {
                        case 0: r.text += one(want); continue;
                        case 1: in.read(b.get(), (estd::streamsize)n); SIM_CHECK(in.eof() == ((size_t)in.gcount() < n), "wrong-state", "read got %d of %zu, state %d", (int)in.gcount(), n, (int)in.rdstate()); in.clear(); break;
                        default: in.readsome(b.get(), (estd::streamsize)n); break;
                    }
                    size_t k = (size_t)in.gcount(); SIM_CHECK(k <= n, "wrong-value", "%zu characters asked for, %zu delivered", n, k);
                    r.text.append(b.get(), k);
                    if(k < n) turn();
                }
                break;
        }
        ok(kind_name[want.kind], want);
        if(want.kind <= WORD) { char c = one(want); SIM_CHECK(c == ' ' || c == '\t' || c == '\n', "separator", "character %d follows %s", c, show(want).c_str()); }
        sim::log("took %s %s", kind_name[r.kind], show(r).c_str());
        return r;
    }
    void end(bool can_end)
    {
        if(!can_end) return;
        int c = in.peek(); state_agrees(in);
        SIM_CHECK(c == -1, "invented", "after the last record peek gave %d, state %d", c, (int)in.rdstate());
        c = in.get(); state_agrees(in);
        SIM_CHECK(c == -1 && in.eof(), "end-unreported", "after the last record get gave %d, state %d", c, (int)in.rdstate());
    }
};

std::vector<Rec> sent; size_t relayed, taken;
void same(const Rec& got, const Rec& want, const char* who)
{
    SIM_CHECK(got.kind < WORD ? got.v == want.v : got.text == want.text, "wrong-value", "%s: %s sent as %s came out as %s", who, kind_name[want.kind], show(want).c_str(), show(got).c_str());
}
template <class SB> using blocking = estd::internal::flagged_istream<SB, estd::internal::istream_flags::blocking>;
template <int I> using obuf = estd::internal::streambuf<out_end<I>>;
template <int I> using ibuf = estd::internal::streambuf<in_end<I>>;

// runs `f(os, lossless)` with a stream writing into link I, of a kind chosen for this run
template <int I, class F> void with_out(unsigned kind, F f)
{
    switch(kind)
    {
        case 0: { estd::detail::basic_ostream<obuf<I>> os; f(os, true); break; }
        case 1: { link[I].wait = false; estd::detail::basic_ostream<estd::internal::out_buffered_stringbuf<obuf<I>, adapter>> os; f(os, false); break; }
        case 2: { link[I].wait = false; estd::detail::basic_ostream<estd::internal::out_bipbuf_streambuf<obuf<I>, adapter>> os; f(os, false); break; }
        case 3: { obuf<I> sb; estd::internal::basic_streambuf_wrapped<obuf<I>&> w(sb); estd::ostream os(&w); f(os, true); break; }
        case 4: { port<I> p; estd::detail::basic_ostream<estd::arduino_ostreambuf> os(p); f(os, true); break; }
        default:
        {
            cookie_io_functions_t io = { nullptr, cookie_write<I>, nullptr, nullptr };
            FILE* fp = fopencookie(nullptr, "w", io); char b[24]; bool full = sim::choose(2);
            setvbuf(fp, full ? b : nullptr, full ? _IOFBF : _IONBF, sizeof b);
            { estd::posix_ostream<char> os(*fp); f(os, true); }
            fclose(fp);
        }
    }
}
template <int I, class F> void with_in(unsigned kind, F f)
{
    switch(kind)
    {
        case 0: { blocking<ibuf<I>> in; f(in, true); break; }
        case 1: { blocking<estd::internal::in_bipbuf_streambuf<ibuf<I>, 3>> in; f(in, true); break; }
        case 2: { blocking<estd::internal::in_bipbuf_streambuf<ibuf<I>, 24>> in; f(in, true); break; }
        default: { port<I> p; blocking<estd::arduino_streambuf> in(p); f(in, false); }
    }
}
template <int I> void writer(unsigned kind)
{
    with_out<I>(kind, [](auto& os, bool lossless) { typedef std::remove_reference_t<decltype(os)> OS; Writer<OS> w{ os, lossless }; for(const Rec& r : sent) w.send(r); w.finish(); });
    link[I].closed = true;
}
template <int I> void reader(unsigned kind)
{
    with_in<I>(kind, [](auto& in, bool can_end) { typedef std::remove_reference_t<decltype(in)> IS; Reader<IS> r{ in }; for(const Rec& want : sent) { same(r.take(want), want, "reader"); ++taken; } r.end(can_end); });
}
// takes every record and sends it on in the words of its own
void relay(unsigned in_kind, unsigned out_kind)
{
    with_in<0>(in_kind, [&](auto& in, bool can_end) {
        with_out<1>(out_kind, [&](auto& os, bool lossless) {
            typedef std::remove_reference_t<decltype(os)> OS; typedef std::remove_reference_t<decltype(in)> IS;
            Writer<OS> w{ os, lossless }; Reader<IS> r{ in };
            for(const Rec& want : sent) { Rec got = r.take(want); same(got, want, "relay"); w.send(got); ++relayed; }
            r.end(can_end); w.finish();
        });
    });
    link[1].closed = true;
}
void run(bool with_relay)
{
    sim::step_limit(400000); sim::fiber_reset_all(); actors.clear(); sent.clear(); relayed = taken = 0; text = txt::TextGen();
    bool faults = sim::choose(5) != 0;
    static const size_t caps[] = { 8, 1, 3, 40, 500 };
    for(int i = 0; i < 2; ++i) { link[i] = Link(); link[i].faults = faults; link[i].cap = sim::pick(caps); link[i].name = i ? "link 1" : "link 0"; }
    unsigned n = sim::range(1, 10);
    for(unsigned i = 0; i < n; ++i) sent.push_back(some_record());
    unsigned ok = sim::choose(6), ik = sim::choose(4), rok = with_relay ? sim::choose(6) : 0, rik = with_relay ? sim::choose(4) : 0;
    sim::log("writer %u reader %u relay %d %u/%u caps %zu %zu records %u", ok, ik, with_relay, rik, rok, link[0].cap, link[1].cap, n);
    auto add = [](const char* name, std::function<void()> f) { actors.push_back(Actor{ sim::fiber_create(std::move(f), 256 * 1024), name }); };
    add("writer", [=] { writer<0>(ok); });
    if(with_relay) { add("relay", [=] { relay(rik, rok); }); add("reader", [=] { reader<1>(ik); }); } else add("reader", [=] { reader<0>(ik); });
    unsigned last = 0;
    for(;;)
    {
        std::vector<Actor*> live; for(Actor& a : actors) if(!sim::fiber_done(a.f)) live.push_back(&a);
        if(live.empty()) break;
        unsigned total = (unsigned)live.size() + 1 + with_relay, k = last = (last + 1 + sim::choose(total)) % total;      // without choices: each in turn
        if(k < live.size()) sim::fiber_switch(live[k]->f); else link[with_relay ? k - live.size() : 0].move();
        sim::step("no-progress");
        sim::state(sim::mix(sim::mix(link[0].data.size() - link[0].read, link[0].arrived - link[0].read), sim::mix(link[1].data.size() - link[1].read, sim::mix(taken, relayed))));
        if(live.size() > 1 && taken) sim::nontrivial();
    }
    SIM_CHECK(taken == sent.size(), "lost", "%zu of %zu records taken", taken, sent.size());
    for(int i = 0; i <= with_relay; ++i) SIM_CHECK(link[i].read == link[i].data.size(), "left-over", "%s has %zu characters nobody asked for", link[i].name, link[i].data.size() - link[i].read);
    SIM_PROBE("all-records-taken");
}
void s_direct() { run(false); }
void s_relay() { run(true); }
const sim::Scenario scen[] = { { "direct", s_direct, 3 }, { "relayed", s_relay, 2 } };
}
const sim::Harness sim::harness = {
    "C22",
    "a run sends 1-10 random records (integers of every type and base, words, lines, characters, blocks) through a stream, one or two bounded links and streams at the far end, with writer, relay and reader interleaved by the scheduler; non-trivial when a link stalled, filled up or chopped, or reader and writer overlapped; distinct by hash of the event log",
    "basic_ostream and basic_istream with their operators, num_put, num_get, the blocking policy, out_buffered_stringbuf, out_bipbuf_streambuf, in_bipbuf_streambuf with the willemt ring, basic_streambuf_wrapped, arduino streambufs, posix streambuf with libc stdio",
    "the links and the device interfaces in front of them (stdio cookie, Arduino Stream, caller-supplied streambuf); the scheduler of writer, relay and reader",
    "the reader knows the kind and base of each record|numbers shown in hex or octal are non-negative|words hold no blanks or NUL|floating point output and `bool` output are not supported by the library",
    40000, 3000000, scen, sizeof scen / sizeof *scen, nullptr,
};
