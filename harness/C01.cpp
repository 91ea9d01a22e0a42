// BUILD: -DFEATURE_POSIX_IOS -I$V/fake/arduino -I$V/fake/pico
// EXTRA: $R/src/estd/port/posix/streambuf.cpp
#define _GNU_SOURCE 1
#include <Arduino.h>
#include <estd/ostream.h>
#include <estd/istream.h>
#include <estd/string.h>
#include <estd/string_view.h>
#include <estd/port/arduino/ostream.h>
#include <estd/port/rpi/pico/ostream.h>
#include <stdio.h>
#include <memory>
#include "textmodel.h"
#include "streamstate.h"

using std::string;

// ---- the device ---------------------------------------------------------------------------------------
// Everything the program under test can reach; decides how much of each request it takes.
struct Device
{
    string data;                // what arrived
    bool faulty = false;        // faults enabled now
    uint32_t rate = 6;          // one in `rate` requests misbehaves
    bool refused = false;       // some character of the current operation was refused
    unsigned syncs = 0;         // how often it was asked to flush
    bool sync_failed = false;
    long capacity = -1;         // full device
    size_t take(const char* s, size_t n)
    {
        sim::step();
        if(n == 0) return 0;
        size_t k = n;
        if(faulty && sim::chance(1, rate))
        {
            switch(sim::choose(3))
            {
                case 0: k = n > 1 ? sim::choose((uint32_t)n) : 0; SIM_FAULT("short-write"); break;
                case 1: k = 0; SIM_FAULT("refused-write"); break;
                default: k = n - 1; SIM_FAULT("last-character-refused"); break;
            }
        }
        if(capacity >= 0 && data.size() + k > (size_t)capacity) { k = (size_t)capacity > data.size() ? capacity - data.size() : 0; SIM_FAULT("device-full"); }
        if(k < n) refused = true;
        data.append(s, k);
        sim::log("dev takes %zu/%zu", k, n);
        return k;
    }
    bool sync()
    {
        sim::step(); ++syncs;
        if(faulty && sim::chance(1, rate)) { SIM_FAULT("flush-error"); sync_failed = true; return false; }
        return true;
    }
};
static Device* dev;

// ---- 1. caller-supplied device, unbuffered ---------------------------------------------------------------
struct raw_sink : estd::internal::impl::streambuf_base<estd::char_traits<char>>
{
    typedef char char_type;
    estd::streamsize xsputn(const char* s, estd::streamsize n) { return (estd::streamsize)dev->take(s, (size_t)n); }
    int sputc(char c) { return dev->take(&c, 1) ? std::char_traits<char>::to_int_type(c) : std::char_traits<char>::eof(); }
    estd::streamsize xsgetn(char*, estd::streamsize) { return 0; }
    int sync() { return dev->sync() ? 0 : -1; }
};
// ---- 2. caller-supplied device with a put area emptied by overflow -----------------------------------------
struct area_sink : estd::internal::impl::streambuf_base<estd::char_traits<char>>
{
    typedef char char_type;
    char area[48]; unsigned used = 0;
    estd::streamsize xsputn(const char* s, estd::streamsize n)
    {
        estd::streamsize k = 0;
        while(k < n && used < sizeof area) area[used++] = s[k++];
        return k;
    }
    bool drain()
    {
        while(used)
        {
            size_t k = dev->take(area, used);
            memmove(area, area + k, used - k);
            used -= (unsigned)k;
            if(k == 0) return false;
        }
        return true;
    }
    int overflow(int ch = -1)
    {
        if(!drain()) return -1;
        if(ch != -1) area[used++] = (char)ch;
        return ch == -1 ? 0 : ch;
    }
    int sputc(char c) { if(used < sizeof area) { area[used++] = c; return (unsigned char)c; } return overflow((unsigned char)c); }
    estd::streamsize xsgetn(char*, estd::streamsize) { return 0; }
    int sync() { return drain() && dev->sync() ? 0 : -1; }
};
// ---- 3. virtual interface --------------------------------------------------------------------------------
struct virt_sink : estd::basic_streambuf<char>
{
    int_type overflow(int_type ch = -1) override
    {
        if(ch == -1) return 0;
        char c = (char)ch; return dev->take(&c, 1) ? std::char_traits<char>::to_int_type(c) : -1;
    }
    estd::streamsize xsputn(const char* s, estd::streamsize n) override { return (estd::streamsize)dev->take(s, (size_t)n); }
    estd::streamsize xsgetn(char*, estd::streamsize) override { return 0; }
    int sync() override { return dev->sync() ? 0 : -1; }
};
// ---- 4. Arduino print device -------------------------------------------------------------------------------
struct print_dev : Print
{
    size_t write(uint8_t c) override { char ch = (char)c; return dev->take(&ch, 1); }
    size_t write(const uint8_t* s, size_t n) override { return dev->take((const char*)s, n); }
};
// ---- 5. C stdio over a simulated file -----------------------------------------------------------------------
static ssize_t cookie_write(void*, const char* s, size_t n)
{
    size_t k = dev->take(s, n);
    return (ssize_t)k;
}
static FILE* open_cookie(bool buffered, char* buf, size_t n)
{
    cookie_io_functions_t io = { nullptr, cookie_write, nullptr, nullptr };
    FILE* f = fopencookie(nullptr, "w", io);
    setvbuf(f, buffered ? buf : nullptr, buffered ? _IOFBF : _IONBF, n);
    return f;
}

// ---- 6. Pico stdio driver: it takes everything and tells nothing --------------------------------------------------
static void pico_out(const char* s, int n) { SIM_CHECK(n >= 0, "negative-length", "the driver is handed %d characters", n); dev->take(s, (size_t)n); }
static int pico_in(char*, int) { return PICO_ERROR_NO_DATA; }
static void pico_flush() { dev->sync(); }
static stdio_driver_t pico_driver = { pico_out, pico_flush, pico_in };

// ---- the program ---------------------------------------------------------------------------------------------
// holds: characters the device side accepted but has not shown yet (put area / stdio buffer)
struct Rig
{
    string expected;             // everything accepted so far, by construction equal to what must arrive
    bool tracks_each = true;     // unbuffered: what the device takes is what was accepted
    bool counts_syncs = false;   // flush reaches the device's sync
};

// text kept in program memory, where there is such a thing
template <class OS> static bool flash(OS&, const string&) { return false; }
static bool flash(estd::arduino_ostream& os, const string& t)
{
    if(sim::choose(2)) return false;
    sim::log("from program memory"); os << reinterpret_cast<const __FlashStringHelper*>(t.c_str()); return true;
}

template <class OS>
static void program(OS& os, Rig& rig, bool faults)
{
    txt::TextGen text;
    string written;              // all text of all operations
    bool lossy = false;          // something was refused at some point
    unsigned n = sim::range(1, 14);
    dev->faulty = faults;
    for(unsigned i = 0; i < n; ++i)
    {
        if(!os.good() && sim::chance(2, 3)) { os.clear(); sim::log("clear"); }
        bool before_good = os.good();
        size_t base = dev->data.size();
        const unsigned syncs = dev->syncs;
        dev->refused = dev->sync_failed = false;
        string t; bool padded = false, is_flush = false;
        switch(sim::choose(9))
        {
            case 0: { t = text.wild(sim::range(0, 40), false); sim::log("op str %zu", t.size()); if(!flash(os, t)) os << t.c_str(); break; }
            case 1: { t = text.wild(1); sim::log("op put"); os.put(t[0]); break; }
            case 2: { t = text.wild(sim::range(0, 30)); sim::log("op write %zu", t.size()); os.write(t.data(), (estd::streamsize)t.size()); break; }
            case 3:
            {
                t = txt::number_op(os, padded);
                break;
            }
            case 4: { unsigned w = sim::choose(6); t = text.wild(1); char fc = text.fill(); if(sim::choose(2)) os.fill(fc); else os << estd::setfill(fc); os.width(w); sim::log("op char w %u", w); string c = t; t = string(w > 1 ? w - 1 : 0, fc) + t; padded = w > 1; os << c[0]; break; }
            case 5:
            {
                const unsigned how = sim::choose(4); t = text.wild(sim::range(0, 30), how >= 2); sim::log("op estd-str %zu", t.size());
                switch(how)
                {
                    case 0: { estd::layer1::string<32> s; s += t.c_str(); os << s; break; }
                    case 1: os << estd::layer2::const_string(t.c_str()); break;
                    case 2: { estd::string_view w(t.data(), t.size()); os << w; break; }
                    default: { estd::layer1::string<32, false> s; s.append(t.data(), (unsigned)t.size()); os << s; break; }
                }
                break;
            }
            case 6: { t = "\n"; sim::log("op endl"); os << estd::endl; is_flush = true; break; }
            case 7: { sim::log("op flush"); os.flush(); is_flush = true; break; }
            default: { if(sim::choose(2)) os.setf(estd::ios_base::unitbuf); else os.unsetf(estd::ios_base::unitbuf); sim::log("op unitbuf"); break; }
        }
        string got = dev->data.substr(base);
        sim::log("state %d got %zu", os.rdstate(), got.size());
        sim::state(sim::mix(os.rdstate(), sim::mix(got.size() * 64 + t.size(), dev->refused * 2 + dev->sync_failed)));
        if(rig.tracks_each)
        {
            bool complete = got == t;
            if(!padded) SIM_CHECK(t.compare(0, got.size(), got) == 0, "not-a-prefix", "device got [%s] of [%s]", txt::show(got).c_str(), txt::show(t).c_str());
            else SIM_CHECK(txt::subsequence(got, t), "not-in-order", "device got [%s] of [%s]", txt::show(got).c_str(), txt::show(t).c_str());
            SIM_CHECK(complete || !os.good(), "silent-loss", "device got [%s] of [%s] and the stream says good", txt::show(got).c_str(), txt::show(t).c_str());
            SIM_CHECK(complete || dev->refused, "lost-without-refusal", "device got [%s] of [%s] though it refused nothing", txt::show(got).c_str(), txt::show(t).c_str());
            if(!complete) lossy = true;
            rig.expected += got;
        }
        else
        {
            // buffered on the way: only a good stream promises acceptance
            if(os.good()) rig.expected += t; else lossy = true;
            SIM_CHECK(rig.expected.compare(0, dev->data.size(), dev->data, 0, lossy ? 0 : string::npos) == 0 || lossy, "not-a-prefix", "device has [%s], program wrote [%s]",
                txt::show(dev->data).c_str(), txt::show(rig.expected).c_str());
        }
        written += t;
        SIM_CHECK(txt::subsequence(dev->data, written), "invented-or-duplicated", "device has [%s], program wrote [%s]", txt::show(dev->data).c_str(), txt::show(written).c_str());
        if(before_good && !dev->refused && !dev->sync_failed) SIM_CHECK(os.good(), "spurious-error", "no fault occurred but state is %d", os.rdstate());
        if(dev->sync_failed) SIM_CHECK(!os.good(), "flush-failure-unreported", "device failed to flush, state is good");
        // with unitbuf set every output operation ends with a flush
        if((os.flags() & estd::ios_base::unitbuf) && before_good && os.good() && !t.empty())
        {
            SIM_PROBE("unitbuf");
            if(rig.counts_syncs) SIM_CHECK(dev->syncs > syncs, "not-flushed", "unitbuf is set, [%s] was written and nobody asked the device to flush", txt::show(t).c_str());
            if(!lossy) SIM_CHECK(dev->data == written, "not-flushed", "unitbuf is set; device has [%s], program wrote [%s]", txt::show(dev->data).c_str(), txt::show(written).c_str());
        }
        if(is_flush && before_good && os.good())
        {
            if(!lossy) SIM_CHECK(dev->data == written, "flushed-but-missing", "flush succeeded; device has [%s], program wrote [%s]", txt::show(dev->data).c_str(), txt::show(written).c_str());
        }
        state_agrees(os);
        if(!before_good) SIM_CHECK(!os.good(), "error-forgotten", "the error state vanished without clear()");
    }
    // faults stop: everything still held must arrive on flush
    dev->faulty = false; dev->capacity = -1;
    os.clear(); os.flush();
    SIM_CHECK(os.good(), "no-recovery", "healthy device, cleared stream, flush left state %d", os.rdstate());
    if(!lossy) SIM_CHECK(dev->data == written, "lost", "device has [%s], program wrote [%s]", txt::show(dev->data).c_str(), txt::show(written).c_str());
    // and new output is accepted whole
    string t = text(5); size_t base = dev->data.size();
    os << t.c_str(); os.flush();
    SIM_CHECK(os.good() && dev->data.substr(base) == t, "no-recovery", "after recovery device got [%s] of [%s]", txt::show(dev->data.substr(base)).c_str(), t.c_str());
}

static Device the_dev;
static void setup(bool faults)
{
    the_dev = Device(); dev = &the_dev;
    static const uint32_t rates[] = { 8, 3, 16 };
    dev->rate = sim::pick(rates);
    if(faults && sim::chance(1, 6)) dev->capacity = sim::range(0, 80);
}
template <class F> static void both(F f) { bool faults = sim::choose(4) != 0; setup(faults); sim::log("faults %d", faults); f(faults); }

static void s_raw() { both([](bool fl) { estd::detail::basic_ostream<estd::internal::streambuf<raw_sink>> os; Rig r; r.counts_syncs = true; program(os, r, fl); }); }
static void s_area() { both([](bool fl) { estd::detail::basic_ostream<estd::internal::streambuf<area_sink>> os; Rig r; r.tracks_each = false; r.counts_syncs = true; program(os, r, fl); }); }
static void s_virt() { both([](bool fl) { virt_sink v; estd::ostream os(&v); Rig r; r.counts_syncs = true; program(os, r, fl); }); }
// a device behind the library's own virtual adapter, written to through the traditional `ostream`
static void s_wrapped()
{
    both([](bool fl) {
        if(sim::choose(2)) { estd::internal::streambuf<raw_sink> sb; estd::internal::basic_streambuf_wrapped<estd::internal::streambuf<raw_sink>&> w(sb); estd::ostream os(&w); Rig r; r.counts_syncs = true; program(os, r, fl); }
        else { estd::internal::streambuf<area_sink> sb; estd::experimental::wrapped_ostream<estd::internal::streambuf<area_sink>&> os(sb); Rig r; r.tracks_each = false; program<estd::ostream>(os, r, fl); }
    });
}
static void s_print() { both([](bool fl) { print_dev p; estd::arduino_ostreambuf sb(p); estd::detail::basic_ostream<estd::arduino_ostreambuf> os(p); Rig r; program(os, r, fl); }); }
static void s_posix()
{
    both([](bool fl) {
        FILE* f = open_cookie(false, nullptr, 0);
        { estd::posix_ostream<char> os(*f); Rig r; program(os, r, fl); }
        dev->faulty = false; dev->capacity = -1; fclose(f); });
}
static void s_posix_buffered()
{
    // stdio's own buffer holds characters back; without faults a flush must bring all of them to the file
    setup(false);
    static char buf[64];
    FILE* f = open_cookie(true, buf, sim::range(2, 64));
    { estd::posix_ostream<char> os(*f); Rig r; r.tracks_each = false; program(os, r, false); }
    // and a flush that the file rejects is reported
    if(sim::choose(2))
    {
        estd::posix_ostream<char> os(*f);
        os << "x"; the_dev.capacity = (long)the_dev.data.size(); os.flush(); sim::log("rejected flush state %d", os.rdstate());
        SIM_CHECK(!os.good(), "flush-failure-unreported", "the file rejected the flushed data, state is good");
    }
    dev->capacity = -1; fclose(f);
}

static void s_pico()
{
    setup(false); Rig r;
    if(sim::choose(2)) { estd::pico_ostream os(pico_driver); program(os, r, false); }
    else { estd::basic_pico_ostream<char, &pico_driver> os; program(os, r, false); }
}
// blocks and texts that do not fit sixteen bits
static void s_large()
{
    both([](bool fl) {
        SIM_PROBE("more-than-sixteen-bits");
        estd::detail::basic_ostream<estd::internal::streambuf<raw_sink>> os; dev->faulty = fl; string all;
        for(unsigned k = 0, n = sim::range(1, 3); k < n; ++k)
        {
            size_t len = sim::pick((unsigned[]){ 32767, 32768, 65535, 65536, 65537, 70000, 131072 }), base = dev->data.size(); dev->refused = false; string t(len, 'a');
            for(size_t i = 0; i < len; ++i) t[i] = char('a' + (i * 7 + i / 256 + k) % 26);
            os.clear();
            switch(sim::choose(3)) { case 0: sim::log("op write %zu", len); os.write(t.data(), (estd::streamsize)len); break; case 1: sim::log("op text %zu", len); os << t.c_str(); break; default: { sim::log("op view %zu", len); estd::string_view v(t.data(), len); os << v; } }
            string got = dev->data.substr(base);
            SIM_CHECK(t.compare(0, got.size(), got) == 0, "not-a-prefix", "of %zu characters the device got %zu that are no prefix", len, got.size());
            SIM_CHECK(got.size() == len || dev->refused, "lost-without-refusal", "the device got %zu of %zu characters though it refused nothing", got.size(), len);
            SIM_CHECK(os.good() == (got.size() == len), got.size() == len ? "spurious-error" : "silent-loss", "the device got %zu of %zu characters and the state is %d", got.size(), len, os.rdstate());
            sim::state(sim::mix(len, got.size())); sim::nontrivial();
        }
        os.clear(); });
}

static const sim::Scenario scen[] = {
    { "custom-device", s_raw, 60 }, { "put-area-device", s_area, 40 }, { "virtual-device", s_virt, 40 }, { "virtual-adapter", s_wrapped, 40 },
    { "print-device", s_print, 40 }, { "stdio-unbuffered", s_posix, 40 }, { "stdio-buffered", s_posix_buffered, 20 }, { "pico-driver", s_pico, 10 }, { "large-blocks", s_large, 1 },
};
const sim::Harness sim::harness = {
    "C01",
    "a run is a random program of 1-14 stream operations against one simulated device; non-trivial when a device fault fired during an operation; distinct by hash of the complete event log",
    "estd basic_ostream, insertion operators, ios_base state, num_put, detail::streambuf, posix streambuf (with libc stdio), arduino streambuf, Pico stdio streambuf, virtual basic_streambuf",
    "the output device: a byte sink that decides per request how much it accepts and whether a flush succeeds (behind Print, stdio cookie, or a caller-supplied streambuf implementation)",
    "widths up to 15; numbers shown in hex or octal are non-negative|glibc stdio is trusted; with its buffer on, only complete acceptance, flush and rejected flush are judged",
    200000, 20000000, scen, sizeof scen / sizeof *scen, nullptr,
};
