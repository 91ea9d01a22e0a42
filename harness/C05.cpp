// C05: formatted extraction from blocking streams whose source delivers in arbitrary pieces.
// EXTRA: $R/src/estd/ext/willemt/bipbuffer/bipbuffer.c
// BUILD: -I$V/fake/arduino
#include <sim.h>
#include <estd/istream.h>
#include <estd/ostream.h>
#include <estd/string.h>
#include <estd/sstream.h>
#include <estd/span.h>
#include <estd/internal/streambuf.h>
#include <estd/port/arduino/streambuf.h>
#include <cmath>
#include <limits>
#include <memory>
#include "textmodel.h"
#include "streamstate.h"
using std::string;
typedef __int128 wide;

namespace {

// ---- the source: text that arrives piece by piece, with stalls in between, and then ends ---------------------------
struct Source
{
    string text; size_t handed = 0, vis = 0, needed = 0; bool ended = false, can_end = true, shorts = false; unsigned stall = 0; uint64_t polls = 0; const char* op = "";
    void start_stall() { stall = sim::choose(3) == 0 ? 0 : sim::range(1, 6); if(stall) SIM_FAULT("source-stalled"); }
    void begin(bool all)
    {
        if(all) { vis = text.size(); ended = true; return; }
        vis = 0; start_stall();
    }
    bool empty() const { return handed == vis; }
    // somebody asks while nothing is there
    void poll()
    {
        if(!empty() || ended) return;
        SIM_CHECK(vis < needed || needed > text.size(), "waits-for-more", "%s waits although the %zu characters it needs have arrived (%zu)", op, needed, vis);
        SIM_CHECK(can_end || vis < text.size(), "waits-for-ever", "%s waits for more than the text holds", op);
        sim::step("never-finishes"); sim::advance_time(1000); ++polls;
        if(stall) { --stall; return; }
        if(vis < text.size())
        {
            size_t left = text.size() - vis;
            vis += sim::choose(2) ? 1 : sim::range(1, (uint32_t)(left < 9 ? left : 9));
            sim::log("  arrived %zu/%zu", vis, text.size()); SIM_PROBE("piece-arrived");
            if(vis < text.size() || can_end) start_stall();
        }
        else if(can_end) { ended = true; sim::log("  ended"); SIM_PROBE("source-ended"); }
    }
} src;

struct dev_impl : estd::internal::impl::streambuf_base<estd::char_traits<char>>
{
    typedef estd::internal::impl::streambuf_base<estd::char_traits<char>> base;
    using base::traits_type; using base::char_type; using base::int_type;
    estd::streamsize xin_avail() const { return (estd::streamsize)(src.vis - src.handed); }
    estd::streamsize showmanyc() const { src.poll(); sim::step("never-finishes"); return !src.empty() ? (estd::streamsize)(src.vis - src.handed) : src.ended ? -1 : 0; }
    char xsgetc() const { return src.text[src.handed]; }
    void gbump(int n) { SIM_CHECK(n >= 0 && src.handed + n <= src.vis, "read-beyond-source", "advanced %d", n); src.handed += n; }
    estd::streamsize xsgetn(char* s, estd::streamsize n)
    {
        size_t have = src.vis - src.handed, k = (size_t)n < have ? (size_t)n : have;
        if(src.shorts && k > 1 && sim::choose(3) == 0) { k = 1 + sim::choose((uint32_t)k - 1); SIM_FAULT("short-read"); }
        memcpy(s, src.text.data() + src.handed, k); src.handed += k; return (estd::streamsize)k;
    }
    int_type underflow() { return traits_type::eof(); }
    int_type uflow() { return traits_type::eof(); }
};
typedef estd::internal::streambuf<dev_impl> devbuf;

struct Serial : Stream
{
    size_t write(uint8_t) override { return 1; }
    int available() override { src.poll(); sim::step("never-finishes"); return (int)(src.vis - src.handed); }
    int read() override { return src.handed < src.vis ? (uint8_t)src.text[src.handed++] : -1; }
    int peek() override { return src.handed < src.vis ? (uint8_t)src.text[src.handed] : -1; }
};

// ---- what an extraction must do, as a function of the text alone ---------------------------------------------------------
enum { GOOD = 0, EOF_ = 1, FAIL = 2 };
struct Want { size_t pos; unsigned state; size_t needed; bool loose = false; };      // needed: characters that must have arrived

bool space(char c) { return c == ' ' || (c >= 9 && c <= 13); }
int digit(char c, int base)
{
    int d = c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : 99;
    return d < base ? d : -1;
}
size_t skip_ws(const string& t, size_t p) { while(p < t.size() && space(t[p])) ++p; return p; }

Want want_int(const string& t, size_t p, int base, bool is_signed, wide lo, wide hi, wide& v)
{
    Want w; w.state = GOOD; p = skip_ws(t, p); v = 0;
    bool neg = false; size_t digits = 0; bool over = false;
    if(is_signed && p < t.size() && t[p] == '-') { neg = true; ++p; }
    for(; p < t.size() && digit(t[p], base) >= 0; ++p, ++digits)
        if(!over) { v = v * base + (neg ? -digit(t[p], base) : digit(t[p], base)); if(v < lo || v > hi) { over = true; v = neg ? lo : hi; } }
    if(p == t.size()) w.state |= EOF_;
    if(!digits || over) w.state |= FAIL;
    if(over) SIM_FAULT("out-of-range"); if(!digits) SIM_FAULT("malformed");
    w.pos = p; w.needed = p + 1; return w;
}
Want want_real(const string& t, size_t p, double& v)
{
    Want w; w.state = GOOD; p = skip_ws(t, p); string s; bool any = false, point = false;
    if(p < t.size() && t[p] == '-') { s += '-'; ++p; }
    size_t digits = 0;
    for(; p < t.size() && (digit(t[p], 10) >= 0 || (!point && t[p] == '.')); ++p) { s += t[p]; any = true; if(t[p] == '.') point = true; else ++digits; }
    if(p == t.size()) w.state |= EOF_;
    if(!any) { w.state |= FAIL; SIM_FAULT("malformed"); }
    if(any && !digits) w.loose = true;               // "." alone: state not judged
    v = digits ? strtod(s.c_str(), nullptr) : 0;
    w.pos = p; w.needed = p + 1; return w;
}

// ---- the text -----------------------------------------------------------------------------------------------------------
string token()
{
    static const char* fixed[] = { "0", "-1", "127", "128", "-128", "-129", "255", "256", "32767", "32768", "-32768", "-32769", "65535", "65536", "70000", "99999",
        "2147483647", "2147483648", "-2147483648", "-2147483649", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809",
        "18446744073709551615", "18446744073709551616", "99999999999999999999999", "-", "--5", "-x", "+7", "12a", "x", "7F", "ff", "FFFF", "10000", "80000000", "777", "8", "1.5", "-0.25", "3.", ".5", "1.2.3", "100.125", "true", "false", "tru", "fals", "1", "0", "yes", "TRUE", "0x1F", "00012", "-00", "12-3", "1,234" };
    switch(sim::choose(4))
    {
        case 0: return txt::digits(sim::choose(60000), 10, false);
        case 2: if(sim::chance(1, 6))
        {
            // more digits than any type can make use of
            static const unsigned lens[] = { 1, 8, 20, 37, 38, 39, 40, 60, 120, 254, 255, 256, 257, 300, 310, 330 };
            SIM_PROBE("many-digits");
            string r = sim::choose(2) ? "-" : ""; for(unsigned n = sim::choose(4) ? sim::choose(4) : sim::pick(lens); n--; ) r += char('0' + sim::choose(10));
            r += '.';
            for(unsigned n = sim::choose(2) ? 0 : sim::pick(lens); n--; ) r += '0';
            for(unsigned n = sim::pick(lens); n--; ) r += char('0' + sim::choose(10));
            return r;
        }
        return fixed[sim::choose(sizeof fixed / sizeof *fixed)];
        case 1: { string r; for(unsigned i = 0, n = sim::range(1, 12); i < n; ++i) r += (char)(sim::choose(5) ? 'a' + sim::choose(26) : (char)(0x80 + sim::choose(128))); return r; }
        default: return fixed[sim::choose(sizeof fixed / sizeof *fixed)];
    }
}
string make_text()
{
    string t;
    for(unsigned i = 0, n = sim::range(0, 8); i < n; ++i)
    {
        if(i || sim::choose(2)) for(unsigned k = sim::choose(4); k--; ) t += " \n\t\r"[sim::choose(3) ? 0 : sim::choose(4)];
        t += token();
    }
    if(sim::choose(2)) t += sim::choose(2) ? " " : "\n";
    return t;
}

// ---- the extracting program ------------------------------------------------------------------------------------------------
size_t pos;
template <class IS> void judge(IS& in, const Want& w, const char* op, std::function<bool()> value_ok, std::function<string()> show)
{
    state_agrees(in);
    unsigned st = (unsigned)((in.eof() ? EOF_ : 0) | (in.fail() ? FAIL : 0));
    sim::log("  %s at %zu -> %s state %u, expected pos %zu state %u", op, pos, show().c_str(), st, w.pos, w.state);
    if(!w.loose) SIM_CHECK(st == w.state, "wrong-state", "%s at %zu of [%s] left state %u (1 end, 2 fail), the text alone gives %u", op, pos, txt::show(src.text.substr(pos)).c_str(), st, w.state);
    SIM_CHECK(value_ok(), "wrong-value", "%s at %zu of [%s] gave %s", op, pos, txt::show(src.text.substr(pos)).c_str(), show().c_str());
    pos = w.pos;
}
// the serial port has no end: stop before anything would wait for one
bool possible(const Want& w) { return src.can_end || w.needed <= src.text.size(); }
#define BEGIN(name) do { if(!possible(w)) return false; src.needed = w.needed; src.op = name; } while(0)

template <class T, class IS> bool integer(IS& in, const char* name)
{
    static const int bases[] = { 10, 16, 8 };
    int base = sim::choose(2) ? 10 : sim::pick(bases);
    wide v; Want w = want_int(src.text, pos, base, std::is_signed<T>::value, std::numeric_limits<T>::min(), std::numeric_limits<T>::max(), v);
    BEGIN(name);
    in.setf(base == 16 ? estd::ios_base::hex : base == 8 ? estd::ios_base::oct : estd::ios_base::dec, estd::ios_base::basefield);
    T got = (T)77; in >> got;
    judge(in, w, name, [&] { return (wide)got == v; }, [&] { return std::to_string((long long)got) + (base == 16 ? " hex" : base == 8 ? " oct" : ""); });
    return true;
}
template <class T, class IS> bool real(IS& in, const char* name)
{
    double v; Want w = want_real(src.text, pos, v);
    BEGIN(name);
    in.setf(estd::ios_base::dec, estd::ios_base::basefield);
    T got = 77; in >> got;
    judge(in, w, name, [&] { return w.state & FAIL ? got == 0 : std::fabs(v) > 1e30 ? (got < 0) == (v < 0) && std::fabs((double)got) > 1e29 : std::fabs((double)got - v) <= std::fabs(v) * (sizeof(T) > 4 ? 1e-12 : 1e-5) + (sizeof(T) > 4 ? 1e-245 : 1e-36); }, [&] { return std::to_string((double)got); });
    return true;
}
template <unsigned N, bool Z, class IS> bool word(IS& in)
{
    size_t p = skip_ws(src.text, pos), cap = N - (Z ? 1 : 0); string v; Want w; w.state = GOOD;
    while(p < src.text.size() && !space(src.text[p]) && v.size() < cap) v += src.text[p++];
    if(p == src.text.size()) w.state = v.empty() ? EOF_ | FAIL : EOF_;
    else if(!space(src.text[p])) { w.state = FAIL; SIM_FAULT("word-too-long"); }
    w.pos = p; w.needed = p + 1;
    BEGIN("word");
    estd::layer1::basic_string<char, N, Z> got; if(sim::choose(2)) got += "?";
    in >> got;
    judge(in, w, "word", [&] { return string(got.data(), got.size()) == v; }, [&] { return "[" + txt::show(string(got.data(), got.size())) + "]"; });
    return true;
}
template <class IS> bool program(IS& in)
{
    unsigned ops = sim::range(1, 10);
    src.begin(sim::choose(8) == 0);
    for(unsigned i = 0; i < ops; ++i)
    {
        in.clear();
        sim::state(sim::mix(src.vis - src.handed, pos < src.text.size() ? (unsigned char)src.text[pos] : 256));
        sim::log("#%u arrived %zu", i, src.vis);
        bool ok = true;
        switch(sim::choose(18))
        {
            case 0: ok = integer<int>(in, "int"); break;
            case 1: ok = integer<int16_t>(in, "int16"); break;
            case 2: ok = integer<uint16_t>(in, "uint16"); break;
            case 3: ok = integer<unsigned>(in, "unsigned"); break;
            case 4: ok = integer<long long>(in, "long long"); break;
            case 5: ok = integer<unsigned long>(in, "unsigned long"); break;
            case 6: ok = integer<signed char>(in, "int8"); break;
            case 7: ok = integer<uint8_t>(in, "uint8"); break;
            case 8: ok = real<double>(in, "double"); break;
            case 9: ok = real<float>(in, "float"); break;
            case 10: ok = word<32, true>(in); break;
            case 11: ok = sim::choose(2) ? word<4, true>(in) : word<6, false>(in); break;
            case 12:
            {
                size_t p = skip_ws(src.text, pos); Want w; w.pos = p + 1; w.state = GOOD; w.needed = p + 1; bool v = true;
                if(p == src.text.size()) { w.pos = p; w.loose = true; v = false; }
                else if(src.text[p] == '0') v = false; else if(src.text[p] != '1') w.state = FAIL;
                if(!possible(w)) { ok = false; break; }
                src.needed = w.needed; src.op = "bool";
                in.unsetf(estd::ios_base::boolalpha); bool got = false; in >> got;
                if(w.loose) SIM_CHECK(!in.good(), "wrong-state", "bool at the end of input, state good");
                judge(in, w, "bool", [&] { return got == v; }, [&] { return got ? "true" : "false"; });
                break;
            }
            case 13:
            {
                size_t p = skip_ws(src.text, pos); Want w; w.state = GOOD; bool v = false, done = false;
                static const string names[2] = { "true", "false" };
                for(int k = 0; k < 2 && p < src.text.size() && !done; ++k) if(src.text[p] == names[k][0])
                {
                    size_t j = 0; while(j < names[k].size() && p + j < src.text.size() && src.text[p + j] == names[k][j]) ++j;
                    done = true;
                    if(j == names[k].size()) { w.pos = p + j; v = k == 0; }
                    else if(p + j == src.text.size()) { w.pos = p + j; w.loose = true; }
                    else { w.pos = p + j + 1; w.state = FAIL; }
                }
                if(!done) { if(p == src.text.size()) { w.pos = p; w.loose = true; } else { w.pos = p + 1; w.state = FAIL; } }
                w.needed = w.loose ? src.text.size() + 1 : w.pos;
                if(!possible(w)) { ok = false; break; }
                src.needed = w.needed; src.op = "boolalpha";
                in.setf(estd::ios_base::boolalpha); bool got = false; in >> got;
                if(w.loose) SIM_CHECK(!in.good(), "wrong-state", "bool at the end of input, state good");
                judge(in, w, "boolalpha", [&] { return got == v; }, [&] { return got ? "true" : "false"; });
                break;
            }
            case 14: case 15:
            {
                unsigned n = sim::range(1, 24); string v; Want w; size_t p = pos; w.state = GOOD; bool found = false;
                while(p < src.text.size()) { if(src.text[p] == '\n') { found = true; ++p; break; } if(v.size() == n - 1) break; v += src.text[p++]; }
                w.pos = p; w.needed = found ? p : p + 1;
                if(!found) w.state = p == src.text.size() ? (p == pos ? EOF_ | FAIL : EOF_) : FAIL;
                if(!possible(w)) { ok = false; break; }
                src.needed = w.needed; src.op = "line";
                std::unique_ptr<char[]> b(new char[n]); memset(b.get(), '#', n);
                in.getline(b.get(), (estd::streamsize)n);
                judge(in, w, "line", [&] { return memchr(b.get(), 0, n) && b.get() == v; }, [&] { return "[" + txt::show(string(b.get(), strnlen(b.get(), n))) + "]"; });
                break;
            }
            case 16:
            {
                Want w; w.pos = skip_ws(src.text, pos); w.state = GOOD; w.needed = w.pos + 1;
                if(!possible(w)) { ok = false; break; }
                src.needed = w.needed; src.op = "ws";
                in >> estd::ws;
                judge(in, w, "ws", [] { return true; }, [] { return ""; });
                break;
            }
            default:
            {
                // peek on a blocking stream waits for the character
                Want w; w.pos = pos; w.state = GOOD; w.needed = pos + 1;
                if(!possible(w)) { ok = false; break; }
                src.needed = w.needed; src.op = "peek";
                int c = in.peek(), e = pos < src.text.size() ? (unsigned char)src.text[pos] : -1;
                judge(in, w, "peek", [&] { return c == e; }, [&] { return std::to_string(c); });
            }
        }
        if(!ok) break;
    }
    // what no extraction consumed is still there
    in.clear(); src.needed = src.text.size() + 1; src.op = "final read"; src.stall = 0; src.vis = src.text.size(); if(src.can_end) src.ended = true;
    string rest; for(int c; (c = in.rdbuf()->sbumpc()) != -1; ) { rest += (char)c; if(rest.size() > src.text.size()) break; }
    SIM_CHECK(rest == src.text.substr(pos), "wrong-consumption", "[%s] left in the source, expected [%s]", txt::show(rest).c_str(), txt::show(src.text.substr(pos)).c_str());
    return true;
}

void setup(bool memory)
{
    src = Source(); pos = 0;
    src.text = make_text(); sim::step_limit(4000 + 80 * src.text.size());    // a character may take seven polls, a poll a few steps sim::log("text [%s]", txt::show(src.text).c_str());
    if(memory) { src.vis = src.text.size(); src.ended = true; }
    src.shorts = !memory && sim::choose(2);
}
template <class SB> using blocking = estd::internal::flagged_istream<SB, estd::internal::istream_flags::blocking>;

void s_device() { setup(false); blocking<devbuf> in; program(in); }
template <unsigned N> void ring() { setup(false); blocking<estd::internal::in_bipbuf_streambuf<devbuf, N>> in; program(in); }
void s_ring() { switch(sim::choose(5)) { case 0: ring<1>(); break; case 1: ring<2>(); break; case 2: ring<3>(); break; case 3: ring<8>(); break; default: ring<32>(); } }
void s_serial() { setup(false); src.can_end = false; Serial port; blocking<estd::arduino_streambuf> in(port); program(in); }
void s_span()
{
    setup(true);
    std::unique_ptr<char[]> mem(new char[src.text.size()]); memcpy(mem.get(), src.text.data(), src.text.size());
    estd::span<char> sp(mem.get(), src.text.size());
    if(sim::choose(2)) { estd::detail::ispanstream in(sp); program(in); }
    else { blocking<estd::detail::ispanbuf> in(sp); program(in); }
}
void s_str()
{
    setup(true); if(src.text.size() > 250) src.text.resize(250);
    std::unique_ptr<estd::layer1::stringstream<256>> in(new estd::layer1::stringstream<256>);
    in->rdbuf()->sputn(src.text.data(), (estd::streamsize)src.text.size());
    program(*in);
}
const sim::Scenario scen[] = { { "device", s_device, 3 }, { "ring-over-device", s_ring, 4 }, { "serial-port", s_serial, 2 }, { "span", s_span, 2 }, { "string", s_str, 1 } };
}
const sim::Harness sim::harness = {
    "C05",
    "a run is a random text of 0-8 tokens delivered in random pieces with random stalls, and 1-10 random extractions from it; non-trivial when the source stalled or split, or the text was malformed or out of range for the type; distinct by hash of the event log",
    "basic_istream extraction operators, num_get, bool_get, blocking policy, ws, getline, in_buffered_bipbuf with the willemt ring, arduino_streambuf, in_span_streambuf, basic_stringbuf",
    "the device behind the streambuf and the Arduino Stream (arrival schedule and polling clock)",
    "numbers have no '+' sign, base prefix or exponent (not supported by the library)|a lone decimal point is not judged|a serial port never ends, so extractions that need the end are not started on it|the stream state is cleared before every extraction",
    60000, 10000000, scen, sizeof scen / sizeof *scen, nullptr,
};
