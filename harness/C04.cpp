// C04: unformatted stream input against sources that split, withhold, fail or grow.
// EXTRA: $R/src/estd/ext/willemt/bipbuffer/bipbuffer.c $R/src/estd/port/posix/streambuf.cpp
// BUILD: -I$V/fake/arduino
#include <sim.h>
#include <estd/istream.h>
#include <estd/ostream.h>
#include <estd/string.h>
#include <estd/sstream.h>
#include <estd/span.h>
#include <estd/internal/streambuf.h>
#include <estd/port/arduino/streambuf.h>
#include <stdio.h>
#include <errno.h>
#include <memory>
#include <vector>
#include "textmodel.h"
#include "streamstate.h"
#include "wide.h"
using std::string;

namespace {

// what the source holds and how far the program has read
struct Model
{
    string text;             // everything the source will ever deliver
    size_t pos = 0;          // first unread character
    size_t vis = 0;          // characters there at the moment (memory: all)
    bool ended = true;       // nothing will follow text
    bool shorted = false;    // the device handed out less than it had during this operation
    size_t handed = 0;       // device: characters it gave away
    size_t avail() const { return vis - pos; }
} m;

string bytes(unsigned n, bool nul)
{
    string r;
    for(unsigned i = 0; i < n; ++i)
    {
        uint32_t k = sim::choose(16);
        char c = k == 0 ? ' ' : k == 1 ? '\n' : k == 2 ? '\xFF' : k == 3 ? '\x80' : k == 4 ? '\t' : k == 5 && nul ? '\0' : (char)('a' + sim::choose(26));
        r += c;
    }
    return r;
}

// ---- devices ----------------------------------------------------------------------------------------------------
bool faulty, sync_failed, sync_asked;
void arrive()
{
    if(m.vis < m.text.size() && sim::choose(3) != 0) { m.vis += sim::range(1, (uint32_t)(m.text.size() - m.vis)); sim::log("arrived %zu/%zu", m.vis, m.text.size()); }
    else if(m.vis < m.text.size()) SIM_FAULT("source-stalled");
}
size_t dev_read(char* s, size_t n)
{
    size_t have = m.vis - m.handed, k = n < have ? n : have;
    if(faulty && k > 0 && sim::chance(1, 4)) { k = sim::choose((uint32_t)k); m.shorted = true; SIM_FAULT("short-read"); }
    memcpy(s, m.text.data() + m.handed, k); m.handed += k;
    return k;
}

// caller-supplied device: exactly what an embedded driver would write
struct dev_impl : estd::internal::impl::streambuf_base<estd::char_traits<char>>
{
    typedef estd::internal::impl::streambuf_base<estd::char_traits<char>> base;
    using base::traits_type; using base::char_type; using base::int_type;
    estd::streamsize xin_avail() const { return (estd::streamsize)(m.vis - m.handed); }
    estd::streamsize showmanyc() const { size_t a = m.vis - m.handed; return a ? (estd::streamsize)a : m.ended && m.vis == m.text.size() ? -1 : 0; }
    char xsgetc() const { return m.text[m.handed]; }
    void gbump(int n) { SIM_CHECK(n >= 0 && m.handed + n <= m.vis, "read-beyond-source", "advanced %d with %zu there", n, m.vis - m.handed); m.handed += n; }
    estd::streamsize xsgetn(char* s, estd::streamsize n) { SIM_CHECK(n >= 0, "negative-read", "source asked for %d characters", (int)n); return (estd::streamsize)dev_read(s, (size_t)n); }
    int sync() { sync_asked = true; if(faulty && sim::chance(1, 3)) { SIM_FAULT("sync-failed"); sync_failed = true; return -1; } return 0; }
    int_type underflow() { return traits_type::eof(); }
    int_type uflow() { return traits_type::eof(); }
};
typedef estd::internal::streambuf<dev_impl> devbuf;

struct Serial : Stream
{
    size_t write(uint8_t) override { return 1; }
    int available() override { return (int)(m.vis - m.handed); }
    int read() override { return m.handed < m.vis ? (uint8_t)m.text[m.handed++] : -1; }
    int peek() override { return m.handed < m.vis ? (uint8_t)m.text[m.handed] : -1; }
    int timedRead() override { if(faulty && m.handed < m.vis && sim::chance(1, 8)) { m.shorted = true; SIM_FAULT("read-timeout"); return -1; } return read(); }
};

// ---- the reading program -------------------------------------------------------------------------------------------
enum { UNGET = 1, SEEK = 2, PEEK = 4, DEVICE = 8, BLOCK = 16, SGETN = 32, WIDE = 64 };   // BLOCK: read/getline compile for this source

// characters [from, from+n) of the source were delivered
void took(const char* what, const char* got, size_t n)
{
    SIM_CHECK(n <= m.avail(), "invented", "%s delivered %zu characters, %zu were there", what, n, m.avail());
    SIM_CHECK(memcmp(got, m.text.data() + m.pos, n) == 0, "wrong-characters", "%s at %zu delivered [%s], source has [%s]", what, m.pos, txt::show(string(got, n)).c_str(), txt::show(m.text.substr(m.pos, n)).c_str());
    m.pos += n;
    if(n) SIM_PROBE("characters-read");
}
struct Guarded
{
    std::unique_ptr<char[]> p; size_t n;
    explicit Guarded(size_t n) : p(new char[n]), n(n) { memset(p.get(), '#', n); }
    char* get() { return p.get(); }
    void untouched_from(size_t i, const char* what) { for(; i < n; ++i) SIM_CHECK(p[i] == '#', "buffer-touched", "%s changed buffer byte %zu beyond what it delivered", what, i); }
};
template <class IS> void gcount_is(IS& in, size_t n, const char* what) { SIM_CHECK((size_t)in.gcount() == n, "wrong-gcount", "%s extracted %zu, gcount says %d", what, n, (int)in.gcount()); }

template <int F, class IS>
void reads(IS& in, unsigned max_n, std::function<void(const string&)> grow = nullptr, std::function<void()> wipe = nullptr)
{
    typedef typename std::remove_reference<decltype(*in.rdbuf())>::type SB;
    SB& sb = *in.rdbuf();
    unsigned ops = sim::range(1, 24);
    for(unsigned i = 0; i < ops; ++i)
    {
        if(!in.good() && sim::choose(4)) { in.clear(); sim::log("clear"); }
        if(F & DEVICE) arrive();
        m.shorted = false;
        const bool good = in.good();
        const auto st0 = in.rdstate();
        const size_t avail = m.avail(), pos0 = m.pos;
        bool full = true;                   // this operation got everything it asked for
        uint32_t op = sim::choose(20);
        sim::log("#%u op %u pos %zu avail %zu state %d", i, op, m.pos, avail, (int)st0);
        switch(op)
        {
            case 0: case 1:
            {
                int c = in.get();
                if(c == -1) { SIM_CHECK(avail == 0 || m.shorted, "false-end", "get() found no data, %zu characters are there", avail); full = false; SIM_CHECK(in.fail() && in.eof(), "end-unreported", "get() found nothing, state %d", (int)in.rdstate()); gcount_is(in, 0, "get"); SIM_PROBE("end-reached"); }
                else { char ch = (char)c; SIM_CHECK(c == (int)(unsigned char)ch, "bad-value", "get() gave %d", c); took("get", &ch, 1); gcount_is(in, 1, "get"); }
                break;
            }
            case 2: if constexpr(F & PEEK)
            {
                int c = in.peek();
                gcount_is(in, 0, "peek");
                if(!good) SIM_CHECK(c == -1, "peek-on-failed", "peek() on a failed stream gave %d", c);
                else if(c == -1) SIM_CHECK(avail == 0 || m.shorted, "false-end", "peek() found no data, %zu characters are there", avail);
                else { SIM_CHECK(avail > 0, "invented", "peek() gave %d from an empty source", c); SIM_CHECK(c == (int)(unsigned char)m.text[m.pos], "wrong-characters", "peek() gave %d, next is %d", c, (int)(unsigned char)m.text[m.pos]); }
                full = in.rdstate() == st0;
                SIM_CHECK(full, "peek-changed-state", "peek() changed the state to %d", (int)in.rdstate());
            }
            break;
            case 3: case 4: case 5: if constexpr(F & BLOCK)
            {
                unsigned n = sim::choose(8) == 7 ? sim::choose(400) : sim::range(0, max_n);
                Guarded g(n + 4);
                in.read(g.get(), (estd::streamsize)n);
                size_t got = (size_t)in.gcount();
                SIM_CHECK(got <= n, "too-many", "read(%u) says it delivered %zu", n, got);
                if(!m.shorted) SIM_CHECK(got == (n < avail ? n : avail), "short-read", "read(%u) delivered %zu of %zu characters there", n, got, avail);
                took("read", g.get(), got); g.untouched_from(got, "read");
                full = got == n;
                if(!full) { SIM_CHECK(in.eof(), "end-unreported", "read(%u) delivered %zu, state %d", n, got, (int)in.rdstate()); SIM_PROBE("end-reached"); }
            }
            break;
            case 6: case 7: if constexpr(F & BLOCK)
            {
                unsigned n = sim::range(0, max_n + 4);
                long there = (long)sb.in_avail();
                Guarded g(n + 2);
                size_t got = (size_t)in.readsome(g.get(), (estd::streamsize)n);
                SIM_CHECK(got <= n, "too-many", "readsome(%u) says %zu", n, got);
                gcount_is(in, got, "readsome");
                if(!(F & DEVICE)) SIM_CHECK(got == (n < avail ? n : avail), "short-read", "readsome(%u) gave %zu of %zu", n, got, avail);
                SIM_CHECK((long)got <= (there < 0 ? 0 : there), "more-than-available", "readsome gave %zu, in_avail said %ld", got, there);
                took("readsome", g.get(), got); g.untouched_from(got, "readsome");
                full = there >= 0;
            }
            break;
            case 8: case 9: if constexpr(F & BLOCK)
            {
                unsigned n = sim::range(1, max_n + 2);
                char delim = sim::choose(3) ? '\n' : sim::choose(2) ? '\xFF' : 'e';
                Guarded g(n + 2);
                in.getline(g.get(), (estd::streamsize)n, delim);
                size_t i2 = 0; bool found = false;
                while(i2 < avail) { if(m.text[m.pos + i2] == delim) { found = true; break; } if(i2 == n - 1) break; ++i2; }
                size_t stored = i2, taken = stored + (found ? 1 : 0);
                if(m.shorted) { taken = (size_t)in.gcount(); SIM_CHECK(taken <= n && taken <= avail, "wrong-gcount", "getline(%u) gcount %zu", n, taken); found = taken && m.text[m.pos + taken - 1] == delim; stored = taken - (found ? 1 : 0); SIM_CHECK(stored < n, "too-many", "getline(%u) stored %zu", n, stored); }
                SIM_CHECK(g.p[stored] == 0, "unterminated", "getline(%u) stored %zu and did not terminate", n, stored);
                SIM_CHECK(memcmp(g.get(), m.text.data() + m.pos, stored) == 0, "wrong-characters", "getline stored [%s]", txt::show(string(g.get(), stored)).c_str());
                g.untouched_from(stored + 1, "getline");
                gcount_is(in, taken, "getline");
                m.pos += taken;
                SIM_CHECK(m.pos <= m.vis, "invented", "getline took more than was there");
                full = found;
                if(found) SIM_PROBE("line-read");
                else if(stored < n - 1) { SIM_CHECK(in.eof(), "end-unreported", "getline ran out after %zu, state %d", stored, (int)in.rdstate()); SIM_CHECK(taken || in.fail(), "end-unreported", "getline extracted nothing and did not fail"); }
                else SIM_CHECK(in.fail() || in.eof(), "long-line-unreported", "line longer than %u, state %d", n, (int)in.rdstate());
            }
            break;
            case 10:
            {
                unsigned n = sim::range(0, max_n);
                in.ignore((estd::streamsize)n);
                size_t got = m.shorted ? (size_t)in.gcount() : n < avail ? n : avail;
                gcount_is(in, got, "ignore"); m.pos += got; full = got == n;
                SIM_CHECK(got <= n && m.pos <= m.vis, "invented", "ignore(%u) skipped %zu", n, got);
                if(!full) SIM_CHECK(in.eof(), "end-unreported", "ignore ran out, state %d", (int)in.rdstate());
                break;
            }
            case 11:
            {
                unsigned n = sim::range(0, max_n); char delim = sim::choose(2) ? '\n' : '\xFF';
                size_t got = 0; bool found = false;
                while(got < avail && got < n && !found) { found = m.text[m.pos + got] == delim; ++got; }
                in.ignore((estd::streamsize)n, (int)(unsigned char)delim);
                if(m.shorted) { got = (size_t)in.gcount(); full = false; }
                else { full = found || got == n; if(!full) SIM_CHECK(in.eof(), "end-unreported", "ignore ran out, state %d", (int)in.rdstate()); }
                gcount_is(in, got, "ignore to delimiter"); m.pos += got;
                SIM_CHECK(m.pos <= m.vis, "invented", "ignore skipped more than was there");
                break;
            }
            case 12:
            {
                long a = (long)sb.in_avail();
                SIM_CHECK(a <= (long)avail, "availability-overstated", "in_avail says %ld, %zu are there", a, avail);
                if(!(F & DEVICE)) SIM_CHECK(a == (avail ? (long)avail : -1), "availability-wrong", "in_avail says %ld, %zu are there", a, avail);
                else if(a == -1) SIM_CHECK(avail == 0 && m.ended && m.vis == m.text.size(), "false-end", "in_avail says ended, %zu of %zu unread", m.text.size() - m.pos, m.text.size());
                break;
            }
            case 13: if constexpr(F & PEEK)
            {
                int c = sb.sgetc(), d = m.shorted ? -2 : sb.sgetc();
                if(d != -2 && !m.shorted) SIM_CHECK(c == d, "peek-consumes", "two sgetc gave %d and %d", c, d);
                if(!m.shorted) SIM_CHECK(c == (avail ? (int)(unsigned char)m.text[m.pos] : -1), avail ? "wrong-characters" : "invented", "sgetc gave %d", c);
            }
            break;
            case 14: if constexpr(F & PEEK)
            {
                int c = sb.snextc();
                if(!m.shorted)
                {
                    SIM_CHECK(c == (avail > 1 ? (int)(unsigned char)m.text[m.pos + 1] : -1), "wrong-characters", "snextc gave %d with %zu there", c, avail);
                    if(avail) ++m.pos;
                }
                else return;
            }
            break;
            case 15: if constexpr(F & SGETN)
            {
                unsigned n = sim::range(0, max_n);
                Guarded g(n + 2);
                size_t got = (size_t)sb.sgetn(g.get(), (estd::streamsize)n);
                SIM_CHECK(got <= n, "too-many", "sgetn(%u) says %zu", n, got);
                if(!m.shorted) SIM_CHECK(got == (n < avail ? n : avail), "short-read", "sgetn(%u) gave %zu of %zu", n, got, avail);
                took("sgetn", g.get(), got); g.untouched_from(got, "sgetn");
            }
            break;
            case 16: if constexpr(F & UNGET)
            {
                if(m.pos == 0) SIM_FAULT("unget-at-start");
                in.unget(); gcount_is(in, 0, "unget");
                if(m.pos == 0) { SIM_CHECK(in.bad(), "unget-unreported", "unget at the start, state %d", (int)in.rdstate()); full = false; }
                else --m.pos;
            }
            break;
            case 17: if constexpr(F & SEEK)
            {
                int way = (int)sim::choose(3); long size = (long)m.text.size();
                long off = (long)sim::range(0, (uint32_t)size + 6) - (way == 0 ? 3 : way == 1 ? (long)m.pos + 3 : size + 3);
                if(sim::choose(12) == 0) { static const long far[] = { 65536, 65535, -65536, 0x7fffffff, 0x100000000l, -0x100000000l }; off = sim::pick(far); }
                long target = off + (way == 0 ? 0 : way == 1 ? (long)m.pos : size);
                bool ok = target >= 0 && target <= size;
                auto dir = way == 0 ? estd::ios_base::beg : way == 1 ? estd::ios_base::cur : estd::ios_base::end;
                if(!ok) SIM_FAULT("seek-out-of-range"); else SIM_PROBE("seek");
                sim::log("seek %ld way %d", off, way);
                if(sim::choose(2))
                {
                    in.seekg(off, dir);
                    if(!ok) SIM_CHECK(in.fail(), "bad-seek-unreported", "seek to %ld of %ld, state %d", target, size, (int)in.rdstate());
                    else SIM_CHECK(!in.fail() || in.bad(), "seek-failed", "seek to %ld of %ld failed", target, size);
                    if(ok) m.pos = (size_t)target;
                    goto seeked;                 // seekg withdraws an earlier fail
                }
                else
                {
                    long p = (long)(std::streamoff)sb.pubseekoff(off, dir, estd::ios_base::in);
                    SIM_CHECK(p == (ok ? target : -1), "seek-result", "seek to %ld of %ld gave %ld", target, size, p);
                    if(ok) m.pos = (size_t)target;
                }
            }
            break;
            case 18: if constexpr((F & (PEEK | WIDE)) == PEEK)
            {
                if(sim::choose(2))
                {
                    char c = '~'; in >> c;
                    if(m.shorted) return;
                    if(good) while(m.avail() && isspace((unsigned char)m.text[m.pos]) ) ++m.pos;
                    if(m.avail()) { SIM_CHECK(c == m.text[m.pos], "wrong-characters", ">> char gave %d, next is %d", c, m.text[m.pos]); ++m.pos; }
                    else { SIM_CHECK(c == '~' && in.fail(), "end-unreported", ">> char at the end: %d state %d", c, (int)in.rdstate()); full = false; }
                }
                else
                {
                    in >> estd::ws;
                    if(m.shorted) return;
                    if(good) while(m.avail() && isspace((unsigned char)m.text[m.pos])) ++m.pos;
                }
            }
            break;
            default:
                if constexpr((F & WIDE) == 0) if(sim::choose(4) == 0)
                {
                    // synchronising with the source neither reads nor loses anything, and only a failure is reported
                    sync_failed = sync_asked = false; in.sync(); sim::log("sync -> %d", (int)in.rdstate()); SIM_PROBE("sync");
                    SIM_CHECK((in.rdstate() & ~estd::ios_base::badbit) == (st0 & ~estd::ios_base::badbit), "spurious-state", "sync changed the state %d -> %d", (int)st0, (int)in.rdstate());
                    if(!(F & DEVICE)) SIM_CHECK(in.rdstate() == st0, "spurious-state", "sync of memory changed the state %d -> %d", (int)st0, (int)in.rdstate());
                    if(std::is_same<SB, devbuf>::value) SIM_CHECK(sync_asked, "not-synchronised", "the source was not asked to synchronise");
                    if(sync_failed) SIM_CHECK(in.bad(), "sync-failure-unreported", "the source could not synchronise, state %d", (int)in.rdstate());
                    full = false; break;
                }
                if(grow && sim::choose(2)) { string t = bytes(sim::range(1, 6), false); sim::log("source grows"); SIM_FAULT("source-grew"); grow(t); }
                else if(wipe && sim::choose(6) == 0) { wipe(); SIM_FAULT("source-cleared"); m.text.clear(); m.pos = m.vis = 0; }
                else if constexpr((F & (PEEK | WIDE)) == PEEK)
                {
                    unsigned n = sim::range(1, max_n); string got;
                    estd::istreambuf_iterator<SB> it(sb), end; bool post = sim::chance(1, 2);
                    for(unsigned k = 0; k < n && sb.sgetc() != -1; ++k)
                    {
                        SIM_CHECK(it != end, "early-end", "the iterator is at its end with %d characters there", (int)sb.in_avail());
                        if(post) { auto was = it++; got += (char)*was; } else { got += (char)*it; ++it; }
                        // merely dry is not the end: more may come
                        if(!m.shorted && sb.sgetc() == -1) { bool over = sb.in_avail() == -1; SIM_CHECK((it == end) == over, over ? "late-end" : "early-end", "%s and the iterator is %s its end", over ? "nothing will follow" : "more may come", it == end ? "at" : "not at"); }
                    }
                    if(m.shorted) { took("iterator", got.data(), got.size()); break; }
                    SIM_CHECK(got.size() == (n < avail ? n : avail), "short-read", "iterator gave %zu of %zu", got.size(), avail);
                    took("iterator", got.data(), got.size());
                }
        }
        if(full && !m.shorted) SIM_CHECK(in.rdstate() == st0, "spurious-state", "op %u was satisfied and changed the state %d -> %d", op, (int)st0, (int)in.rdstate());
        state_agrees(in);
        if(!good) SIM_CHECK((in.rdstate() & st0) == st0, "error-forgotten", "state went %d -> %d without clear()", (int)st0, (int)in.rdstate());
        if(false) { seeked:; }
        SIM_CHECK(!(F & DEVICE) || m.handed >= m.pos, "invented", "program read %zu, the device gave %zu", m.pos, m.handed);
        if(F & DEVICE) SIM_CHECK((F & PEEK) == 0 || m.handed <= m.vis, "invented", "device overrun");
        sim::state(sim::mix(sim::mix(m.text.size(), m.pos), sim::mix((uint64_t)in.rdstate(), op)));
        (void)pos0;
    }
    // nothing is lost: what is left comes out, in order
    in.clear(); faulty = false; m.vis = m.text.size();
    size_t left = m.text.size() - m.pos;
    std::vector<char> rest(left + 1);
    size_t got = 0;
    if constexpr(F & SGETN) for(unsigned k = 0; k < 3 && got < left; ++k) got += (size_t)sb.sgetn(rest.data() + got, (estd::streamsize)(left - got));
    else for(int c; got < left && (c = sb.sbumpc()) != -1; ++got) rest[got] = (char)c;
    SIM_CHECK(got == left, "lost", "%zu characters left, %zu came out at the end", left, got);
    SIM_CHECK(memcmp(rest.data(), m.text.data() + m.pos, left) == 0, "wrong-characters", "the remainder is [%s]", txt::show(string(rest.data(), left)).c_str());
    m.pos += left;
    SIM_CHECK(sb.sbumpc() == -1, "invented", "the source delivered a character after its end");
}

void setup(bool device, unsigned max, bool nul)
{
    m = Model();
    m.text = bytes(sim::range(0, max), nul); m.vis = device ? 0 : m.text.size();
    m.ended = !device || sim::choose(2);
    faulty = device && sim::choose(3) != 0;
    sim::log("source [%s]", txt::show(m.text).c_str());
}

// ---- sources ------------------------------------------------------------------------------------------------------------
void s_span()
{
    setup(false, 40, true);
    // exact-size block, so that any overrun is seen
    std::unique_ptr<char[]> mem(new char[m.text.size()]); memcpy(mem.get(), m.text.data(), m.text.size());
    if(sim::choose(2))
    {
        estd::span<const char> sp(mem.get(), m.text.size());
        estd::detail::basic_ispanstream<const char> in(sp);
        reads<UNGET | SEEK | PEEK | SGETN>(in, 12);
    }
    else
    {
        estd::span<char> sp(mem.get(), m.text.size());
        estd::detail::ispanstream in(sp);
        reads<UNGET | SEEK | PEEK | BLOCK | SGETN>(in, 12);
    }
}
void s_big_span()
{
    // more than 16 bits can count
    m = Model();
    static const uint32_t sizes[] = { 65530, 65535, 65536, 65537, 66000, 131080 };
    uint32_t n = sim::pick(sizes), seed = sim::choose(1000);
    for(uint32_t i = 0; i < n; ++i) m.text += (char)('a' + (i * 7 + i / 251 + seed) % 26);
    m.vis = n;
    sim::log("source of %u characters", n);
    estd::span<char> sp(&m.text[0], n);
    estd::detail::ispanstream in(sp);
    unsigned skip = sim::choose(3) == 2 ? n - sim::choose(20) : 65530 - sim::choose(20);
    if(sim::choose(2)) { in.seekg((long)skip, estd::ios_base::beg); m.pos = skip; SIM_CHECK(in.good(), "seek-failed", "seek to %u of %u", skip, n); }
    else { std::vector<char> b(skip); in.read(b.data(), (estd::streamsize)skip); took("read", b.data(), (size_t)in.gcount()); SIM_CHECK(m.pos == skip && in.good(), "short-read", "read(%u) of %u gave %zu", skip, n, m.pos); }
    SIM_PROBE("beyond-16-bit");
    reads<UNGET | PEEK | BLOCK | SGETN>(in, 12);
}
template <unsigned N, bool Z> void str()
{
    setup(false, N - (Z ? 1 : 0), !Z);
    typedef estd::layer1::basic_stringstream<char, N, Z> S;
    std::unique_ptr<S> in(new S);
    in->rdbuf()->sputn(m.text.data(), (estd::streamsize)m.text.size());
    reads<UNGET | SEEK | PEEK | BLOCK | SGETN>(*in, 12,
        [&](const string& t) { size_t k = std::min(t.size(), (size_t)N - (Z ? 1 : 0) - m.text.size()); in->rdbuf()->sputn(t.data(), (estd::streamsize)t.size()); m.text.append(t, 0, k); m.vis = m.text.size(); },
        [&] { in->rdbuf()->clear(); });
}
void s_str() { switch(sim::choose(5)) { case 0: str<9, true>(); break; case 1: str<40, true>(); break; case 2: str<40, false>(); break; case 3: str<256, false>(); break; default: str<24, false>(); } }
void s_str_ref()
{
    // a caller's own string, also shortened behind the stream's back
    setup(false, 39, false);
    estd::layer1::string<40> s; s += m.text.c_str();
    typedef estd::detail::streambuf<estd::internal::impl::basic_stringbuf<estd::layer1::string<40>&>> SB;
    estd::detail::basic_istream<SB> in(s);
    if(sim::choose(3) == 0)
    {
        unsigned k = sim::range(0, (uint32_t)m.text.size()); in.ignore((estd::streamsize)k);
        s.clear(); SIM_FAULT("source-shortened"); sim::log("cleared after %u", k);
        long a = (long)in.rdbuf()->in_avail(); SIM_CHECK(a == -1, "availability-overstated", "in_avail of an emptied string is %ld", a);
        char b[8]; in.read(b, 8); SIM_CHECK(in.gcount() == 0 && in.eof(), "invented", "read %d from an emptied string", (int)in.gcount());
        SIM_CHECK(in.rdbuf()->sgetc() == -1, "invented", "sgetc found something in an emptied string");
        return;
    }
    reads<UNGET | SEEK | PEEK | BLOCK | SGETN>(in, 12);
}
void s_cstr()
{
    setup(false, 40, false);
    std::unique_ptr<char[]> mem(new char[m.text.size() + 1]); memcpy(mem.get(), m.text.c_str(), m.text.size() + 1);
    estd::layer2::basic_istringstream<const char> in((const char*)mem.get());
    reads<UNGET | SEEK | PEEK>(in, 12);
}
void s_device()
{
    setup(true, 60, true);
    estd::detail::basic_istream<devbuf> in;
    reads<PEEK | DEVICE | BLOCK | SGETN>(in, 12);
}
template <unsigned N> void ring()
{
    setup(true, 60, true);
    typedef estd::internal::in_bipbuf_streambuf<devbuf, N> SB;
    estd::detail::basic_istream<SB> in;
    reads<PEEK | DEVICE | BLOCK | SGETN>(in, 12);
}
void s_ring() { switch(sim::choose(5)) { case 0: ring<1>(); break; case 1: ring<2>(); break; case 2: ring<5>(); break; case 3: ring<8>(); break; default: ring<64>(); } }
void s_serial()
{
    setup(true, 60, true); m.ended = false;
    Serial port;
    estd::detail::basic_istream<estd::arduino_streambuf> in(port);
    reads<PEEK | DEVICE | BLOCK | SGETN>(in, 12);
}

// files: what stdio gets from the operating system is short, late or an error
bool file_error, file_end;
ssize_t cookie_read(void*, char* s, size_t n)
{
    if(m.handed == m.vis) { if(m.vis < m.text.size() && file_error) { SIM_FAULT("read-error"); errno = EIO; return -1; } file_end = true; return 0; }
    size_t have = m.vis - m.handed, k = n < have ? n : have;
    if(k > 1 && sim::choose(3) == 0) { k = 1 + sim::choose((uint32_t)k - 1); SIM_FAULT("short-read"); }
    memcpy(s, m.text.data() + m.handed, k); m.handed += k;
    return (ssize_t)k;
}
void s_file()
{
    setup(true, 200, true);
    cookie_io_functions_t io = { cookie_read, nullptr, nullptr, nullptr };
    FILE* f = fopencookie(nullptr, "r", io);
    static char buf[64]; setvbuf(f, sim::choose(2) ? buf : nullptr, sim::choose(2) ? _IOFBF : _IONBF, sizeof buf);
    {
        estd::detail::basic_istream<estd::posix_streambuf<char>> in(*f);
        for(unsigned i = 0, ops = sim::range(1, 12); i < ops; ++i)
        {
            if(!in.good() && sim::choose(4)) { in.clear(); clearerr(f); sim::log("clear"); }
            arrive(); file_error = sim::choose(2);
            unsigned n = sim::range(0, 40);
            Guarded g(n + 4); auto st0 = in.rdstate(); size_t avail = m.avail();
            size_t got;
            if(sim::choose(3)) { in.read(g.get(), (estd::streamsize)n); got = (size_t)in.gcount(); SIM_CHECK(got <= n, "too-many", "read says %zu of %u", got, n);
                if(got < n) SIM_CHECK(!in.good(), "end-unreported", "read %zu of %u, state good", got, n); else SIM_CHECK(in.rdstate() == st0, "spurious-state", "complete read changed the state"); }
            else { got = (size_t)in.rdbuf()->sgetn(g.get(), (estd::streamsize)n); SIM_CHECK(got <= n, "too-many", "sgetn says %zu of %u", got, n); }
            sim::log("file read %u -> %zu of %zu state %d", n, got, avail, (int)in.rdstate());
            SIM_CHECK(got == (n < avail ? n : avail) || ferror(f) || feof(f), "short-read", "file read of %u gave %zu of %zu", n, got, avail);
            took("file read", g.get(), got); g.untouched_from(got, "file read");
        }
        in.clear(); clearerr(f); m.vis = m.text.size(); file_error = false;
        std::vector<char> rest(m.text.size() + 1); size_t left = m.text.size() - m.pos;
        in.read(rest.data(), (estd::streamsize)left);
        SIM_CHECK((size_t)in.gcount() == left && in.good(), "lost", "%zu left in the file, %d came", left, (int)in.gcount());
        took("file read", rest.data(), left);
    }
    fclose(f);
}

// blocks larger than 8 and 16 bits can count, from sources that hand them out in parts of any size
template <bool lines, class IS> void large_reads(IS& in)
{
    for(unsigned ops = sim::range(2, 8); ops--;)
    {
        if(sim::chance(2, 3)) { m.vis += sim::choose((uint32_t)(m.text.size() - m.vis) + 1); if(sim::chance(1, 4)) m.vis = m.text.size(); }
        if(!in.good()) in.clear();
        static const uint32_t some[] = { 255, 256, 257, 512, 1000, 4096, 32767, 32768, 65535, 65536, 65537 };
        uint32_t n = sim::chance(1, 2) ? sim::pick(some) : 1 + sim::choose(70000); size_t want = std::min<size_t>(n, m.avail());
        std::vector<char> b(n + 1); size_t got; const char* how; unsigned kind = sim::choose(lines ? 4 : 2);
        switch(kind)
        {
            case 0: how = "read"; in.read(b.data(), (estd::streamsize)n); got = (size_t)in.gcount(); break;
            case 1: how = "sgetn"; got = (size_t)in.rdbuf()->sgetn(b.data(), (estd::streamsize)n); break;
            default:
            {
                // a line of that length, the text has no other end
                how = "get"; for(got = 0; got < std::min<uint32_t>(n, 700); ++got) { int c = -1; if constexpr(lines) c = in.get(); if(c == -1) break; b[got] = (char)c; }
                want = std::min<size_t>(want, 700); break;
            }
        }
        sim::log("%s %u -> %zu of %zu", how, n, got, m.avail());
        SIM_CHECK(got == want, "short-read", "%s of %u gave %zu of %zu", how, n, got, m.avail());
        if(kind != 1) SIM_CHECK(in.good() == (kind ? got == std::min<uint32_t>(n, 700) : got == n), "end-unreported", "%s %zu of %u, state %d", how, got, n, (int)in.rdstate());
        took(how, b.data(), got); sim::nontrivial(); if(got > 255) SIM_PROBE("more-than-8-bits"); if(got > 65535) SIM_PROBE("beyond-16-bit");
    }
    m.vis = m.text.size(); in.clear(); size_t left = m.avail(); std::vector<char> b(left + 1); in.read(b.data(), (estd::streamsize)left);
    SIM_CHECK((size_t)in.gcount() == left && in.good(), "lost", "%zu left, %d came", left, (int)in.gcount()); took("read", b.data(), left);
}
template <unsigned N> void large_ring()
{
    typedef estd::internal::in_bipbuf_streambuf<devbuf, N> SB;
    struct S { estd::detail::basic_istream<SB> in; }; std::unique_ptr<S> s(new S); large_reads<true>(s->in);
}
void s_large()
{
    m = Model(); uint32_t n = sim::range(300, 1000) * (sim::chance(1, 2) ? 1 : 140), seed = sim::choose(1000);
    for(uint32_t i = 0; i < n; ++i) m.text += (char)('a' + (i * 7 + i / 251 + seed) % 26);
    m.ended = false; faulty = false;
    switch(sim::choose(7))
    {
        case 0: { estd::detail::basic_istream<devbuf> in; large_reads<true>(in); break; }
        case 1: large_ring<8>(); break;
        case 2: large_ring<300>(); break;
        case 3: large_ring<1000>(); break;
        case 4: large_ring<70000>(); break;
        case 5: { Serial port; estd::detail::basic_istream<estd::arduino_streambuf> in(port); large_reads<true>(in); break; }
        default:
        {
            m.vis = m.text.size(); file_error = false; cookie_io_functions_t io = { cookie_read, nullptr, nullptr, nullptr }; FILE* f = fopencookie(nullptr, "r", io);
            { estd::detail::basic_istream<estd::posix_streambuf<char>> in(*f); large_reads<false>(in); }
            fclose(f);
        }
    }
}

// ---- characters wider than a byte, read as plain ones --------------------------------------------------------------
template <class T> struct wide_dev : estd::internal::impl::streambuf_base<estd::char_traits<T>>
{
    typedef estd::internal::impl::streambuf_base<estd::char_traits<T>> base;
    using typename base::traits_type; using typename base::char_type; using typename base::int_type;
    estd::streamsize xin_avail() const { return (estd::streamsize)(m.vis - m.handed); }
    estd::streamsize showmanyc() const { size_t a = m.vis - m.handed; return a ? (estd::streamsize)a : m.ended && m.vis == m.text.size() ? -1 : 0; }
    T xsgetc() const { return wide::widen<T>(m.text[m.handed]); }
    void gbump(int n) { SIM_CHECK(n >= 0 && m.handed + n <= m.vis, "read-beyond-source", "advanced %d with %zu there", n, m.vis - m.handed); m.handed += n; }
    estd::streamsize xsgetn(T* s, estd::streamsize n)
    {
        SIM_CHECK(n >= 0 && n < 100000, "negative-read", "source asked for %d characters", (int)n);
        std::vector<char> v((size_t)n + 1);
        size_t k = dev_read(v.data(), (size_t)n);
        for(size_t i = 0; i < k; ++i) s[i] = wide::widen<T>(v[i]);
        return (estd::streamsize)k;
    }
    int_type underflow() { return traits_type::eof(); }
    int_type uflow() { return traits_type::eof(); }
};
template <class T, class SB> struct NarrowBuf
{
    SB& sb;
    estd::streamsize in_avail() { return sb.in_avail(); }
    int sgetc() { return wide::code<T>(sb.sgetc()); }
    int snextc() { return wide::code<T>(sb.snextc()); }
    int sbumpc() { return wide::code<T>(sb.sbumpc()); }
    estd::streamsize sgetn(char* s, estd::streamsize n)
    {
        std::unique_ptr<T[]> v(new T[n]);
        estd::streamsize k = sb.sgetn(v.get(), n);
        if(k > 0 && k <= n) { string t = wide::narrow(v.get(), (size_t)k); memcpy(s, t.data(), t.size()); }
        return k;
    }
    template <class O, class D, class W> auto pubseekoff(O o, D d, W w) { return sb.pubseekoff(o, d, w); }
};
template <class T, class IS> struct NarrowIn
{
    enum { badbit = IS::badbit, failbit = IS::failbit, eofbit = IS::eofbit };
    typedef typename std::remove_reference<decltype(*((IS*)nullptr)->rdbuf())>::type WB;
    IS& in; NarrowBuf<T, WB> b;
    explicit NarrowIn(IS& in) : in(in), b{*in.rdbuf()} {}
    NarrowBuf<T, WB>* rdbuf() { return &b; }
    bool good() const { return in.good(); } bool bad() const { return in.bad(); } bool eof() const { return in.eof(); } bool fail() const { return in.fail(); }
    explicit operator bool() const { return in ? true : false; }
    unsigned rdstate() const { return in.rdstate(); }
    void clear() { in.clear(); }
    estd::streamsize gcount() { return in.gcount(); }
    int get() { return wide::code<T>(in.get()); }
    int peek() { return wide::code<T>(in.peek()); }
    void unget() { in.unget(); }
    void ignore(estd::streamsize n) { in.ignore(n); }
    void ignore(estd::streamsize n, int d) { in.ignore(n, wide::widen<T>((char)d)); }
    template <class O, class D> void seekg(O o, D d) { in.seekg(o, d); }
    // the wide destination is an exact block, and nothing of it beyond what was delivered may change
    template <class F> void block(char* s, estd::streamsize n, F f, bool line)
    {
        std::unique_ptr<T[]> v(new T[n]);
        for(estd::streamsize i = 0; i < n; ++i) v[i] = wide::widen<T>('#');
        f(v.get());
        for(estd::streamsize i = 0; i < n; ++i) { s[i] = line && v[i] == T() ? '\0' : wide::narrow(&v[i], 1)[0]; }
    }
    void read(char* s, estd::streamsize n) { block(s, n, [&](T* v) { in.read(v, n); }, false); }
    estd::streamsize readsome(char* s, estd::streamsize n) { estd::streamsize r = 0; block(s, n, [&](T* v) { r = in.readsome(v, n); }, false); return r; }
    void getline(char* s, estd::streamsize n, char d) { block(s, n, [&](T* v) { in.getline(v, n, wide::widen<T>(d)); }, true); }
};
template <class T> void wide_span()
{
    setup(false, 40, true);
    std::unique_ptr<T[]> mem(new T[m.text.size()]);
    for(size_t i = 0; i < m.text.size(); ++i) mem[i] = wide::widen<T>(m.text[i]);
    estd::span<T> sp(mem.get(), m.text.size());
    typedef estd::detail::basic_istream<estd::internal::streambuf<estd::internal::impl::in_span_streambuf<T>>> IS;
    IS in(sp);
    NarrowIn<T, IS> n(in);
    reads<UNGET | SEEK | PEEK | BLOCK | SGETN | WIDE>(n, 12);
}
template <class T, unsigned N> void wide_ring()
{
    setup(true, 60, true);
    typedef estd::internal::in_bipbuf_streambuf<estd::internal::streambuf<wide_dev<T>>, N> SB;
    typedef estd::detail::basic_istream<SB> IS;
    std::unique_ptr<IS> in(new IS);
    NarrowIn<T, IS> n(*in);
    reads<PEEK | DEVICE | BLOCK | SGETN | WIDE>(n, 12);
}
template <class T> void wide_device()
{
    setup(true, 60, true);
    typedef estd::detail::basic_istream<estd::internal::streambuf<wide_dev<T>>> IS;
    IS in;
    NarrowIn<T, IS> n(in);
    reads<PEEK | DEVICE | BLOCK | SGETN | WIDE>(n, 12);
}
template <class T, unsigned N> void wide_str()
{
    setup(false, N, true);
    typedef estd::layer1::basic_stringstream<T, N, false> S;
    std::unique_ptr<S> in(new S);
    std::basic_string<T> w = wide::widen<T>(m.text);
    in->rdbuf()->sputn(w.data(), (estd::streamsize)w.size());
    NarrowIn<T, S> n(*in);
    reads<UNGET | SEEK | PEEK | BLOCK | SGETN | WIDE>(n, 12,
        [&](const string& t) { size_t k = std::min(t.size(), (size_t)N - m.text.size()); w = wide::widen<T>(t); in->rdbuf()->sputn(w.data(), (estd::streamsize)t.size()); m.text.append(t, 0, k); m.vis = m.text.size(); },
        [&] { in->rdbuf()->clear(); });
}
void s_wide()
{
    SIM_PROBE("wide-characters");
    switch(sim::choose(8))
    {
        case 0: wide_span<char16_t>(); break; case 1: wide_span<char32_t>(); break; case 2: wide_ring<char16_t, 1>(); break; case 3: wide_ring<char16_t, 8>(); break;
        case 4: wide_ring<wchar_t, 33>(); break; case 5: wide_device<char16_t>(); break; case 6: wide_str<char16_t, 40>(); break; default: wide_str<char32_t, 9>(); break;
    }
}

const sim::Scenario scen[] = {
    { "span", s_span, 3 }, { "large-span", s_big_span, 1 }, { "inline-string", s_str, 3 }, { "callers-string", s_str_ref, 2 }, { "c-string", s_cstr, 2 },
    { "custom-device", s_device, 3 }, { "ring-over-device", s_ring, 4 }, { "serial-port", s_serial, 2 }, { "file", s_file, 2 }, { "large-blocks", s_large, 1 }, { "wide-characters", s_wide, 3 },
};
}
const sim::Harness sim::harness = {
    "C04",
    "a run is a random sequence of 1-24 reads (get, peek, read, readsome, getline, ignore, unget, seek, ws, char extraction, iterator, raw streambuf calls) against one source; non-trivial when a source fault (stall, short read, timeout, error, growth, clearing) or an out-of-range seek fired; distinct by hash of the event log",
    "basic_istream unformatted input, detail::streambuf, in_span_streambuf, basic_stringbuf, in_buffered_bipbuf with the willemt ring, arduino_streambuf, posix streambuf (with libc stdio), istreambuf_iterator",
    "the device behind the streambuf, the Arduino Stream, the file behind the stdio cookie",
    "glibc stdio is trusted|only block reads are driven on files (character reads on posix files do not compile at this commit)|input operations on a failed stream may still extract (the library does not implement sentry); only peek refuses",
    100000, 10000000, scen, sizeof scen / sizeof *scen, nullptr,
};
