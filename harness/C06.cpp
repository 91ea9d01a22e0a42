// EXTRA: $R/src/estd/ext/willemt/bipbuffer/bipbuffer.c
#include <estd/internal/bip/buffer.h>
#include <sim.h>
#include <deque>
#include <vector>
#include <cstring>
#include <cstdlib>

namespace {
struct Model
{
    std::deque<unsigned char> q;
    unsigned cap;
    unsigned next = 1;
    unsigned char gen() { unsigned h = next++ * 2654435761u; return (unsigned char)(h >> 13 ^ next); }
};

// a reservation in progress: the producer got a pointer and fills it bit by bit before committing
struct Pending { bool on = false; unsigned char* p = nullptr; unsigned room = 0, filled = 0; std::vector<unsigned char> bytes; };

template <class R>
struct Client
{
    R& r; Model m; Pending res;
    Client(R& r, unsigned cap) : r(r) { m.cap = cap; }

    unsigned readable()    // what one read can reach, seen from outside
    {
        unsigned n = 0, used = r.used();
        if(m.cap > 1000) for(unsigned d = 1u << 17; d; d >>= 1) if(n + d <= used && r.peek((int)(n + d))) n += d;   // how much a read can reach only shrinks with its length
        while(n < used && r.peek((int)n + 1)) ++n;
        return n;
    }
    void queries()
    {
        unsigned used = r.used(), un = r.unused();
        SIM_CHECK(used == m.q.size(), "used-wrong", "%zu bytes held, used() says %u", m.q.size(), used);
        SIM_CHECK(un <= m.cap - m.q.size(), "unused-overclaims", "%zu of %u held, unused() says %u", m.q.size(), m.cap, un);
        SIM_CHECK(!m.q.empty() || res.on || un == m.cap, "space-lost", "ring drained, capacity %u, unused() %u", m.cap, un);
        const unsigned char* p = r.peek(0);
        SIM_CHECK(!!p == !m.q.empty(), "peek-empty-wrong", "%zu bytes held, peek(0) %s", m.q.size(), p ? "data" : "null");
        unsigned n = readable();
        SIM_CHECK(m.q.empty() || n > 0, "unreachable-bytes", "%zu bytes held, none readable", m.q.size());
        check_front(p, n, "peek");
        SIM_CHECK(!r.peek((int)used + 1) && !r.peek((int)m.cap + 1), "peek-overclaims", "peek beyond the %u bytes held succeeded", used);
        sim::state(sim::mix(m.cap, sim::mix(m.q.size(), sim::mix(un, n))));
    }
    void check_front(const unsigned char* p, unsigned n, const char* what)
    {
        for(unsigned i = 0; i < n; ++i)
            SIM_CHECK(p[i] == m.q[i], "not-fifo", "%s byte %u of %u: %02x, expected %02x", what, i, n, p[i], m.q[i]);
    }
    void offer()
    {
        unsigned n = sim::range(0, sim::choose(4) ? m.cap / 2 + 1 : m.cap + 3);
        std::vector<unsigned char> b;
        for(unsigned i = 0; i < n; ++i) b.push_back(m.gen());
        unsigned un = r.unused();
        int got = r.offer(b.data(), (int)n);
        sim::log("offer %u (free %u) -> %d", n, un, got);
        SIM_CHECK(got == (n <= un ? (int)n : 0), "offer-result", "offered %u with %u free, result %d", n, un, got);
        if(n > un) SIM_FAULT("ring-full");
        for(int i = 0; i < got; ++i) m.q.push_back(b[(size_t)i]);
        SIM_CHECK(r.unused() + got >= un, "space-lost", "%u free, wrote %d, %u free", un, got, r.unused());
    }
    void reserve()
    {
        res.on = true; res.room = r.unused(); res.p = r.offer_begin(); res.filled = 0; res.bytes.clear();
        sim::log("reserve, room %u", res.room);
    }
    void fill()
    {
        if(res.filled == res.room) return;
        unsigned n = sim::range(1, res.room - res.filled);
        for(unsigned i = 0; i < n; ++i) { unsigned char c = m.gen(); res.p[res.filled++] = c; res.bytes.push_back(c); }
        sim::log("fill to %u", res.filled);
        SIM_PROBE("partial-fill");
    }
    void commit()
    {
        unsigned n = sim::chance(1, 3) ? sim::choose(res.filled + 1) : res.filled;
        if(n < res.filled) SIM_FAULT("partial-commit");
        r.offer_end(n);
        sim::log("commit %u of %u", n, res.filled);
        for(unsigned i = 0; i < n; ++i) m.q.push_back(res.bytes[i]);
        res.on = false;
    }
    void poll()
    {
        unsigned can = readable();
        unsigned n = sim::chance(1, 4) ? sim::range(0, m.cap + 2) : sim::range(0, can);
        unsigned un = r.unused();
        const unsigned char* p = r.poll((int)n);
        sim::log("poll %u (readable %u) -> %s", n, can, p ? "data" : "null");
        SIM_CHECK(!!p == (can > 0 && n <= can), "poll-result", "polled %u with %u readable: %s", n, can, p ? "data" : "null");
        if(!p) { if(n > can) SIM_FAULT("read-past-available"); return; }
        check_front(p, n, "poll");
        m.q.erase(m.q.begin(), m.q.begin() + n);
        // what a read frees can be written at once
        SIM_CHECK(r.unused() >= un && r.unused() >= n, "space-lost", "%u free, read %u, %u free", un, n, r.unused());
    }
    void drain()
    {
        unsigned guard = 0;
        while(!m.q.empty())
        {
            unsigned n = readable();
            SIM_CHECK(n > 0 && guard++ < 4, "unreachable-bytes", "%zu bytes held, none readable", m.q.size());
            const unsigned char* p = r.poll((int)n);
            SIM_CHECK(p, "poll-result", "poll of %u readable bytes refused", n);
            check_front(p, n, "drain");
            m.q.erase(m.q.begin(), m.q.begin() + n);
        }
        SIM_CHECK(r.unused() == m.cap && r.used() == 0, "space-lost", "drained ring of %u: unused %u used %u", m.cap, r.unused(), r.used());
    }
    void drive()
    {
        unsigned n = sim::range(2, 60);
        unsigned bias = sim::choose(3);      // produce-heavy, even, consume-heavy
        for(unsigned i = 0; i < n; ++i)
        {
            unsigned k = sim::choose(10);
            bool produce = k < (bias == 0 ? 7u : bias == 1 ? 5u : 3u);
            if(produce)
            {
                if(res.on) { if(sim::chance(1, 2)) fill(); else commit(); }
                else if(sim::choose(3) == 1) { reserve(); sim::nontrivial(); }
                else offer();
            }
            else if(!res.on)
            {
                if(sim::choose(16) == 1) drain(); else poll();
            }
            queries();
        }
        if(res.on) { if(sim::choose(2)) { commit(); queries(); } else { res.on = false; SIM_FAULT("reservation-abandoned"); } }
        queries();
        drain();
        queries();
        // the whole capacity is usable again
        std::vector<unsigned char> b;
        for(unsigned i = 0; i < m.cap; ++i) b.push_back(m.gen());
        SIM_CHECK(r.offer(b.data(), (int)m.cap) == (int)m.cap, "space-lost", "drained ring of %u refuses a full-size write", m.cap);
        m.q.assign(b.begin(), b.end()); queries(); drain();
    }
};

template <unsigned N> void l1()
{
    typedef estd::layer1::bipbuf<N> R;
    R* r = new R; // its own heap block: an overrun is seen
    sim::log("layer1 %u", N);
    Client<R> c(*r, N); c.queries(); c.drive();
    delete r;
}
void s_l1() { switch(sim::choose(6)) { case 0: l1<1>(); break; case 1: l1<2>(); break; case 2: l1<5>(); break; case 3: l1<8>(); break; case 4: l1<17>(); break; default: l1<40>(); } }
void s_large()
{
    switch(sim::choose(40))
    {
        default: switch(sim::choose(5)) { case 0: l1<127>(); break; case 1: l1<128>(); break; case 2: l1<255>(); break; case 3: l1<256>(); break; default: l1<1000>(); } return;
        case 3: case 4: case 5: l1<32768>(); return;
        case 6: case 7: case 8: l1<65535>(); return;
        case 9: case 10: l1<70000>(); return;
    }
}
void s_l3()
{
    unsigned cap = sim::range(1, 33);
    bipbuf_t* b = (bipbuf_t*)malloc(sizeof(bipbuf_t) + cap);
    {
        estd::layer3::bipbuf r(b, (int)cap);
        sim::log("layer3 %u", cap);
        Client<estd::layer3::bipbuf> c(r, cap); c.queries(); c.drive();
    }
    free(b);
}
// two views (a producer's and a consumer's) of the same ring
void s_shared()
{
    unsigned cap = sim::range(1, 24);
    bipbuf_t* b = bipbuf_new(cap);
    struct Both
    {
        estd::layer3::bipbuf w, c;
        Both(bipbuf_t* b, unsigned n) : w(b, (int)n), c(b) {}
        int offer(const unsigned char* d, int n) { return w.offer(d, n); }
        unsigned char* offer_begin() { return w.offer_begin(); }
        void offer_end(unsigned n) { w.offer_end(n); }
        const unsigned char* peek(int n) { return c.peek(n); }
        const unsigned char* poll(int n) { return c.poll(n); }
        unsigned used() { return c.used(); }
        unsigned unused() { return w.unused(); }
    } r(b, cap);
    sim::log("shared %u", cap);
    Client<Both> c(r, cap); c.queries(); c.drive();
    bipbuf_free(b);
}
// finding: consumer empties the ring between the producer's reservation and its commit
void p_reserved()
{
    sim::choose(2);
    estd::layer1::bipbuf<8> r;
    r.offer((const unsigned char*)"abc", 3);
    unsigned char* p = r.offer_begin();
    p[0] = 'X'; p[1] = 'Y';
    r.poll(3);
    r.offer_end(2);
    const unsigned char* q = r.peek(2);
    SIM_CHECK(q && q[0] == 'X' && q[1] == 'Y', "poll-during-reservation", "committed XY, read %c%c", q ? q[0] : '-', q ? q[1] : '-');
}

const sim::Scenario scen[] = { { "inline-ring", s_l1, 300 }, { "caller-owned-ring", s_l3, 300 }, { "two-views", s_shared, 200 }, { "large-ring", s_large, 10 }, { "poll-while-reserved", p_reserved, 0 } };
}
const sim::Harness sim::harness = {
    "C06",
    "a run is a random interleaving of 2-60 producer steps (offer, reserve, fill, commit in part, abandon) and consumer steps (peek, poll, drain) on one ring of 1-40 bytes, rarely of 127-70000; non-trivial when a reservation is open across steps or the ring refuses an operation; distinct by hash of the event log",
    "layer1::bipbuf, layer3::bipbuf, willemt bipbuffer",
    "none (producer and consumer are the simulated clients)",
    "sizes passed in are non-negative|operations are atomic with respect to each other (the ring has no internal synchronisation)|no consumer read while a reservation is open, except in the known-finding probe",
    200000, 20000000, scen, sizeof scen / sizeof *scen, nullptr,
};
