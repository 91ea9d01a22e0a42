// C17: bounded queues, double-ended queues and stacks.  Producers and consumers take turns in any order,
// containers run full, empty and around their end, constructions fail; a reference sequence says what is held.
#include <estd/queue.h>
#include <estd/stack.h>
#include <estd/ostream.h>
#include <ledger.h>
#include <cstring>
#include <deque>
#include <memory>

namespace {
using led::Val;

struct alignas(32) Wide : Val { char pad[40]; using Val::Val; Wide() {} };
inline int get(const Val& v) { return v.get(); }
inline int get(char c) { return c; }
inline int get(int c) { return c; }

// the container under test with guard bytes on both sides of it
template <class C> struct Guarded
{
    struct Box { unsigned char pre[64]; alignas(alignof(C)) unsigned char mem[sizeof(C)]; unsigned char post[64]; };
    std::unique_ptr<Box> box; C* c;
    Guarded() : box(new Box) { fill(); c = new (box->mem) C(); }
    Guarded(Guarded& from) : box(new Box) { fill(); c = new (box->mem) C(std::move(*from.c)); }
    ~Guarded() { if(c) destroy(); }
    void fill() { memset(box.get(), 0xA5, sizeof *box); }
    void check(const char* op) { for(int i = 0; i < 64; ++i) SIM_CHECK(box->pre[i] == 0xA5 && box->post[i] == 0xA5, "touched-outside", "%s wrote outside the container", op); }
    void destroy() { c->~C(); check("destruction"); c = nullptr; }
};
typedef std::deque<int> Model;
void cover(const Model& m, unsigned cap) { uint64_t h = 77 + cap; for(int v : m) h = sim::mix(h, v); sim::state(h); sim::nontrivial(); if(m.size() == cap) SIM_FAULT("full"); if(m.empty()) SIM_FAULT("empty"); }
void lifetimes(const Model& m, const char* op, bool ledger) { if(ledger) SIM_CHECK(led::live() == m.size(), led::live() < m.size() ? "destroyed-early" : "not-destroyed", "after %s: %zu elements alive, %zu held", op, led::live(), m.size()); }

// run f; true if the construction it asked for failed
template <class F> bool attempt(bool boom, int nth, F f)
{
    if(boom) led::arm(nth);
    bool failed = false;
    try { f(); } catch(led::Boom&) { failed = true; sim::log("   construction failed"); }
    led::disarm();
    return failed;
}

// containers whose sizes and positions do not fit a byte: filled and drained in long phases
struct Large
{
    bool on, fill = true; unsigned n, edge = 0;
    explicit Large(unsigned n) : on(n > 100), n(n) { if(on) { SIM_PROBE("more-than-a-byte-of-slots"); edge = sim::choose(n); } }
    unsigned ops() { return 2 * n + sim::range(0, n); }
    bool push(size_t held) { if(held == n && sim::choose(4) == 0) fill = false; if(held <= edge && !fill && sim::choose(4) == 0) { fill = true; edge = sim::choose(n / 2); } return sim::choose(10) == 0 ? !fill : fill; }
};
template <class T, unsigned N, bool L> void deque()
{
    led::reset();
    typedef estd::layer1::deque<T, N> D;
    auto g = std::make_unique<Guarded<D>>(); Model m; int next = 1;
    auto audit = [&](const char* op)
    {
        D& d = *g->c; const D& cd = d; g->check(op); lifetimes(m, op, L);
        SIM_CHECK(d.size() == m.size(), "size", "after %s: size() is %zu, %zu held", op, (size_t)d.size(), m.size());
        SIM_CHECK(d.empty() == m.empty() && d.max_size() == N, "state", "after %s: empty() %d max_size() %zu with %zu of %u held", op, (int)d.empty(), (size_t)d.max_size(), m.size(), N);
        if(!m.empty())
        {
            SIM_CHECK(get(d.front()) == m.front() && get(cd.front()) == m.front(), "front", "after %s: front is %d, should be %d", op, get(d.front()), m.front());
            SIM_CHECK(get(d.back()) == m.back() && get(cd.back()) == m.back(), "back", "after %s: back is %d, should be %d", op, get(d.back()), m.back());
            SIM_CHECK((uintptr_t)&d.front() % alignof(T) == 0, "misaligned", "an element is not aligned");
        }
        size_t n = 0; auto e = d.end();
        auto i = d.begin();
        for(; i != e; sim::choose(2) ? (void)++i : (void)i++, ++n) { SIM_CHECK(n < m.size() && get(*i) == m[n], "traversal", "after %s: visited element %zu differs", op, n); }
        SIM_CHECK(n == m.size() && i == e, "traversal", "after %s: visited %zu of %zu elements", op, n, m.size());
        while(n-- > 0) { --i; SIM_CHECK(get(*i) == m[n], "traversal", "after %s: walking back, element %zu differs", op, n); SIM_CHECK((i == d.begin()) == (n == 0), "traversal", "after %s: walking back, element %zu and the beginning", op, n); }
        cover(m, N);
    };
    int bias = (int)sim::range(0, 2);      // filling, balanced, draining
    Large large(N);
    for(unsigned k = 0, ops = large.on ? large.ops() : sim::range(3, 60); k < ops; ++k)
    {
        D& d = *g->c; bool full = m.size() == N, boom = L && sim::choose(7) == 1;
        if(sim::choose(12) == 11) bias = (int)sim::range(0, 2);
        bool push = large.on ? large.push(m.size()) : (int)sim::choose(6) < 4 - bias * 1; const char* op; int v = next; bool ok = false, rep = true;
        if(push)
        {
            bool failed;
            switch(sim::choose(6))
            {
                case 5: if(!m.empty())
                {
                    // one of its own elements
                    bool last = sim::choose(2), back = sim::choose(2); v = last ? m.back() : m.front(); op = back ? "push_back own" : "push_front own"; sim::log("%u %s %d", k, op, v); SIM_PROBE("own-element");
                    failed = attempt(boom, 1, [&] { const D& cd = d; const T& own = last ? cd.back() : cd.front(); ok = back ? d.push_back(own) : d.push_front(own); });
                    if(!failed && !full) { if(back) m.push_back(v); else m.push_front(v); } break;
                } // fall through
                case 0: { op = "push_back"; sim::log("%u %s %d", k, op, v); T x(v); failed = attempt(boom, 1, [&] { ok = d.push_back((const T&)x); }); if(L) SIM_CHECK(get(x) == v, "argument", "push_back changed its argument"); if(!failed && !full) m.push_back(v); break; }
                case 1: { op = "push_back move"; sim::log("%u %s %d", k, op, v); T x(v); failed = attempt(boom, 1, [&] { ok = d.push_back(std::move(x)); }); if(full && L) SIM_CHECK(get(x) == v, "argument", "a refused push took its argument"); if(!failed && !full) m.push_back(v); break; }
                case 2: { op = "push_front"; sim::log("%u %s %d", k, op, v); T x(v); failed = attempt(boom, 1, [&] { ok = d.push_front(x); }); if(!failed && !full) m.push_front(v); break; }
                case 3: { op = "emplace_back"; sim::log("%u %s %d", k, op, v); rep = false; failed = attempt(boom, 1, [&] { T& r = d.emplace_back(v); if(!full) SIM_CHECK(get(r) == v, "emplace-result", "emplace_back returned another element"); }); if(!failed && !full) m.push_back(v); break; }
                default: { op = "emplace_front"; sim::log("%u %s %d", k, op, v); rep = false; failed = attempt(boom, 1, [&] { T& r = d.emplace_front(v); if(!full) SIM_CHECK(get(r) == v, "emplace-result", "emplace_front returned another element"); }); if(!failed && !full) m.push_front(v); break; }
            }
            if(full) SIM_CHECK(!failed, "constructed-for-nothing", "%s onto a full container constructed an element", op);
            if(rep && !failed) SIM_CHECK(ok == !full, full ? "not-refused" : "refused", "%s with %zu of %u held reported %d", op, full ? N : m.size() - 1, N, (int)ok);
            if(full) sim::log("   full");
            ++next; if(next > 100) next = 1;
        }
        else if(sim::choose(large.on ? 100 : 10) == 9)
        {
            op = "move"; sim::log("%u move the container", k); SIM_FAULT("moved");
            auto h = std::make_unique<Guarded<D>>(*g);
            SIM_CHECK(g->c->size() == 0 || !L || true, "moved", "unreachable");
            g = std::move(h);
        }
        else if(sim::choose(2)) { op = "pop_front"; sim::log("%u %s", k, op); bool r = d.pop_front(); SIM_CHECK(r == !m.empty(), "pop-result", "pop_front of %zu elements reported %d", m.size(), (int)r); if(r) m.pop_front(); }
        else { op = "pop_back"; sim::log("%u %s", k, op); bool r = d.pop_back(); SIM_CHECK(r == !m.empty(), "pop-result", "pop_back of %zu elements reported %d", m.size(), (int)r); if(r) m.pop_back(); }
        audit(op);
    }
    g->destroy();
    if(L) SIM_CHECK(led::live() == 0, "not-destroyed", "%zu of %zu elements outlive their container", led::live(), m.size());
}
template <class T, unsigned N, bool L> void queue()
{
    led::reset();
    typedef estd::layer1::queue<T, N> Q;
    auto g = std::make_unique<Guarded<Q>>(); Model m; int next = 1;
    Large large(N);
    for(unsigned k = 0, ops = large.on ? large.ops() : sim::range(3, 80); k < ops; ++k)
    {
        Q& q = *g->c; const Q& cq = q; bool full = m.size() == N, boom = L && sim::choose(7) == 1; const char* op; int v = next; bool failed = false, ok = !full;
        switch(large.on ? large.push(m.size()) ? sim::choose(3) : sim::choose(60) + 3 : sim::choose(7))
        {
            case 0: if(!m.empty() && sim::choose(3) == 2) { bool last = sim::choose(2); v = last ? m.back() : m.front(); op = "push own"; sim::log("%u producer: %s %d", k, op, v); SIM_PROBE("own-element"); failed = attempt(boom, 1, [&] { ok = q.push(last ? cq.back() : cq.front()); }); goto pushed; }
            { op = "push"; sim::log("%u producer: %s %d", k, op, v); T x(v); failed = attempt(boom, 1, [&] { ok = q.push((const T&)x); }); goto pushed; }
            case 1: { op = "push move"; sim::log("%u producer: %s %d", k, op, v); T x(v); failed = attempt(boom, 1, [&] { ok = q.push(std::move(x)); }); goto pushed; }
            case 2: { op = "emplace"; sim::log("%u producer: %s %d", k, op, v); failed = attempt(boom, 1, [&] { q.emplace(v); }); goto pushed; }
            pushed:
                SIM_CHECK(failed || ok == !full, full ? "not-refused" : "refused", "%s with %zu of %u held reported %d", op, m.size(), N, (int)ok);
                if(!failed && !full) m.push_back(v);
                if(++next > 100) next = 1;
                break;
            case 3: if(sim::choose(4) == 3) { op = "move"; sim::log("%u move the queue", k); SIM_FAULT("moved"); auto h = std::make_unique<Guarded<Q>>(*g); g = std::move(h); break; } // fall through
            default: { op = "pop"; sim::log("%u consumer: %s", k, op); if(!m.empty()) SIM_CHECK(get(q.front()) == m.front(), "order", "consumer got %d, next in order is %d", get(q.front()), m.front()); bool r = q.pop(); SIM_CHECK(r == !m.empty(), "pop-result", "pop of %zu elements reported %d", m.size(), (int)r); if(r) m.pop_front(); break; }
        }
        Q& p = *g->c; (void)cq; g->check(op); lifetimes(m, op, L);
        SIM_CHECK(p.size() == m.size() && p.empty() == m.empty(), "size", "after %s: size() %zu empty() %d with %zu held", op, (size_t)p.size(), (int)p.empty(), m.size());
        const Q& cp = p;
        if(!m.empty()) { SIM_CHECK(get(p.front()) == m.front() && get(cp.front()) == m.front(), "front", "after %s: front is %d, should be %d", op, get(p.front()), m.front()); SIM_CHECK(get(p.back()) == m.back() && get(cp.back()) == m.back(), "back", "after %s: back is %d, should be %d", op, get(p.back()), m.back()); }
        cover(m, N);
    }
    g->destroy();
    if(L) SIM_CHECK(led::live() == 0, "not-destroyed", "%zu of %zu elements outlive their queue", led::live(), m.size());
}
// a stack on a vector, or on a deque
template <class S, class T, unsigned N, bool L, bool Walk> void stack()
{
    led::reset();
    Guarded<S> g; Model m; int next = 1; S& s = *g.c;
    Large large(N);
    for(unsigned k = 0, ops = large.on ? large.ops() : sim::range(3, 60); k < ops; ++k)
    {
        bool full = m.size() == N, boom = L && sim::choose(7) == 1; const char* op; int v = next; bool failed = false;
        switch(large.on ? large.push(m.size()) ? sim::choose(2) : 2 : sim::choose(4))
        {
            case 0:
                if constexpr(!Walk) if(!m.empty() && sim::choose(3) == 2) { v = m.back(); op = "push own"; sim::log("%u %s %d", k, op, v); SIM_PROBE("own-element"); failed = attempt(boom && !full, 1, [&] { s.push((const T&)s.top()); }); break; }
                { op = "push"; sim::log("%u %s %d", k, op, v); T x(v); failed = attempt(boom && !full, 1, [&] { s.push((const T&)x); }); break; }
            case 1: { op = "push move"; sim::log("%u %s %d", k, op, v); T x(v); failed = attempt(boom && !full, 1, [&] { s.push(std::move(x)); }); break; }
            default: op = "pop"; if(m.empty()) continue; sim::log("%u %s", k, op); s.pop(); m.pop_back(); break;
        }
        if(*op == 'p' && op[1] == 'u') { if(!failed && !full) m.push_back(v); if(++next > 100) next = 1; }
        g.check(op); lifetimes(m, op, L);
        SIM_CHECK(s.size() == m.size() && s.empty() == m.empty(), "size", "after %s: size() %zu empty() %d with %zu held", op, (size_t)s.size(), (int)s.empty(), m.size());
        if(!m.empty()) { const T& t = s.top(); SIM_CHECK(get(t) == m.back(), "top", "after %s: top is %d, should be %d", op, get(t), m.back()); }
        if constexpr(Walk) { size_t n = 0; auto e = s.end(); for(auto i = s.begin(); i != e; ++i, ++n) { const T& t = *i; SIM_CHECK(n < m.size() && get(t) == m[n], "traversal", "after %s: visited element %zu differs", op, n); } SIM_CHECK(n == m.size(), "traversal", "after %s: visited %zu of %zu", op, n, m.size()); }
        cover(m, N);
    }
    while(!m.empty()) { const T& t = s.top(); SIM_CHECK(get(t) == m.back(), "order", "popping: top is %d, should be %d", get(t), m.back()); s.pop(); m.pop_back(); lifetimes(m, "pop", L); }
    SIM_CHECK(s.empty(), "size", "emptied but size() is %zu", (size_t)s.size());
}
// a queue of output characters: what it claims to have taken can never exceed its room
void s_outqueue()
{
    struct Dev { typedef char char_type; };
    estd::internal::impl::out_queue_streambuf<Dev> b; char buf[100]; memset(buf, 'x', sizeof buf); long taken = 0;
    for(unsigned k = 0, ops = sim::range(1, 8); k < ops; ++k)
    {
        long n = sim::range(0, 100), r = b.xsputn(buf, n); long want = n < 64 - taken ? n : 64 - taken;
        sim::log("%u put %ld: %ld", k, n, r);
        SIM_CHECK(r == want, "claims", "with %ld of 64 characters held, a block of %ld was taken as %ld", taken, n, r);
        taken += r; sim::nontrivial(); sim::state(sim::mix(5, (uint64_t)taken)); if(taken == 64) SIM_FAULT("full");
    }
}
void s_large()
{
    switch(sim::choose(9))
    {
        case 0: deque<int, 255, false>(); break; case 1: deque<char, 256, false>(); break; case 2: deque<Val, 300, true>(); break;
        case 3: queue<char, 255, false>(); break; case 4: queue<int, 256, false>(); break; case 5: queue<Val, 300, true>(); break;
        case 6: stack<estd::layer1::stack<int, 255>, int, 255, false, true>(); break; case 7: stack<estd::layer1::stack<int, 256>, int, 256, false, true>(); break;
        default: stack<estd::stack<Val, estd::layer1::deque<Val, 300>>, Val, 300, true, false>(); break;
    }
}
void s_deque() { switch(sim::choose(6)) { case 0: deque<Val, 1, true>(); break; case 1: deque<Val, 2, true>(); break; case 2: deque<Val, 5, true>(); break; case 3: deque<Wide, 3, true>(); break; case 4: deque<char, 7, false>(); break; default: deque<Val, 4, true>(); } }
void s_queue() { switch(sim::choose(5)) { case 0: queue<Val, 1, true>(); break; case 1: queue<Val, 3, true>(); break; case 2: queue<Wide, 2, true>(); break; case 3: queue<int, 6, false>(); break; default: queue<Val, 4, true>(); } }
template <class T, unsigned N> using VS = estd::layer1::stack<T, N>;
template <class T, unsigned N> using DS = estd::stack<T, estd::layer1::deque<T, N>>;
void s_stack() { switch(sim::choose(6)) { case 0: stack<VS<int, 1>, int, 1, false, true>(); break; case 1: stack<VS<char, 5>, char, 5, false, true>(); break; case 2: stack<VS<Val, 3>, Val, 3, true, true>(); break; case 3: stack<DS<Val, 3>, Val, 3, true, false>(); break; case 4: stack<DS<int, 1>, int, 1, false, false>(); break; default: stack<VS<int, 4>, int, 4, false, true>(); } }
const sim::Scenario scen[] = { { "deque", s_deque, 4 }, { "queue", s_queue, 3 }, { "stack", s_stack, 3 }, { "output-queue", s_outqueue, 1 }, { "large", s_large, 1 } };
}
const sim::Harness sim::harness = {
    "C17",
    "a run is an interleaving of 3-80 producer and consumer operations on one container of 1-7 slots, or of up to 900 operations in long filling and draining phases on one of 255-300 slots, with failing constructions and the container moved while in use; non-trivial when an operation ran; distinct by hash of the contents after each operation",
    "layer1::deque, queue, layer1::stack, stack over a deque, the output queue buffer, fixed allocators and dynamic arrays under the stack",
    "none (element type accounts for its lifetime and fails on demand)",
    "front, back and top are only read when something is held|iterators are not kept across a change|elements left in a vector-based stack when it is destroyed are not judged",
    250000, 20000000, scen, sizeof scen / sizeof *scen, nullptr,
};
