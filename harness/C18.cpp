// C18: priority queues and the heap they stand on.  Any interleaving of pushes, pops, emplacements and
// removals; ties, every fill level, full and empty; the reference is the set of elements held.
#include <estd/queue.h>
#include <estd/vector.h>
#include <ledger.h>
#include <algorithm>
#include <cstring>
#include <map>
#include <memory>
#include <set>
#include <vector>

namespace {
using led::Val;

// value = priority * 1000 + serial: elements of equal priority can be told apart, the order cannot
struct Plain { int v; Plain() : v(0) {} Plain(int n) : v(n) {} int get() const { return v; } };
inline int num(const Plain& p) { return p.v; }
inline int num(const Val& p) { return p.get(); }
template <class T> typename std::enable_if<std::is_integral<T>::value, int>::type num(const T& p) { return (int)p; }
struct ByPrio { template <class T> bool operator()(const T& a, const T& b) const { return num(a) / 1000 < num(b) / 1000; } };
struct Reverse { template <class T> bool operator()(const T& a, const T& b) const { return num(a) / 1000 > num(b) / 1000; } };
struct Flip { int up; Flip(int u = 1) : up(u) {} template <class T> bool operator()(const T& a, const T& b) const { int x = num(a) / 1000, y = num(b) / 1000; return up ? x < y : x > y; } };
typedef std::multiset<int> Model;
void cover(const Model& m, size_t cap) { uint64_t h = 21 + cap; for(int v : m) h = sim::mix(h, v / 1000); sim::state(h); sim::nontrivial(); if(m.size() == cap) SIM_FAULT("full"); if(m.empty()) SIM_FAULT("empty"); }
int best(const Model& m, int up) { int b = -1; for(int v : m) if(b < 0 || (up ? v / 1000 > b : v / 1000 < b)) b = v / 1000; return b; }
std::string text(const std::vector<int>& v) { std::string s; for(int x : v) s += (s.empty() ? "" : " ") + std::to_string(x / 1000) + "." + std::to_string(x % 1000); return s; }

template <class Q> std::vector<int> contents(Q& q)
{
    std::vector<int> r; auto& c = q.container(); auto e = c.end();
    for(auto i = c.begin(); i != e; ++i) { auto&& x = *i; const typename Q::value_type& t = x; r.push_back(num(t)); }
    return r;
}
template <class Q> void audit(Q& q, const Model& m, int up, size_t cap, const char* op, bool ledger)
{
    SIM_CHECK(q.size() == m.size() && q.empty() == m.empty(), "size", "after %s: size() %zu empty() %d with %zu held", op, (size_t)q.size(), (int)q.empty(), m.size());
    std::vector<int> c = contents(q), s = c, w(m.begin(), m.end()); std::sort(s.begin(), s.end());
    SIM_CHECK(s == w, "contents", "after %s: holds [%s], should hold [%s]", op, text(s).c_str(), text(w).c_str());
    if(!m.empty()) { auto&& x = q.top(); const typename Q::value_type& t = x; SIM_CHECK(num(t) / 1000 == best(m, up), "top", "after %s: top is %d, the best is %d, in [%s]", op, num(t) / 1000, best(m, up), text(c).c_str()); }
    if(ledger) SIM_CHECK(led::live() == m.size(), led::live() < m.size() ? "destroyed-early" : "not-destroyed", "after %s: %zu elements alive, %zu held", op, led::live(), m.size());
    cover(m, cap);
}
struct Hit { int prio, skip; template <class T> bool operator()(const T& p) { return num(p) / 1000 == prio && skip-- == 0; } };

template <class Q, class T> void ops(Q& q, size_t cap, int up, bool ledger, Model m = Model(), int serial = 0)
{
    int kinds = (int)sim::pick((int[]){ 1, 2, 3, 8, 50 });
    int drain = (int)sim::range(0, 3);
    // a large queue starts out well filled
    if(cap > 100) { SIM_PROBE("large"); for(unsigned n = sim::pick((unsigned[]){ 0, 100, 250, 254, 300 }); n--; ++serial) { int v = (int)sim::range(1, kinds) * 1000 + serial % 1000; q.push(T(v)); if(m.size() < cap) m.insert(v); } audit(q, m, up, cap, "filling", ledger); }
    for(unsigned k = 0, n = sim::range(3, 60); k < n; ++k)
    {
        bool full = m.size() == cap; int v = (int)sim::range(1, kinds) * 1000 + serial % 1000; const char* op;
        switch(sim::choose(6 + drain))
        {
            case 0: if(!m.empty() && sim::choose(4) == 3)
            {
                // one of its own elements, the best or any other
                op = "push own"; size_t at = sim::choose(2) ? 0 : sim::choose((uint32_t)m.size()); auto i = q.container().begin(); for(size_t j = 0; j < at; ++j) ++i;
                auto&& x = *i; const T& t = x; v = num(t); sim::log("%u %s position %zu (%d.%d)", k, op, at, v / 1000, v % 1000); SIM_PROBE("own-element"); q.push(t); if(!full) m.insert(v); break;
            }
            { op = "push"; sim::log("%u %s %d.%d", k, op, v / 1000, v % 1000); T x(v); q.push((const T&)x); if(!full) m.insert(v); ++serial; break; }
            case 1: { op = "push move"; sim::log("%u %s %d.%d", k, op, v / 1000, v % 1000); T x(v); q.push(std::move(x)); if(!full) m.insert(v); ++serial; break; }
            case 2: { op = "emplace"; sim::log("%u %s %d.%d", k, op, v / 1000, v % 1000); q.emplace(v); if(!full) m.insert(v); ++serial; break; }
            case 3: { op = "emplace_with_notify"; sim::log("%u %s %d.%d", k, op, v / 1000, v % 1000); int calls = 0; q.emplace_with_notify([&](T& t) { ++calls; SIM_CHECK(num(t) == v, "notify", "the notification got element %d instead of the one emplaced", num(t)); }, v); SIM_CHECK(calls == !full, "notify", "%d notifications for %d elements", calls, (int)!full); if(!full) m.insert(v); ++serial; break; }
            case 4: if(!m.empty())
            {
                // by reference: any position, the last and the only one included
                op = "erase"; std::vector<int> c = contents(q); size_t at = sim::choose(3) ? sim::choose(c.size()) : c.size() - 1;
                sim::log("%u %s position %zu of %zu (%d.%d)", k, op, at, c.size(), c[at] / 1000, c[at] % 1000);
                if(at == c.size() - 1) SIM_FAULT("last-removed"); if(c.size() == 1) SIM_FAULT("only-removed");
                auto i = q.container().begin(); for(size_t j = 0; j < at; ++j) ++i;
                auto&& x = *i; T& t = x; q.erase(t); m.erase(m.find(c[at])); break;
            } // fall through
            case 5:
            {
                op = "erase_if"; Hit h { (int)sim::range(1, kinds + 1), (int)sim::range(0, 2) }; std::vector<int> c = contents(q); int hit = -1; Hit h2 = h;
                for(int x : c) { Plain p(x); if(h2(p)) { hit = x; break; } }
                sim::log("%u %s priority %d, match %d", k, op, h.prio, h.skip); if(hit < 0) SIM_FAULT("no-match"); else if(c.size() == 1) SIM_FAULT("only-removed");
                bool r = q.erase_if(h); SIM_CHECK(r == (hit >= 0), "erase-result", "erase_if reported %d, matching element %d", (int)r, hit);
                if(hit >= 0) m.erase(m.find(hit)); break;
            }
            default: if(m.empty()) continue; { op = "pop"; auto&& x = q.top(); const T& t = x; int v = num(t); sim::log("%u %s (%d.%d)", k, op, v / 1000, v % 1000); q.pop(); SIM_CHECK(m.count(v), "contents", "popped %d, not held", v); m.erase(m.find(v)); break; }
        }
        audit(q, m, up, cap, op, ledger);
    }
    // what is left comes out best first
    while(!m.empty()) { auto&& x = q.top(); const T& t = x; int v = num(t); SIM_CHECK(v / 1000 == best(m, up) && m.count(v), "order", "draining: %d.%d comes out, the best is %d", v / 1000, v % 1000, best(m, up)); q.pop(); m.erase(m.find(v)); audit(q, m, up, cap, "pop", ledger); }
}
template <class T, unsigned N> void fixed()
{
    led::reset();
    bool ledger = std::is_same<T, Val>::value;
    switch(sim::choose(3))
    {
        case 0: { estd::layer1::priority_queue<T, N, ByPrio> q; ops<decltype(q), T>(q, N, 1, ledger); break; }
        case 1: { estd::layer1::priority_queue<T, N, Reverse> q; ops<decltype(q), T>(q, N, 0, ledger); break; }
        default: { int up = (int)sim::choose(2); Flip f(up); estd::layer1::priority_queue<T, N, Flip> q(f); ops<decltype(q), T>(q, N, up, ledger); break; }
    }
}
void s_fixed() { switch(sim::choose(8)) { case 5: fixed<int, 5>(); break; case 6: fixed<unsigned short, 12>(); break; case 7: if(sim::chance(1, 4)) fixed<int, 300>(); else fixed<long, 2>(); break; case 0: fixed<Plain, 1>(); break; case 1: fixed<Plain, 4>(); break; case 2: fixed<Val, 3>(); break; case 3: fixed<Plain, 16>(); break; default: fixed<Val, 9>(); } }
void s_assign()
{
    // contents handed from one queue to another go on obeying the order
    int up = (int)sim::choose(2); typedef estd::layer1::priority_queue<Plain, 6, Flip> Q; Q a{Flip(up)}, b{Flip((int)sim::choose(2))}; Model m, mb; int serial = 0;
    for(int i = (int)sim::range(0, 6); i--; ) { int v = (int)sim::range(1, 5) * 1000 + serial++; a.push(Plain(v)); m.insert(v); }
    for(int i = (int)sim::range(0, 6); i--; ) { int v = (int)sim::range(1, 5) * 1000 + serial++; b.push(Plain(v)); }
    sim::log("assign %zu elements", m.size());
    if(sim::choose(2)) { b = a; audit(a, m, up, 6, "assignment (source)", false); } else b = std::move(a);
    audit(b, m, up, 6, "assignment", false);
    ops<Q, Plain>(b, 6, up, false, m, serial);
}
// the heap algorithms themselves, with any number of children per node
template <class T, class C> void heap(int up)
{
    C cmp; int k = (int)sim::range(2, 5); size_t room = sim::chance(1, 12) ? 300 : 20; std::vector<T> a(room + 4); size_t n = sim::range(0, (uint32_t)room); Model m; int serial = 0; int kinds = (int)sim::range(1, 12);
    auto value = [&] { return (int)sim::range(1, kinds) * 1000 + serial++; };
    for(size_t i = 0; i < n; ++i) { int v = value(); a[i] = T(v); m.insert(v); }
    bool plain = sim::choose(2); if(plain) k = 2;
    sim::log("make_heap of %zu, %d children", n, k);
    estd::make_heap(a.data(), a.data() + n, cmp, k);
    auto check = [&](const char* op)
    {
        std::vector<int> c; for(size_t i = 0; i < n; ++i) c.push_back(num(a[i]));
        std::vector<int> s = c, w(m.begin(), m.end()); std::sort(s.begin(), s.end());
        SIM_CHECK(s == w, "contents", "after %s: holds [%s], should hold [%s]", op, text(s).c_str(), text(w).c_str());
        for(size_t i = 1; i < n; ++i) SIM_CHECK(!cmp(a[(i - 1) / k], a[i]), "heap", "after %s: node %zu is better than its parent in [%s], %d children", op, i, text(c).c_str(), k);
        if(n) SIM_CHECK(num(a[0]) / 1000 == best(m, up), "top", "after %s: top is %d", op, num(a[0]) / 1000);
        for(size_t i = n; i < a.size(); ++i) SIM_CHECK(num(a[i]) == 0 || !m.count(num(a[i])), "contents", "after %s: an element was left behind the end", op);
        cover(m, room);
    };
    check("make_heap");
    for(unsigned i = 0, o = sim::range(1, 40); i < o; ++i)
    {
        if(sim::choose(2))
        {
            if(n == room) continue;
            int v = value(); m.insert(v); sim::log("push_heap %d.%d", v / 1000, v % 1000);
            if(plain) { a[n++] = T(v); estd::push_heap(a.data(), a.data() + n, cmp); }
            else { estd::internal::heap<T*, C> h(a.data(), a.data() + n, k, cmp); SIM_CHECK(h.size() == n && h.empty() == (n == 0), "size", "heap of %zu reports %zu", n, h.size()); a[n++] = T(v); h.push(a.data() + n); }
            check("push_heap");
        }
        else
        {
            if(!n) continue;
            int top = num(a[0]); sim::log("pop_heap (%d.%d)", top / 1000, top % 1000);
            if(plain) estd::pop_heap(a.data(), a.data() + n, cmp); else { estd::internal::heap<T*, C> h(a.data(), a.data() + n, k, cmp); SIM_CHECK(num(h.front()) == top, "top", "heap front differs"); h.pop(); }
            --n; SIM_CHECK(num(a[n]) == top, "pop", "the popped element %d is not where pop_heap leaves it (%d)", top, num(a[n])); a[n] = T(0); m.erase(m.find(top));
            check("pop_heap");
        }
    }
}
template <class T> void heaps() { if(sim::choose(2)) heap<T, ByPrio>(1); else heap<T, Reverse>(0); }
void s_heap() { switch(sim::choose(8)) { case 0: heaps<int>(); break; case 1: heaps<unsigned>(); break; case 2: heaps<short>(); break; case 3: heaps<long>(); break; case 4: heaps<long long>(); break; default: heaps<Plain>(); } }
// thousands of elements, past every 8- and 16-bit index; the order in which they come decides which paths they take
template <unsigned N> void huge(int k)
{
    std::unique_ptr<estd::layer1::priority_queue<int, N>> q(k ? nullptr : new estd::layer1::priority_queue<int, N>());
    std::vector<int> a(k ? N : 0); std::multiset<int> m; size_t n = 0; estd::less<int> cmp;
    auto top = [&]() -> int { if(k) return a[0]; auto&& x = q->top(); const int& v = x; return v; };
    auto push = [&](int v) { m.insert(v); if(k) { estd::internal::heap<int*, estd::less<int>> h(a.data(), a.data() + n, k, cmp); a[n++] = v; h.push(a.data() + n); } else { q->push(v); ++n; } };
    auto pop = [&] { m.erase(m.find(top())); if(k) { estd::internal::heap<int*, estd::less<int>> h(a.data(), a.data() + n, k, cmp); h.pop(); --n; } else { q->pop(); --n; } };
    unsigned x = sim::choose(1000000), pattern = sim::choose(3), size = sim::range(N / 2, N); sim::log("%u elements, %s, %d children", size, (const char*[]){ "rising", "falling", "mixed" }[pattern], k); SIM_PROBE("huge");
    auto next = [&](unsigned i) { x = x * 1103515245u + 12345u; return pattern == 0 ? (int)i : pattern == 1 ? (int)(N - i) : (int)((x >> 8) % 100000); };
    for(unsigned i = 0; i < size; ++i) { push(next(i)); SIM_CHECK(top() == *m.rbegin(), "top", "after push %u: top is %d, the best is %d", i, top(), *m.rbegin()); }
    if(k) for(size_t i = 1; i < n; ++i) SIM_CHECK(a[i] <= a[(i - 1) / k], "heap", "node %zu is better than its parent", i);
    if(!k) SIM_CHECK(q->size() == n, "size", "size %zu with %zu held", (size_t)q->size(), n);
    for(unsigned i = 0, c = sim::choose(2) ? size : sim::range(1, 400); i < c; ++i)
    {
        if(sim::chance(1, 16) && n < N) push(next(size + i));
        pop(); if(n) SIM_CHECK(top() == *m.rbegin(), "top", "after pop %u: top is %d, the best of %zu is %d", i, top(), n, *m.rbegin());
    }
    sim::state(sim::mix(n, pattern + 10 * k)); sim::nontrivial();
}
void s_huge() { int k = sim::choose(2) ? 0 : (int)sim::range(2, 5); switch(sim::choose(30)) { case 29: huge<70000>(k); break; case 8: case 9: case 10: huge<3000>(k); break; default: huge<800>(k); } }
const sim::Scenario scen[] = { { "queue", s_fixed, 240 }, { "assign", s_assign, 40 }, { "heap", s_heap, 120 }, { "huge", s_huge, 1 } };
}
const sim::Harness sim::harness = {
    "C18",
    "a run is a history of 3-60 pushes, pops, emplacements and removals on one priority queue of 1-16 or 300 slots (or a heap of up to 300 elements with 2-5 children per node; sometimes either of up to 70000 elements), with ties, full and empty; non-trivial when an operation ran; distinct by hash of the priorities held after each operation",
    "priority_queue, layer1::priority_queue, make_heap/push_heap/pop_heap, the k-ary heap, the fixed-capacity vector under them",
    "none",
    "top and pop are only used when something is held|erase by reference gets an element of the queue",
    100000, 20000000, scen, sizeof scen / sizeof *scen, nullptr,
};
