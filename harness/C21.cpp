// C21: linked lists edited and walked by cooperating clients.
#include <estd/forward_list.h>
#include <estd/list.h>
#include <ledger.h>
#include <algorithm>
#include <memory>
#include <set>
#include <vector>

namespace {
using led::Val;

struct Node : estd::experimental::forward_node_base { int val = 0; bool operator==(const Node& o) const { return val == o.val; } };
struct Node2 : estd::experimental::forward_node_base_base<Node2*> { int val = 0; Node2() : estd::experimental::forward_node_base_base<Node2*>(nullptr) {} };

// the members as they should be, and the members as a traversal finds them
template <class L> void audit(L& l, const std::vector<int>& want, const char* op)
{
    size_t n = 0;
    auto end = l.end();
    for(auto i = l.begin(); i != end; ++i, ++n)
    {
        SIM_CHECK(n < want.size(), "extra-member", "after %s: the traversal visits more than the %zu members", op, want.size());
        int v = (*i).val;
        SIM_CHECK(v == want[n], "wrong-member", "after %s: member %zu is %d, should be %d (of %zu)", op, n, v, want[n], want.size());
    }
    SIM_CHECK(n == want.size(), "lost-member", "after %s: the traversal visits %zu of %zu members", op, n, want.size());
    SIM_CHECK(l.empty() == want.empty(), "empty", "after %s: empty() is %d with %zu members", op, (int)l.empty(), want.size());
    if(!want.empty()) SIM_CHECK(l.front().val == want[0], "front", "after %s: front is %d, should be %d", op, (int)l.front().val, want[0]);
    uint64_t h = 7; for(int v : want) h = sim::mix(h, v); sim::state(h);
    sim::nontrivial();
}
void show(unsigned k, const char* op, int a = -1, int b = -1) { sim::log("#%u %s %d %d", k, op, a, b); }

// walkers: positions that stay valid while their member stays
template <class It> struct Walker { std::unique_ptr<It> it; int id = -1; };

// ---- externally allocated nodes ------------------------------------------------------------------------------------------------
template <class L, class N, bool Classic> void intrusive()
{
    typedef typename L::iterator It;
    enum { NODES = 8, WALKERS = 3 };
    N node[NODES]; L l; std::vector<int> m;           // m: node indices in list order; node[i].val encodes i
    int group = (int)sim::range(1, 4);
    for(int i = 0; i < NODES; ++i) node[i].val = i;
    Walker<It> w[WALKERS];
    auto in = [&](int i) { return std::find(m.begin(), m.end(), i) != m.end(); };
    auto gone = [&](int i) { for(auto& x : w) if(x.id == i) { x.id = -1; x.it.reset(); } };
    for(unsigned k = 0, ops = sim::range(2, 40); k < ops; ++k)
    {
        int x = (int)sim::choose(NODES); unsigned q = sim::choose(WALKERS); const char* op = "";
        switch(sim::choose(10))
        {
            case 0: case 1: if(!in(x)) { op = "push_front"; show(k, op, x); l.push_front(node[x]); m.insert(m.begin(), x); } break;
            case 2: if(!m.empty()) { op = "pop_front"; show(k, op, m[0]); gone(m[0]); l.pop_front(); m.erase(m.begin()); } break;
            case 3: if(!m.empty()) { op = "walk from front"; show(k, op, q); w[q].it.reset(new It(l.begin())); w[q].id = m[0]; } break;
            case 4: if(w[q].id >= 0)
                {
                    op = "walk on"; show(k, op, q, w[q].id); auto p = std::find(m.begin(), m.end(), w[q].id) + 1;
                    ++*w[q].it;
                    if(p == m.end()) { SIM_CHECK(!(*w[q].it != It(l.end())), "walker", "the walker behind the last member %d is not at the end", w[q].id); w[q].id = -1; w[q].it.reset(); }
                    else { SIM_CHECK(*w[q].it != It(l.end()) && (**w[q].it).val == *p, "walker", "the walker after %d is not at %d", w[q].id, *p); w[q].id = *p; }
                }
                break;
            case 5: case 6: if(w[q].id >= 0 && !in(x)) { op = "insert_after"; show(k, op, w[q].id, x); auto r = l.insert_after(*w[q].it, node[x]); m.insert(std::find(m.begin(), m.end(), w[q].id) + 1, x); SIM_CHECK((*r).val == x, "insert-result", "insert_after returned the position of %d, inserted %d", (int)(*r).val, x); } break;
            case 7: if(w[q].id >= 0 && w[q].id != m.back())
                {
                    op = "erase_after"; show(k, op, w[q].id); auto p = std::find(m.begin(), m.end(), w[q].id) + 1; gone(*p);
                    auto r = l.erase_after(*w[q].it); p = m.erase(p);
                    if(p == m.end()) SIM_CHECK(!(r != It(l.end())), "erase-result", "erase_after of the last member did not return the end");
                    else SIM_CHECK(r != It(l.end()) && (*r).val == *p, "erase-result", "erase_after did not return the following member %d", *p);
                }
                break;
            case 8:
                if constexpr(Classic)
                {
                    bool first = sim::choose(3) == 1; op = first ? "remove_if first" : "remove_if"; int want = (int)sim::choose(group); show(k, op, group, want);
                    auto pred = [&](const N& n) { return n.val % group == want; };
                    if(first) l.remove_if(pred, true); else if(sim::choose(2)) l.remove_if(pred); else l.remove_if(pred, false);
                    for(size_t i = 0; i < m.size(); ) if(m[i] % group == want) { gone(m[i]); m.erase(m.begin() + i); SIM_PROBE("removed"); if(first) break; } else ++i;
                }
                else if(w[q].id >= 0 && w[q].id != m.back() && !in(x))
                {
                    op = "replace_after"; show(k, op, w[q].id, x); auto p = std::find(m.begin(), m.end(), w[q].id) + 1; gone(*p);
                    l.replace_after(*w[q].it, node[x]); *p = x;
                }
                break;
            default:
                if constexpr(Classic) { if(sim::choose(2)) { op = "remove"; show(k, op, x); N probe; probe.val = x; l.remove(sim::choose(2) ? probe : node[x], sim::choose(2)); if(in(x)) { gone(x); m.erase(std::find(m.begin(), m.end(), x)); } } }
                else if(sim::choose(4) == 1) { op = "clear"; show(k, op); l.clear(); while(!m.empty()) { gone(m[0]); m.erase(m.begin()); } }
                break;
        }
        if(*op) audit(l, m, op);
        for(auto& x : w) if(x.id >= 0) SIM_CHECK((**x.it).val == x.id, "walker", "after %s: a walker on %d sees %d", op, x.id, (int)(**x.it).val);
    }
}
// members with equal values, removed by value, in every grouping
void s_remove()
{
    enum { NODES = 10 };
    estd::intrusive_forward_list<Node> l; Node node[NODES]; std::vector<int> m; std::vector<Node*> in;
    int kinds = (int)sim::range(1, 3);
    std::vector<int> free; for(int i = 0; i < NODES; ++i) free.push_back(i);
    for(unsigned k = 0, rounds = sim::range(1, 5); k < rounds; ++k)
    {
        for(unsigned n = sim::range(0, NODES); n-- && !free.empty(); ) { int i = free.back(); free.pop_back(); node[i].val = (int)sim::choose(kinds); l.push_front(node[i]); m.insert(m.begin(), node[i].val); in.insert(in.begin(), &node[i]); }
        audit(l, m, "push_front");
        int v = (int)sim::choose(kinds + 1); bool first = sim::choose(3) == 1; Node key; key.val = v;
        show(k, first ? "remove first" : "remove", v);
        auto pred = [&](const Node& n) { return n.val == v; };
        bool implied = !first && sim::choose(2);    // all of them, unless told otherwise
        // the value looked for may be a member's own
        Node* own = nullptr; for(size_t i = 0; i < m.size(); ++i) if(m[i] == v && sim::choose(3) == 2) own = in[i];
        if(own) { SIM_PROBE("own-member"); if(implied) l.remove(*own); else l.remove(*own, first); }
        else if(sim::choose(2)) { if(implied) l.remove(key); else l.remove(key, first); } else if(implied) l.remove_if(pred); else l.remove_if(pred, first);
        for(size_t i = 0; i < m.size(); ) if(m[i] == v) { free.push_back((int)(in[i] - node)); m.erase(m.begin() + i); in.erase(in.begin() + i); if(first) break; } else ++i;
        audit(l, m, first ? "remove first" : "remove");
        size_t n = 0; for(auto& x : l) { SIM_CHECK(&x == in[n], "wrong-member", "member %zu is another node", n); ++n; }
    }
}
void s_back()
{
    enum { NODES = 6 };
    estd::intrusive_forward_list_with_back<Node> l; Node node[NODES]; std::vector<int> m;
    for(int i = 0; i < NODES; ++i) node[i].val = i;
    for(unsigned k = 0, ops = sim::range(2, 40); k < ops; ++k)
    {
        int x = (int)sim::choose(NODES); bool in = std::find(m.begin(), m.end(), x) != m.end(); const char* op = "";
        switch(sim::choose(4))
        {
            case 0: if(!in) { op = "push_front"; show(k, op, x); l.push_front(node[x]); m.insert(m.begin(), x); } break;
            case 1: if(!in) { op = "push_back"; show(k, op, x); l.push_back(node[x]); m.push_back(x); } break;
            case 2: if(!m.empty()) { op = "pop_front"; show(k, op, m[0]); l.pop_front(); m.erase(m.begin()); if(m.empty()) SIM_FAULT("emptied"); } break;
            default: while(!m.empty()) { op = "drain"; show(k, op, m[0]); SIM_CHECK(l.front().val == m[0], "front", "draining: front is %d, should be %d", (int)l.front().val, m[0]); l.pop_front(); m.erase(m.begin()); if(m.empty()) SIM_FAULT("emptied"); } break;
        }
        if(!*op) continue;
        audit(l, m, op);
        if(!m.empty()) SIM_CHECK(l.back().val == m.back(), "back", "after %s: back is %d, should be %d", op, (int)l.back().val, m.back());
    }
}

// ---- nodes the list allocates ----------------------------------------------------------------------------------------------------
std::set<void*>* blocks; int fail_alloc = 0;
template <class T> struct Arena : estd::experimental_std_allocator<T>
{
    T* allocate(size_t n) { if(fail_alloc && --fail_alloc == 0) { SIM_FAULT("allocation-fails"); throw led::Boom(); } void* p = malloc(n * sizeof(T)); blocks->insert(p); return (T*)p; }
    void deallocate(T* p, size_t) { SIM_CHECK(blocks->erase(p), "freed-twice", "a block was freed that is not allocated"); free(p); }
};
template <class L> void audit_values(L& l, const std::vector<int>& want, const char* op)
{
    size_t n = 0; auto end = l.end();
    for(auto i = l.begin(); i != end; ++i, ++n)
    {
        SIM_CHECK(n < want.size(), "extra-member", "after %s: the traversal visits more than the %zu members", op, want.size());
        int v = (*i).get();
        SIM_CHECK(v == want[n], "wrong-member", "after %s: member %zu is %d, should be %d", op, n, v, want[n]);
    }
    SIM_CHECK(n == want.size(), "lost-member", "after %s: the traversal visits %zu of %zu members", op, n, want.size());
    SIM_CHECK(l.empty() == want.empty(), "empty", "after %s: empty() is %d with %zu members", op, (int)l.empty(), want.size());
    SIM_CHECK(led::live() == want.size(), led::live() < want.size() ? "destroyed-early" : "not-destroyed", "after %s: %zu values alive for %zu members", op, led::live(), want.size());
    uint64_t h = 9; for(int v : want) h = sim::mix(h, v); sim::state(h); sim::nontrivial();
}
void reset_owned(std::set<void*>& b) { led::reset(); fail_alloc = 0; blocks = &b; }
void free_rest(std::set<void*>& b) { for(void* p : b) free(p); b.clear(); }

void s_owned()
{
    typedef estd::experimental::ValueNode<Val, estd::experimental::forward_node_base> N;
    typedef Arena<N> A;
    typedef estd::internal::forward_list<Val, N, A, estd::inlinevalue_node_traits_new_base<N, A, estd::nothing_allocator<Val>>> L;
    std::set<void*> b; reset_owned(b);
    L l; std::vector<int> m; int next = 1;
    for(unsigned k = 0, ops = sim::range(2, 30); k < ops; ++k)
    {
        const char* op = ""; unsigned at = m.empty() ? 0 : sim::choose(m.size());
        bool boom = sim::choose(6) == 1, nomem = !boom && sim::choose(8) == 1; size_t had = b.size();
        try
        {
            switch(sim::choose(7))
            {
                case 0: if(!m.empty() && sim::choose(3) == 2) { op = "push_front own"; show(k, op, m[at]); int v = m[at]; { auto i = l.begin(); i += (int)at; if(boom) led::arm(1); if(nomem) fail_alloc = 1; l.push_front((const Val&)*i); } m.insert(m.begin(), v); SIM_PROBE("own-member"); break; }
                    { op = "push_front"; show(k, op, next); { Val v(next); if(boom) led::arm(1); if(nomem) fail_alloc = 1; l.push_front(v); } m.insert(m.begin(), next++); break; }
                case 1: { op = "push_front move"; show(k, op, next); { Val v(next); if(boom) led::arm(1); if(nomem) fail_alloc = 1; l.push_front(std::move(v)); } m.insert(m.begin(), next++); break; }
                case 2: { op = "emplace_front"; show(k, op, next); if(boom) led::arm(1); if(nomem) fail_alloc = 1; l.emplace_front(next); m.insert(m.begin(), next++); break; }
                case 3: if(!m.empty()) { op = "pop_front"; show(k, op, m[0]); l.pop_front(); m.erase(m.begin()); --had; SIM_CHECK(b.size() == had, "node-leaked", "pop_front did not free its node"); } break;
                case 4: if(!m.empty()) { op = "insert_after"; show(k, op, m[at], next); { Val v(next); auto i = l.begin(); i += (int)at; if(boom) led::arm(1); if(nomem) fail_alloc = 1; auto r = l.insert_after(i, v); SIM_CHECK((*r).get() == next, "insert-result", "insert_after returned another position"); } m.insert(m.begin() + at + 1, next++); } break;
                case 6:
                {
                    const int group = (int)sim::range(1, 3), want = (int)sim::choose(group); const bool first = sim::choose(2); op = first ? "remove_if first" : "remove_if"; show(k, op, group, want);
                    l.remove_if([&](N& n) { return n.value().get() % group == want; }, first);
                    for(size_t i = 0; i < m.size(); ) if(m[i] % group == want) { m.erase(m.begin() + i); --had; SIM_PROBE("owned-removed"); if(first) break; } else ++i;
                    SIM_CHECK(b.size() == had, "node-leaked", "%s left %zu nodes for %zu members", op, b.size(), m.size()); break;
                }
                default: if(m.size() > at + 1) { op = "erase_after"; show(k, op, m[at]); auto i = l.begin(); i += (int)at; l.erase_after(i); m.erase(m.begin() + at + 1); --had; SIM_CHECK(b.size() == had, "node-leaked", "erase_after did not free its node"); } break;
            }
        }
        catch(led::Boom&) { sim::log("   failed"); }
        led::disarm(); fail_alloc = 0;
        if(*op) audit_values(l, m, op);
    }
    while(!m.empty()) { l.pop_front(); m.erase(m.begin()); audit_values(l, m, "final pop_front"); }
    free_rest(b);
}
void s_double()
{
    typedef estd::experimental::ValueNode<Val, estd::experimental::double_node_base> N;
    typedef Arena<N> A;
    typedef estd::internal::list_base<Val, N, A, estd::inlinevalue_node_traits_new_base<N, A, estd::nothing_allocator<Val>>> L;
    std::set<void*> b; reset_owned(b);
    {
        L l; std::vector<int> m; int next = 1;
        for(unsigned k = 0, ops = sim::range(2, 24); k < ops; ++k)
        {
            const char* op = ""; unsigned at = sim::choose(m.size() + 1);
            bool boom = sim::choose(6) == 1, nomem = !boom && sim::choose(8) == 1;
            auto arm = [&] { if(boom) led::arm(1); if(nomem) fail_alloc = 1; };
            try
            {
                switch(sim::choose(6))
                {
                    case 0: { op = "push_front"; show(k, op, next); { Val v(next); arm(); l.push_front(v); } m.insert(m.begin(), next++); break; }
                    case 1: { op = "push_front move"; show(k, op, next); { Val v(next); arm(); l.push_front(std::move(v)); } m.insert(m.begin(), next++); break; }
                    case 2: if(!m.empty() && sim::choose(3) == 2) { op = "push own"; if(at == m.size()) --at; int v = m[at]; show(k, op, v); bool back = sim::choose(2); { auto i = l.begin(); i += (int)at; arm(); if(back) l.push_back((const Val&)*i); else l.push_front((const Val&)*i); } if(back) m.push_back(v); else m.insert(m.begin(), v); SIM_PROBE("own-member"); break; }
                    { op = "push_back"; show(k, op, next); { Val v(next); arm(); l.push_back(v); } m.push_back(next++); break; }
                    case 3: { op = "push_back move"; show(k, op, next); { Val v(next); arm(); l.push_back(std::move(v)); } m.push_back(next++); break; }
                    case 4: { op = "emplace_front"; show(k, op, next); arm(); l.emplace_front(next); m.insert(m.begin(), next++); break; }
                    default: { op = "insert"; show(k, op, (int)at, next); { Val v(next); auto i = l.begin(); i += (int)at; arm(); auto r = l.insert(i, v); SIM_CHECK((*r).get() == next, "insert-result", "insert returned another position"); } m.insert(m.begin() + at, next++); break; }
                }
            }
            catch(led::Boom&) { sim::log("   failed"); }
            led::disarm(); fail_alloc = 0;
            audit_values(l, m, op);
            if(!m.empty())
            {
                SIM_CHECK(l.back().get() == m.back(), "back", "after %s: back is %d, should be %d", op, l.back().get(), m.back());
                auto i = l.begin(); i += (int)m.size() - 1;
                for(size_t n = m.size(); n-- > 0; ) { int v = (*i).get(); SIM_CHECK(v == m[n], "backward", "after %s: walking back, member %zu is %d, should be %d", op, n, v, m[n]); if(n) --i; }
            }
        }
    }
    free_rest(b);
}
void s_classic() { intrusive<estd::intrusive_forward_list<Node>, Node, true>(); }
void s_modern() { intrusive<estd::internal::list::intrusive_forward<Node2>, Node2, false>(); }
const sim::Scenario scen[] = { { "forward", s_classic, 3 }, { "intrusive-forward", s_modern, 2 }, { "remove", s_remove, 2 }, { "with-back", s_back, 2 }, { "owning-forward", s_owned, 2 }, { "owning-double", s_double, 2 } };
}
const sim::Harness sim::harness = {
    "C21",
    "a run is an interleaving of 2-40 edits and walker steps by cooperating clients on one list of up to 10 members (or 24-30 edits of a list that allocates its nodes, with failing allocations and constructors); non-trivial when an edit ran; distinct by hash of the event log",
    "intrusive_forward_list, intrusive_forward_list_with_back, list::intrusive_forward, forward_list and list_base with inline values, list iterators",
    "node allocator (counts blocks, fails on demand)",
    "a node is a member of at most one list at a time|walkers are not used once their member was removed|erase_after and replace_after are only called before a member",
    300000, 20000000, scen, sizeof scen / sizeof *scen, nullptr,
};
