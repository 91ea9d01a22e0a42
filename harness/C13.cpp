// C13: shared references.  Clients copy, assign, move, reset and drop references to objects owned by the
// inline (layer1), pointer (layer2) and reference (layer3) flavours and by circular linked references.
#include <estd/memory.h>
#include <estd/internal/linked_ref.h>
#include <ledger.h>
#include <memory>
#include <set>
#include <vector>
#include <string>

namespace {
using led::Val;
unsigned deleter_calls;

struct DestroyOnly { void operator()(Val* v) const { ++deleter_calls; v->~Val(); } };
struct DeleteIt { void operator()(Val* v) const { ++deleter_calls; delete v; } };

// an object an owner keeps alive, seen from outside
struct Obj { int value; std::set<const void*> owners; unsigned id; bool counted; unsigned calls; };

struct Master
{
    virtual ~Master() {}
    virtual void construct(int) = 0;
    virtual void reset() = 0;
    virtual unsigned use_count() = 0;
    virtual Val* get() = 0;
    virtual estd::layer3::shared_ptr<Val>* ref() = 0;
    virtual void assign_to(estd::layer3::shared_ptr<Val>&) = 0;
    virtual bool can_construct() = 0;
};
template <class P> struct MasterOf : Master
{
    P p;
    template <class ...A> MasterOf(A&&...a) : p(std::forward<A>(a)...) {}
    void reset() override { p.reset(); }
    unsigned use_count() override { return p.use_count(); }
    Val* get() override { return p.get(); }
    estd::layer3::shared_ptr<Val>* ref() override { return new estd::layer3::shared_ptr<Val>(p); }
    void assign_to(estd::layer3::shared_ptr<Val>& r) override { r = p; }
    void construct(int) override {}
    bool can_construct() override { return false; }
};
template <class P> struct Inline : MasterOf<P>
{
    using MasterOf<P>::MasterOf;
    void construct(int n) override { this->p.construct(n); }
    bool can_construct() override { return true; }
};

typedef estd::layer3::shared_ptr<Val> Ref;

void s_layers()
{
    led::reset(); deleter_calls = 0;
    enum { MS = 3, RS = 6 };
    struct M { std::unique_ptr<Master> p; int obj = -1; int kind = 0; std::unique_ptr<char[]> raw; int hosted = -1; } m[MS];
    struct R { Ref* p = nullptr; int obj = -1; } r[RS];
    std::vector<Obj> objs;
    unsigned expected_calls = 0;

    auto release = [&](int o, const void* who) { if(o < 0) return; objs[o].owners.erase(who); if(objs[o].owners.empty() && objs[o].counted) ++expected_calls; };
    auto take = [&](int o, const void* who) { if(o >= 0) objs[o].owners.insert(who); };
    auto alive = [&](int o) { return o >= 0 && !objs[o].owners.empty(); };
    auto hosted_alive = [&](int i) { return alive(m[i].hosted); };

    auto audit = [&](const char* op)
    {
        size_t n = 0;
        for(Obj& o : objs) if(!o.owners.empty()) ++n;
        SIM_CHECK(led::live() == n, led::live() < n ? "destroyed-early" : "destroyed-late", "after %s: %zu objects have an owner, %zu are alive", op, n, led::live());
        SIM_CHECK(deleter_calls == expected_calls, "deleter", "after %s: the deleter ran %u times, expected %u", op, deleter_calls, expected_calls);
        for(int i = 0; i < RS; ++i) if(r[i].p)
        {
            unsigned c = r[i].p->use_count(), want = alive(r[i].obj) ? (unsigned)objs[r[i].obj].owners.size() : 0;
            SIM_CHECK(c == want, "use-count", "after %s: reference %d reports %u owners of its object, there are %u", op, i, c, want);
            if(want) { int v = r[i].p->get()->get(); SIM_CHECK(v == objs[r[i].obj].value && (*r[i].p)->v == v && (**r[i].p).v == v, "wrong-object", "after %s: reference %d sees %d, its object is %d", op, i, v, objs[r[i].obj].value); }
        }
        for(int i = 0; i < MS; ++i) if(m[i].p)
        {
            unsigned c = m[i].p->use_count(), want = m[i].obj >= 0 ? (unsigned)objs[m[i].obj].owners.size() : 0;
            SIM_CHECK(c == want, "use-count", "after %s: master %d reports %u owners of its object, there are %u", op, i, c, want);
            if(want) { int v = m[i].p->get()->get(); SIM_CHECK(v == objs[m[i].obj].value, "wrong-object", "after %s: master %d sees %d, its object is %d", op, i, v, objs[m[i].obj].value); }
        }
    };
    auto fresh = [&](bool counted) { Obj o; o.value = (int)objs.size() * 10 + 1; o.counted = counted; objs.push_back(o); return (int)objs.size() - 1; };

    unsigned n = sim::range(2, 40);
    for(unsigned k = 0; k < n; ++k)
    {
        int i = (int)sim::choose(RS), j = (int)sim::choose(RS), a = (int)sim::choose(MS);
        const char* op = "nothing";
        switch(sim::choose(13))
        {
            case 0:   // a new master, or the end of an old one no reference depends on
                if(m[a].p)
                {
                    if(m[a].hosted >= 0 && alive(m[a].hosted) && !(m[a].obj == m[a].hosted && objs[m[a].obj].owners.size() == 1)) break;
                    op = "drop master"; sim::log("#%u %s %d", k, op, a);
                    release(m[a].obj, &m[a]); m[a].p.reset(); m[a].obj = m[a].hosted = -1; m[a].raw.reset();
                }
                else
                {
                    op = "new master"; m[a].kind = (int)sim::choose(4); sim::log("#%u %s %d kind %d", k, op, a, m[a].kind);
                    if(m[a].kind == 0) m[a].p.reset(new Inline<estd::layer1::shared_ptr<Val>>());
                    else if(m[a].kind == 1) m[a].p.reset(new Inline<estd::layer1::shared_ptr<Val, DestroyOnly>>(DestroyOnly()));
                    else
                    {
                        bool counted = m[a].kind == 2; int o = fresh(counted);
                        if(counted) m[a].p.reset(new MasterOf<estd::layer2::shared_ptr<Val, DeleteIt>>(new Val(objs[o].value), DeleteIt()));
                        else { m[a].raw.reset(new char[sizeof(Val) + 16]); m[a].p.reset(new MasterOf<estd::layer2::shared_ptr<Val>>(new (m[a].raw.get()) Val(objs[o].value))); }
                        m[a].obj = m[a].hosted = o; take(o, &m[a]);
                    }
                }
                break;
            case 1: case 2:   // construct in place; the constructor may fail
                if(m[a].p && m[a].p->can_construct() && m[a].obj < 0 && !hosted_alive(a))
                {
                    op = "construct"; bool boom = sim::choose(4) == 1; sim::log("#%u %s %d%s", k, op, a, boom ? " failing" : "");
                    int o = fresh(m[a].kind == 1);
                    if(boom) led::arm(1);
                    try { m[a].p->construct(objs[o].value); m[a].obj = m[a].hosted = o; take(o, &m[a]); }
                    catch(led::Boom&) { }
                    led::disarm();
                }
                break;
            case 3: if(m[a].p) { op = "reset master"; sim::log("#%u %s %d", k, op, a); release(m[a].obj, &m[a]); m[a].obj = -1; m[a].p->reset(); } break;
            case 4: case 5: if(!r[i].p && m[a].p) { op = "ref from master"; sim::log("#%u %s %d <- %d", k, op, i, a); r[i].p = m[a].p->ref(); r[i].obj = m[a].obj; take(r[i].obj, &r[i]); } break;
            case 6: if(!r[i].p && r[j].p) { op = "copy ref"; sim::log("#%u %s %d <- %d", k, op, i, j); r[i].p = new Ref(*r[j].p); r[i].obj = r[j].obj; take(r[i].obj, &r[i]); } break;
            case 7: if(!r[i].p && r[j].p) { op = "move ref"; sim::log("#%u %s %d <- %d", k, op, i, j); r[i].p = new Ref(std::move(*r[j].p)); r[i].obj = r[j].obj; take(r[i].obj, &r[i]); release(r[j].obj, &r[j]); r[j].obj = -1; } break;
            case 8: if(r[i].p && r[j].p)
                {
                    op = i == j ? "self-assign ref" : "assign ref"; sim::log("#%u %s %d <- %d", k, op, i, j);
                    if(i == j) SIM_FAULT("self-assignment"); else if(r[i].obj >= 0 && r[i].obj == r[j].obj) SIM_FAULT("alias-assignment");
                    *r[i].p = *r[j].p;
                    int o = r[j].obj; if(i != j) { if(o != r[i].obj) { release(r[i].obj, &r[i]); take(o, &r[i]); } r[i].obj = o; }
                }
                break;
            case 9: if(r[i].p && m[a].p)
                {
                    op = "assign from master"; sim::log("#%u %s %d <- %d", k, op, i, a);
                    if(r[i].obj >= 0 && r[i].obj == m[a].obj) SIM_FAULT("alias-assignment");
                    m[a].p->assign_to(*r[i].p);
                    int o = m[a].obj; if(o != r[i].obj) { release(r[i].obj, &r[i]); take(o, &r[i]); } r[i].obj = o;
                }
                break;
            case 10: if(r[i].p && r[j].p) { op = "swap"; sim::log("#%u %s %d %d", k, op, i, j); r[i].p->swap(*r[j].p); int oi = r[i].obj, oj = r[j].obj; if(i != j && oi != oj) { if(oi >= 0) { objs[oi].owners.erase(&r[i]); objs[oi].owners.insert(&r[j]); } if(oj >= 0) { objs[oj].owners.erase(&r[j]); objs[oj].owners.insert(&r[i]); } } r[i].obj = oj; r[j].obj = oi; } break;
            case 11: if(r[i].p) { op = "reset ref"; sim::log("#%u %s %d", k, op, i); release(r[i].obj, &r[i]); r[i].obj = -1; r[i].p->reset(); } break;
            default: if(r[i].p) { op = "drop ref"; sim::log("#%u %s %d", k, op, i); release(r[i].obj, &r[i]); r[i].obj = -1; delete r[i].p; r[i].p = nullptr; } break;
        }
        if(*op != 'n' || op[1] != 'o') { sim::nontrivial(); uint64_t h = 0; for(auto& x : r) h = sim::mix(h, x.p ? x.obj + 2 : 0); for(auto& x : m) h = sim::mix(h, x.p ? x.obj + 2 : 0); sim::state(h); }
        audit(op);
    }
    // every owner goes, references first because masters must outlive them
    for(int i = 0; i < RS; ++i) if(r[i].p) { release(r[i].obj, &r[i]); r[i].obj = -1; delete r[i].p; r[i].p = nullptr; audit("final drop"); }
    for(int a = 0; a < MS; ++a) if(m[a].p) { release(m[a].obj, &m[a]); m[a].obj = -1; m[a].p.reset(); audit("final drop of a master"); }
    SIM_CHECK(led::live() == 0, "leaked", "%zu objects survive their last owner", led::live());
}

// objects that own references to further objects: dropping one may cascade, and an assignment may take its
// source from inside the object it lets go
struct Node
{
    Val v; estd::layer3::shared_ptr<Node> next;
    template <class O> Node(int n, O& none) : v(n), next(none) {}
};
void s_chain()
{
    led::reset();
    typedef estd::layer1::shared_ptr<Node> Own; typedef estd::layer3::shared_ptr<Node> NRef;
    std::unique_ptr<Own> empty(new Own());
    unsigned n = sim::range(1, 6);
    std::vector<std::unique_ptr<Own>> own(n);
    std::vector<int> next(n, -1);          // model: next[i] = node that i refers to
    for(unsigned i = 0; i < n; ++i)
    {
        own[i].reset(new Own()); own[i]->construct((int)i, *empty);
        if(i && sim::choose(8)) { int t = (int)sim::choose(i); (*own[i])->next = *own[t]; next[i] = t; }
    }
    std::vector<std::unique_ptr<NRef>> heads; std::vector<int> at;
    for(unsigned i = 0, h = sim::range(1, 3); i < h; ++i) { int t = (int)sim::choose(n); heads.emplace_back(new NRef(*own[t])); at.push_back(t); }
    std::vector<char> released(n, 0);
    auto audit = [&](const char* op)
    {
        std::vector<char> live(n, 0); std::vector<int> todo;
        for(unsigned i = 0; i < n; ++i) if(!released[i]) todo.push_back(i);
        for(int a : at) if(a >= 0) todo.push_back(a);
        while(!todo.empty()) { int x = todo.back(); todo.pop_back(); if(x < 0 || live[x]) continue; live[x] = 1; todo.push_back(next[x]); }
        size_t want = 0; for(char c : live) want += c;
        SIM_CHECK(led::live() == want, led::live() < want ? "destroyed-early" : "destroyed-late", "after %s: %zu nodes are still owned, %zu are alive", op, want, led::live());
        for(unsigned h = 0; h < heads.size(); ++h) if(at[h] >= 0) SIM_CHECK((*heads[h])->v.get() == at[h], "wrong-object", "after %s: head %u sees %d, should be %d", op, h, (*heads[h])->v.v, at[h]);
        for(unsigned h = 0; h < heads.size(); ++h)
        {
            unsigned c = 0;
            if(at[h] >= 0) { if(!released[at[h]]) ++c; for(int a : at) c += a == at[h]; for(unsigned i = 0; i < n; ++i) c += live[i] && next[i] == at[h]; }
            SIM_CHECK(heads[h]->use_count() == c, "use-count", "after %s: head %u reports %u owners, there are %u", op, h, (unsigned)heads[h]->use_count(), c);
        }
        uint64_t s = 0; for(unsigned i = 0; i < n; ++i) s = sim::mix(s, live[i] * 2 + released[i]); for(int a : at) s = sim::mix(s, a + 1); sim::state(s);
    };
    audit("setup");
    for(unsigned k = 0, ops = sim::range(1, 20); k < ops; ++k)
    {
        unsigned h = sim::choose(heads.size()), g = sim::choose(heads.size()), x = sim::choose(n);
        switch(sim::choose(6))
        {
            case 0: case 1: if(!released[x]) { sim::log("#%u owner %u lets go", k, x); released[x] = 1; own[x]->reset(); sim::nontrivial(); audit("owner reset"); } break;
            case 2: case 3: if(at[h] >= 0) { sim::log("#%u head %u advances", k, h); SIM_FAULT("assignment-from-inside"); *heads[h] = (*heads[h])->next; at[h] = next[at[h]]; audit("advance"); } break;
            case 4: sim::log("#%u head %u = head %u", k, h, g); *heads[h] = *heads[g]; at[h] = at[g]; audit("assign"); break;
            default: sim::log("#%u head %u copied", k, h); if(heads.size() < 6) { heads.emplace_back(new NRef(*heads[h])); at.push_back(at[h]); audit("copy"); } break;
        }
    }
    while(!heads.empty()) { sim::log("drop head"); heads.pop_back(); at.pop_back(); audit("drop head"); }
    for(unsigned i = 0; i < n; ++i) if(!released[i]) { sim::log("owner %u lets go", i); released[i] = 1; own[i]->reset(); audit("owner reset"); }
    SIM_CHECK(led::live() == 0, "leaked", "%zu nodes survive", led::live());
}

// circular linked references to resources
std::vector<int>* destructs;
struct RefTraits { static int null() { return -1; } static bool null(int v) { return v == -1; } static void destruct(int v) { ++(*destructs)[v]; } };
void s_linked()
{
    typedef estd::internal::linked_ref<int, RefTraits> L;
    std::vector<int> d; destructs = &d;
    enum { N = 7 }; L* s[N] = {}; int res[N]; for(int& x : res) x = -1;   // -1: absent or moved away
    auto owners = [&](int o) { int c = 0; for(int i = 0; i < N; ++i) c += s[i] && res[i] == o; return c; };
    for(unsigned k = 0, n = sim::range(2, 40); k < n; ++k)
    {
        int i = (int)sim::choose(N), j = (int)sim::choose(N); const char* op = "";
        switch(sim::choose(5))
        {
            case 0: if(!s[i]) { op = "new"; sim::log("#%u new %d", k, i); d.push_back(0); res[i] = (int)d.size() - 1; s[i] = new L(res[i]); } break;
            case 1: case 2: if(!s[i] && s[j] && res[j] >= 0) { op = "copy"; sim::log("#%u copy %d <- %d", k, i, j); s[i] = new L(*s[j]); res[i] = res[j]; } break;
            case 3: if(!s[i] && s[j]) { op = "move"; sim::log("#%u move %d <- %d", k, i, j); if(res[j] < 0) SIM_FAULT("move-from-empty"); else if(owners(res[j]) == 1) SIM_FAULT("move-sole-owner"); s[i] = new L(std::move(*s[j])); res[i] = res[j]; res[j] = -1; } break;
            default: if(s[i]) { op = "drop"; sim::log("#%u drop %d", k, i); res[i] = -1; delete s[i]; s[i] = nullptr; } break;
        }
        if(!*op) continue;
        sim::nontrivial();
        uint64_t h = 0; for(int x : res) h = sim::mix(h, x + 1); sim::state(h);
        for(int o = 0; o < (int)d.size(); ++o)
        {
            int want = owners(o) == 0;
            SIM_CHECK(d[o] == want, d[o] > want ? "destroyed-early" : "destroyed-late", "after %s: resource %d has %d owners and was released %d times", op, o, owners(o), d[o]);
        }
        for(int x = 0; x < N; ++x) if(s[x] && res[x] >= 0) { int c = s[x]->count_shared(); SIM_CHECK(c == owners(res[x]), "use-count", "after %s: reference %d reports %d owners, there are %d", op, x, c, owners(res[x])); }
    }
    for(int i = 0; i < N; ++i) { res[i] = -1; delete s[i]; for(int o = 0; o < (int)d.size(); ++o) { int left = 0; for(int x = i + 1; x < N; ++x) left += s[x] && res[x] == o; SIM_CHECK(d[o] == (left == 0), "released", "resource %d released %d times with %d owners left", o, d[o], left); } }
}

void linked_crowd()
{
    typedef estd::internal::linked_ref<int, RefTraits> L;
    std::vector<int> d(1, 0); destructs = &d; std::vector<L*> refs(1, new L(0)); unsigned want = sim::range(250, 560);
    auto audit = [&](const char* op) { SIM_CHECK(d[0] == refs.empty(), d[0] ? "destroyed-early" : "destroyed-late", "after %s: %zu references, released %d times", op, refs.size(), d[0]);
        if(!refs.empty()) { int c = refs[sim::choose((unsigned)refs.size())]->count_shared(); SIM_CHECK(c == (int)refs.size(), "use-count", "after %s: %d owners reported, there are %zu", op, c, refs.size()); } };
    while(refs.size() < want) { unsigned n = sim::range(1, want - (unsigned)refs.size()), from = sim::choose((unsigned)refs.size()); sim::log("%u more", n); while(n--) { L* o = refs[from]; refs.push_back(sim::choose(4) == 1 ? new L(*refs.back()) : new L(*o)); } audit("growing"); }
    while(!refs.empty()) { unsigned n = sim::range(1, (unsigned)refs.size()); sim::log("%u less", n); while(n--) { if(sim::choose(2)) std::swap(refs.front(), refs.back()); delete refs.back(); refs.pop_back(); } audit("shrinking"); sim::state(refs.size()); sim::nontrivial(); }
}
// more owners of one object than a byte counts, coming and going
void s_crowd()
{
    if(sim::choose(3) == 1) { linked_crowd(); return; }
    led::reset(); deleter_calls = 0;
    typedef estd::layer2::shared_ptr<Val, DeleteIt> Own;
    unsigned want = sim::choose(50) == 1 ? sim::range(32700, 65534) : sim::range(100, 600);
    SIM_PROBE("more-owners-than-a-byte-counts");
    Own* own = new Own(new Val(77), DeleteIt()); std::vector<std::unique_ptr<Ref>> refs;
    bool mine = true;
    auto audit = [&](const char* op)
    {
        size_t n = refs.size() + mine; bool alive = n > 0;
        SIM_CHECK(led::live() == alive && deleter_calls == !alive, alive ? "destroyed-early" : "destroyed-late", "after %s: %zu owners, %zu objects, the deleter ran %u times", op, n, led::live(), deleter_calls);
        if(!refs.empty()) { Ref& x = *refs[sim::choose((unsigned)refs.size())]; SIM_CHECK(x.use_count() == n && x->get() == 77, "use-count", "after %s: %u owners reported, there are %zu", op, (unsigned)x.use_count(), n); }
        if(mine) SIM_CHECK(own->use_count() == n, "use-count", "after %s: the first owner reports %u, there are %zu", op, (unsigned)own->use_count(), n);
    };
    while(refs.size() < want)
    {
        unsigned n = sim::range(1, want - (unsigned)refs.size()); unsigned how = sim::choose(2); sim::log("%u more", n);
        for(unsigned i = 0; i < n; ++i) refs.emplace_back(refs.empty() || how ? new Ref(*own) : new Ref(*refs.back()));
        audit("growing"); sim::state(sim::mix(3, refs.size())); sim::nontrivial();
    }
    while(mine || !refs.empty())
    {
        if(mine && (refs.empty() || sim::choose(4) == 1)) { sim::log("the first owner lets go"); mine = false; own->reset(); audit("first owner's reset"); continue; }
        unsigned n = sim::range(1, (unsigned)refs.size()); sim::log("%u less", n);
        while(n--) { if(sim::choose(8) == 1) refs.back()->reset(); refs.pop_back(); }
        audit("shrinking");
    }
    delete own;
}
const sim::Scenario scen[] = { { "layers", s_layers, 50 }, { "chain", s_chain, 20 }, { "linked", s_linked, 20 }, { "crowd", s_crowd, 2 } };
}
const sim::Harness sim::harness = {
    "C13",
    "a run is an interleaving of 2-40 reference operations by clients over up to 3 owning objects and 6 references (or a graph of up to 6 nodes, or 7 linked references, or rarely 100-65535 owners of one object); non-trivial when an operation ran; distinct by hash of the event log",
    "layer1/layer2/layer3 shared_ptr, control blocks, linked_ref, intrusive forward list",
    "none (the value type and deleters keep the ledger)",
    "an owning object (layer1/layer2) outlives the references derived from it|at most 65535 owners|a moved-from linked reference is only dropped or moved",
    150000, 20000000, scen, sizeof scen / sizeof *scen, nullptr,
};
