// C16: function objects.  Clients create, call, copy, move, replace and drop owning function objects, inline function
// objects, bound methods and views of callable models, while target copies, moves and calls throw and memory runs out.
#include <estd/functional.h>
#include <ledger.h>
#include <memory>
#include <vector>
#include <string>
#include <new>
#include <cstdlib>
#include <cstring>

namespace {
using led::Val;
long alloc_fuse = -1;       // the n-th allocation from now fails
bool counting = false;
long blocks = 0;            // blocks obtained while counting
}
// memory requests of the code under test
void* operator new(size_t n)
{
    if(counting && alloc_fuse > 0 && --alloc_fuse == 0) { alloc_fuse = -1; SIM_FAULT("out-of-memory"); throw std::bad_alloc(); }
    char* p = (char*)std::malloc(n + 16); if(!p) throw std::bad_alloc();
    *(bool*)p = counting; if(counting) ++blocks;
    return p + 16;
}
void operator delete(void* v) noexcept { if(v) { char* p = (char*)v - 16; if(*(bool*)p) --blocks; std::free(p); } }
void operator delete(void* v, size_t) noexcept { operator delete(v); }

namespace {
struct CallBoom {};
unsigned calls_seen; int last_id; int call_fuse = -1;
void called(int id) { ++calls_seen; last_id = id; if(call_fuse > 0 && --call_fuse == 0) { call_fuse = -1; SIM_FAULT("call-throws"); throw CallBoom(); } }
struct Counting { Counting() { counting = true; } ~Counting() { counting = false; } };

// targets: answer depends on which target it is, on its own call count and on every argument
int answer(int id, int n, int a, int b) { return id * 100003 + n * 1009 + a * 31 + b; }
struct Small { Val id; int n = 0; Small(int i) : id(i) {}
    int operator()(int a, Val b) { int i = id.get(); called(i); ++n; return answer(i, n, a, b.get()); } };
struct Big { char pad[120]; Val id; Val other; int n = 0; Big(int i) : id(i), other(i + 1) { for(unsigned k = 0; k < sizeof pad; k++) pad[k] = (char)(i + k); }
    int operator()(int a, Val b) { int i = id.get(); called(i); SIM_CHECK(other.get() == i + 1, "target-altered", "second member of target %d is %d", i, other.v);
        for(unsigned k = 0; k < sizeof pad; k++) SIM_CHECK(pad[k] == (char)(i + k), "target-altered", "byte %u of target %d changed", k, i);
        ++n; return answer(i, n, a, b.get()); } };
struct ByRef { Val id; int n = 0; ByRef(int i) : id(i) {}
    int operator()(int a, const Val& b) { int i = id.get(); called(i); ++n; return answer(i, n, a, b.get()); } };

typedef int Sig(int, Val);
template <bool nullable> struct Owner { typedef estd::experimental::function<Sig, nullable> F; };

struct Slot { void* raw = nullptr; bool live = false, has = false; int id = 0, n = 0; int kind = 0; };

template <class F, bool nullable> struct Owned
{
    enum { N = 5 };
    Slot s[N]; int next_id = 1;
    F& f(int i) { return *(F*)s[i].raw; }
    Owned() { for(int i = 0; i < N; i++) s[i].raw = std::malloc(sizeof(F)); }
    void drop(int i) { if(s[i].live) { { Counting c; f(i).~F(); } s[i].live = s[i].has = false; } }

    // values alive inside targets
    unsigned vals(int kind) { return kind == 1 ? 2 : 1; }
    void check()
    {
        unsigned want = 0; long wb = 0;
        for(int i = 0; i < N; i++) if(s[i].live)
        {
            if(s[i].has) { want += vals(s[i].kind); ++wb; }
            if(nullable || s[i].has) SIM_CHECK(bool(f(i)) == s[i].has, "emptiness", "function object %d says %s, it holds %s", i, bool(f(i)) ? "engaged" : "empty", s[i].has ? "a target" : "nothing");
        }
        SIM_CHECK(led::live() == want, "target-balance", "%zu target parts alive, %u expected", led::live(), want);
        SIM_CHECK(blocks == wb, "memory-balance", "%ld blocks held, %ld expected", blocks, wb);
        SIM_PROBE("check");
    }
    template <class T, class G> bool attempt(const char* what, int i, T&& t, G&& g)
    {
        (void)t; long before = blocks; (void)before;
        try { g(); led::disarm(); alloc_fuse = -1; return true; }
        catch(const led::Boom&) { sim::log("%s %d: the target's construction failed", what, i); }
        catch(const std::bad_alloc&) { sim::log("%s %d: out of memory", what, i); }
        led::disarm(); alloc_fuse = -1;
        return false;
    }
    void arm()
    {
        if(sim::chance(1, 4)) { if(sim::chance(1, 2)) led::arm((int)sim::range(1, 4)); else alloc_fuse = 1; }
    }
    template <class T> void create(int i, int kind, bool lvalue)
    {
        int id = next_id++;
        {
        T t(id); bool ok;
        arm();
        if(lvalue)
        {
            ok = attempt("create", i, t, [&] { Counting c; new (s[i].raw) F(t); });
            SIM_CHECK(t.id.get() == id && t.n == 0, "source-altered", "building a function object from a named functor changed that functor (now %d)", t.id.v);
        }
        else ok = attempt("create", i, t, [&] { Counting c; new (s[i].raw) F(std::move(t)); });
        if(ok) { s[i].live = s[i].has = true; s[i].id = id; s[i].n = 0; s[i].kind = kind; }
        sim::log("create %d kind %d%s id %d -> %s", i, kind, lvalue ? " from a named functor" : "", id, ok ? "ok" : "failed");
        }
    }
    template <class T> void assign(int i, int kind, bool lvalue)
    {
        int id = next_id++;
        {
        T t(id); bool ok; if(lvalue) t.n = 3;
        arm();
        if(lvalue)
        {
            ok = attempt("assign", i, t, [&] { Counting c; f(i) = t; });
            SIM_CHECK(t.id.get() == id && t.n == 3, "source-altered", "assigning a named functor changed that functor (now %d)", t.id.v);
        }
        else ok = attempt("assign", i, t, [&] { Counting c; f(i) = std::move(t); });
        if(ok) { s[i].has = true; s[i].id = id; s[i].n = lvalue ? 3 : 0; s[i].kind = kind; }
        sim::log("assign %d kind %d%s id %d -> %s", i, kind, lvalue ? " from a named functor" : "", id, ok ? "ok" : "failed");
        }
    }
    void call(F& fn, int i)
    {
        int a = (int)sim::range(0, 29); int bv = (int)sim::range(0, 30); Val b(bv); int r = 0; bool threw = false;
        if(sim::chance(1, 6)) call_fuse = 1;
        unsigned before = calls_seen;
        try { if(sim::chance(1, 2)) r = fn(a, b); else r = fn(a, Val(bv)); } catch(const CallBoom&) { threw = true; }
        bool armed = call_fuse < 0 && threw; call_fuse = -1;
        SIM_CHECK(calls_seen == before + 1, "call-count", "one call of function object %d ran its target %u times", i, calls_seen - before);
        SIM_CHECK(last_id == s[i].id, "wrong-target", "function object %d called target %d, it holds %d", i, last_id, s[i].id);
        SIM_CHECK(b.get() == bv, "argument-altered", "the caller's argument became %d", b.v);
        if(!threw) { ++s[i].n; int w = answer(s[i].id, s[i].n, a, bv); SIM_CHECK(r == w, "result", "function object %d returned %d, its target gives %d", i, r, w); }
        sim::log("call %d (%d, %d) -> %s%d", i, a, bv, armed ? "threw " : "", r);
    }
    void run(bool copies)
    {
        led::reset(); blocks = 0; alloc_fuse = -1; calls_seen = 0; call_fuse = -1;
        unsigned steps = sim::range(5, 40);
        for(unsigned k = 0; k < steps; k++)
        {
            sim::step("op");
            int i = (int)sim::choose(N), j = (int)sim::choose(N), kind = (int)sim::choose(3);
            bool lv = copies && sim::chance(1, 3);
            switch(sim::choose(9))
            {
                case 0: case 1:
                    drop(i);
                    if(kind == 0) create<Small>(i, 0, lv); else if(kind == 1) create<Big>(i, 1, lv); else create<ByRef>(i, 2, lv);
                    break;
                case 2:     // move into a new one
                    if(i == j || !s[j].live) break;
                    drop(i);
                    { Counting c; new (s[i].raw) F(std::move(f(j))); }
                    s[i].live = true; s[i].has = s[j].has; s[i].id = s[j].id; s[i].n = s[j].n; s[i].kind = s[j].kind; s[j].has = false;
                    sim::log("move %d -> new %d", j, i);
                    break;
                case 3:     // replace the target
                    if(!s[i].live) break;
                    if(kind == 0) assign<Small>(i, 0, lv); else if(kind == 1) assign<Big>(i, 1, lv); else assign<ByRef>(i, 2, lv);
                    break;
                case 4:     // move-assign, also to itself
                    if(!s[i].live || !s[j].live) break;
                    { Counting c; f(i) = std::move(f(j)); }
                    sim::log("move-assign %d -> %d", j, i);
                    if(i == j) { long others = 0; for(int q = 0; q < N; q++) others += q != i && s[q].live && s[q].has; s[i].has = s[i].has && (nullable ? bool(f(i)) : blocks > others); break; }      // what it holds after self-move is its own business; nothing may leak or be used twice
                    s[i].has = s[j].has; s[i].id = s[j].id; s[i].n = s[j].n; s[i].kind = s[j].kind; s[j].has = false;
                    break;
                case 5: drop(i); sim::log("drop %d", i); break;
                case 6:     // a copy has a target of its own
                    if(!copies || i == j || !s[j].live) break;
                    {
                        drop(i); arm(); const F& cf = f(j); F& mf = f(j); bool cst = sim::chance(1, 2);
                        bool ok = attempt("copy", i, 0, [&] { Counting c; if(cst) new (s[i].raw) F(cf); else new (s[i].raw) F(mf); });
                        if(ok) { s[i] = Slot{ s[i].raw, true, s[j].has, s[j].id, s[j].n, s[j].kind }; }
                        sim::log("copy %d -> new %d: %s", j, i, ok ? "ok" : "failed");
                    }
                    break;
                case 7:     // copy-assign, also to itself
                    if(!copies || !s[i].live || !s[j].live) break;
                    {
                        arm(); const F& cf = f(j); F& mf = f(j); bool cst = sim::chance(1, 2);
                        bool ok = attempt("copy-assign", i, 0, [&] { Counting c; if(cst) f(i) = cf; else f(i) = mf; });
                        if(ok && i != j) { s[i] = Slot{ s[i].raw, true, s[j].has, s[j].id, s[j].n, s[j].kind }; }
                        sim::log("copy-assign %d -> %d: %s", j, i, ok ? "ok" : "failed");
                    }
                    break;
                case 8:
                    if(s[i].live && s[i].has) { call(f(i), i); sim::nontrivial(); }
                    break;
            }
            check();
            if(s[i].live && s[i].has && sim::chance(1, 3)) { call(f(i), i); check(); }
            sim::state(sim::mix(sim::mix(s[0].has * 2 + s[0].live, s[1].has * 2 + s[1].live), s[2].has * 2 + s[2].live + 4 * s[2].kind));
        }
        for(int i = 0; i < N; i++) drop(i);
        check();
        for(int i = 0; i < N; i++) std::free(s[i].raw);
    }
};
void s_owning() { if(sim::chance(1, 2)) { Owned<Owner<true>::F, true> o; o.run(sim::chance(2, 3)); } else { Owned<Owner<false>::F, false> o; o.run(sim::chance(2, 3)); } }

// inline function objects hold their target inside themselves; views of them follow the one they were made from
void s_inline()
{
    led::reset(); calls_seen = 0; call_fuse = -1; alloc_fuse = -1;
    typedef estd::experimental::inline_function<Small, Sig> F; typedef estd::detail::function<Sig> View;
    enum { N = 4, V = 3 };
    struct S { void* raw; bool live; int id, n; } s[N]; View v[V]; int vs[V];
    for(auto& x : s) { x.raw = std::malloc(sizeof(F)); x.live = false; }
    for(int& x : vs) x = -1;
    int next = 1;
    auto drop = [&](int i) { if(s[i].live) { ((F*)s[i].raw)->~F(); std::memset(s[i].raw, 0xEE, sizeof(F)); s[i].live = false; for(int k = 0; k < V; k++) if(vs[k] == i) { v[k] = View(); vs[k] = -1; } } };
    unsigned steps = sim::range(5, 30);
    for(unsigned k = 0; k < steps; k++)
    {
        sim::step("op");
        int i = (int)sim::choose(N), j = (int)sim::choose(N), w = (int)sim::choose(V);
        switch(sim::choose(6))
        {
            case 0: { drop(i); Small t(next); if(sim::chance(1, 5)) led::arm(1);
                try { new (s[i].raw) F(std::move(t)); s[i].live = true; s[i].id = next; s[i].n = 0; sim::log("inline %d id %d", i, next); } catch(const led::Boom&) { sim::log("inline %d: construction failed", i); }
                led::disarm(); ++next; break; }
            case 1: if(i == j || !s[j].live) break; drop(i); if(sim::chance(1, 5)) led::arm(1);
                try { new (s[i].raw) F(*(const F*)s[j].raw); s[i].live = true; s[i].id = s[j].id; s[i].n = s[j].n; sim::log("copy inline %d -> %d", j, i); } catch(const led::Boom&) { sim::log("copy inline %d -> %d failed", j, i); }
                led::disarm(); break;
            case 2: drop(i); sim::log("drop inline %d", i); break;
            case 3: if(!s[i].live) break; v[w] = *(F*)s[i].raw; vs[w] = i; sim::log("view %d of %d", w, i); break;
            case 4: { int q = (int)sim::choose(V); if(sim::chance(1, 2)) v[w] = v[q]; else { View c(v[q]); v[w] = c; } vs[w] = vs[q]; break; }
            case 5:
            {
                bool view = sim::chance(1, 2); int t = view ? vs[w] : i;
                if(view) SIM_CHECK(bool(v[w]) == (t >= 0), "emptiness", "view %d claims %d", w, (int)bool(v[w]));
                if(t < 0 || !s[t].live) break;
                int a = (int)sim::range(0, 29), bv = (int)sim::range(0, 30), r = 0; bool threw = false; Val b(bv); unsigned before = calls_seen;
                if(sim::chance(1, 6)) call_fuse = 1;
                try { r = view ? v[w](a, b) : (*(F*)s[t].raw)(a, b); } catch(const CallBoom&) { threw = true; }
                call_fuse = -1;
                SIM_CHECK(calls_seen == before + 1, "call-count", "one call ran its target %u times", calls_seen - before);
                SIM_CHECK(last_id == s[t].id, "wrong-target", "%s %d called target %d instead of %d", view ? "view" : "inline", view ? w : t, last_id, s[t].id);
                if(!threw) { ++s[t].n; int want = answer(s[t].id, s[t].n, a, bv); SIM_CHECK(r == want, "result", "%s %d returned %d, its own target gives %d", view ? "view" : "inline", view ? w : t, r, want); }
                sim::log("call %s %d -> %d", view ? "view" : "inline", view ? w : t, r); sim::nontrivial();
                break;
            }
        }
        unsigned live = 0; for(auto& x : s) live += x.live;
        SIM_CHECK(led::live() == live, "target-balance", "%zu targets alive, %u expected", led::live(), live);
        sim::state(sim::mix(live, sim::mix(vs[0] + 1, vs[1] + 1)));
    }
    for(int i = 0; i < N; i++) { drop(i); std::free(s[i].raw); }
    SIM_CHECK(led::live() == 0, "target-balance", "%zu targets left alive", led::live());
}

// models of every kind called through views of them
struct Ctx
{
    Val id; int n = 0; Ctx(int i) : id(i) {}
    int both(int a, Val b) { int i = id.get(); called(i); ++n; return answer(i, n, a, b.get()); }
    int less(int a, Val b) { int i = id.get(); called(i); ++n; return -answer(i, n, a, b.get()); }
    void quiet(int a) { called(id.get()); n += a; }
};
struct VoidTarget { Val id; int n = 0; VoidTarget(int i) : id(i) {} void operator()(int a) { called(id.get()); n += a; } };
struct Passer { Val id; Passer(int i) : id(i) {} Val operator()(Val v, const Val& c, Val& out, Val&& in) { called(id.get()); Val mine(std::move(in)); int o = out.get(); out = v; return Val(id.get() + v.get() + 2 * c.get() + 3 * o + 5 * mine.get()); } };

template <template <class> class Impl> void views()
{
    led::reset(); calls_seen = 0; call_fuse = -1;
    typedef estd::detail::v2::function<Sig, Impl> F; typedef estd::detail::v2::function<void(int), Impl> FV;
    typedef estd::detail::v2::function<Val(Val, const Val&, Val&, Val&&), Impl> FP;
    {
    Ctx c1(1), c2(2);
    auto small0 = F::make_model(Small(3)); auto big0 = F::make_model(Big(4)); auto small(std::move(small0)); auto big(big0); auto ref = F::make_model(ByRef(6));
    typename Impl<Sig>::template method_model<Ctx, &Ctx::both> m1(&c1); typename Impl<Sig>::template method_model<Ctx, &Ctx::less> m2(&c2), m3(&c1);
    auto vt = FV::make_model(VoidTarget(7)); typename Impl<void(int)>::template method_model<Ctx, &Ctx::quiet> q1(&c1), q2(&c2);
    auto pm = FP::make_model(Passer(9)); FP pass(&pm);
    size_t held = led::live();
    typename F::model_base* models[] = { &small, &big, &ref, &m1, &m2, &m3 }; int ids[] = { 3, 4, 6, 1, 2, 1 };
    typename FV::model_base* vms[] = { &vt, &q1, &q2 };
    F v[4]; int at[4] = { -1, -1, -1, -1 };
    int n[6] = { 0, 0, 0, 0, 0, 0 }; int nv = 0;       // calls of each target; 3 and 5 share c1, 4 is c2's
    auto count = [&](int t) -> int& { return t == 5 ? n[3] : n[t]; };
    unsigned steps = sim::range(5, 30);
    for(unsigned k = 0; k < steps; k++)
    {
        sim::step("op");
        int w = (int)sim::choose(4);
        switch(sim::choose(5))
        {
            case 0: { int t = (int)sim::choose(6); if(sim::chance(1, 2)) v[w] = F(models[t]); else { F f(models[t]); v[w] = f; } at[w] = t; sim::log("view %d of model %d", w, t); break; }
            case 1: { int q = (int)sim::choose(4); v[w] = v[q]; at[w] = at[q]; sim::log("view %d = view %d", w, q); break; }
            case 2: v[w] = F(nullptr); at[w] = -1; break;
            case 3:
            {
                SIM_CHECK(bool(v[w]) == (at[w] >= 0), "emptiness", "view %d claims %d", w, (int)bool(v[w]));
                if(at[w] < 0) break;
                int t = at[w], a = (int)sim::range(0, 29), bv = (int)sim::range(0, 30), r = 0; bool threw = false; Val b(bv); unsigned before = calls_seen;
                if(sim::chance(1, 6)) call_fuse = 1;
                try { r = v[w](a, b); } catch(const CallBoom&) { threw = true; }
                call_fuse = -1;
                SIM_CHECK(calls_seen == before + 1, "call-count", "one call ran its target %u times", calls_seen - before);
                SIM_CHECK(last_id == ids[t], "wrong-target", "view %d of model %d called %d instead of %d", w, t, last_id, ids[t]);
                SIM_CHECK(b.get() == bv, "argument-altered", "the caller's argument became %d", b.v);
                if(!threw) { int want = answer(ids[t], ++count(t), a, bv); if(t == 4 || t == 5) want = -want; SIM_CHECK(r == want, "result", "view of model %d returned %d instead of %d", t, r, want); }
                sim::log("call view %d (model %d) -> %d", w, t, r); sim::nontrivial();
                break;
            }
            case 4:
            {
                if(sim::chance(1, 2))
                {
                    int t = (int)sim::choose(3), a = (int)sim::range(1, 9); FV f(vms[t]); f(a);
                    if(t == 0) nv += a; else if(t == 1) n[3] += a; else n[4] += a;
                    SIM_CHECK(last_id == (t == 0 ? 7 : t), "wrong-target", "void call %d reached %d", t, last_id);
                    if(t == 0) SIM_CHECK(vt.f.n == nv, "result", "void target saw %d instead of %d", vt.f.n, nv);
                }
                else
                {   // by value, by reference, by constant reference and by rvalue at once
                    int x = (int)sim::range(1, 50), y = (int)sim::range(1, 50), z = (int)sim::range(1, 50), u = (int)sim::range(1, 50);
                    Val a(x), b(y), c(z), d(u); Val r = pass(a, b, c, std::move(d));
                    SIM_CHECK(r.get() == 9 + x + 2 * y + 3 * z + 5 * u, "result", "mixed call returned %d", r.v);
                    SIM_CHECK(a.get() == x && b.get() == y && c.get() == x && d.get() == -777, "argument-altered", "arguments came back as %d %d %d %d", a.v, b.v, c.v, d.v);
                }
                break;
            }
        }
        SIM_CHECK(c1.n == n[3] && c2.n == n[4], "result", "objects saw %d and %d calls instead of %d and %d", c1.n, c2.n, n[3], n[4]);
        SIM_CHECK(led::live() == held, "target-balance", "%zu values alive, %zu expected", led::live(), held);
        sim::state(sim::mix(sim::mix(at[0] + 1, at[1] + 1), at[2] + 1));
    }
    }
    SIM_CHECK(led::live() == 0, "target-balance", "%zu values left alive", led::live());
}
void s_views() { switch(sim::choose(3)) { case 0: views<estd::detail::impl::function_fnptr1>(); break; case 1: views<estd::detail::impl::function_fnptr2>(); break; default: views<estd::detail::impl::function_virtual>(); } }

// objects bound to a member function, copied and outliving one another
int with_context(int a, Val b, int t, int c) { called(t); return answer(t, c, a, b.get()); }
int with_values(int a, Val b, Val t, Val c, int d) { called(t.get()); return answer(t.get(), c.get() + d, a, b.get()); }
void s_bound()
{
    led::reset(); calls_seen = 0; call_fuse = -1;
    {
    Ctx c1(1), c2(2);
    typedef estd::experimental::context_function<decltype(&Ctx::both), &Ctx::both> CF;
    typedef estd::internal::thisify_function<Sig> TF;
    typedef estd::internal::contextify_function<Sig, int> XF; typedef XF::model<int, &with_context> XM;
    enum { N = 4 }; struct S { TF* p; bool ctx; int who; bool less; } s[N]; for(auto& x : s) x.p = nullptr;
    int n[3] = { 0, 0, 0 };
    unsigned steps = sim::range(5, 25);
    for(unsigned k = 0; k < steps; k++)
    {
        sim::step("op");
        int i = (int)sim::choose(N), j = (int)sim::choose(N), who = (int)sim::range(1, 2); Ctx& c = who == 1 ? c1 : c2;
        auto drop = [&](int q) { if(s[q].p) { if(s[q].ctx) delete (CF*)s[q].p; else delete s[q].p; s[q].p = nullptr; } };
        switch(sim::choose(5))
        {
            case 0: drop(i); s[i] = S{ new CF(&c), true, who, false }; break;
            case 1: drop(i); if(sim::chance(1, 2)) s[i] = S{ new TF(TF::model<Ctx, &Ctx::less>(&c)), false, who, true }; else s[i] = S{ new TF(TF::create<Ctx, &Ctx::both>(&c)), false, who, false }; break;
            case 2: if(i == j || !s[j].p) break; { TF* t = s[j].ctx ? new CF(*(CF*)s[j].p) : new TF(*s[j].p); drop(i); s[i] = S{ t, s[j].ctx, s[j].who, s[j].less }; sim::log("copy %d -> %d", j, i); } break;
            case 3: drop(i); sim::log("drop %d", i); break;
            case 4:
            {
                int a = (int)sim::range(0, 29), bv = (int)sim::range(0, 30); Val b(bv); unsigned before = calls_seen;
                if(sim::chance(1, 5))
                {
                    // contexts kept by the model serve any number of calls, and each copy has its own
                    typedef estd::internal::contextify_function<Sig, Val, int> VF; typedef VF::model<Val, &with_values> VM;
                    int t = (int)sim::range(10, 20), cc = (int)sim::range(0, 5), d = (int)sim::range(0, 4); SIM_PROBE("kept-contexts");
                    std::unique_ptr<VM> m(new VM(Val(t), Val(cc), (int)d)), m2;
                    for(unsigned q = sim::range(1, 4); q--; )
                    {
                        if(!m2 && sim::choose(2)) { m2.reset(new VM(*m)); if(sim::choose(2)) m.reset(); }
                        estd::detail::v2::function<Sig, estd::detail::impl::function_fnptr1> f(m2 && (!m || sim::choose(2)) ? m2.get() : m.get());
                        unsigned seen = calls_seen; int r = f(a, b);
                        SIM_CHECK(calls_seen == seen + 1 && last_id == t, "wrong-target", "call with contexts %d,%d,%d reached %d", t, cc, d, last_id);
                        SIM_CHECK(r == answer(t, cc + d, a, bv), "result", "call with contexts %d,%d,%d returned %d", t, cc, d, r);
                        SIM_CHECK(b.get() == bv, "argument-altered", "the caller's argument became %d", b.v);
                    }
                    break;
                }
                if(sim::chance(1, 5))
                {
                    int t = (int)sim::range(10, 20), cc = (int)sim::range(0, 9); XM m((int)t, (int)cc); XM m2(m); estd::detail::v2::function<Sig, estd::detail::impl::function_fnptr1> f(sim::chance(1, 2) ? &m : &m2);
                    int r = f(a, b); SIM_CHECK(r == answer(t, cc, a, bv) && last_id == t, "result", "call with context %d,%d returned %d", t, cc, r);
                    break;
                }
                if(!s[i].p) break;
                int r = 0; bool threw = false; if(sim::chance(1, 6)) call_fuse = 1;
                try { if(sim::chance(1, 2)) r = (*s[i].p)(a, b); else { estd::detail::v2::function<Sig, estd::detail::impl::function_fnptr1> f(*s[i].p); r = f(a, b); } } catch(const CallBoom&) { threw = true; }
                call_fuse = -1;
                SIM_CHECK(calls_seen == before + 1 && last_id == s[i].who, "wrong-target", "bound function %d reached object %d instead of %d (%u calls)", i, last_id, s[i].who, calls_seen - before);
                if(!threw) { int w = answer(s[i].who, ++n[s[i].who], a, bv); if(s[i].less) w = -w; SIM_CHECK(r == w, "result", "bound function %d returned %d instead of %d", i, r, w); }
                sim::log("call %d -> %d", i, r); sim::nontrivial();
                break;
            }
        }
        SIM_CHECK(c1.n == n[1] && c2.n == n[2], "result", "objects saw %d and %d calls instead of %d and %d", c1.n, c2.n, n[1], n[2]);
        SIM_CHECK(led::live() == 2, "target-balance", "%zu values alive", led::live());
        sim::state(sim::mix(s[0].p ? s[0].who : 0, s[1].p ? s[1].who : 0));
    }
    for(auto& x : s) if(x.p) { if(x.ctx) delete (CF*)x.p; else delete x.p; }
    }
    SIM_CHECK(led::live() == 0, "target-balance", "%zu values left alive", led::live());
}

// one-shot models: the target is destroyed by its call, and never otherwise
template <template <class> class Impl> void once()
{
    led::reset(); calls_seen = 0; call_fuse = -1;
    typedef estd::detail::v2::function<Sig, Impl> F; typedef typename F::template model<Small> M;
    enum { N = 4 }; struct S { void* raw; bool live; int id; } s[N]; for(auto& x : s) { x.raw = std::malloc(sizeof(M)); x.live = false; }
    int next = 1; unsigned live = 0; unsigned steps = sim::range(3, 20);
    for(unsigned k = 0; k < steps; k++)
    {
        sim::step("op");
        int i = (int)sim::choose(N);
        if(!s[i].live) { new (s[i].raw) M(Small(next)); s[i].live = true; s[i].id = next++; ++live; }
        else
        {
            int a = (int)sim::range(0, 29), bv = (int)sim::range(0, 30); Val b(bv); unsigned before = calls_seen; unsigned d = led::st().destroyed;
            int r = 0; bool threw = false; if(sim::chance(1, 5)) call_fuse = 1; bool fuse = call_fuse > 0;
            try { F f((M*)s[i].raw); r = f(a, b); } catch(const CallBoom&) { threw = true; } (void)d;
            SIM_CHECK(threw == fuse, "exception", "the target %s, the caller saw %s", fuse ? "threw" : "did not throw", threw ? "an exception" : "none"); call_fuse = -1;
            SIM_CHECK(calls_seen == before + 1 && last_id == s[i].id, "wrong-target", "one-shot %d reached %d instead of %d", i, last_id, s[i].id);
            if(!threw) SIM_CHECK(r == answer(s[i].id, 1, a, bv), "result", "one-shot %d returned %d", i, r);
            s[i].live = false; --live; sim::nontrivial();
        }
        SIM_CHECK(led::live() == live, "target-balance", "%zu targets alive, %u expected", led::live(), live);
        sim::state(live);
    }
    for(auto& x : s) { if(x.live) ((M*)x.raw)->f.~Small(); std::free(x.raw); }
}
template <template <class> class Impl> void once_void()
{
    led::reset(); typedef estd::detail::v2::function<void(int), Impl> FV; typedef typename FV::template model<VoidTarget> M;
    void* raw = std::malloc(sizeof(M)); int n = (int)sim::range(1, 4);
    for(int k = 0; k < n; k++) { sim::step("op"); new (raw) M(VoidTarget(k + 1)); SIM_CHECK(led::live() == 1, "target-balance", "%zu targets alive", led::live()); FV f((M*)raw); if(sim::chance(1, 4)) call_fuse = 1; bool fuse = call_fuse > 0, threw = false; try { f(k); } catch(const CallBoom&) { threw = true; } SIM_CHECK(threw == fuse, "exception", "the target %s, the caller saw %s", fuse ? "threw" : "did not throw", threw ? "an exception" : "none"); call_fuse = -1; SIM_CHECK(led::live() == 0 && last_id == k + 1, "target-balance", "%zu targets alive after the only call", led::live()); }
    std::free(raw);
}
void s_once() { if(sim::chance(1, 2)) once<estd::detail::impl::function_fnptr2_opt>(); else once_void<estd::detail::impl::function_fnptr2_opt>(); }
}

const sim::Scenario scen[] = { {"owning", s_owning, 5}, {"inline", s_inline, 2}, {"views", s_views, 2}, {"bound", s_bound, 2}, {"once", s_once, 1} };
const sim::Harness sim::harness = { "C16",
  "a history exercises the property when a target is called after at least one change of ownership",
  "experimental::function (owning), inline_function, context_function, thisify_function and contextify_function models, detail::function over the three model implementations and the one-shot models",
  "target objects, their failures, and the memory allocator",
  "empty function objects are not called|a target does not replace its own function object while it runs|static_function and bind are outside",
  200000, 1500000, scen, sizeof scen / sizeof *scen, nullptr };
