// C14: optional, variant and expected through histories of engaging, switching, assigning, moving and
// resetting, in which any construction or assignment of a contained value may fail.
#include <estd/optional.h>
#include <estd/functional.h>
#include <estd/variant.h>
#include <estd/expected.h>
#include <ledger.h>
#include <memory>
#include <vector>

namespace {
template <int Tag> struct Arg { int n; };

// a value told apart by its tag; NM: moving it never fails
template <int Tag, bool NM> struct X
{
    static constexpr int tag = Tag; static constexpr bool assignable = true;
    unsigned magic, id; int v;
    void born() { id = led::st().next++; magic = id * 2654435761u ^ (0xA11FE0u + Tag); led::st().live[id] = Tag; }
    bool ok() const { auto& l = led::st().live; auto i = l.find(id); return magic == (id * 2654435761u ^ (0xA11FE0u + Tag)) && i != l.end() && i->second == Tag; }
    void use(const char* what) const { SIM_CHECK(ok(), "dead-value", "%s of a value that is not alive (id %u)", what, id); }
    int get() const { use("read"); return v; }
    X() : v(1000 + Tag) { led::maybe_throw(); born(); }
    X(Arg<Tag> a) : v(a.n) { led::maybe_throw(); born(); }
    X(const X& o) : v((o.use("copy"), o.v)) { led::maybe_throw(); born(); }
    X(X&& o) noexcept(NM) : v((o.use("move"), o.v)) { if(!NM) led::maybe_throw(); born(); o.v = -777; }
    X& operator=(const X& o) { use("assignment to"); o.use("assignment from"); led::maybe_throw(); v = o.v; return *this; }
    X& operator=(X&& o) noexcept(NM) { use("assignment to"); o.use("move-assignment from"); if(!NM) led::maybe_throw(); if(this != &o) { v = o.v; o.v = -777; } return *this; }
    X& operator=(Arg<Tag> a) { use("assignment to"); led::maybe_throw(); v = a.n; return *this; }
    ~X() { SIM_CHECK(ok(), "destroyed-twice", "destruction of a value that is not alive (id %u)", id); led::st().live.erase(id); magic = 0xDEAD; }
    bool operator==(const X& o) const { return get() == o.get(); }
    bool operator==(int n) const { return get() == n; }
    bool operator<(int n) const { return get() < n; }
    bool operator>(int n) const { return get() > n; }
    bool operator<=(int n) const { return get() <= n; }
    bool operator>=(int n) const { return get() >= n; }
    bool operator!=(int n) const { return get() != n; }
    friend bool operator==(int n, const X& x) { return x.get() == n; }
};
// the same, but it cannot be assigned
template <int Tag, bool NM> struct NA : X<Tag, NM>
{
    static constexpr bool assignable = false;
    NA() {}
    NA(Arg<Tag> a) : X<Tag, NM>(a) {}
    NA(const NA& o) : X<Tag, NM>(o) {}
    NA(NA&& o) noexcept(NM) : X<Tag, NM>(std::move(o)) {}
    NA& operator=(const NA&) = delete;
};

int fresh() { static int n; return n = n % 9000 + 7; }

template <class F> bool attempt(const char* what, F f, bool can_fail = true)
{
    if(can_fail && sim::chance(2, 5)) led::arm(1 + sim::choose(3));
    bool ok = true;
    try { f(); } catch(const led::Boom&) { ok = false; }
    led::disarm();
    sim::log("%s%s", what, ok ? "" : " (failed)");
    sim::nontrivial();
    return ok;
}

}
namespace estd { template <int Tag, bool NM> struct hash<X<Tag, NM>> { size_t operator()(const X<Tag, NM>& x) const { return (size_t)x.get() * 2654435761u; } };
template <int Tag, bool NM> struct hash<NA<Tag, NM>> : hash<X<Tag, NM>> {}; }
namespace {
// ---------------------------------------------------------------- optional
template <class T, int Tag, bool NM> void s_optional()
{
    led::reset();
    typedef estd::optional<T> O;
    enum { N = 3 };
    struct S { std::unique_ptr<O> o; bool has = false; int v = 0; } s[N];
    for(S& x : s) x.o.reset(new O);
    auto audit = [&](const char* op)
    {
        size_t n = 0;
        for(int i = 0; i < N; ++i)
        {
            O& o = *s[i].o; const O& c = o;
            SIM_CHECK(o.has_value() == s[i].has && bool(c) == s[i].has, "reports", "after %s: optional %d reports %s, it holds %s", op, i, o.has_value() ? "a value" : "nothing", s[i].has ? "one" : "nothing");
            if(!s[i].has) continue;
            ++n;
            SIM_CHECK((*o).get() == s[i].v && o->get() == s[i].v && c.value().get() == s[i].v && (*c).get() == s[i].v, "value", "after %s: optional %d holds %d, expected %d", op, i, (*o).get(), s[i].v);
        }
        SIM_CHECK(led::live() == n, led::live() < n ? "destroyed-early" : "leaked", "after %s: %zu values are alive, %zu are held", op, led::live(), n);
    };
    // an operation which failed leaves the target as it was, or empty
    auto failed = [&](S& x)
    {
        bool now = x.o->has_value();
        SIM_CHECK(!now || x.has, "claims", "a failed construction left the optional claiming a value");
        x.has = now;
    };
    unsigned ops = 10 + sim::choose(40);
    for(unsigned k = 0; k < ops; ++k)
    {
        sim::step("op");
        int i = sim::choose(N), j = sim::choose(N), n = fresh();
        S& x = s[i]; S& y = s[j];
        const char* op = "?";
        switch(sim::choose(17))
        {
            case 16: op = "assign own value"; if constexpr(T::assignable) if(x.has) { bool mv = sim::chance(1, 2); if(attempt(op, [&] { if(mv) *x.o = std::move(**x.o); else *x.o = static_cast<const T&>(**x.o); })) {} else failed(x); } break;
            case 0: op = "emplace"; if(attempt(op, [&] { T& r = x.o->emplace(Arg<Tag>{n}); SIM_CHECK(&r == &**x.o, "emplace", "emplace returned something else"); })) { x.has = true; x.v = n; } else failed(x); break;
            case 1: op = "emplace default"; if(attempt(op, [&] { x.o->emplace(); })) { x.has = true; x.v = 1000 + Tag; } else failed(x); break;
            case 2: { op = "assign value"; T t(Arg<Tag>{n});
                if constexpr(T::assignable) { if(attempt(op, [&] { *x.o = t; })) { x.has = true; x.v = n; } else failed(x); }
                break; }
            case 3: { op = "assign moved value"; T t(Arg<Tag>{n});
                if constexpr(T::assignable) { if(attempt(op, [&] { *x.o = std::move(t); })) { x.has = true; x.v = n; SIM_CHECK(t.get() == -777, "moved", "the value was not moved"); } else failed(x); }
                break; }
            case 4: op = "assign convertible";
                if constexpr(T::assignable) { if(attempt(op, [&] { *x.o = Arg<Tag>{n}; })) { x.has = true; x.v = n; } else failed(x); }
                break;
            case 5: case 6: op = i == j ? "self assignment" : "copy assignment"; if(attempt(op, [&] { *x.o = static_cast<const O&>(*y.o); })) { x.has = y.has; x.v = y.v; } else failed(x); break;
            case 7: if(i == j) continue; op = "move assignment"; if(attempt(op, [&] { *x.o = std::move(*y.o); })) { x.has = y.has; x.v = y.v; if(y.has) y.v = -777; } else failed(x); break;
            case 8: op = "reset"; x.o->reset(); x.has = false; break;
            case 9: op = "assign nothing"; *x.o = estd::nullopt; x.has = false; break;
            case 10: if(i == j) continue; op = "copy construction"; x.o.reset(); x.has = false; attempt(op, [&] { x.o.reset(new O(static_cast<const O&>(*y.o))); }); if(!x.o) x.o.reset(new O); else { x.has = y.has; x.v = y.v; } break;
            case 11: if(i == j) continue; op = "move construction"; x.o.reset(); x.has = false; attempt(op, [&] { x.o.reset(new O(std::move(*y.o))); }); if(!x.o) x.o.reset(new O); else { x.has = y.has; x.v = y.v; if(y.has) y.v = -777; } break;
            case 12: op = "in-place construction"; x.o.reset(); x.has = false; attempt(op, [&] { x.o.reset(sim::chance(1, 2) ? new O(estd::in_place_t{}, Arg<Tag>{n}) : new O(Arg<Tag>{n})); }); if(!x.o) x.o.reset(new O); else { x.has = true; x.v = n; } break;
            case 13: { op = "converting construction"; estd::optional<Arg<Tag>> a; bool full = sim::chance(2, 3); if(full) a.emplace(Arg<Tag>{n});
                x.o.reset(); x.has = false; attempt(op, [&] { if(sim::chance(1, 2)) x.o.reset(new O(a)); else x.o.reset(new O(std::move(a))); });
                if(!x.o) x.o.reset(new O); else { x.has = full; x.v = n; } break; }
            case 14: { op = "converting assignment"; estd::optional<Arg<Tag>> a; bool full = sim::chance(2, 3); if(full) a.emplace(Arg<Tag>{n});
                bool mv = sim::chance(1, 2);
                if(attempt(op, [&] { if(mv) *x.o = std::move(a); else *x.o = a; })) { x.has = full; x.v = n; } else failed(x); break; }
            case 15: { op = "access";
                bool threw = false; try { SIM_CHECK(x.o->value().get() == x.v, "value", "value() gave something else"); } catch(const estd::bad_optional_access&) { threw = true; }
                SIM_CHECK(threw == !x.has, "absent-access", "value() on %s %s", x.has ? "a value" : "nothing", threw ? "was refused" : "was not refused");
                threw = false; try { const O& c = *x.o; c.value().get(); } catch(const estd::bad_optional_access&) { threw = true; }
                SIM_CHECK(threw == !x.has, "absent-access", "value() on a constant optional");
                { T d(Arg<Tag>{-5}); const O& c = *x.o; T r = c.value_or(d); SIM_CHECK(r.get() == (x.has ? x.v : -5), "value-or", "value_or gave %d", r.get()); }
                { const O& c = *x.o; O given(c); threw = false;
                  switch(sim::choose(4))
                  {
                      case 0: try { T r = std::move(given).value(); SIM_CHECK(r.get() == x.v, "value", "taking the value gave %d", r.get()); SIM_CHECK(given.has_value(), "value", "the optional taken from is empty"); } catch(const estd::bad_optional_access&) { threw = true; } SIM_CHECK(threw == !x.has, "absent-access", "value() of an expiring optional"); break;
                      case 1: try { T r = static_cast<const O&&>(given).value(); SIM_CHECK(r.get() == x.v && (*given).get() == x.v, "value", "copying the value gave %d", r.get()); } catch(const estd::bad_optional_access&) { threw = true; } SIM_CHECK(threw == !x.has, "absent-access", "value() of an expiring constant optional"); break;
                      case 2: { T d(Arg<Tag>{-5}); T r = std::move(given).value_or(d); SIM_CHECK(r.get() == (x.has ? x.v : -5), "value-or", "value_or of an expiring optional gave %d", r.get()); break; }
                      default: { T r = c.value_or(Arg<Tag>{-6}); SIM_CHECK(r.get() == (x.has ? x.v : -6), "value-or", "value_or gave %d", r.get()); if(x.has) SIM_CHECK((*c).get() == x.v && c->get() == x.v, "value", "value_or changed the optional"); } } }
                SIM_CHECK((*x.o == *y.o) == (x.has == y.has && (!x.has || x.v == y.v)), "compare", "optionals compared wrongly");
                SIM_CHECK((*x.o == 12) == (x.has && x.v == 12) && (*x.o < 5000) == (x.has && x.v < 5000), "compare", "optional and value compared wrongly");
                { int c = sim::choose(2) ? x.v : 12; const O& o = *x.o;
                  SIM_CHECK((c == o) == (x.has && x.v == c) && (o != c) == (!x.has || x.v != c) && (!x.has || ((o > c) == (x.v > c) && (o >= c) == (x.v >= c) && (o <= c) == (x.v <= c))), "compare", "optional and value compared wrongly");
                  typedef estd::hash<O> H; size_t h = H{}(o); if(o == *y.o) SIM_CHECK(h == H{}(*y.o), "hash", "equal optionals, different hashes"); }
                break; }
        }
        audit(op);
        uint64_t h = 11 + Tag; for(S& z : s) h = sim::mix(h, z.has ? (z.v < 0 ? 2 : 1) : 0);
        sim::state(sim::mix(h, op[0] * 31 + op[1]));
    }
    for(S& x : s) x.o.reset();
    SIM_CHECK(led::live() == 0, "leaked", "%zu values outlive their optionals", led::live());
}

// ---------------------------------------------------------------- layer1 optional
template <class O, class T, class F> void layer1(T null, bool distinct, F pick)
{
    O o[2]; bool has[2] = { false, false }; T v[2] = { null, null };
    for(unsigned k = 0, ops = 5 + sim::choose(20); k < ops; ++k)
    {
        int i = sim::choose(2), j = 1 - i; T n = pick();
        sim::nontrivial();
        switch(sim::choose(6))
        {
            case 0: case 1: o[i] = n; has[i] = distinct || n != null; v[i] = n; break;
            case 2: o[i].reset(); has[i] = false; break;
            case 3: o[i] = estd::nullopt; has[i] = false; break;
            case 4: o[i] = o[j]; has[i] = has[j]; v[i] = v[j]; break;
            case 5: { O c(o[j]); SIM_CHECK(c.has_value() == has[j] && (!has[j] || c.value() == v[j]), "layer1", "copy of a compact optional differs"); break; }
        }
        for(int q = 0; q < 2; ++q)
        {
            SIM_CHECK(o[q].has_value() == has[q] && bool(o[q]) == has[q], "layer1", "compact optional %d reports %d, expected %d", q, o[q].has_value(), has[q]);
            bool threw = false; try { T got = o[q].value(); SIM_CHECK(got == v[q], "layer1", "compact optional %d holds %d, expected %d", q, int(got), int(v[q])); } catch(const estd::bad_optional_access&) { threw = true; }
            SIM_CHECK(threw == !has[q], "absent-access", "value() of a compact optional holding %s", has[q] ? "a value" : "nothing");
            SIM_CHECK(o[q].value_or(n) == (has[q] ? v[q] : n), "value-or", "value_or of a compact optional");
        }
        sim::state(sim::mix(has[0] * 2 + has[1], 77 + distinct));
    }
}
void s_layer1()
{
    if(sim::chance(1, 3)) layer1<estd::layer1::optional<bool>, bool>(false, true, [] { return sim::chance(1, 2); });
    else if(sim::chance(1, 2)) layer1<estd::layer1::optional<int, -1>, int>(-1, false, [] { return int(sim::choose(5)) - 1; });
    else layer1<estd::layer1::optional<unsigned char, 255>, unsigned char>(255, false, [] { return (unsigned char)(252 + sim::choose(4)); });
}

// ---------------------------------------------------------------- variant
constexpr size_t none = (size_t)-1;
struct Look
{
    int& seen; unsigned& calls; size_t& where; bool fails;
    int of(int v) const { return v; }
    template <class Q> int of(const Q& q) const { return q.get(); }
    template <size_t I, class Q> bool operator()(estd::variadic::visitor_instance<I, Q> vi) const { ++calls; where = I; seen = of(vi.value); if(fails) { SIM_FAULT("visitor-fails"); throw led::Boom(); } return true; }
};
template <class V, class A, class B, class C, bool moves_may_fail> void s_variant()
{
    led::reset();
    enum { N = 3 };
    struct S { std::unique_ptr<V> o; size_t at = 0; int v = 0; } s[N];
    for(S& x : s) { x.o.reset(new V); x.at = 0; x.v = 0; }
    auto value = [](V& o) -> int
    {
        switch(o.index()) { case 0: return estd::get<0>(o); case 1: return estd::get<1>(o).get(); case 2: return estd::get<2>(o).get(); case 3: return estd::get<3>(o).get(); }
        return 0;
    };
    auto audit = [&](const char* op)
    {
        size_t n = 0;
        for(int i = 0; i < N; ++i)
        {
            V& o = *s[i].o; const V& c = o; size_t at = s[i].at;
            SIM_CHECK(o.index() == at && o.valueless_by_exception() == (at == none), "reports", "after %s: variant %d reports alternative %d, it holds %d", op, i, int(o.index()), int(at));
            SIM_CHECK(estd::holds_alternative<int>(o) == (at == 0) && estd::holds_alternative<A>(o) == (at == 1) && estd::holds_alternative<B>(o) == (at == 2) && estd::holds_alternative<C>(o) == (at == 3), "holds", "after %s: variant %d answers wrongly what it holds (%d)", op, i, int(at));
            SIM_CHECK(!!estd::get_if<0>(&o) == (at == 0) && !!estd::get_if<1>(&c) == (at == 1) && !!estd::get_if<B>(&o) == (at == 2) && !!estd::get_if<C>(&c) == (at == 3), "absent-access", "after %s: variant %d hands out an alternative it does not hold", op, i);
            if(at == none) continue;
            if(at) ++n;
            int got = value(o);
            SIM_CHECK(got == s[i].v, "value", "after %s: variant %d holds %d, expected %d", op, i, got, s[i].v);
        }
        SIM_CHECK(led::live() == n, led::live() < n ? "destroyed-early" : "leaked", "after %s: %zu values are alive, %zu are held", op, led::live(), n);
    };
    auto failed = [&](S& x)
    {
        size_t now = x.o->index();
        SIM_CHECK(now == none || now == x.at, "claims", "a failed construction left the variant claiming alternative %d (it held %d)", int(now), int(x.at));
        x.at = now;
    };
    unsigned ops = 10 + sim::choose(40);
    for(unsigned k = 0; k < ops; ++k)
    {
        sim::step("op");
        int i = sim::choose(N), j = sim::choose(N), n = fresh();
        S& x = s[i]; S& y = s[j];
        size_t at = sim::choose(4);
        const char* op = "?";
        auto become = [&](size_t a, int v) { x.at = a; x.v = v; };
        switch(sim::choose(12))
        {
            case 11:
                op = "assign own value";
                { bool mv = sim::chance(1, 2);
                if(attempt(op, [&] { V& o = *x.o; switch(x.at) { case 0: o = estd::get<0>(o); break; case 1: if constexpr(A::assignable) { if(mv) o = std::move(estd::get<1>(o)); else o = static_cast<const A&>(estd::get<1>(o)); } break; case 2: if(mv) o = std::move(estd::get<2>(o)); else o = static_cast<const B&>(estd::get<2>(o)); break; case 3: if constexpr(C::assignable) { if(mv) o = std::move(estd::get<3>(o)); else o = static_cast<const C&>(estd::get<3>(o)); } break; default: break; } })) {} else failed(x); }
                break;
            case 0: case 1:
                op = "emplace";
                if(attempt(op, [&] { switch(at) {
                    case 0: x.o->template emplace<0>(n); break;
                    case 1: { auto& r = sim::chance(1, 2) ? x.o->template emplace<1>(Arg<1>{n}) : x.o->template emplace<A>(Arg<1>{n}); SIM_CHECK(&r == &estd::get<1>(*x.o), "emplace", "emplace returned something else"); break; }
                    case 2: sim::chance(1, 2) ? x.o->template emplace<2>(Arg<2>{n}) : x.o->template emplace<B>(Arg<2>{n}); break;
                    case 3: x.o->template emplace<3>(Arg<3>{n}); break; } })) become(at, n); else failed(x);
                break;
            case 2:
                op = "assign convertible";
                if(attempt(op, [&] { switch(at) { case 0: *x.o = n; break; case 1: *x.o = Arg<1>{n}; break; case 2: *x.o = Arg<2>{n}; break; case 3: *x.o = Arg<3>{n}; break; } })) become(at, n); else failed(x);
                break;
            case 3:
                op = "assign value";
                { A a(Arg<1>{n}); B b(Arg<2>{n}); C c(Arg<3>{n}); bool mv = sim::chance(1, 2);
                if(attempt(op, [&] { switch(at) { case 0: *x.o = n; break; case 1: if(mv) *x.o = std::move(a); else *x.o = a; break; case 2: if(mv) *x.o = std::move(b); else *x.o = b; break; case 3: if(mv) *x.o = std::move(c); else *x.o = c; break; } }))
                {
                    become(at, n);
                    int left = at == 1 ? a.get() : at == 2 ? b.get() : at == 3 ? c.get() : n;
                    SIM_CHECK(left == (mv && at ? -777 : n), "moved", "the value given has %d after it was %s", left, mv ? "moved" : "copied");
                } else failed(x); }
                break;
            case 4: case 5:
                op = i == j ? "self assignment" : "copy assignment";
                if(attempt(op, [&] { *x.o = static_cast<const V&>(*y.o); })) become(y.at, y.v); else failed(x);
                break;
            case 6:
                if(i == j) continue;
                op = "move assignment";
                if(attempt(op, [&] { *x.o = std::move(*y.o); }))
                {
                    become(y.at, y.v);
                    // what the source is left with is for it to say; only it must be so
                    size_t left = y.o->index(); SIM_CHECK(left == none || left == y.at, "reports", "a moved-from variant reports alternative %d", int(left));
                    y.at = left; if(left != none && left != 0) y.v = -777;
                }
                else failed(x);
                break;
            case 7:
                if(i == j) continue;
                op = "copy construction"; x.o.reset();
                attempt(op, [&] { x.o.reset(new V(static_cast<const V&>(*y.o))); });
                if(x.o) become(y.at, y.v); else { x.o.reset(new V); become(0, 0); }
                break;
            case 8:
                if(i == j) continue;
                op = "move construction"; x.o.reset();
                attempt(op, [&] { x.o.reset(new V(std::move(*y.o))); }, false);
                become(y.at, y.v);
                { size_t left = y.o->index(); SIM_CHECK(left == none || left == y.at, "reports", "a moved-from variant reports alternative %d", int(left)); y.at = left; if(left != none && left != 0) y.v = -777; }
                break;
            case 9:
                op = "construction"; x.o.reset();
                attempt(op, [&] { switch(at) {
                    case 0: x.o.reset(new V(estd::in_place_index_t<0>{}, n)); break;
                    case 1: x.o.reset(sim::chance(1, 2) ? new V(Arg<1>{n}) : new V(estd::in_place_index_t<1>{}, Arg<1>{n})); break;
                    case 2: x.o.reset(sim::chance(1, 2) ? new V(Arg<2>{n}) : new V(estd::in_place_type_t<B>{}, Arg<2>{n})); break;
                    case 3: x.o.reset(sim::chance(1, 2) ? new V(Arg<3>{n}) : new V(estd::in_place_index_t<3>{}, Arg<3>{n})); break; } });
                if(x.o) become(at, n); else { x.o.reset(new V); become(0, 0); }
                break;
            case 10:
            {
                op = "visit";
                int seen = 0; bool fails = sim::chance(1, 4); unsigned calls = 0; size_t where = none;
                size_t ret = none; bool threw = false;
                try { if(sim::chance(1, 2)) ret = x.o->visit_index(Look{seen, calls, where, fails}); else ret = static_cast<const V&>(*x.o).visit_index(Look{seen, calls, where, fails}); } catch(const led::Boom&) { threw = true; }
                SIM_CHECK(calls == (x.at == none ? 0u : 1u) && where == x.at && (x.at == none || seen == x.v), "visit", "a visit saw %u alternatives (last %d, value %d); held: %d, value %d", calls, int(where), seen, int(x.at), x.v);
                SIM_CHECK(threw || ret == x.at, "visit", "a visit reported alternative %d, held: %d", int(ret), int(x.at));
                bool refused = false;
                try { switch(at) { case 0: estd::get<0>(*x.o); break; case 1: estd::get<A>(*x.o).get(); break; case 2: estd::get<2>(static_cast<const V&>(*x.o)).get(); break; case 3: estd::get<C>(static_cast<const V&>(*x.o)).get(); break; } } catch(const estd::bad_variant_access&) { refused = true; }
                SIM_CHECK(refused == (x.at != at), "absent-access", "get of alternative %d, held: %d: %s", int(at), int(x.at), refused ? "refused" : "granted");
                break;
            }
        }
        audit(op);
        uint64_t h = 5 + moves_may_fail; for(S& z : s) h = sim::mix(h, z.at + 1 + (z.v < 0 ? 10 : 0));
        sim::state(sim::mix(h, op[0] * 31 + op[1]));
    }
    for(S& x : s) x.o.reset();
    SIM_CHECK(led::live() == 0, "leaked", "%zu values outlive their variants", led::live());
}

// ---------------------------------------------------------------- expected
template <class T, class E> void s_expected()
{
    led::reset();
    typedef estd::expected<T, E> X_;
    typedef Arg<T::tag> TA; typedef Arg<E::tag> EA;
    enum { N = 3 };
    struct S { std::unique_ptr<X_> o; bool has = true; int v = 0; } s[N];
    for(S& x : s) { x.o.reset(new X_); x.v = 1000 + T::tag; }
    auto audit = [&](const char* op)
    {
        for(int i = 0; i < N; ++i)
        {
            X_& o = *s[i].o; const X_& c = o;
            SIM_CHECK(o.has_value() == s[i].has && bool(c) == s[i].has, "reports", "after %s: expected %d reports %s, it holds %s", op, i, o.has_value() ? "a value" : "an error", s[i].has ? "a value" : "an error");
            int got = s[i].has ? c.value().get() : c.error().get();
            SIM_CHECK(got == s[i].v, "value", "after %s: expected %d holds %d, expected %d", op, i, got, s[i].v);
            if(s[i].has) SIM_CHECK((*o).get() == got && (*c).get() == got && c->get() == got, "value", "accessors of expected %d differ", i);
        }
        SIM_CHECK(led::live() == N, led::live() < N ? "destroyed-early" : "leaked", "after %s: %zu values are alive, %d are held", op, led::live(), int(N));
    };
    unsigned ops = 10 + sim::choose(40);
    for(unsigned k = 0; k < ops; ++k)
    {
        sim::step("op");
        int i = sim::choose(N), j = sim::choose(N), n = fresh();
        S& x = s[i]; S& y = s[j];
        const char* op = "?";
        auto become = [&](bool h, int v) { x.has = h; x.v = v; };
        switch(sim::choose(13))
        {
            case 12: op = "assign own value"; { bool mv = sim::chance(1, 2); if constexpr(T::assignable) attempt(op, [&] { if(x.has) { if(mv) *x.o = std::move(**x.o); else *x.o = static_cast<const T&>(**x.o); } }); } break;
            case 0: op = "emplace"; if(attempt(op, [&] { auto& r = x.o->emplace(TA{n}); SIM_CHECK(&r == &**x.o, "emplace", "emplace returned something else"); })) become(true, n); break;
            case 1: op = "emplace default"; if(attempt(op, [&] { x.o->emplace(); })) become(true, 1000 + T::tag); break;
            case 2: op = "assign convertible"; if(attempt(op, [&] { *x.o = TA{n}; })) become(true, n); break;
            case 3: { op = "assign value"; T t(TA{n}); if(attempt(op, [&] { *x.o = t; })) become(true, n); break; }
            case 4: { op = "assign moved value"; T t(TA{n}); if(attempt(op, [&] { *x.o = std::move(t); })) { become(true, n); SIM_CHECK(t.get() == -777, "moved", "the value was not moved"); } break; }
            case 5: { op = "assign error"; estd::unexpected<E> u(EA{n}); if(attempt(op, [&] { *x.o = u; })) become(false, n); break; }
            case 6: { op = "assign convertible error"; estd::unexpected<EA> u(EA{n}); if(attempt(op, [&] { *x.o = u; })) become(false, n); break; }
            case 7:
                if(i == j) continue;
                op = "copy construction"; x.o.reset();
                attempt(op, [&] { x.o.reset(new X_(static_cast<const X_&>(*y.o))); });
                if(x.o) become(y.has, y.v); else { x.o.reset(new X_); become(true, 1000 + T::tag); }
                break;
            case 8:
                if(i == j) continue;
                op = "move construction"; x.o.reset();
                attempt(op, [&] { x.o.reset(new X_(std::move(*y.o))); });
                become(y.has, y.v);
                { int left = y.has ? y.o->value().get() : y.o->error().get(); SIM_CHECK(left == -777 || left == y.v, "value", "a moved-from expected holds %d", left); y.v = left; }
                break;
            case 9:
                op = "construction"; x.o.reset();
                { bool h = sim::chance(1, 2); unsigned how = sim::choose(2);
                attempt(op, [&] { if(h) x.o.reset(how ? new X_(estd::in_place_t{}, TA{n}) : new X_(TA{n})); else if(how) x.o.reset(new X_(estd::unexpect_t{}, EA{n})); else { estd::unexpected<EA> u(EA{n}); x.o.reset(new X_(u)); } });
                if(x.o) become(h, n); else { x.o.reset(new X_); become(true, 1000 + T::tag); } }
                break;
            case 10: case 11:
            {
                op = "access";
                const X_& c = *x.o; bool threw = false; int err = 0;
                try { int got = (sim::chance(1, 2) ? c.value() : x.o->value()).get(); SIM_CHECK(got == x.v, "value", "value() gave %d", got); } catch(const estd::bad_expected_access<E>& e) { threw = true; err = e.error().get(); }
                SIM_CHECK(threw == !x.has, "absent-access", "value() on %s %s", x.has ? "a value" : "an error", threw ? "was refused" : "was not refused");
                SIM_CHECK(!threw || err == x.v, "absent-access", "the refusal carries error %d, expected %d", err, x.v);
                T d(TA{-5}); T r = c.value_or(d); SIM_CHECK(r.get() == (x.has ? x.v : -5), "value-or", "value_or gave %d", r.get());
                break;
            }
        }
        audit(op);
        uint64_t h = 23; for(S& z : s) h = sim::mix(h, z.has * 2 + (z.v < 0));
        sim::state(sim::mix(h, op[0] * 31 + op[1]));
    }
    for(S& x : s) x.o.reset();
    SIM_CHECK(led::live() == 0, "leaked", "%zu values outlive their expecteds", led::live());
}

// ---------------------------------------------------------------- variants with the same type twice, and with many
template <class V, size_t... I> struct By
{
    enum { n = sizeof...(I) };
    static int value(const V& o) { int r = 0; (void)std::initializer_list<int>{ (o.index() == I ? (r = estd::get<I>(o).get(), 0) : 0)... }; return r; }
    static bool only(V& o, size_t at) { bool ok = true; (void)std::initializer_list<int>{ (ok = ok && !!estd::get_if<I>(&o) == (at == I), 0)... }; return ok; }
    static bool granted(V& o, size_t at) { bool ok = false; try { (void)std::initializer_list<int>{ (at == I ? (estd::get<I>(o).get(), 0) : 0)... }; ok = true; } catch(const estd::bad_variant_access&) {} return ok; }
    template <size_t K> static int emplace1(V& o, int v) { typedef estd::remove_reference_t<decltype(estd::get<K>(o))> T; auto& r = o.template emplace<K>(Arg<T::tag>{v}); SIM_CHECK(o.index() == K && (void*)&r == (void*)&estd::get<K>(o), "emplace", "emplace of alternative %d made alternative %d", int(K), int(o.index())); return 0; }
    static void emplace(V& o, size_t at, int v) { (void)std::initializer_list<int>{ (at == I ? emplace1<I>(o, v) : 0)... }; }
    template <size_t K> static V* make1(int v) { typedef estd::remove_reference_t<decltype(estd::get<K>(std::declval<V&>()))> T; return new V(estd::in_place_index_t<K>{}, Arg<T::tag>{v}); }
    static V* make(size_t at, int v) { V* r = nullptr; (void)std::initializer_list<int>{ (at == I ? (r = make1<I>(v), 0) : 0)... }; return r; }
};
template <class V, class B> void s_by_index()
{
    led::reset(); enum { N = 3 };
    struct S { std::unique_ptr<V> o; size_t at = 0; int v = 0; } s[N];
    for(S& x : s) { x.o.reset(new V); x.v = B::value(*x.o); }
    for(unsigned k = 0, ops = 8 + sim::choose(30); k < ops; ++k)
    {
        sim::step("op"); int i = sim::choose(N), j = sim::choose(N), n = fresh(); S& x = s[i]; S& y = s[j]; size_t at = sim::choose(B::n); const char* op = "?";
        auto become = [&](size_t a, int v) { x.at = a; x.v = v; };
        auto failed = [&] { size_t now = x.o->index(); SIM_CHECK(now == none || now == x.at, "claims", "a failed construction left the variant claiming alternative %d (it held %d)", int(now), int(x.at)); x.at = now; };
        switch(sim::choose(6))
        {
            case 0: case 1: op = "emplace by index"; if(attempt(op, [&] { B::emplace(*x.o, at, n); })) become(at, n); else failed(); break;
            case 2: op = "copy assignment"; if(attempt(op, [&] { *x.o = static_cast<const V&>(*y.o); })) become(y.at, y.v); else failed(); break;
            case 3: if(i == j) continue;
                op = "move assignment"; if(attempt(op, [&] { *x.o = std::move(*y.o); })) { become(y.at, y.v); size_t left = y.o->index(); SIM_CHECK(left == none || left == y.at, "reports", "a moved-from variant reports alternative %d", int(left)); y.at = left; y.v = -777; } else failed(); break;
            case 4: op = "construction by index"; x.o.reset(); attempt(op, [&] { x.o.reset(B::make(at, n)); }); if(x.o) become(at, n); else { x.o.reset(new V); become(0, B::value(*x.o)); } break;
            case 5: { if(i == j) continue; op = sim::chance(1, 2) ? "move construction" : "copy construction"; x.o.reset();
                if(op[0] == 'm') { attempt(op, [&] { x.o.reset(new V(std::move(*y.o))); }, false); become(y.at, y.v); size_t left = y.o->index(); SIM_CHECK(left == none || left == y.at, "reports", "a moved-from variant reports alternative %d", int(left)); y.at = left; y.v = -777; }
                else { attempt(op, [&] { x.o.reset(new V(static_cast<const V&>(*y.o))); }); if(x.o) become(y.at, y.v); else { x.o.reset(new V); become(0, B::value(*x.o)); } } break; }
        }
        size_t held = 0;
        for(int q = 0; q < N; ++q)
        {
            V& o = *s[q].o; size_t a = s[q].at;
            SIM_CHECK(o.index() == a && o.valueless_by_exception() == (a == none), "reports", "after %s: variant %d reports alternative %d, it holds %d", op, q, int(o.index()), int(a));
            SIM_CHECK(B::only(o, a), "absent-access", "after %s: variant %d hands out an alternative it does not hold (%d)", op, q, int(a));
            size_t ask = sim::choose(B::n); SIM_CHECK(B::granted(o, ask) == (ask == a), "absent-access", "after %s: get of alternative %d, held: %d", op, int(ask), int(a));
            if(a == none) continue;
            ++held; SIM_CHECK(B::value(o) == s[q].v, "value", "after %s: variant %d holds %d, expected %d", op, q, B::value(o), s[q].v);
            int seen = 0; unsigned calls = 0; size_t where = none; size_t r = o.visit_index(Look{seen, calls, where, false});
            SIM_CHECK(calls == 1 && where == a && r == a && seen == s[q].v, "visit", "a visit saw %u alternatives (last %d, value %d) and reported %d; held: %d, value %d", calls, int(where), seen, int(r), int(a), s[q].v);
        }
        SIM_CHECK(led::live() == held, led::live() < held ? "destroyed-early" : "leaked", "after %s: %zu values are alive, %zu are held", op, led::live(), held);
        uint64_t h = 7 + B::n; for(S& z : s) h = sim::mix(h, z.at + 1); sim::state(sim::mix(h, op[0] * 31 + op[1]));
    }
    for(S& x : s) x.o.reset();
    SIM_CHECK(led::live() == 0, "leaked", "%zu values outlive their variants", led::live());
}
void s_var_same() { typedef X<1, true> A; typedef X<2, true> B; SIM_PROBE("same-types");
    if(sim::chance(1, 2)) { typedef estd::variant<A, B, A, A, B> V; s_by_index<V, By<V, 0, 1, 2, 3, 4>>(); } else { typedef estd::variant<A, A> V; s_by_index<V, By<V, 0, 1>>(); } }
void s_var_many() { typedef estd::variant<X<1, true>, X<2, true>, X<3, true>, X<4, true>, X<5, true>, X<6, true>, X<7, true>, X<8, true>, X<9, true>, X<10, true>, X<11, true>> V; SIM_PROBE("many-alternatives"); s_by_index<V, By<V, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10>>(); }

// ---------------------------------------------------------------- values that need no destruction, or none at all
void s_plain()
{
    typedef estd::expected<int, int> P; typedef estd::variant<int, short, char> W;
    P p; bool has = true; int v = *p; if(v != 0) v = *p; W w; size_t at = 0; int wv = estd::get<0>(w);
    for(unsigned k = 0, ops = 5 + sim::choose(20); k < ops; ++k)
    {
        int n = (int)sim::range(1, 100); const char* op = "?";
        switch(sim::choose(9))
        {
            case 0: op = "value"; p = n; has = true; v = n; break;
            case 1: op = "error"; { estd::unexpected<int> u(n); p = u; } has = false; v = n; break;
            case 2: op = "emplace"; p.emplace(n); has = true; v = n; break;
            case 3: { op = "copy"; P q(static_cast<const P&>(p)); SIM_CHECK(q.has_value() == has && (has ? *q : q.error()) == v, "value", "a copied expected differs"); P r(std::move(q)); SIM_CHECK(r.has_value() == has && (has ? *r : r.error()) == v, "value", "a moved expected differs"); break; }
            case 4: op = "emplace 0"; w.emplace<0>(n); at = 0; wv = n; break;
            case 5: op = "emplace 1"; w.emplace<1>((short)n); at = 1; wv = n; break;
            case 6: op = "emplace 2"; w.emplace<2>((char)n); at = 2; wv = n; break;
            case 7: { op = "copy variant"; W c(static_cast<const W&>(w)); SIM_CHECK(c.index() == at, "reports", "a copied variant reports alternative %d, not %d", int(c.index()), int(at)); W d; d = c; SIM_CHECK(d.index() == at, "reports", "an assigned variant reports alternative %d, not %d", int(d.index()), int(at)); w = d; break; }
            case 8: { op = "refusal"; bool t = false; try { p.value(); } catch(const estd::bad_expected_access<int>& e) { t = true; SIM_CHECK(e.error() == v, "absent-access", "the refusal carries %d, not %d", e.error(), v); } SIM_CHECK(t == !has, "absent-access", "value() was %s", t ? "refused" : "granted"); break; }
        }
        SIM_CHECK(p.has_value() == has && bool(p) == has && (has ? *p : p.error()) == v, "reports", "after %s: expected holds %s %d, should be %s %d", op, p.has_value() ? "value" : "error", p.has_value() ? *p : p.error(), has ? "value" : "error", v);
        SIM_CHECK(w.index() == at && (at == 0 ? estd::get<0>(w) : at == 1 ? estd::get<1>(w) : estd::get<2>(w)) == wv, "reports", "after %s: variant holds alternative %d", op, int(w.index()));
        sim::log("%s", op); sim::nontrivial(); sim::state(sim::mix(at * 2 + has, op[0] * 31 + op[1]));
    }
}
// nothing as the value: only whether it worked, and the error if it did not
void s_void()
{
    led::reset(); typedef X<2, true> E; typedef estd::expected<void, E> P; enum { N = 3 };
    struct S { std::unique_ptr<P> o; bool has = true; int v = 0; } s[N]; for(S& x : s) x.o.reset(new P);
    for(unsigned k = 0, ops = 5 + sim::choose(25); k < ops; ++k)
    {
        sim::step("op"); int i = sim::choose(N), j = sim::choose(N), n = fresh(); S& x = s[i]; S& y = s[j]; const char* op = "?";
        switch(sim::choose(5))
        {
            case 0: { op = "assign error"; estd::unexpected<E> u(Arg<2>{n}); if(attempt(op, [&] { *x.o = u; })) { x.has = false; x.v = n; } break; }
            case 1: op = "construct good"; x.o.reset(new P); x.has = true; break;
            case 2: op = "construct error"; x.o.reset(); attempt(op, [&] { x.o.reset(new P(estd::unexpect_t{}, Arg<2>{n})); }); if(x.o) { x.has = false; x.v = n; } else { x.o.reset(new P); x.has = true; } break;
            case 3: if(i == j) continue;
                op = "copy"; x.o.reset(); attempt(op, [&] { x.o.reset(new P(static_cast<const P&>(*y.o))); }); if(x.o) { x.has = y.has; x.v = y.v; } else { x.o.reset(new P); x.has = true; } break;
            default: if(i == j) continue;
                op = "move"; x.o.reset(new P(std::move(*y.o))); x.has = y.has; x.v = y.v; if(!y.has) { int left = y.o->error().get(); SIM_CHECK(left == -777 || left == y.v, "value", "a moved-from expected holds %d", left); y.v = left; } break;
        }
        size_t held = 0;
        for(int q = 0; q < N; ++q)
        {
            SIM_CHECK(s[q].o->has_value() == s[q].has && bool(*s[q].o) == s[q].has, "reports", "after %s: expected %d reports %s", op, q, s[q].o->has_value() ? "success" : "an error");
            bool threw = false; try { s[q].o->value(); } catch(const estd::bad_expected_access<E>& e) { threw = true; SIM_CHECK(e.error().get() == s[q].v, "absent-access", "the refusal carries another error"); } SIM_CHECK(threw == !s[q].has, "absent-access", "value() %s", threw ? "was refused" : "was not refused");
            if(!s[q].has) { ++held; SIM_CHECK(s[q].o->error().get() == s[q].v, "value", "after %s: expected %d holds another error", op, q); }
        }
        SIM_CHECK(led::live() == held, led::live() < held ? "destroyed-early" : "leaked", "after %s: %zu values are alive, %zu are held", op, led::live(), held);
        uint64_t h = 77; for(S& z : s) h = sim::mix(h, z.has); sim::state(sim::mix(h, op[0] * 31 + op[1]));
    }
    for(S& x : s) x.o.reset();
    SIM_CHECK(led::live() == 0, "leaked", "%zu values outlive their expecteds", led::live());
}

void s_opt() { if(sim::chance(1, 2)) s_optional<X<1, false>, 1, false>(); else s_optional<X<1, true>, 1, true>(); }
void s_opt_na() { if(sim::chance(1, 2)) s_optional<NA<1, false>, 1, false>(); else s_optional<NA<1, true>, 1, true>(); }
void s_var() {
    typedef X<1, true> A; typedef X<2, true> B; typedef X<3, true> C;
    s_variant<estd::variant<int, A, B, C>, A, B, C, false>(); }
void s_var_mv() {
    typedef X<1, false> A; typedef X<2, true> B; typedef X<3, false> C;
    s_variant<estd::variant<int, A, B, C>, A, B, C, true>(); }
void s_var_na() {
    typedef NA<1, true> A; typedef X<2, true> B; typedef NA<3, false> C;
    s_variant<estd::variant<int, A, B, C>, A, B, C, true>(); }
void s_exp() {
    switch(sim::choose(3)) { case 0: s_expected<X<1, true>, X<2, true>>(); break; case 1: s_expected<NA<1, true>, NA<2, true>>(); break; default: SIM_PROBE("value-and-error-alike"); s_expected<X<1, true>, X<1, true>>(); } }

const sim::Scenario scen[] = {
    { "optional", s_opt, 4 }, { "optional-unassignable", s_opt_na, 2 }, { "compact", s_layer1, 1 },
    { "variant", s_var, 3 }, { "variant-failing-moves", s_var_mv, 3 }, { "variant-unassignable", s_var_na, 2 }, { "expected", s_exp, 4 },
    { "variant-same-types", s_var_same, 2 }, { "variant-many", s_var_many, 1 }, { "plain", s_plain, 1 }, { "expected-void", s_void, 1 },
};
}

const sim::Harness sim::harness = { "C14",
    "distinct (what each object holds, last operation) states",
    "optional, compact (layer1) optional, variant and expected with their shared discriminated storage",
    "the contained values: they account for their construction, use and destruction and fail on demand",
    "moving a value contained in an expected never fails|move construction of a variant is declared never to fail, no failure is injected there",
    80000, 3000000, scen, sizeof scen / sizeof *scen, nullptr };
