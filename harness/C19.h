// Fixed-size hash maps and sets against a reference multimap, with every collision pattern,
// holes, clean-up steps, a full table, and values whose construction fails.
#pragma once
#include "ledger.h"
#include <cassert>
#include <estd/unordered_map.h>
#include <estd/unordered_set.h>
#include <estd/string.h>
#include <estd/optional.h>
#include <vector>
#include <algorithm>
#include <cstring>
#include <cstdlib>
#include <new>

namespace c19 {
using led::Val;

template <class K> struct Conv { static K to(int n) { return K(n); } static int from(const K& k) { return int(k); } };
typedef estd::layer1::string<8> S8;
template <> struct Conv<S8>
{
    static S8 to(int n) { char b[8]; snprintf(b, sizeof b, "k%d", n); S8 s; s = (const char*)b; return s; }
    static int from(const S8& k) { int n = 0; for(size_t i = 1; i < k.size(); i++) n = n * 10 + (k[i] - '0'); return n; }
};
typedef estd::layer1::optional<uint16_t, 0xFFFF> O16;
template <> struct Conv<O16> { static O16 to(int n) { return O16(uint16_t(n - 1)); } static int from(const O16& k) { return *k + 1; } };   // key 0 is usable here

// hash distributions: how many different hash values the keys fall on, and which
template <class K, int MOD, int ADD> struct HashMod { size_t operator()(const K& k) const { return size_t(Conv<K>::from(k) % MOD + ADD); } };
template <class K> struct HashMix { size_t operator()(const K& k) const { uint64_t z = uint64_t(Conv<K>::from(k)) * 0x9E3779B97F4A7C15ull; return size_t(z ^ (z >> 29)); } };

// a mapped type without a ledger, as small as a map takes
struct Small { short v; Small(int n = 0) : v(short(n)) {} int get() const { return v; } };
struct Ent { int k, v; const void* at; };

// memory of exactly the right size, with nothing sensible in it
struct Raw
{
    void* p;
    explicit Raw(size_t n) : p(malloc(n)) { memset(p, int(sim::pick((const int[]){ 0x00, 0xA5, 0xFF, 0x5B })), n); }
    ~Raw() { free(p); }
};

template <class M> struct MapSim
{
    typedef typename M::key_type K; typedef typename M::value_type V; typedef typename M::mapped_type T; typedef Conv<K> C;
    typedef typename M::iterator It; typedef typename M::const_iterator CIt;
    M& m; const unsigned N; const int keys; const V* base; std::vector<Ent> ref; size_t live0; int serial = 1; std::vector<unsigned> look;   // buckets worth looking at

    MapSim(M& m_, unsigned n, int k) : m(m_), N(n), keys(k), live0(led::live()) { 
        base = m.begin(0).operator->();
        if(N <= 1000) for(unsigned b = 0; b < N; b++) look.push_back(b);
        else
        {
            SIM_PROBE("more-than-32768-slots");
            for(int k = 1; k <= keys; k++) for(unsigned b = buck(k); b < buck(k) + keys && b < N; b++) if(std::find(look.begin(), look.end(), b) == look.end()) look.push_back(b);
            for(unsigned b : { 0u, N / 2, N - 1, buck(1) & 32767u, buck(1) & 65535u }) look.push_back(b);
        }
        check("construction", true); }

    unsigned slot(const void* at) const { return unsigned((const V*)at - base); }
    unsigned buck(int k) const { return m.bucket(C::to(k)); }
    Ent* at(const void* p) { for(auto& e : ref) if(e.at == p) return &e; return nullptr; }
    Ent* byk(int k) { for(auto& e : ref) if(e.k == k) return &e; return nullptr; }
    int cnt(int k) { int c = 0; for(auto& e : ref) c += e.k == k; return c; }
    // Must there be room for k?  Its bucket runs from its first slot over consecutive slots; a slot freed
    // by an erasure is reusable unless it lies between other elements of a different bucket.
    bool room(int k)
    {
        unsigned n = buck(k);
        for(unsigned j = n; j < N; j++)
        {
            bool active = false, mine = false, others = false;
            for(auto& e : ref)
            {
                unsigned s = slot(e.at), b = buck(e.k);
                if(s == j) { active = true; mine = b == n; }
                else if(s > j && b != n && b <= j) others = true;
            }
            if(active) { if(!mine) return false; continue; }
            return !others;
        }
        return false;
    }
    void check(const char* op, bool fixed)
    {
        const M& cm = m;
        SIM_CHECK(m.size() == ref.size(), "size", "after %s: size %u, expected %u", op, unsigned(m.size()), unsigned(ref.size()));
        SIM_CHECK(m.empty() == ref.empty(), "empty", "after %s: empty() is %d with %u elements", op, m.empty(), unsigned(ref.size()));
        // iteration meets every element once
        std::vector<Ent> seen;
        for(CIt it = cm.begin(); it != cm.end(); ++it)
        {
            SIM_CHECK(seen.size() < ref.size(), "iteration", "after %s: iteration does not end after %u elements", op, unsigned(ref.size()));
            const V& v = *it; seen.push_back(Ent{ C::from(v.first), v.second.get(), &v });
        }
        SIM_CHECK(seen.size() == ref.size(), "iteration", "after %s: iteration met %u of %u elements", op, unsigned(seen.size()), unsigned(ref.size()));
        auto less = [](const Ent& a, const Ent& b) { return a.k != b.k ? a.k < b.k : a.v != b.v ? a.v < b.v : a.at < b.at; };
        std::sort(seen.begin(), seen.end(), less); std::sort(ref.begin(), ref.end(), less);
        for(size_t i = 0; i < ref.size(); i++)
        {
            SIM_CHECK(seen[i].k == ref[i].k && seen[i].v == ref[i].v, "contents", "after %s: holds (%d,%d), expected (%d,%d)", op, seen[i].k, seen[i].v, ref[i].k, ref[i].v);
            if(fixed) SIM_CHECK(seen[i].at == ref[i].at, "moved", "after %s: element (%d,%d) moved from slot %u to %u", op, ref[i].k, ref[i].v, slot(ref[i].at), slot(seen[i].at));
            else ref[i].at = seen[i].at;
        }
        uint64_t h = N;
        for(int k = 1; k <= keys; k++)
        {
            K key = C::to(k); int c = cnt(k);
            CIt f = cm.find(key);
            SIM_CHECK((f != cm.end()) == (c > 0), c ? "lost-key" : "ghost-key", "after %s: key %d %s although %d of it are stored", op, k, c ? "is not found" : "is found", c);
            if(c) { It g = m.find(key); const V* p = &*g; Ent* e = at(p); SIM_CHECK(e && e->k == k, "find-wrong", "after %s: find(%d) leads to another element", op, k); }
            SIM_CHECK(m.contains(key) == (c > 0), "contains", "after %s: contains(%d) is %d, expected %d", op, k, m.contains(key), c > 0);
            SIM_CHECK(int(m.count(key)) == c, "count", "after %s: count(%d) is %u, expected %d", op, k, unsigned(m.count(key)), c);
        }
        for(unsigned b : look)
        {
            unsigned want = 0; bool any = false; for(auto& e : ref) { if(buck(e.k) == b) want++; if(slot(e.at) == b) any = true; h = sim::mix(h, slot(e.at) * 1000 + buck(e.k)); }
            if(want || !any) SIM_CHECK(m.bucket_size(b) == want, "bucket-size", "after %s: bucket %u has size %u, expected %u", op, b, unsigned(m.bucket_size(b)), want);
        }
        if(std::is_same<T, Val>::value) SIM_CHECK(led::live() == live0 + ref.size(), led::live() > live0 + ref.size() ? "not-destroyed" : "destroyed-early", "after %s: %u values alive, %u stored", op, unsigned(led::live() - live0), unsigned(ref.size()));
        sim::state(h);
    }
    int key() { return int(sim::range(1, keys)); }
    It pick() { unsigned n = sim::choose(ref.size()); It it = m.begin(); while(n--) ++it; return it; }

    // the outcome of any insertion of k
    void inserted(const char* op, int k, int v, estd::pair<It, bool> r, bool dup, bool assigns = false)
    {
        bool had = !dup && cnt(k), rm = room(k);
        sim::log("  -> %s", r.second ? "inserted" : "not inserted");
        if(had)
        {
            SIM_CHECK(!r.second, "inserted-twice", "%s(%d) reports an insertion although the key is there", op, k);
            const V* p = &*r.first; Ent* e = at(p); SIM_CHECK(e && e->k == k, "duplicate-result", "%s(%d) does not lead to the existing element", op, k);
            if(assigns) e->v = v;
        }
        else if(!r.second) { SIM_FAULT("table-full"); SIM_CHECK(!rm, "room-refused", "%s(%d) failed although there is a free slot for it", op, k); }
        else { const V* p = &*r.first; SIM_CHECK(!at(p), "overwrote", "%s(%d) went to slot %u, which was in use", op, k, slot(p)); SIM_CHECK(slot(p) < N, "outside", "%s(%d) went outside the table", op, k); ref.push_back(Ent{ k, v, p }); }
    }
    void insertion(int how, int k, int v)
    {
        K key = C::to(k);
        switch(how)
        {
            case 0: { sim::log("insert %d=%d", k, v); V val(key, T(v)); inserted("insert", k, v, m.insert(val), false); break; }
            case 1: sim::log("emplace %d=%d", k, v); inserted("emplace", k, v, m.emplace(key, v), false); break;
            case 2: sim::log("try_emplace %d=%d", k, v); inserted("try_emplace", k, v, m.try_emplace(key, v), false); break;
            case 3: sim::log("try_emplace %d", k); inserted("try_emplace", k, 0, m.try_emplace(key), false); break;
            case 4: { sim::log("insert_or_assign %d=%d", k, v); T val(v); inserted("insert_or_assign", k, v, m.insert_or_assign(key, val), false, true); break; }
            case 5: { sim::log("insert duplicate %d=%d", k, v); V val(key, T(v)); inserted("insert", k, v, m.insert(val, true), true); break; }
            case 6: sim::log("piecewise %d=%d", k, v); inserted("emplace", k, v, m.emplace(estd::piecewise_construct_t{}, estd::forward_as_tuple(key), estd::forward_as_tuple(v)), false); break;
        }
    }
    void gone(const V* p) { for(size_t i = 0; i < ref.size(); i++) if(ref[i].at == p) { ref.erase(ref.begin() + i); return; } }
    void churn(int ops, int fill, bool dups, bool faults)
    {
        for(int i = 0; i < ops; i++)
        {
            int k = key(), v = serial++; K key = C::to(k); bool fixed = true;
            int w = int(sim::choose(100)); const char* op = "insertion";
            if(w < fill)
            {
                int how = int(sim::choose(7)); if(how == 5 && !dups) how = 0;
                if(faults && sim::chance(1, 4))
                {
                    auto keep = ref; op = "failed construction";
                    led::arm(int(sim::range(1, 3)));
                    try { insertion(how, k, v); led::disarm(); } catch(led::Boom&) { ref = keep; }
                }
                else if(cnt(k) && sim::choose(4) == 3)
                {
                    // an element of the map itself, or a part of it, is what is handed in
                    It it = m.find(key); const V& own = *it; int was = own.second.get(); SIM_PROBE("own-element"); sim::log("insert own %d=%d (%d)", k, was, how);
                    switch(how)
                    {
                        case 1: inserted("emplace own", k, was, m.emplace(own.first, was), false); break;
                        case 2: case 3: inserted("try_emplace own", k, was, m.try_emplace(own.first, v), false); break;
                        case 4: { Ent e = ref[sim::choose(ref.size())]; const V& other = *(const V*)e.at; sim::log(" value of slot %u", slot(e.at)); inserted("insert_or_assign own", k, e.v, m.insert_or_assign(own.first, other.second), false, true); break; }
                        case 5: inserted("insert own", k, was, m.insert(own, true), true); break;
                        default: inserted("insert own", k, was, m.insert(own), false); break;
                    }
                }
                else insertion(how, k, v);
            }
            else if(w < fill + 6 && (cnt(k) || room(k)))
            {
                op = "operator[]"; bool had = cnt(k);
                T& x = m[key]; sim::log("[%d]", k);
                if(!had) { SIM_CHECK(x.get() == 0, "default-value", "operator[](%d) created a value of %d", k, x.get()); }
                const V* p = (const V*)((const char*)&x - offsetof(V, second));
                if(!had) ref.push_back(Ent{ k, 0, p });
                Ent* e = at(p); SIM_CHECK(e && e->k == k, "index-wrong", "operator[](%d) leads to another element", k);
                if(sim::chance(1, 2)) { x = T(v); e->v = v; }
            }
            else if(w < 92)
            {
                switch(sim::choose(8))
                {
                    case 0: case 1:
                    {
                        op = "erase(key)"; sim::log("erase %d", k); int c = cnt(k);
                        const V* p = nullptr; if(c) p = &*m.find(key);
                        const K* own = &key; if(c && sim::choose(3) == 2) { own = &p->first; SIM_PROBE("own-element"); }    // the key of the element itself
                        size_t r = m.erase(*own); SIM_CHECK(r == size_t(c ? 1 : 0), "erase-result", "erase(%d) returned %u with %d stored", k, unsigned(r), c);
                        if(c) gone(p); break;
                    }
                    case 2: case 3: if(ref.size())
                    {
                        op = "erase(iterator)"; It it = pick(); It nx = it; ++nx; const V* p = &*it; sim::log("erase at slot %u (key %d)", slot(p), at(p)->k);
                        It r = m.erase(it); SIM_CHECK(r == nx, "erase-next", "erase(iterator) does not return the next element");
                        gone(p);
                    } break;
                    case 4: if(ref.size())
                    {
                        op = "erase_and_gc"; It it = pick(); const V* p = &*it; sim::log("erase_and_gc slot %u (key %d)", slot(p), at(p)->k); gone(p); fixed = false;
                        m.erase_and_gc(it);
                    } break;
                    case 5: if(ref.size())
                    {
                        op = "gc_active"; It it = pick(); const V* p = &*it; Ent* e = at(p); sim::log("gc_active slot %u (key %d)", slot(p), e->k);
                        It r = m.gc_active(it); const V* q = &*r;
                        SIM_CHECK(C::from(q->first) == e->k && q->second.get() == e->v, "gc-result", "gc_active of (%d,%d) leads to another element", e->k, e->v);
                        SIM_CHECK(q == p || !at(q), "overwrote", "gc_active moved onto slot %u, which was in use", slot(q));
                        if(q != p) SIM_FAULT("moved-by-gc");
                        e->at = q;
                    } break;
                    case 6:
                    {
                        op = "sweep"; sim::log("sweep"); unsigned guard = 0;
                        for(It it = m.begin(); it != m.end();)
                        {
                            SIM_CHECK(++guard <= N, "iteration", "a sweep does not end");
                            const V* p = &*it;
                            if(sim::chance(1, 4)) { sim::log(" erase slot %u", slot(p)); it = m.erase(it); gone(p); }
                            else { if(sim::chance(1, 4)) { Ent* e = at(p); SIM_CHECK(e, "iteration", "a sweep meets an unknown element"); const_cast<V*>(p)->second = T(serial); e->v = serial++; } ++it; }
                        }
                        break;
                    }
                    case 7: if(ref.size())
                    {
                        op = "erase_and_gc(local)"; Ent e = ref[sim::choose(ref.size())]; unsigned b = buck(e.k);
                        auto it = m.begin(b); unsigned skip = 0; for(auto& o : ref) if(buck(o.k) == b) skip++;
                        skip = sim::choose(skip); while(skip--) ++it;
                        const V* p = it.operator->(); Ent* g = at(p); SIM_CHECK(g && buck(g->k) == b, "local-iteration", "a walk over bucket %u meets slot %u", b, slot(p));
                        sim::log("erase_and_gc slot %u of bucket %u", slot(p), b); gone(p); fixed = false;
                        m.erase_and_gc(it);
                    } break;
                }
            }
            else if(w < 98) { op = "walk"; walk(); }
            else { op = "clear"; sim::log("clear"); m.clear(); ref.clear(); }
            check(op, fixed);
        }
    }
    void walk()
    {
        for(unsigned b : look)
        {
            unsigned want = 0; bool any = false; for(auto& e : ref) { want += buck(e.k) == b; any |= slot(e.at) == b; }
            if(!want && any) continue;
            unsigned n = 0;
            for(auto it = m.cbegin(b); it != m.end(b); ++it)
            {
                SIM_CHECK(n < want, "local-iteration", "a walk over bucket %u does not end after %u", b, want);
                const V* p = it.operator->(); Ent* e = at(p); SIM_CHECK(e && buck(e->k) == b, "local-iteration", "a walk over bucket %u meets slot %u", b, slot(p)); n++;
            }
            SIM_CHECK(n == want, "local-iteration", "a walk over bucket %u met %u of %u", b, n, want);
        }
    }
    void run(bool dups, bool faults)
    {
        unsigned phases = sim::range(1, 4);
        for(unsigned p = 0; p < phases; p++) churn(int(sim::range(1, 24)), int(sim::pick((const int[]){ 30, 60, 85, 10 })), dups, faults);
        // everything goes, and then it all fits again
        sim::log("drain");
        unsigned way = sim::choose(3);
        if(way == 0) { m.clear(); ref.clear(); }
        else while(ref.size())
        {
            if(way == 1) { Ent e = ref[sim::choose(ref.size())]; const V* p = &*m.find(C::to(e.k)); m.erase(C::to(e.k)); gone(p); check("drain", true); }
            else { It it = m.begin(); const V* p = &*it; gone(p); m.erase_and_gc(it); check("drain", false); }
        }
        check("drain", true);
        for(int k = 1; k <= keys; k++) SIM_CHECK(room(k), "model", "no room in an empty table");
        unsigned tries = sim::range(0, N < 200 ? N : 40);
        for(unsigned i = 0; i < tries; i++) { insertion(0, key(), serial++); }
        check("refill", true);
        m.clear(); ref.clear(); check("clear", true);
    }
};

template <class M> void in_place(unsigned n, int keys, bool dups, bool faults)
{
    led::reset(); Raw raw(sizeof(M)); M* m = new (raw.p) M;
    MapSim<M> s(*m, n, keys); s.run(dups, faults);
    m->~M();
}
template <class M> void backed(unsigned n, int keys, bool dups, bool faults)
{
    typedef typename estd::internal::unordered_map_traits_control<typename M::key_type, typename M::mapped_type>::control_type Ctl; led::reset(); Raw raw(sizeof(Ctl) * n);
    M m((Ctl*)raw.p); MapSim<M> s(m, n, keys); s.run(dups, faults);
}

template <class S> struct SetSim
{
    typedef typename S::key_type K; typedef Conv<K> C; typedef typename S::iterator It; typedef typename S::const_iterator CIt;
    S& s; unsigned N; int keys; std::vector<int> ref;
    SetSim(S& s_, unsigned n, int k) : s(s_), N(n), keys(k) { check("construction"); }
    bool has(int k) { return std::find(ref.begin(), ref.end(), k) != ref.end(); }
    void check(const char* op)
    {
        const S& cs = s;
        SIM_CHECK(cs.size() == ref.size(), "size", "after %s: size %u, expected %u", op, unsigned(cs.size()), unsigned(ref.size()));
        SIM_CHECK(cs.empty() == ref.empty(), "empty", "after %s: empty() is %d", op, cs.empty());
        std::vector<int> seen; uint64_t h = N;
        for(CIt it = cs.begin(); it != cs.end(); ++it)
        {
            SIM_CHECK(seen.size() < ref.size(), "iteration", "after %s: iteration does not end after %u elements", op, unsigned(ref.size()));
            const K& k = *it; seen.push_back(C::from(k)); h = sim::mix(h, C::from(k));
        }
        std::sort(seen.begin(), seen.end()); std::sort(ref.begin(), ref.end());
        SIM_CHECK(seen == ref, "contents", "after %s: iteration does not meet the stored keys", op);
        for(int k = 1; k <= keys; k++)
        {
            K key = C::to(k);
            SIM_CHECK(cs.contains(key) == has(k), has(k) ? "lost-key" : "ghost-key", "after %s: contains(%d) is %d", op, k, cs.contains(key));
            SIM_CHECK(cs.count(key) == (has(k) ? 1u : 0u), "count", "after %s: count(%d) is %u", op, k, unsigned(cs.count(key)));
            // the elements of the key's bucket
            const unsigned b = cs.bucket(key); unsigned met = 0, all = 0;
            auto look = [&](const K& e) { int x = C::from(e); met += x == k; ++all; SIM_CHECK(has(x) && cs.bucket(e) == b, "bucket", "after %s: key %d appears in bucket %u", op, x, b); };
            if(sim::choose(2)) for(auto it = cs.begin(b); it != cs.end(b); ++it) look(*it); else for(auto it = s.begin(b); it != s.end(b); ++it) look(*it);
            SIM_CHECK(met == (has(k) ? 1u : 0u), "bucket", "after %s: key %d is met %u times in its bucket", op, k, met);
        }
        sim::state(h);
    }
    bool insert(int k)
    {
        bool had = has(k); K key = C::to(k); const K* own = &key; if(had && sim::choose(3) == 2) for(CIt it = ((const S&)s).begin(); it != ((const S&)s).end(); ++it) { const K& e = *it; if(C::from(e) == k) { own = &e; SIM_PROBE("own-element"); break; } }
        auto r = s.insert(*own); sim::log("insert %d -> %d", k, r.second);
        if(had) { SIM_CHECK(!r.second, "inserted-twice", "insert(%d) reports an insertion although the key is there", k); const K& e = *r.first; SIM_CHECK(C::from(e) == k, "duplicate-result", "insert(%d) does not lead to the existing key", k); }
        else if(r.second) { const K& e = *r.first; SIM_CHECK(C::from(e) == k, "insert-result", "insert(%d) leads to another key", k); ref.push_back(k); }
        else { SIM_FAULT("table-full"); SIM_CHECK(!ref.empty(), "room-refused", "insert(%d) into an empty set failed", k); }
        return r.second;
    }
    void run()
    {
        unsigned ops = sim::range(1, 60); int fill = int(sim::pick((const int[]){ 50, 70, 35 }));
        for(unsigned i = 0; i < ops; i++)
        {
            int k = int(sim::range(1, keys));
            if(int(sim::choose(100)) < fill) { insert(k); check("insert"); }
            else
            {
                bool had = has(k); K key = C::to(k); const K* own = &key; if(sim::choose(3) == 2) for(CIt it = ((const S&)s).begin(); it != ((const S&)s).end(); ++it) { const K& e = *it; if(C::from(e) == k) { own = &e; SIM_PROBE("own-element"); break; } }
                size_t r = s.erase(*own); sim::log("erase %d -> %u", k, unsigned(r));
                SIM_CHECK(r == (had ? 1u : 0u), "erase-result", "erase(%d) returned %u", k, unsigned(r));
                if(had) { ref.erase(std::find(ref.begin(), ref.end(), k)); SIM_FAULT("hole"); }
                check("erase");
            }
        }
        // the same keys in another order make an equal set
        Raw raw(sizeof(S)); S* t = new (raw.p) S; std::vector<int> todo = ref; bool all = true;
        while(todo.size()) { size_t j = sim::choose(todo.size()); all &= t->insert(C::to(todo[j])).second; todo.erase(todo.begin() + j); }
        if(all) SIM_CHECK(s == *t, "equality", "two sets of the same %u keys compare unequal", unsigned(ref.size()));
        if(all && ref.size())
        {
            int out = ref[sim::choose(ref.size())]; t->erase(C::to(out));
            SIM_CHECK(!(s == *t), "equality", "a set compares equal to one that lacks key %d", out);
            int k = int(sim::range(1, keys)); if(!has(k) && t->insert(C::to(k)).second) SIM_CHECK(!(s == *t), "equality", "sets with different keys compare equal");
        }
        t->~S();
    }
};
template <class S> void set_in_place(unsigned n, int keys) { Raw raw(sizeof(S)); S* s = new (raw.p) S; SetSim<S> x(*s, n, keys); x.run(); s->~S(); }

// scenarios defined in the other files
void map_identity(); void map_onebucket(); void map_clustered(); void map_wide(); void map_string(); void map_optional(); void map_backed(); void map_odd(); void map_dups(); void map_small(); void map_huge(); void map_huge_small(); void map_many();
void set_identity(); void set_onebucket(); void set_clustered(); void set_string(); void set_mixed();
}
