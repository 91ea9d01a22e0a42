#pragma once
// C15: vectors and strings over memory which moves whenever it is not locked, is refused at any request,
// or has a fixed size, through histories of operations compared with a reference sequence.
#include <estd/string.h>
#include <estd/string_view.h>
#include <estd/vector.h>
#include <ledger.h>
#include <sanitizer/asan_interface.h>
#include <limits>
#include <memory>
#include <string>
#include <string_view>
#include <vector>
#include <map>

namespace c15 {
// ---------------------------------------------------------------- memory that moves
// Blocks have a number, not an address: they get one while they are locked, another one each time.
struct Block { char* p; size_t bytes, n; int locks; };
struct Heap
{
    std::map<int, Block> live; int next = 1; unsigned refused = 0, moved = 0; bool refuse = true; char* nowhere = nullptr;
    static char* room(size_t bytes) { char* p = static_cast<char*>(malloc(bytes ? bytes : 1)); memset(p, 0xA5, bytes); return p; }
    static void hide(Block& b) { ASAN_POISON_MEMORY_REGION(b.p, b.bytes ? b.bytes : 1); }
    static void show(Block& b) { ASAN_UNPOISON_MEMORY_REGION(b.p, b.bytes ? b.bytes : 1); }
    bool no() { if(refuse && sim::chance(1, 4)) { ++refused; SIM_FAULT("allocation-refused"); return true; } return false; }
    int allocate(size_t n, size_t sz)
    {
        if(n == 0 || no()) return 0;
        Block b{ room(n * sz), n * sz, n, 0 }; hide(b);
        live[next] = b; return next++;
    }
    int reallocate(int h, size_t n, size_t sz)
    {
        auto i = live.find(h);
        SIM_CHECK(i != live.end(), "stale-handle", "a block that is not held was to be resized");
        SIM_CHECK(i->second.locks == 0, "resized-locked", "a block was to be resized while locked");
        if(n == 0 || no()) return 0;
        Block b{ room(n * sz), n * sz, n, 0 };
        show(i->second);
        memcpy(b.p, i->second.p, std::min(b.bytes, i->second.bytes));
        free(i->second.p); live.erase(i);
        hide(b); SIM_FAULT("block-resized-elsewhere");
        live[next] = b; return next++;
    }
    char* lock(int h)
    {
        if(h == 0) { if(!nowhere) { nowhere = room(256); ASAN_POISON_MEMORY_REGION(nowhere, 256); } return nowhere; }
        auto i = live.find(h);
        SIM_CHECK(i != live.end(), "stale-handle", "a block that is not held was locked");
        Block& b = i->second;
        if(b.locks++ == 0)
        {
            show(b);
            char* p = room(b.bytes); memcpy(p, b.p, b.bytes);
            memset(b.p, 0x5A, b.bytes); free(b.p); b.p = p; ++moved; SIM_FAULT("block-moved");
        }
        return b.p;
    }
    void unlock(int h)
    {
        if(h == 0) return;
        auto i = live.find(h);
        SIM_CHECK(i != live.end(), "stale-handle", "a block that is not held was unlocked");
        SIM_CHECK(i->second.locks > 0, "unlock", "memory which was not locked was unlocked");
        if(--i->second.locks == 0) hide(i->second);
    }
    size_t size(int h) const { auto i = live.find(h); return i == live.end() ? 0 : i->second.n; }
    int locks() const { int n = 0; for(auto& x : live) n += x.second.locks; return n; }
    void drop()
    {
        for(auto& x : live) { show(x.second); free(x.second.p); }
        live.clear(); if(nowhere) { ASAN_UNPOISON_MEMORY_REGION(nowhere, 256); free(nowhere); nowhere = nullptr; }
    }
    ~Heap() { drop(); }
};
inline Heap* heap;      // the one the containers of this run use

// locks for exactly as long as it reads
// a walk over the elements in steps of every kind and both directions
template <class I, class = void> struct steps : std::false_type {};
template <class I> struct steps<I, std::void_t<decltype(std::declval<I&>() += 1), decltype(std::declval<I&>()--)>> : std::true_type {};
template <class C, class Num> void stroll(C& c, const size_t size, Num same)
{
    auto begin = c.begin(), end = c.end(), it = c.begin(); ptrdiff_t at = 0, last = ptrdiff_t(size);
    SIM_CHECK(end - begin == last, "iteration", "the end is %zd elements from the beginning of %zd", ssize_t(end - begin), ssize_t(last));
    for(int k = 12; k--;)
    {
        ptrdiff_t to = ptrdiff_t(sim::choose(uint32_t(size) + 1)), by = to - at;
        switch(sim::choose(8))
        {
            case 0: if(at < last) { ++it; ++at; } break;
            case 1: if(at > 0) { --it; --at; } break;
            case 2: if(at < last) { same(*it++, at); ++at; } break;
            case 3: if(at > 0) { auto was = it--; SIM_CHECK(was - it == 1, "iteration", "a step back is %zd elements", ssize_t(was - it)); --at; } break;
            case 4: it += by; at = to; break;
            case 5: it -= -by; at = to; break;
            case 6: { auto next = it + by; SIM_CHECK(next - it == by, "iteration", "%zd ahead is %zd away", ssize_t(by), ssize_t(next - it)); it = next; at = to; break; }
            default: { auto next = it - -by; SIM_CHECK(next - it == by, "iteration", "%zd back is %zd away", ssize_t(-by), ssize_t(it - next)); it = next; at = to; break; }
        }
        SIM_CHECK(it - begin == at && (it == end) == (at == last) && (it != begin) == (at != 0), "iteration", "the walk is at %zd instead of %zd of %zd", ssize_t(it - begin), ssize_t(at), ssize_t(last));
        SIM_CHECK((it < end) == (at < last) && (it > begin) == (at > 0) && it >= begin && !(it < begin), "iteration", "the walk at %zd of %zd compares otherwise", ssize_t(at), ssize_t(last));
        if(at < last) same(*it, at);
    }
    SIM_PROBE("strolled");
}

template <class A> struct Walk
{
    typedef estd::internal::accessor<A> accessor; typedef typename A::value_type value_type;
    typedef int difference_type; typedef value_type* pointer; typedef value_type reference; typedef std::bidirectional_iterator_tag iterator_category;
    accessor a;
    explicit Walk(const accessor& x) : a(x) {}
    Walk(const Walk&) = default;
    Walk& operator=(const Walk& o) { a.h_exp() = o.a.h_exp(); return *this; }
    value_type operator*() const { value_type v(a.clock()); a.cunlock(); return v; }
    Walk& operator++() { a.h_exp() += 1; return *this; }
    Walk& operator--() { a.h_exp() += -1; return *this; }
    Walk operator+(int n) const { Walk r(*this); r.a.h_exp() += n; return r; }
    ptrdiff_t operator-(const Walk& o) const { return a.h_exp().offset() - o.a.h_exp().offset(); }
    bool operator==(const Walk& o) const { return a.h_exp() == o.a.h_exp(); }
    bool operator!=(const Walk& o) const { return !(*this == o); }
};
template <class T> struct HandleBase
{
    typedef T value_type; typedef T* pointer; typedef const T* const_pointer; typedef const void* const_void_pointer;
    typedef size_t size_type; typedef ptrdiff_t difference_type; typedef int handle_type;
    typedef estd::internal::handle_with_offset<int, size_t> handle_with_offset;
    typedef void is_locking_tag; typedef void is_stateful_tag;
    Heap* h;
    HandleBase() : h(heap) {}
    static constexpr int invalid() { return 0; }
    int allocate(size_t n) { return h->allocate(n, sizeof(T)); }
    int reallocate(int b, size_t n) { return h->reallocate(b, n, sizeof(T)); }
    T& lock(int b, size_t pos = 0, size_t = 0) const { return reinterpret_cast<T*>(h->lock(b))[pos]; }
    T& lock(const handle_with_offset& b, size_t pos = 0, size_t = 0) const { return lock(b.handle(), b.offset() + pos); }
    const T& clock(int b, size_t pos = 0, size_t = 0) const { return lock(b, pos); }
    const T& clock(const handle_with_offset& b, size_t pos = 0, size_t = 0) const { return lock(b.handle(), b.offset() + pos); }
    void unlock(int b) const { h->unlock(b); }
    void cunlock(int b) const { h->unlock(b); }
    handle_with_offset offset(int b, size_t pos) const { return handle_with_offset(b, pos); }
    size_t max_size() const { return size_t(1) << 30; }
};
// how much a block holds: kept by the container, or by the memory
template <class T> struct Handle : HandleBase<T> { typedef Walk<Handle> iterator; };
template <class T> struct Sized : HandleBase<T> { typedef Walk<Sized> iterator; typedef void has_size_tag; size_t size(int b) const { return this->h->size(b); } };

template <class A, bool Z> using HString = estd::internal::basic_string<A, estd::internal::string_policy_helper<char, estd::char_traits<char>,
    Z ? estd::internal::string_options::null_terminated : estd::internal::string_options::none>>;

inline std::string letters(unsigned max)
{
    unsigned n = sim::choose(max + 1); std::string s;
    static const char few[] = "abcab"; // repeats, so that searches have something to tell apart
    while(n--) s += few[sim::choose(sizeof few - 1)];
    return s;
}
const size_t none = size_t(-1);
// long texts, not decided letter by letter
inline std::string bulk(unsigned n) { unsigned h = sim::choose(1000) * 2654435761u + 1; std::string s; while(n--) { h = h * 1664525u + 1013904223u; s += "abcab"[(h >> 16) % 5]; } return s; }
// texts that differ little from another
inline std::string near(const std::string& m)
{
    std::string t = m; unsigned at = t.empty() ? 0 : sim::choose(t.size());
    switch(sim::choose(8))
    {
        case 0: if(!t.empty()) t[at] = "abcx"[sim::choose(4)]; break;
        case 1: if(!t.empty()) t.pop_back(); break;
        case 2: if(!t.empty()) t.erase(0, 1); break;
        case 3: t += "abcx"[sim::choose(4)]; break;
        case 4: t += std::string(256, 'a'); break;
        case 5: t.resize(at); break;
        case 6: t.erase(0, at); break;
    }
    return t;
}
inline int sign(int x) { return x < 0 ? -1 : x > 0; }
// a length the container's own type for lengths can express
template <class Z> unsigned in(unsigned n) { return std::min<size_t>(n, std::numeric_limits<Z>::max()); }
inline size_t sum(const std::string& s) { uint64_t h = s.size(); for(char c : s) h = h * 31 + (unsigned char)c; return size_t(h); }

// Which: how the memory behind S is obtained; cap: what fits (not counting a terminator), none if it grows
template <class S, bool Z, bool Own = false> struct Strings
{
    S& s; const size_t cap; std::string m; const char* kind;
    static constexpr size_t npos = S::npos;
    unsigned refused0 = 0;
    bool refused() const { return heap && heap->refused != refused0; }
    void audit(const char* op)
    {
        size_t n = s.size();
        SIM_CHECK(n == m.size() && s.length() == n, "size", "after %s: %s reports %zu characters, it should have %zu", op, kind, n, m.size());
        SIM_CHECK(s.empty() == m.empty(), "empty", "after %s: %s with %zu characters reports empty=%d", op, kind, n, int(s.empty()));
        std::string got(n, '?');
        if(n) { const char* p = s.clock(); got.assign(p, n); if(Z) SIM_CHECK(p[n] == 0, "terminator", "after %s: no terminator behind the characters", op); s.cunlock(); }
        SIM_CHECK(got == m, "contents", "after %s: %s holds \"%.400s\", expected \"%.400s\"", op, kind, got.c_str(), m.c_str());
        SIM_CHECK(size_t(s.capacity()) >= n, "capacity", "after %s: holds %zu, claims room for %zu", op, n, size_t(s.capacity()));
        if(cap != none && Z) SIM_CHECK(size_t(s.max_size()) == cap, "max-size", "claims a limit of %zu instead of %zu", size_t(s.max_size()), cap);
        locks(op);
    }
    void locks(const char* op) { if(heap) { SIM_CHECK(heap->locks() == 0, "left-locked", "after %s: memory is still locked", op); SIM_CHECK(heap->live.size() <= 1, "block-lost", "after %s: %zu blocks for one string", op, heap->live.size()); } }
    // an operation that wants to make the string 'want': what must have become of it
    template <class F> void change(const char* op, const std::string& want, F f)
    {
        refused0 = heap ? heap->refused : 0;
        f();
        sim::nontrivial();
        bool fits = cap == none || want.size() <= cap;
        if(!fits) SIM_FAULT("no-room");
        bool done = fits;
        if(fits && refused() && want != m) { done = s.size() == want.size(); if(done) { std::string g(want.size(), 0); s.copy(&g[0], want.size()); done = g == want; } }
        if(want.size() < 400) sim::log("%s %s -> %s", op, want.c_str(), done ? "done" : "refused");
        else sim::log("%s %zu characters (%zx) -> %s", op, want.size(), sum(want), done ? "done" : "refused");
        if(done) m = want;
        audit(op);
    }
    template <class O> void from(const O& o, const std::string& t, const char* op)
    {
        switch(sim::choose(7))
        {
            case 0: change("append string", m + t, [&] { s.append(o); }); break;
            case 1: change("+= string", m + t, [&] { s += o; }); break;
            case 2: change("assign string", t, [&] { if constexpr(std::is_same<S, O>::value) s.assign(o); else s = o; }); break;
            case 3: { unsigned i = sim::choose(m.size() + 1); std::string w = m; w.insert(i, t); change("insert string", w, [&] { s.insert(i, o); }); break; }
            case 4: { int c = s.compare(o); SIM_CHECK((c == 0) == (m == t), "compare", "\"%s\" and \"%s\" compare %d", m.c_str(), t.c_str(), c); if(m.size() == t.size()) SIM_CHECK(sign(c) == sign(m.compare(t)), "order", "\"%s\" and \"%s\" compare %d", m.c_str(), t.c_str(), c); SIM_CHECK((s == o) == (m == t), "equal", "\"%s\" and \"%s\": equal says %d", m.c_str(), t.c_str(), int(s == o)); break; }
            case 5: { bool b = s.starts_with(o), e = s.ends_with(o);
                bool wb = m.compare(0, t.size(), t) == 0 && t.size() <= m.size(), we = t.size() <= m.size() && m.compare(m.size() - t.size(), t.size(), t) == 0;
                SIM_CHECK(b == wb, "starts-with", "\"%s\" starts with \"%s\": %d", m.c_str(), t.c_str(), int(b));
                SIM_CHECK(e == we, "ends-with", "\"%s\" ends with \"%s\": %d", m.c_str(), t.c_str(), int(e)); break; }
            case 6: finds(o, t); break;
        }
        (void)op;
    }
    static size_t np(size_t x) { return x == npos ? std::string::npos : x; }
    void found(const char* what, size_t got, size_t want, const std::string& t, size_t pos)
    { SIM_CHECK(np(got) == want, what, "\"%s\": %s \"%s\" from %zd gave %zd, expected %zd", m.c_str(), what, t.c_str(), ssize_t(pos), ssize_t(np(got)), ssize_t(want)); }
    template <class O> void finds(const O& o, const std::string& t)
    {
        typedef typename S::size_type sz;
        size_t pos = sim::chance(1, 3) ? std::string::npos : sim::choose(m.size() + 2);
        sz p = sz(pos);
        if(pos == std::string::npos) p = npos;
        switch(sim::choose(4))
        {
            case 0: found("find", s.find(o, pos == std::string::npos ? sz(0) : p), m.find(t, pos == std::string::npos ? 0 : pos), t, pos); break;
            case 1: found("rfind", s.rfind(o, p), m.rfind(t, pos), t, pos); break;
            case 2: found("find-first-of", s.find_first_of(o, pos == std::string::npos ? sz(0) : p), m.find_first_of(t, pos == std::string::npos ? 0 : pos), t, pos); break;
            case 3: found("find-last-of", s.find_last_of(o, p), m.find_last_of(t, pos), t, pos); break;
        }
    }
    void step(unsigned longest)
    {
        typedef typename S::size_type sz;
        const bool large = cap != none && cap > 600; unsigned op = sim::choose(30);
        std::string t = large && op != 26 && sim::chance(1, 3) ? bulk(sim::choose(unsigned(cap / (1u << sim::choose(8)) + 3))) : sim::chance(1, 12) ? std::string(250 + sim::choose(60), 'a') : letters(longest);
        if(sim::chance(1, 10) && (op == 26 ? m.size() < 60 : m.size() < 2000 || op == 24)) t = near(m);
        std::unique_ptr<char[]> exact(new char[t.size() + 1]); memcpy(exact.get(), t.c_str(), t.size() + 1); const char* c = exact.get();
        char ch = "abcx"[sim::choose(4)];
        unsigned i = sim::choose(m.size() + 1), n; std::string w = m;
        switch(op)
        {
            case 0: change("append range", m + t, [&] { s.append(c, t.size()); }); break;
            case 1: change("append", m + t, [&] { s.append(c); }); break;
            case 2: change("+= character", m + ch, [&] { s += ch; }); break;
            case 3: change("+=", m + t, [&] { s += c; }); break;
            case 4: n = in<sz>(sim::choose(large && sim::chance(1, 3) ? unsigned(cap) + 3 : 12)); change("append repeated", m + std::string(n, ch), [&] { s.append(sz(n), ch); }); break;
            case 5: { bool ok = false; size_t b = m.size(); change("push_back", m + ch, [&] { ok = s.push_back(ch); }); SIM_CHECK(ok == (m.size() > b), "reported", "push_back said %d", int(ok)); break; }
            case 6: w.insert(i, t); change("insert range", w, [&] { s.insert(sz(i), c, t.size()); }); break;
            case 7: w.insert(i, t); change("insert", w, [&] { s.insert(sz(i), c); }); break;
            case 8: w.insert(i, 1, ch); change("insert character at iterator", w, [&] { if(sim::chance(1, 2)) s.insert(s.begin() + i, ch); else s.insert(s.begin() + i, static_cast<const char&>(ch)); }); break;
            case 9: w.insert(i, t); change("insert range at iterator", w, [&] { s.insert(s.begin() + i, c, c + t.size()); }); break;
            case 10: case 11: n = sim::choose(m.size() - i + 1); w.erase(i, n); change("erase", w, [&] { if(n == m.size() - i && sim::chance(1, 2)) s.erase(i); else s.erase(i, n); }); break;
            case 12: case 13: if(sim::chance(1, 2)) change("clear", "", [&] { s.clear(); }); break;
            case 14: change("assign", t, [&] { if constexpr(std::is_assignable<S&, const char*>::value) s = c; else s.assign(c, c + t.size()); }); break;
            case 15: change("assign range", t, [&] { s.assign(c, c + t.size()); }); break;
            case 16: { // what a grown string of known length holds is up to the caller
                n = in<sz>(sim::choose(Z ? m.size() + 1 : m.size() + (large ? 300 : 8))); w.resize(n, 'r'); size_t b = m.size();
                change("resize", w, [&] { bool ok = s.resize(sz(n)); if(ok && n > b) { SIM_CHECK(s.size() == n, "size", "resized to %u, has %zu", n, size_t(s.size())); char* p = s.lock(); memset(p + b, 'r', n - b); s.unlock(); } }); break; }
            case 17: n = in<sz>(sim::choose(large ? unsigned(cap) + 5 : 30)); change("reserve", m, [&] { bool ok = s.reserve(sz(n)); SIM_CHECK(!ok || s.capacity() >= n, "capacity", "reserved %u, has %zu", n, size_t(s.capacity())); SIM_CHECK(ok || refused() || (cap != none && n > cap), "reported", "reserve failed for no reason"); }); break;
            case 18: change("shrink_to_fit", m, [&] { s.shrink_to_fit(); }); break;
            case 19: if(m.size()) { w.pop_back(); change("pop_back", w, [&] { s.pop_back(); }); } break;
            case 20: finds(c, t); locks("search"); break;
            case 21: { size_t p = sim::choose(m.size() + 2); found("find", s.find(ch, sz(p)), m.find(ch, p), std::string(1, ch), p); locks("search");
                if(t.size() < npos) { n = sim::choose(t.size() + 1); p = sim::choose(m.size() + 1); std::string part(t, 0, n);
                    std::unique_ptr<char[]> e(new char[n ? n : 1]); memcpy(e.get(), part.data(), n);
                    found("find", s.find(e.get(), sz(p), sz(n)), m.find(part, p), part, p); found("rfind", s.rfind(e.get(), sz(p), sz(n)), m.rfind(part, p), part, p);
                    found("find-first-of", s.find_first_of(e.get(), sz(p), sz(n)), m.find_first_of(part, p), part, p); found("find-last-of", s.find_last_of(e.get(), sz(p), sz(n)), m.find_last_of(part, p), part, p); }
                locks("search"); break; }
            case 22: { size_t p = sim::choose(m.size() + 1), k = sim::choose(20); char b[24]; memset(b, '#', sizeof b); size_t g = s.copy(b, sz(k), sz(p)); std::string want = m.substr(p, k);
                SIM_CHECK(g == want.size() && std::string(b, g) == want && b[g] == '#', "copy", "copy of %zu from %zu of \"%s\" gave %zu: %.*s", k, p, m.c_str(), g, int(g), b); locks("copy"); break; }
            case 23: if(m.size()) { i = sim::choose(m.size()); w[i] = ch; change("set character", w, [&] { s[i] = ch; }); char g = s[i]; SIM_CHECK(g == ch, "element", "read back something else"); g = s.front(); SIM_CHECK(g == m.front(), "element", "first character"); g = s.back(); SIM_CHECK(g == m.back(), "element", "last character"); g = s.at(i); SIM_CHECK(g == m[i], "element", "at"); } break;
            case 24: { if(sim::choose(2)) { t = near(m); exact.reset(new char[t.size() + 1]); memcpy(exact.get(), t.c_str(), t.size() + 1); c = exact.get(); }
                int x = s.compare(c); SIM_CHECK((x == 0) == (m == t), "compare", "\"%s\" and \"%s\" compare %d", m.c_str(), t.c_str(), x); if(m.size() == t.size()) SIM_CHECK(sign(x) == sign(m.compare(t)), "order", "\"%s\" and \"%s\" compare %d", m.c_str(), t.c_str(), x); SIM_CHECK((s == c) == (m == t), "equal", "\"%s\" and \"%s\"", m.c_str(), t.c_str());
                bool b = s.starts_with(c), e = s.ends_with(c), wb = t.size() <= m.size() && m.compare(0, t.size(), t) == 0, we = t.size() <= m.size() && m.compare(m.size() - t.size(), t.size(), t) == 0;
                SIM_CHECK(b == wb, "starts-with", "\"%s\" starts with \"%s\": %d", m.c_str(), t.c_str(), int(b)); SIM_CHECK(e == we, "ends-with", "\"%s\" ends with \"%s\": %d", m.c_str(), t.c_str(), int(e));
                b = s.starts_with(ch); e = s.ends_with(ch); SIM_CHECK(b == (!m.empty() && m.front() == ch), "starts-with", "\"%s\" starts with %c: %d", m.c_str(), ch, int(b)); SIM_CHECK(e == (!m.empty() && m.back() == ch), "ends-with", "\"%s\" ends with %c: %d", m.c_str(), ch, int(e));
                locks("comparison"); break; }
            case 29: { std::string_view v(c, t.size()); if(sim::chance(1, 2)) change("append standard view", m + t, [&] { s.append(v); }); else change("+= standard view", m + t, [&] { s += v; }); break; }
            case 25: { if constexpr(steps<decltype(s.begin())>::value) if(sim::chance(1, 3)) { stroll(s, m.size(), [&](char x, ptrdiff_t at) { SIM_CHECK(x == m[at], "iteration", "the walk found %c at %zd of \"%s\"", x, ssize_t(at), m.c_str()); }); locks("iteration"); break; } std::string g; for(auto it = s.begin(), e = s.end(); it != e; ++it) { char x = *it; g += x; } SIM_CHECK(g == m, "iteration", "iteration gave \"%s\" instead of \"%s\"", g.c_str(), m.c_str()); locks("iteration"); break; }
            case 26: { Heap other, *keep = heap; bool moving = heap != nullptr;
                estd::layer1::string<320> a; a = c; estd::layer1::string<320, false> b; b.append(c, t.size()); estd::string_view v(c, t.size()); estd::layer2::const_string z(c);
                switch(sim::choose(moving ? 5 : 4)) { case 0: from(a, t, ""); break; case 1: from(b, t, ""); break; case 2: from(v, t, ""); break; case 3: from(z, t, ""); break;
                    case 4: { other.refuse = false; heap = &other; { HString<Handle<char>, false> o; o.append(c, t.size()); heap = keep; from(o, t, ""); } SIM_CHECK(other.locks() == 0, "left-locked", "the other string is still locked"); break; } }
                locks("use with another string"); break; }
            case 27: switch(sim::choose(8)) { case 0: change("append itself", m + m, [&] { s.append(s); }); break; case 1: change("assign itself", m, [&] { s.assign(s); }); break;
                case 3: w.insert(i, m); change("insert itself", w, [&] { s.insert(sz(i), s); }); break;
                case 4: if(!heap) { unsigned f = sim::choose(m.size() + 1); n = sim::choose(m.size() - f + 1); w.insert(i, m.substr(f, n)); SIM_PROBE("own-part"); change("insert own part", w, [&] { s.insert(sz(i), s.clock() + f, n); }); } break;
                case 5: if(!heap && Z) { unsigned f = sim::choose(m.size() + 1); SIM_PROBE("own-part"); change("assign own end", m.substr(f), [&] { if constexpr(std::is_assignable<S&, const char*>::value) s = static_cast<const char*>(s.clock() + f); else s = estd::layer2::const_string(s.clock() + f); }); } break;
                case 6: if(!heap) { unsigned f = sim::choose(m.size() + 1); n = sim::choose(m.size() - f + 1); SIM_PROBE("own-part"); if(sim::choose(2)) change("append own part", m + m.substr(f, n), [&] { s.append(s.clock() + f, n); }); else change("assign view of own part", m.substr(f, n), [&] { s = estd::string_view(s.clock() + f, n); }); } break;
                case 7: if(m.size()) { i = sim::choose(m.size()); n = sim::choose(m.size()); w[i] = m[n]; change("copy character", w, [&] { s[sz(i)] = s[sz(n)]; }); } break;
                case 2: SIM_CHECK(s == s && s.compare(s) == 0 && s.starts_with(s) && s.ends_with(s) && np(s.find(s)) == 0, "equal", "\"%s\" does not match itself", m.c_str()); locks("comparison"); break; } break;
            case 28: if constexpr(Own) { std::unique_ptr<S> d(new S(s)); SIM_CHECK(d->compare(s) == 0, "copied", "a copy differs"); if(t.size() <= cap && sim::chance(1, 4)) { d.reset(new S(c)); SIM_CHECK(d->compare(c) == 0, "created", "a string created from \"%s\" differs", c); d.reset(new S(s)); } *d += ch; audit("change of a copy"); change("assign copy", m.size() < cap ? m + ch : m, [&] { if(sim::chance(1, 2)) s = static_cast<const S&>(*d); else s = std::move(*d); }); d->clear(); audit("change of a copy"); } break;
        }
        sim::state(sim::mix(sim::mix(sizeof(S) * 2 + Z, m.size()), s.capacity()));
    }
    void run(unsigned longest) { audit("creation"); for(unsigned k = 0, ops = 10 + sim::choose(40); k < ops; ++k) { sim::step("op"); step(longest); } }
};

template <class S, bool Z, bool Own> void fixed_string(S& s, size_t cap, const char* kind)
{
    heap = nullptr;
    Strings<S, Z, Own> w{ s, cap, "", kind };
    if(cap > 600) SIM_PROBE("large"); w.run(cap < 40 ? cap + 2 : cap < 600 ? cap / 2 : 60);
}
template <class A, bool Z> void moving_string(const char* kind)
{
    std::unique_ptr<Heap> h(new Heap); heap = h.get();
    { HString<A, Z> s; Strings<HString<A, Z>, Z> w{ s, none, "", kind }; w.run(14); }
    heap = nullptr;
}
template <size_t N, bool Z> void l1() { typedef estd::layer1::string<N, Z> S; std::unique_ptr<S> s(new S); fixed_string<S, Z, true>(*s, N - Z, "a fixed string"); }
template <size_t N> void l2()
{
    std::unique_ptr<char[]> b(new char[N]); memset(b.get(), 0x5A, N); b[0] = 0;
    estd::layer2::string<N> s(b.get()); fixed_string<estd::layer2::string<N>, true, false>(s, N - 1, "a string on a buffer");
}
template <bool Z> void l3(bool large = false)
{
    unsigned n = large ? 65534 - sim::choose(3) : 1 + sim::choose(40);   // 16 bits is what this kind counts with, and one number of them means "no position"
    std::unique_ptr<char[]> b(new char[n]); memset(b.get(), 0x5A, n); b[0] = 0;
    typedef estd::layer3::basic_string<char, Z> S; S s(b.get(), typename S::size_type(0), typename S::size_type(n)); fixed_string<S, Z, false>(s, n - Z, "a string on a sized buffer");
}
// ---------------------------------------------------------------- vectors
inline int num(int v) { return v; }
inline int num(const led::Val& v) { return v.get(); }
inline int counter;
inline int fresh() { return counter = counter % 9000 + 7; }
template <class V, class T> struct Vectors
{
    static constexpr bool counted = !std::is_same<T, int>::value;
    V& v; const size_t cap; const char* kind; std::vector<int> m;
    unsigned refused0 = 0;
    bool refused() const { return heap && heap->refused != refused0; }
    std::vector<int> read() { std::vector<int> r; size_t n = v.size(); if(n) { const T* p = v.clock(); for(size_t i = 0; i < n; ++i) r.push_back(num(p[i])); v.cunlock(); } return r; }
    void audit(const char* op)
    {
        size_t n = v.size();
        SIM_CHECK(n == m.size() && v.empty() == m.empty(), "size", "after %s: %s reports %zu elements, it should have %zu", op, kind, n, m.size());
        SIM_CHECK(read() == m, "contents", "after %s: %s does not hold the elements it should", op, kind);
        SIM_CHECK(size_t(v.capacity()) >= n, "capacity", "after %s: holds %zu, claims room for %zu", op, n, size_t(v.capacity()));
        if(counted) SIM_CHECK(led::live() == n, led::live() < n ? "destroyed-early" : "leaked", "after %s: %zu elements are alive, %zu are held", op, led::live(), n);
        locks(op);
    }
    void locks(const char* op) { if(heap) { SIM_CHECK(heap->locks() == 0, "left-locked", "after %s: memory is still locked", op); SIM_CHECK(heap->live.size() <= 1, "block-lost", "after %s: %zu blocks for one vector", op, heap->live.size()); } }
    template <class F> bool change(const char* op, const std::vector<int>& want, F f)
    {
        refused0 = heap ? heap->refused : 0;
        f();
        sim::nontrivial();
        bool fits = cap == none || want.size() <= cap, done = fits;
        if(!fits) SIM_FAULT("no-room");
        if(fits && refused() && want != m) done = v.size() == want.size() && read() == want;
        sim::log("%s to %zu -> %s", op, want.size(), done ? "done" : "refused");
        if(done) m = want;
        audit(op);
        return done;
    }
    void step()
    {
        typedef decltype(v.size()) sz;
        unsigned i = sim::choose(m.size() + 1), n; std::vector<int> w = m; int x = fresh(); bool ok = false, did;
        const bool large = cap > 100 && sim::chance(1, cap == none ? 40 : 3); if(large) SIM_PROBE("large");
        std::vector<int> nums; for(unsigned k = large ? sim::choose(130) : sim::choose(7); k; --k) nums.push_back(fresh());
        switch(sim::choose(24))
        {
            case 0: { w.push_back(x); T t(x); did = change("push_back", w, [&] { ok = v.push_back(static_cast<const T&>(t)); if(counted) t.~T(); }); if(counted) new (&t) T(x); SIM_CHECK(ok == did, "reported", "push_back said %d", int(ok)); break; }
            case 1: { w.push_back(x); T t(x); did = change("push_back (moved)", w, [&] { ok = v.push_back(std::move(t)); t.~T(); }); new (&t) T(x); SIM_CHECK(ok == did, "reported", "push_back said %d", int(ok)); break; }
            case 2: w.push_back(x); change("emplace_back", w, [&] { v.emplace_back(x); }); break;
            case 3: { w.insert(w.begin() + i, x); T t(x); change("insert", w, [&] { v.insert(v.begin() + i, static_cast<const T&>(t)); t.~T(); }); new (&t) T(x); break; }
            case 4: { w.insert(w.begin() + i, x); T t(x); size_t b = m.size(); change("insert (moved)", w, [&] { auto it = v.insert(v.begin() + i, std::move(t)); if(v.size() > b) { auto at = num(*it); SIM_CHECK(at == x, "inserted-at", "insert returned the position of %d, not of %d", at, x); } t.~T(); }); new (&t) T(x); break; }
            case 5: w.insert(w.begin() + i, nums.begin(), nums.end()); change("insert range", w, [&] { v.insert(v.begin() + i, nums.begin(), nums.end()); }); break;
            case 6: case 7: if(i < m.size()) { w.erase(w.begin() + i); change("erase", w, [&] { auto it = v.erase(v.begin() + i); SIM_CHECK(it == v.begin() + i, "erased-at", "erase returned another position"); }); } break;
            case 8: if(sim::chance(1, 3)) { w.clear(); change("clear", w, [&] { v.clear(); }); } break;
            case 9: change("assign", nums, [&] { v.assign(nums.begin(), nums.end()); }); break;
            case 10: case 11: { typedef estd::layer1::vector<T, 130> O; std::unique_ptr<O> o(new O); for(int k : nums) o->push_back(T(k)); bool app = sim::chance(1, 2); if(app) { w.insert(w.end(), nums.begin(), nums.end()); } else w = nums;
                change(app ? "append vector" : "assign vector", w, [&] { if(app) v.append(*o); else v.assign(*o); SIM_CHECK(o->size() == nums.size(), "source", "the source changed"); o->clear(); });
                break; }
            case 12: if(!counted) { w.insert(w.end(), nums.begin(), nums.end()); std::vector<T> a(nums.begin(), nums.end()); size_t got = 0; did = change("append range", w, [&] { got = v.append(a.data(), a.size()); }); SIM_CHECK(got == (did ? nums.size() : 0), "reported", "append of %zu elements said %zu", nums.size(), got); }
                else { std::vector<T> a(nums.begin(), nums.end()); w.insert(w.end(), nums.begin(), nums.end()); size_t got = 0; did = change("append range", w, [&] { got = v.append(a.data(), a.size()); a.clear(); }); SIM_CHECK(got == (did ? nums.size() : 0), "reported", "append of %zu elements said %zu", nums.size(), got); } break;
            case 13: { n = in<sz>(sim::choose(m.size() + (large ? 200 : 6))); w.resize(n, 0); size_t b = m.size();
                did = change("resize", w, [&] { ok = v.resize(sz(n)); if(ok && n > b && !counted) { T* p = v.lock(); for(unsigned k = b; k < n; ++k) p[k] = T(0); v.unlock(); } }); SIM_CHECK(ok == did || n <= b, "reported", "resize said %d", int(ok)); break; }
            case 14: n = in<sz>(sim::choose(large ? 400 : 20)); change("reserve", m, [&] { ok = v.reserve(sz(n)); SIM_CHECK(!ok || v.capacity() >= n, "capacity", "reserved %u, has %zu", n, size_t(v.capacity())); SIM_CHECK(ok || refused() || (cap != none && n > cap), "reported", "reserve failed for no reason"); }); break;
            case 15: change("shrink_to_fit", m, [&] { v.shrink_to_fit(); }); break;
            case 16: case 17: if(m.size()) { w.pop_back(); change("pop_back", w, [&] { v.pop_back(); }); } break;
            case 18: if(m.size()) { i = sim::choose(m.size()); w[i] = x; change("set element", w, [&] { T t(x); v[i] = t; }); { T g = v[i]; SIM_CHECK(num(g) == x, "element", "read back something else"); const V& cv = v; T a0 = v.at(i), a1 = cv[i]; SIM_CHECK(num(a0) == x && num(a1) == x, "element", "at() read something else"); T f = v.front(), b = v.back(); SIM_CHECK(num(f) == m.front() && num(b) == m.back(), "element", "first or last element"); } } break;
            case 19: { if constexpr(steps<decltype(v.begin())>::value) if(sim::chance(1, 3)) { stroll(v, m.size(), [&](const T& x, ptrdiff_t at) { SIM_CHECK(num(x) == m[at], "iteration", "the walk found another element at %zd", ssize_t(at)); }); locks("iteration"); break; } std::vector<int> g; for(auto it = v.begin(), e = v.end(); it != e; ++it) g.push_back(num(*it)); SIM_CHECK(g == m, "iteration", "iteration gave other elements"); locks("iteration"); break; }
            case 20: { typedef estd::layer1::vector<T, 600> O; if(m.size() > 300) break; std::unique_ptr<O> o(new O); std::vector<int> b = m;
                switch(sim::choose(5)) { case 0: if(!b.empty()) b[sim::choose(b.size())] = -9; break; case 1: if(!b.empty()) b.pop_back(); break; case 2: b.push_back(3); break; case 3: if(large) b.resize(b.size() + 256, 4); break; }
                for(int k : b) o->push_back(T(k));
                bool forth = v == *o, back = *o == v;
                SIM_CHECK(forth == (b == m) && back == forth, "equal", "%zu and %zu elements, alike: %d, equal says %d and %d", m.size(), b.size(), int(b == m), int(forth), int(back)); o->clear(); locks("comparison"); break; }
            case 22: if(m.size()) { n = sim::choose(m.size()); i = sim::choose(m.size()); w[i] = m[n]; change("copy element", w, [&] { if(sim::choose(2)) v[sz(i)] = v[sz(n)]; else { auto&& to = v.at(sz(i)); const auto& fr = v.at(sz(n)); to = fr; } }); } break;
            case 23: if(m.size()) { n = sim::choose(m.size()); SIM_PROBE("own-element"); if(sim::choose(3)) { w.insert(w.begin() + i, m[n]); change("insert own element", w, [&] { v.insert(v.begin() + i, v[sz(n)]); }); } else { w.push_back(m[n]); change("push_back own element", w, [&] { v.push_back(v[sz(n)]); }); } } break;
            case 21: if(sim::chance(1, 2)) { w.insert(w.end(), m.begin(), m.end()); change("append itself", w, [&] { v.append(v); }); } else change("assign itself", m, [&] { v.assign(v); }); break;
        }
        sim::state(sim::mix(sim::mix(sizeof(V) * 2 + counted, m.size()), v.capacity()));
    }
    void run(bool adopted = false)
    {
        if(!adopted) led::reset();
        counter = 0; audit("creation");
        for(unsigned k = 0, ops = 10 + sim::choose(40); k < ops; ++k) { sim::step("op"); step(); }
        m.clear(); v.clear(); audit("final clear");
    }
};
// a vector created from a list: all of it, or nothing where it does not fit
template <class T, class V> void listed(size_t cap, const char* kind)
{
    led::reset(); counter = int(sim::choose(100)); int a = fresh(), b = fresh(), c = fresh(), d = fresh(), e = fresh(); const int all[] = { a, b, c, d, e, a, b, c, d, e };
    static const unsigned len[] = { 0, 1, 2, 3, 5, 8, 9, 10 }; unsigned n = len[sim::choose(8)];
    const unsigned before = heap ? heap->refused : 0;
    void* room = malloc(sizeof(V)); memset(room, 0x5A, sizeof(V)); V* v = nullptr;
    switch(n)
    {
        case 0: v = new (room) V(std::initializer_list<T>()); break;
        case 1: v = new (room) V{ T(a) }; break;
        case 2: v = new (room) V{ T(a), T(b) }; break;
        case 3: v = new (room) V{ T(a), T(b), T(c) }; break;
        case 5: v = new (room) V{ T(a), T(b), T(c), T(d), T(e) }; break;
        case 8: v = new (room) V{ T(a), T(b), T(c), T(d), T(e), T(a), T(b), T(c) }; break;
        case 9: v = new (room) V{ T(a), T(b), T(c), T(d), T(e), T(a), T(b), T(c), T(d) }; break;
        default: v = new (room) V{ T(a), T(b), T(c), T(d), T(e), T(a), T(b), T(c), T(d), T(e) }; break;
    }
    bool fits = n <= cap && !(heap && heap->refused != before); if(!fits) { SIM_FAULT("no-room"); n = 0; }
    { Vectors<V, T> w{ *v, cap, kind, std::vector<int>(all, all + n) }; w.audit("creation from a list"); for(unsigned k = 0; k < 8; ++k) w.step(); w.m.clear(); v->clear(); w.audit("final clear"); }
    sim::nontrivial(); sim::state(sim::mix(n, cap)); v->~V(); free(room);
}
template <class T, size_t N> void v1() { if(sim::chance(1, 8)) { heap = nullptr; listed<T, estd::layer1::vector<T, N>>(N, "a fixed vector"); return; } heap = nullptr; typedef estd::layer1::vector<T, N> V; std::unique_ptr<V> v(new V); Vectors<V, T>{ *v, N, "a fixed vector", {} }.run(); }
template <class T, size_t N> void v2() { heap = nullptr; typedef estd::layer2::vector<T, N> V; T* b = static_cast<T*>(malloc(N * sizeof(T))); memset(static_cast<void*>(b), 0x5A, N * sizeof(T));
    // elements which are there already may be adopted
    std::vector<int> m; led::reset(); unsigned n = sim::chance(1, 3) ? sim::choose(N + 1) : 0; for(unsigned i = 0; i < n; ++i) { new(b + i) T(int(500 + i)); m.push_back(int(500 + i)); } if(n) SIM_PROBE("adopted");
    { V v(b, decltype(std::declval<V&>().size())(n)); Vectors<V, T> t{ v, N, "a vector on a buffer", m }; t.run(true); } free(b); }
template <class T> void v3() { heap = nullptr; typedef estd::layer3::vector<T> V; unsigned n = 1 + sim::choose(12); T* b = static_cast<T*>(malloc(n * sizeof(T))); memset(static_cast<void*>(b), 0x5A, n * sizeof(T)); { V v(b, n); Vectors<V, T>{ v, n, "a vector on a sized buffer", {} }.run(); } free(b); }
template <class T, class A> void vm() { if(sim::chance(1, 8)) { std::unique_ptr<Heap> h(new Heap); heap = h.get(); listed<T, estd::vector<T, A>>(none, "a moving vector"); heap = nullptr; return; } std::unique_ptr<Heap> h(new Heap); heap = h.get(); { typedef estd::vector<T, A> V; V v; Vectors<V, T>{ v, none, "a moving vector", {} }.run(); } heap = nullptr; }
template <class T> void large_vectors() { switch(sim::choose(5)) { case 0: v1<T, 255>(); break; case 1: v1<T, 256>(); break; case 2: v1<T, 300>(); break; case 3: v2<T, 255>(); break; case 4: v2<T, 300>(); break; } }
template <class T> void vectors() { switch(sim::choose(4)) { case 0: v1<T, 1>(); break; case 1: v1<T, 8>(); break; case 2: v2<T, 9>(); break; case 3: v3<T>(); break; } }
}
