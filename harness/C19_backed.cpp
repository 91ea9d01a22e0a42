#include "C19.h"
namespace c19 {
template <int MOD, int ADD> using H = HashMod<int, MOD, ADD>;
void map_backed() { backed<estd::layer2::unordered_map<int, Val, 12, HashMix<int>>>(12, 16, sim::chance(1, 4), sim::chance(1, 3)); }
// buckets that begin inside each other's run: 4*h mod 10
void map_odd() { in_place<estd::layer1::unordered_map<int, Val, 10, H<5, 0>>>(10, 16, false, sim::chance(1, 3)); }
void map_dups() { in_place<estd::layer1::unordered_map<int, Val, 14, H<3, 1>>>(14, 7, true, sim::chance(1, 3)); }
template <class K, int MOD, int ADD> using HK = HashMod<K, MOD, ADD>;
void map_small()
{
    switch(sim::choose(3))
    {
        case 0: in_place<estd::layer1::unordered_map<short, Small, 12, HK<short, 3, 0>>>(12, 14, false, false); break;
        case 1: in_place<estd::layer1::unordered_map<char, Small, 20, HK<char, 5, 1>>>(20, 14, false, false); break;
        default: in_place<estd::layer1::unordered_map<uint16_t, Small, 300, HK<uint16_t, 3, 72>>>(300, 20, false, false); break;
    }
}
// more slots than 15 or 16 bits count, with the busy buckets beyond those
void map_huge()
{
    switch(sim::choose(3))
    {
        case 0: in_place<estd::layer1::unordered_map<int, Val, 40000, H<3, 8195>>>(40000, 12, false, sim::chance(1, 3)); break;
        case 1: in_place<estd::layer1::unordered_map<int, Val, 70000, H<3, 16390>>>(70000, 12, false, sim::chance(1, 3)); break;
        default: in_place<estd::layer1::unordered_map<int, Val, 70000, H<1, 17000>>>(70000, 12, true, sim::chance(1, 3)); break;
    }
}
// finding: keys that fall on a bucket beyond the 32768th slot, values of 16 bits, an erasure
void map_huge_small()
{
    typedef estd::layer1::unordered_map<uint16_t, Small, 40000, HK<uint16_t, 1, 8750>> M; Raw raw(sizeof(M)); M& m = *new (raw.p) M;
    sim::choose(2);
    for(int k = 1; k <= 3; k++) m.insert(M::value_type(uint16_t(k), Small(k)));
    m.erase(uint16_t(1));
    SIM_CHECK(m.contains(uint16_t(2)) && m.contains(uint16_t(3)), "lost-key-16-bit-values", "one of three keys of bucket 35000 was erased, and the others are not found");
}
}
namespace c19 {
// so many elements, and so many under one key, that neither 8 nor 16 bits count them
struct Int { int v; Int(int n = 0) : v(n) {} };
template <class K> struct HashSame { size_t operator()(const K&) const { return 5; } };
template <class K> struct HashSelf { size_t operator()(const K& k) const { return size_t(k); } };
void map_many()
{
    if(sim::choose(2))
    {
        typedef estd::layer1::unordered_map<int, Int, 70001, HashSelf<int>> M; Raw raw(sizeof(M)); M& m = *new (raw.p) M; const unsigned n = sim::pick((const unsigned[]){ 255, 256, 257, 32768, 65535, 65536, 65537, 69000 });
        SIM_PROBE("many-elements"); sim::log("%u elements", n);
        for(unsigned i = 1; i <= n; ++i) SIM_CHECK(m.insert(M::value_type(int(i), Int(int(i * 3)))).second, "refused-with-room", "insertion %u into a map of 70001 was refused", i);
        SIM_CHECK(m.size() == n, "size", "%u elements, size says %u", n, (unsigned)m.size());
        unsigned seen = 0; for(auto it = m.begin(); it != m.end(); ++it, ++seen) SIM_CHECK(it->second.v == it->first * 3, "value", "key %d has %d", it->first, it->second.v);
        SIM_CHECK(seen == n, "iteration", "%u of %u elements were met", seen, n);
        for(unsigned k = 0; k < 40; ++k) { int key = int(1 + sim::choose(n)); auto it = m.find(key); SIM_CHECK(it != m.end() && it->first == key && m.count(key) == 1, "lost", "key %d of %u is not found", key, n); }
        unsigned left = n; for(unsigned k = sim::range(1, 40); k--;) { int key = int(1 + sim::choose(n)); bool had = m.contains(key); left -= had; unsigned e = m.erase(key); SIM_CHECK(e == unsigned(had) && !m.contains(key), "erasure", "erasing %d removed %u", key, e); }
        SIM_CHECK(m.size() == left, "size", "%u elements are left, size says %u", left, (unsigned)m.size());
        m.clear(); SIM_CHECK(m.size() == 0 && m.empty() && m.begin() == m.end(), "clear", "after clear there are %u elements", (unsigned)m.size()); sim::state(sim::mix(n, left)); m.~M();
    }
    else
    {
        typedef estd::layer1::unordered_map<int, Int, 1500, HashSame<int>> M; Raw raw(sizeof(M)); M& m = *new (raw.p) M; const unsigned n = sim::pick((const unsigned[]){ 127, 128, 255, 256, 257, 300, 1000 });
        SIM_PROBE("many-of-a-key"); sim::log("%u of one key", n);
        for(unsigned i = 0; i < n; ++i) SIM_CHECK(m.insert(M::value_type(7, Int(int(i))), true).second, "refused-with-room", "insertion %u was refused", i);
        const unsigned others = sim::range(0, 20); for(unsigned i = 0; i < others; ++i) SIM_CHECK(m.insert(M::value_type(int(8 + i), Int(1))).second, "refused-with-room", "insertion of another key was refused");
        SIM_CHECK(m.count(7) == n && m.size() == n + others, "count", "of %u elements with the key %u are counted, size %u", n, (unsigned)m.count(7), (unsigned)m.size());
        SIM_CHECK(m.bucket_size(m.bucket(7)) == n + others, "bucket-size", "the bucket says it has %u of %u", (unsigned)m.bucket_size(m.bucket(7)), n + others);
        std::vector<char> met(n); unsigned seen = 0; const unsigned b = m.bucket(7); for(auto it = m.begin(b); it != m.end(b); ++it) if(it->first == 7) { unsigned v = unsigned(it->second.v); SIM_CHECK(v < n && !met[v], "range", "element %u twice", v); met[v] = 1; ++seen; }
        SIM_CHECK(seen == n, "range", "%u of %u elements were met", seen, n);
        unsigned e = m.erase(7); sim::log("erased %u", e); SIM_CHECK(m.count(7) == n - e && e > 0 && m.size() == n - e + others, "erasure", "of %u elements %u were erased, %u are counted", n, e, (unsigned)m.count(7)); sim::state(sim::mix(n, others)); m.~M();
    }
    sim::nontrivial();
}
}
