// BUILD: -I$R/src -I$V/harness
#include "C19.h"
namespace c19 {
template <int MOD, int ADD> using H = HashMod<int, MOD, ADD>;
void map_identity() { in_place<estd::layer1::unordered_map<int, Val, 16, H<1000, 0>>>(16, 24, false, sim::chance(1, 3)); }
void map_onebucket() { in_place<estd::layer1::unordered_map<int, Val, 10, H<1, 0>>>(10, 14, false, sim::chance(1, 3)); }
void map_clustered() { in_place<estd::layer1::unordered_map<int, Val, 24, H<3, 1>>>(24, 20, false, sim::chance(1, 3)); }
}
const sim::Scenario scen[] = {
    { "map-identity", c19::map_identity, 180 }, { "map-onebucket", c19::map_onebucket, 120 }, { "map-clustered", c19::map_clustered, 180 },
    { "map-wide", c19::map_wide, 120 }, { "map-string", c19::map_string, 60 }, { "map-optional", c19::map_optional, 60 },
    { "map-backed", c19::map_backed, 120 }, { "map-odd", c19::map_odd, 120 }, { "map-dups", c19::map_dups, 120 },
    { "set-identity", c19::set_identity, 120 }, { "set-onebucket", c19::set_onebucket, 120 }, { "set-clustered", c19::set_clustered, 120 }, { "set-string", c19::set_string, 60 }, { "set-mixed", c19::set_mixed, 60 },
    { "map-small", c19::map_small, 60 }, { "map-huge", c19::map_huge, 1 }, { "map-many", c19::map_many, 2 }, { "map-huge-small", c19::map_huge_small, 0 },
};
const sim::Harness sim::harness = { "C19",
    "Against a reference multimap, after every operation: size, emptiness, iteration (each element once), find, contains, count and bucket sizes agree for every key; a reported insertion took a free slot, a refused one had none to take; elements stay where they are except under clean-up; every value is constructed, used and destroyed exactly once, also when its construction throws; nothing outside the table's exact memory is touched; sets with the same keys compare equal.",
    "unordered_map (up to 70000 slots) and unordered_set (in-place and on caller's memory): insertion in all forms, lookup, erasure, clean-up steps, iteration, clear",
    "mapped values (a ledger type that can fail), hash functions, keys",
    "key types need no destruction|the default key value is not stored|operator[] is used only where there is room|whole containers are neither copied nor expected to destroy what is left in them",
    40000, 2000000, scen, sizeof scen / sizeof *scen, nullptr };
