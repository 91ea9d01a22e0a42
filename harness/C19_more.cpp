#include "C19.h"
namespace c19 {
template <int MOD, int ADD> using H = HashMod<int, MOD, ADD>;
// more than 64 slots, with the busy buckets at the far end
void map_wide() { in_place<estd::layer1::unordered_map<int, Val, 100, H<4, 21>>>(100, 22, false, sim::chance(1, 3)); }
void map_string() { in_place<estd::layer1::unordered_map<S8, Val, 12, HashMod<S8, 3, 0>>>(12, 12, false, sim::chance(1, 3)); }
void map_optional() { in_place<estd::layer1::unordered_map<O16, Val, 12, HashMod<O16, 3, 0>>>(12, 12, false, sim::chance(1, 3)); }
}
