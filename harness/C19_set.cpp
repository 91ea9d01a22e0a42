#include "C19.h"
namespace c19 {
template <int MOD, int ADD> using H = HashMod<int, MOD, ADD>;
void set_identity() { set_in_place<estd::layer1::unordered_set<int, 10>>(10, 16); }
void set_onebucket() { set_in_place<estd::layer1::unordered_set<int, 8, H<1, 1>>>(8, 10); }
void set_clustered() { set_in_place<estd::layer1::unordered_set<int, 20, H<3, 2>>>(20, 18); }
void set_string() { set_in_place<estd::layer1::unordered_set<S8, 12, HashMod<S8, 3, 0>>>(12, 12); }
void set_mixed() { set_in_place<estd::layer1::unordered_set<int, 9, HashMix<int>>>(9, 14); }
}
