// see C15.h
#include "C15.h"
using namespace c15;
void large_vec() { if(sim::chance(1, 2)) large_vectors<int>(); else large_vectors<led::Val>(); }
void large_string()
{
    switch(sim::choose(20)) { case 0: l1<65535, true>(); break; case 1: l1<65536, true>(); break; case 2: l1<70000, false>(); break; case 3: l3<true>(true); break; case 4: l3<false>(true); break; default: l1<1000, true>(); break; case 5: case 6: case 7: case 8: l2<2000>(); break; }
}
