// see C15.h
#include "C15.h"
using namespace c15;
void fixed_c(unsigned k)
{
    switch(k) { case 0: l1<255, true>(); break; case 1: l1<300, true>(); break; case 2: l2<8>(); break; case 3: l2<64>(); break; }
}
