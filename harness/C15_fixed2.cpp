// see C15.h
#include "C15.h"
using namespace c15;
void fixed_b(unsigned k)
{
    switch(k) { case 0: l1<32, true>(); break; case 1: l1<33, false>(); break; case 2: l3<false>(); break; }
}
