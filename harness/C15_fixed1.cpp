// see C15.h
#include "C15.h"
using namespace c15;
void fixed_a(unsigned k)
{
    switch(k) { case 0: l1<8, true>(); break; case 1: l1<8, false>(); break; case 2: l3<true>(); break; }
}
