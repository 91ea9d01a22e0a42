// see C15.h
#include "C15.h"
using namespace c15;
void vec_c(unsigned k)
{
    switch(k) { case 0: vm<int, Handle<int>>(); break; case 1: vm<int, Sized<int>>(); break; case 2: vm<led::Val, Handle<led::Val>>(); break; case 3: vm<led::Val, Sized<led::Val>>(); break; }
}
