// see C15.h
#include "C15.h"
using namespace c15;
void vec_a() { vectors<int>(); }
void vec_b() { vectors<led::Val>(); }
