// see C15.h
#include "C15.h"
using namespace c15;
void moving_b(bool z)
{
    if(z) moving_string<Sized<char>, true>("a moving terminated string (sized)"); else moving_string<Sized<char>, false>("a moving string (sized)");
}
