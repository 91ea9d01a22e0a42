// see C15.h
#include "C15.h"
using namespace c15;
void moving_a(bool z)
{
    if(z) moving_string<Handle<char>, true>("a moving terminated string"); else moving_string<Handle<char>, false>("a moving string");
}
