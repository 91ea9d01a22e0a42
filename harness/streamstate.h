// What a stream says about its state in its various ways must agree.
#pragma once
#include <sim.h>
template <class S> void state_agrees(const S& s)
{
    const unsigned st = s.rdstate();
    SIM_CHECK(s.good() == (st == 0) && s.bad() == !!(st & S::badbit) && s.eof() == !!(st & S::eofbit) && s.fail() == !!(st & (S::badbit | S::failbit)), "state-contradiction",
        "state %u reads good %d eof %d fail %d bad %d", st, int(s.good()), int(s.eof()), int(s.fail()), int(s.bad()));
    const bool usable = s ? true : false;
    SIM_CHECK(usable == !s.fail(), "state-contradiction", "state %u: fail says %d, the stream as a condition says %d", st, int(s.fail()), int(usable));
}
