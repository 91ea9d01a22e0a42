// BUILD: -I$R/src -I$V/fake/pico -I$V/harness
// Sleeping on the Raspberry Pi Pico port: a simulated microsecond counter.
#include <sim.h>
#define estd estd_pico
#include <estd/port/rpi/pico/chrono.h>

namespace { uint64_t now_us; void pass(uint64_t us) { now_us += us; sim::advance_time(us); if(sim::chance(1, 3)) { SIM_FAULT("late"); ++now_us; } } }
uint64_t time_us_64() { return now_us; }
void sleep_us(uint64_t us) { pass(us); }
void sleep_until(absolute_time_t t) { if(t > now_us) pass(t - now_us); }
namespace
{
typedef estd::chrono::experimental::pico_clock Clock;
void judge(const char* how, uint64_t a, uint64_t need)
{
    uint64_t took = now_us - a; sim::log("pico: %s of %llu us took %llu", how, (unsigned long long)need, (unsigned long long)took); sim::nontrivial(); sim::state(sim::mix(need, how[5]));
    SIM_CHECK(took >= need, "woke-early", "pico: a %s of %llu us ended after %llu", how, (unsigned long long)need, (unsigned long long)took);
    SIM_CHECK(took <= need + 1, "woke-late", "pico: a %s of %llu us ended after %llu", how, (unsigned long long)need, (unsigned long long)took);
}
template <class D> void one(uint64_t unit_us)
{
    uint64_t count = sim::chance(1, 5) ? sim::choose(3) : sim::chance(1, 2) ? sim::choose(5000) : sim::choose(4000000);
    if(unit_us >= 60000000) count %= 100000;
    if(sim::chance(1, 2)) { uint64_t a = now_us; estd::this_core::sleep_for(D(count)); judge("sleep", a, count * unit_us); return; }
    // a deadline in whole units, now and then one that has passed
    uint64_t a = now_us, due = (a / unit_us + 1 + count) * unit_us; if(sim::chance(1, 4)) due = a / unit_us * unit_us;
    auto t = Clock::now(); SIM_CHECK(uint64_t(t.time_since_epoch().count()) == a, "clock", "the clock does not show the counter");
    estd::this_core::sleep_until(estd::chrono::time_point<Clock, D>(D(due / unit_us))); judge("sleep until a deadline", a, due > a ? due - a : 0);
}
}
void c10_pico()
{
    using namespace estd::chrono;
    now_us = sim::chance(1, 2) ? sim::choose(1000000) : (1ull << 32) - sim::choose(5000000);
    for(int k = sim::range(1, 6); k--;)
        switch(sim::choose(4)) { case 0: one<microseconds>(1); break; case 1: one<milliseconds>(1000); break; case 2: one<seconds>(1000000); break; default: one<minutes>(60000000); break; }
}
