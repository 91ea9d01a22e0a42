// BUILD: -DARDUINO=10800 -I$R/src -I$V/fake/arduino -I$V/harness
// Sleeping on the Arduino port: a simulated delay() and millis().
#include <sim.h>
#define estd estd_arduino
#include <estd/thread.h>
#include <estd/chrono.h>
#include "sleeps.h"

namespace { uint64_t now_ms; }
unsigned long millis() { return (unsigned long)now_ms; }
void delay(unsigned long ms) { now_ms += ms; sim::advance_time(ms * 1000); }
void yield() {}
namespace { struct Board
{
    static __int128 now() { return __int128(now_ms) * 1000000; }
    static const char* name() { return "arduino"; }
    static __int128 least() { return 0; }
    static __int128 slack() { return 1000000; }
    static __int128 most() { return __int128(4294967295u) * 1000000; }
    template <class D> static void sleep(D d)
    {
        auto a = estd::chrono::arduino_clock::now(); uint64_t b = now_ms; estd::this_thread::sleep_for(d); auto e = estd::chrono::arduino_clock::now();
        SIM_CHECK((uint64_t)a.time_since_epoch().count() == b && (uint64_t)e.time_since_epoch().count() == now_ms, "clock", "the clock does not show millis()");
    }
}; }
void c10_arduino() { now_ms = sim::choose(2) ? sim::choose(1000000) : 4294967295u - sim::choose(5000); sleeps::some<Board>(); }
