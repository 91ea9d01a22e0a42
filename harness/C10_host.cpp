// BUILD: -I$R/src -I$V/harness
// Sleeping where the C++ library does the waiting: std::this_thread over a simulated nanosleep.
// The library is built here under another name, as its RTOS build is in the same program.
#include <sim.h>
#include <thread>
#include <chrono>
#include <cerrno>
#include <time.h>
#define estd estd_host
#include <estd/thread.h>
#include "sleeps.h"

namespace { __int128 now_ns; unsigned calls; }
extern "C" int nanosleep(const struct timespec* want, struct timespec* rest)
{
    SIM_CHECK(want->tv_sec >= 0 && want->tv_nsec >= 0 && want->tv_nsec < 1000000000, "host-sleep", "nanosleep(%lld, %ld)", (long long)want->tv_sec, want->tv_nsec);
    __int128 ns = __int128(want->tv_sec) * 1000000000 + want->tv_nsec; ++calls;
    if(ns > 1 && calls < 20 && sim::chance(1, 4))
    {
        SIM_FAULT("interrupted"); __int128 part = ns / (1 + sim::choose(5)) / 2, left = ns - part; now_ns += part;
        if(rest) { rest->tv_sec = (time_t)(left / 1000000000); rest->tv_nsec = (long)(left % 1000000000); }
        errno = EINTR; return -1;
    }
    now_ns += ns; if(sim::chance(1, 3)) { SIM_FAULT("late"); now_ns += 1000; }
    sim::advance_time((uint64_t)(ns / 1000)); return 0;
}
namespace { struct Host
{
    static __int128 now() { return now_ns; }
    static const char* name() { return "host"; }
    static __int128 least() { return 1; }   // the C++ library itself drops parts of a nanosecond
    static __int128 slack() { return 2000; }
    template <class D> static void sleep(D d) { estd::this_thread::sleep_for(d); }
    static __int128 most() { return __int128(1) << 60; }
}; }
void c10_host() { now_ns = 0; calls = 0; sleeps::some<Host>(); }
