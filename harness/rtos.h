// Shared by the checks which run on the simulated FreeRTOS kernel
#pragma once
#include <sim.h>
#include <kernel.h>
#include <memory>
#include <vector>
#include <functional>
#include <new>

namespace rt {
// what a run looks like: how many cores, when the tick counter wraps, how often tasks are pre-empted
inline rtos::Config config(std::function<bool()> isr = nullptr)
{
    rtos::Config c;
    c.smp = sim::chance(1, 3);
    if(c.smp) SIM_PROBE("several-cores");
    switch(sim::choose(5))
    {
        case 0: c.start_tick = 0xffffffffull - sim::range(0, 40); SIM_FAULT("tick-counter-wrap"); break;
        case 1: c.start_tick = 0x7fffffffull - sim::range(0, 40); break;
        case 2: c.start_tick = 0x300000000ull + sim::range(0, 1000000); break;
        case 3: c.start_tick = sim::range(1, 100000); break;
    }
    static const unsigned den[] = { 4, 8, 20, 60 };
    c.tick_num = sim::chance(1, 6) ? 0 : 1; c.tick_den = den[sim::choose(4)];
    c.preempt_num = sim::chance(1, 8) ? 0 : 1; c.preempt_den = 2 + sim::choose(5);
    c.isr = isr; c.isr_budget = isr ? sim::choose(12) : 0;
    return c;
}
inline unsigned prio() { return 1 + sim::choose(4); }
// pass a long time: waits without a limit must outlast it
inline void long_pause() { static const uint32_t t[] = { 300, 2000, 70000, 5000000, 3000000000u }; SIM_FAULT("stalled-task"); vTaskDelay(t[sim::choose(5)]); }
// when a timed wait of n ticks may give up: made just before the call
struct Timed
{
    uint64_t called = rtos::now(), blocked0 = rtos::blocked_at(), slips = rtos::slips(), waits = rtos::waited();
    void gave_up(uint64_t n, const char* how)
    {
        uint64_t now = rtos::now(), blocked = rtos::blocked_at(); bool waited = blocked != blocked0;
        SIM_CHECK(now - called >= n, "gave-up-early", "%s of %llu ticks gave up after %llu", how, (unsigned long long)n, (unsigned long long)(now - called));
        if(!n) SIM_CHECK(!waited, "late", "%s without a wait waited", how);
        if(!waited) return;
        uint64_t woke = rtos::ready_at();
        SIM_CHECK(woke - blocked <= n, "late", "%s of %llu ticks ended %llu after it began to wait", how, (unsigned long long)n, (unsigned long long)(woke - blocked));
        SIM_CHECK(rtos::waited() - waits <= n, "late", "%s of %llu ticks waited %llu in all", how, (unsigned long long)n, (unsigned long long)(rtos::waited() - waits));
        if(slips == rtos::slips()) SIM_CHECK(woke - called <= n, "late", "%s of %llu ticks ended %llu after the call", how, (unsigned long long)n, (unsigned long long)(woke - called));
    }
};
// storage which is exactly as big as T, freed when it goes
template <class T> struct Heap
{
    T* p = nullptr;
    template <class... A> explicit Heap(A&&... a) { p = new T(std::forward<A>(a)...); }
    Heap(const Heap&) = delete;
    ~Heap() { delete p; }
    T* operator->() { return p; } T& operator*() { return *p; }
};
}
