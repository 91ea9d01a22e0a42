// BUILD: -DFREERTOS -I$R/src -I$V/fake/freertos -I$V/harness
// EXTRA: $V/fake/freertos/kernel.cpp
#include <estd/semaphore.h>
#include <estd/thread.h>
#include "rtos.h"
#include <type_traits>

namespace {
using namespace estd;
typedef chrono::freertos_clock Clock;

template <class S> struct Box
{
    S s; unsigned initial;
    long acquired = 0, released = 0, refused = 0; unsigned wanted = 0;
    template <class... A> explicit Box(unsigned initial, A... a) : s(a...), initial(initial) {}
    SemaphoreHandle_t h() const { return s.native_handle(); }
};
template <class S> void balance(Box<S>& b, const char* when)
{
    long n = long(b.initial) + b.released - b.acquired;
    SIM_CHECK(n >= 0 && n <= long(S::max()), "permits-range", "%s: initial %u + released %ld - acquired %ld is %ld of %u", when, b.initial, b.released, b.acquired, n, S::max());
    SIM_CHECK(n == long(rtos::count(b.h())), "permits", "%s: the semaphore has %u permits, but initial %u + released %ld - acquired %ld is %ld", when, rtos::count(b.h()), b.initial, b.released, b.acquired, n);
}
// what one call did, as seen by the kernel for the calling context
template <class S> struct Call
{
    Box<S>& b; rtos::Tally was; bool had; unsigned takes;
    explicit Call(Box<S>& b) : b(b), was(rtos::tally(b.h())), had(rtos::count(b.h()) > 0), takes(rtos::takes(b.h())) {}
    void acquired(bool ok, const char* how)
    {
        rtos::Tally& t = rtos::tally(b.h());
        SIM_CHECK(t.took - was.took == (ok ? 1u : 0u), "acquire-result", "%s reported %s but took %u permits", how, ok ? "success" : "failure", t.took - was.took);
        SIM_CHECK(t.gave == was.gave, "acquire-gave", "%s released permits", how);
        if(!ok) SIM_CHECK(!(had && rtos::takes(b.h()) == takes), "refused-available", "%s failed although a permit was there all the time", how);
        if(ok) SIM_PROBE("acquired"); else SIM_PROBE("acquire-refused");
        sim::log("%s %s", how, ok ? "ok" : "no");
    }
    void released(const char* how, int told = -1)
    {
        rtos::Tally& t = rtos::tally(b.h()); unsigned g = t.gave - was.gave, r = t.refused - was.refused;
        SIM_CHECK(t.took == was.took, "release-took", "%s took permits", how);
        SIM_CHECK(g + r == 1, "release-count", "%s released %u permits (and %u that did not fit)", how, g, r);
        if(told >= 0) SIM_CHECK(unsigned(told) == g, "release-result", "%s reported %d but released %u", how, told, g);
        if(r) SIM_PROBE("release-when-full");
        sim::log("%s%s", how, g ? "" : " (full)");
    }
};
// the model counts are taken from results, but the moment a permit changes hands is the kernel's: so sums are compared when nobody is in a call
template <class D> D some_wait() { return D(typename D::rep(sim::chance(1, 4) ? 0 : sim::range(1, 60))); }
template <class S> bool acquire(Box<S>& b, bool may_wait)
{
    Call<S> c(b); bool ok; const char* how;
    switch(sim::choose(may_wait ? 5 : 4))
    {
        case 0: { how = "try_acquire"; const uint64_t w = rtos::waited(); ok = b.s.try_acquire(); SIM_CHECK(rtos::waited() == w, "waits", "try_acquire made its task wait"); break; }
        case 1: how = "try_acquire_for"; ok = b.s.try_acquire_for(some_wait<chrono::milliseconds>()); break;
        case 2: how = "try_acquire_for"; ok = b.s.try_acquire_for(some_wait<Clock::duration>()); break;
        case 3: how = "try_acquire_until"; ok = b.s.try_acquire_until(Clock::now() + some_wait<Clock::duration>()); break;
        default: how = "acquire"; ++b.wanted; b.s.acquire(); --b.wanted; ok = true; break;
    }
    c.acquired(ok, how);
    if(ok) ++b.acquired;
    return ok;
}
template <class S> void release(Box<S>& b)
{
    Call<S> c(b); unsigned g = rtos::tally(b.h()).gave;
    b.s.release();
    c.released("release");
    if(rtos::tally(b.h()).gave != g) ++b.released; else ++b.refused;
}
template <class S> void from_isr(Box<S>& b)
{
    Call<S> c(b); auto n = b.s.native_handle(); BaseType_t woken = pdFALSE;
    if(sim::chance(2, 3))
    {
        bool ok = n.give_from_isr(&woken) == pdTRUE;
        c.released("give_from_isr", ok); if(ok) ++b.released;
        SIM_CHECK((woken == pdTRUE) == rtos::woke_higher(), "isr-woken", "an interrupt was %stold that it woke a task above the running one", woken ? "" : "not ");
    }
    else { bool ok = n.take_from_isr(&woken) == pdTRUE; c.acquired(ok, "take_from_isr"); if(ok) ++b.acquired; }
}
template <class S> void around(bool brief = false)
{
    switch(sim::choose(4)) { case 0: break; case 1: rtos::point(); break; case 2: rtos::busy(sim::range(1, 3)); break; default: vTaskDelay(sim::range(1, !brief && sim::chance(1, 8) ? 4000 : 5)); }
}
template <class S> void crowd_on(Box<S>& b, Box<S>*& isr_box)
{
    SIM_CHECK(rtos::capacity(b.h()) == S::max(), "maximum", "the kernel was told a maximum of %u, not %u", rtos::capacity(b.h()), S::max());
    SIM_CHECK(rtos::count(b.h()) == b.initial, "initial", "a new semaphore has %u permits, not %u", rtos::count(b.h()), b.initial);
    unsigned n = sim::range(1, 4), left = n;
    for(unsigned i = 0; i < n; ++i)
    {
        static const char* names[] = { "A", "B", "C", "D" };
        unsigned ops = sim::range(2, 8), bias = 1 + sim::choose(4);
        rtos::spawn(names[i], rt::prio(), [&, ops, bias]{
            for(unsigned k = 0; k < ops; ++k)
            {
                if(sim::chance(bias, 6)) release(b); else acquire(b, true);
                around<S>();
                sim::state(sim::mix(rtos::count(b.h()), b.wanted));
            }
            --left;
        });
    }
    // somebody goes on releasing until all have got what they waited for
    rtos::spawn("feeder", 1 + sim::choose(2), [&]{ while(left) { vTaskDelay(sim::range(1, 40)); if(b.wanted) release(b); } });
    rtos::run();
    balance(b, "when all is quiet");
    if(b.acquired) sim::nontrivial();
    isr_box = nullptr;
    // and the permits that are left are there to be taken
    rtos::spawn("last", 2, [&]{
        unsigned have = rtos::count(b.h());
        for(unsigned i = 0; i < have; ++i) { bool ok = b.s.try_acquire(); SIM_CHECK(ok, "refused-available", "try_acquire failed with %u permits left", have - i); ++b.acquired; }
        SIM_CHECK(!b.s.try_acquire(), "invented", "try_acquire succeeded on an empty semaphore");
        for(unsigned i = 0; i < S::max() + 2; ++i) { unsigned g = rtos::tally(b.h()).gave; b.s.release(); b.released += rtos::tally(b.h()).gave - g; SIM_CHECK(rtos::count(b.h()) == std::min(i + 1, S::max()), "permits", "after %u releases there are %u permits of %u", i + 1, rtos::count(b.h()), S::max()); }
    });
    rtos::run(); balance(b, "at the end");
}
template <class S, bool DESIRED> void crowd()
{
    Box<S>* isr_box = nullptr; unsigned fires = sim::choose(10);
    auto isr = [&]() -> bool { if(!isr_box || !fires) return isr_box && fires; --fires; from_isr(*isr_box); return true; };
    rtos::boot(rt::config(sim::chance(2, 3) ? std::function<bool()>(isr) : nullptr));
    // creation in a task, as real programs do
    std::unique_ptr<Box<S>> b;
    if constexpr(DESIRED) { if(sim::chance(1, 4)) b.reset(new Box<S>(0)); else { unsigned n = sim::choose(S::max() + 1); b.reset(new Box<S>(n, n)); } } else b.reset(new Box<S>(0));
    isr_box = b.get();
    crowd_on(*b, isr_box);
    isr_box = nullptr; b.reset();
    SIM_CHECK(rtos::objects() == 0, "kernel-object-leak", "a destroyed semaphore left %zu kernel objects", rtos::objects());
}
// producers and consumers: as many acquisitions as releases, nobody stays behind
template <class S> void flow()
{
    rtos::boot(rt::config());
    auto b = std::make_unique<Box<S>>(0u); unsigned items = sim::range(1, 10), prod = sim::range(1, 3), cons = sim::range(1, 3); long credit = 0;
    // 'credit' keeps the producers from releasing into a full semaphore
    for(unsigned i = 0; i < cons; ++i) rtos::spawn("consumer", rt::prio(), [&, i]{ for(unsigned k = i; k < items * prod; k += cons) { Call<S> c(*b); b->s.acquire(); c.acquired(true, "acquire"); ++b->acquired; --credit; around<S>(true); } });
    for(unsigned i = 0; i < prod; ++i) rtos::spawn("producer", rt::prio(), [&]{ for(unsigned k = 0; k < items; ++k) { while(credit >= long(S::max())) vTaskDelay(1); ++credit; Call<S> c(*b); b->s.release(); c.released("release"); ++b->released; around<S>(true); if(sim::chance(1, 16)) rt::long_pause(); } });
    rtos::run();
    SIM_CHECK(b->acquired == long(items * prod), "lost", "%u permits were released and %ld acquired", items * prod, b->acquired);
    balance(*b, "after the flow"); sim::nontrivial();
}
template <class S> void lifetime()
{
    rtos::boot(rt::config());
    rtos::spawn("A", 2, []{
        for(int n = sim::range(1, 4); n--;)
        {
            bool deny = sim::chance(1, 3); unsigned before = rtos::denied();
            if(deny) rtos::deny(1);
            {
                Box<S> b(0); rtos::deny(0); bool null = b.h() == nullptr;
                SIM_CHECK(null == (rtos::denied() != before), "creation", "the semaphore %s although the kernel %s", null ? "has no kernel object" : "has one", null ? "had memory" : "refused");
                if(!null)
                {
                    release(b); SIM_CHECK(acquire(b, false), "refused-available", "a fresh permit was refused");
                    if constexpr(std::is_copy_constructible<S>::value) { S copy(b.s); copy.release(); copy.try_acquire(); }
                    release(b); balance(b, "single task"); sim::nontrivial();
                }
            }
            SIM_CHECK(rtos::objects() == 0, "kernel-object-leak", "a destroyed semaphore left %zu kernel objects", rtos::objects());
        }
    });
    rtos::run();
}
template <unsigned m, bool s> using Cnt = freertos::counting_semaphore<m, s>; template <bool s> using Bin = freertos::binary_semaphore<s>;
}
const sim::Scenario scen[] = {
    { "binary", crowd<Bin<false>, false>, 2 }, { "binary-static", crowd<Bin<true>, false>, 2 },
    { "two", crowd<Cnt<2, false>, true>, 2 }, { "two-static", crowd<Cnt<2, true>, true>, 2 },
    { "three", crowd<Cnt<3, false>, true>, 1 }, { "five-static", crowd<Cnt<5, true>, true>, 1 }, { "many", crowd<Cnt<200, false>, true>, 1 }, { "more", crowd<Cnt<300, true>, true>, 1 },
    { "flow-binary", flow<Bin<false>>, 1 }, { "flow-binary-static", flow<Bin<true>>, 1 }, { "flow-two", flow<Cnt<2, false>>, 1 }, { "flow-three-static", flow<Cnt<3, true>>, 1 },
    { "flow-huge", flow<Cnt<70000, false>>, 1 }, { "life-huge", lifetime<Cnt<66000, true>>, 1 }, { "life-binary", lifetime<Bin<false>>, 1 }, { "life-binary-static", lifetime<Bin<true>>, 1 }, { "life-counting", lifetime<Cnt<4, false>>, 1 }, { "life-counting-static", lifetime<Cnt<4, true>>, 1 },
};
const sim::Harness sim::harness = { "C09",
    "After every call: an acquisition took exactly one permit when it reported success and none when it reported failure (never failing while a permit stayed available), a release added exactly one or found the semaphore full; when all is quiet the permits equal initial + effective releases - acquisitions and lie within the maximum, which is exactly as declared; untimed acquisitions all end with a permit while somebody releases; each kernel object is deleted exactly once.",
    "counting and binary semaphores (static and dynamic) and their kernel wrapper",
    "FreeRTOS kernel (simulated: tasks, priorities, semaphores, ticks, interrupts)",
    "the dynamic and static binary semaphores start without a permit, as documented by their constructors",
    40000, 2000000, scen, sizeof scen / sizeof *scen, nullptr };
