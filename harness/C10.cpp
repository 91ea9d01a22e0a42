// BUILD: -DFREERTOS -I$R/src -I$V/fake/freertos -I$V/harness
// EXTRA: $V/fake/freertos/kernel.cpp
#include <estd/mutex.h>
#include <estd/semaphore.h>
#include <estd/thread.h>
#include <estd/port/freertos/queue.h>
#include <estd/port/freertos/event_groups.h>
#include "rtos.h"
#include <cmath>
#include <limits>
#include <cinttypes>

void c10_host(); void c10_arduino(); void c10_pico();
namespace {
using namespace estd;
typedef chrono::freertos_clock Clock;
const uint64_t HZ = configTICK_RATE_HZ, TICK_US = 1000000 / HZ;

// user clocks on the same ticks: one counting microseconds from an epoch of its own, one counting whole ticks in 64 bits, one in floating point
struct MicroClock { typedef chrono::microseconds duration; typedef duration::rep rep; typedef duration::period period; typedef chrono::time_point<MicroClock> time_point;
    static const bool is_steady = true; static time_point now() { rtos::point(); return time_point(duration(rep(rtos::now() * TICK_US) - 777000000)); } };
struct LongClock { typedef chrono::duration<int64_t, ratio<1, HZ>> duration; typedef duration::rep rep; typedef duration::period period; typedef chrono::time_point<LongClock> time_point;
    static const bool is_steady = true; static time_point now() { rtos::point(); return time_point(duration(rep(rtos::now()))); } };

// the exact ticks of a duration as the harness reckons them (128-bit), rounded up
template <class Rep, class Period> __int128 exact_ticks(Rep count, chrono::duration<Rep, Period>)
{
    __int128 n = __int128(count) * Period::num * HZ, d = Period::den;
    return n >= 0 ? (n + d - 1) / d : -((-n) / d);
}
struct Wait { uint64_t called, wraps; unsigned takes; uint64_t slips; };
uint64_t lower, upper_ticks; bool bounded;

struct World
{
    freertos::timed_mutex<true> mutex; freertos::counting_semaphore<3, true> sem; freertos::queue<int, true> full, empty; freertos::event_group<true> events;
    int store[4];
    World() : sem(0), full(store, 2), empty(store + 2, 2) {}
};
struct Outcome { bool sleep, ok; const char* how; };
// one timed wait of duration d; false outcomes are waits that gave up
template <class D> Outcome wait_for(World& w, D d, unsigned kind)
{
    switch(kind)
    {
        case 0: this_thread::sleep_for(d); return { true, false, "sleep_for" };
        case 1: return { false, w.mutex.try_lock_for(d), "try_lock_for" };
        case 2: { unique_lock<freertos::timed_mutex<true>> l(w.mutex, d); bool ok = l.owns_lock(); l.release(); return { false, ok, "unique_lock(duration)" }; }
        case 3: { unique_lock<freertos::timed_mutex<true>> l(w.mutex, defer_lock_t()); bool ok = l.try_lock_for(d); l.release(); return { false, ok, "unique_lock::try_lock_for" }; }
        case 4: return { false, w.sem.try_acquire_for(d), "try_acquire_for" };
        case 5: return { false, w.full.send(9, d), "send" };
        case 6: { int v; return { false, w.empty.receive(&v, d), "receive" }; }
        case 7: return { false, (w.events.wait_bits(5, false, true, d) & 5) == 5, "wait_bits" };
        default: return { false, (w.events.sync(1, 7, d) & 7) == 7, "sync" };
    }
}
const unsigned FOR_KINDS = 9;
template <class T> Outcome wait_until(World& w, T t, unsigned kind)
{
    switch(kind)
    {
        case 0: this_thread::sleep_until(t); return { true, false, "sleep_until" };
        case 1: return { false, w.mutex.try_lock_until(t), "try_lock_until" };
        case 2: { unique_lock<freertos::timed_mutex<true>> l(w.mutex, t); bool ok = l.owns_lock(); l.release(); return { false, ok, "unique_lock(time_point)" }; }
        case 3: { unique_lock<freertos::timed_mutex<true>> l(w.mutex, defer_lock_t()); bool ok = l.try_lock_until(t); l.release(); return { false, ok, "unique_lock::try_lock_until" }; }
        default: return { false, w.sem.try_acquire_until(t), "try_acquire_until" };
    }
}
const unsigned UNTIL_KINDS = 5;

// the resource the wait is for is not available, unless 'available'; then it has to succeed at once however short the wait
bool available, prepared, contended; uint64_t given_at, given_done, waits0; // when another task began to make it available and when it had done so, or never; how long the waiter had waited before the call
const uint64_t NEVER = ~uint64_t(0);
void give(World& w, unsigned kind, bool until)
{
    if(until) { if(kind >= 1 && kind <= 3) w.mutex.unlock(); else if(kind >= 4) w.sem.release(); return; }
    switch(kind) { case 0: break; case 1: case 2: case 3: w.mutex.unlock(); break; case 4: w.sem.release(); break; case 5: { int v; w.full.receive(&v); break; } case 6: w.empty.send(3); break; case 7: w.events.set_bits(5); break; default: w.events.set_bits(6); break; }
}
void check(const Outcome& o, uint64_t called, uint64_t slips, __int128 need, __int128 latest_extra, uint64_t blocked0)
{
    uint64_t now = rtos::now(), blocked = rtos::blocked_at() != blocked0 ? rtos::blocked_at() : called, woke = rtos::blocked_at() != blocked0 ? rtos::ready_at() : called;
    bool waited = rtos::blocked_at() != blocked0;
    sim::log("%s %s after %" PRIu64 " of %lld ticks", o.how, o.sleep ? "woke" : o.ok ? "succeeded" : "gave up", now - called, (long long)need);
    if(o.sleep || !o.ok)
        SIM_CHECK(__int128(now - called) >= need, o.sleep ? "woke-early" : "gave-up-early", "%s %s after %" PRIu64 " ticks; its wait is %lld ticks", o.how, o.sleep ? "woke" : "gave up", now - called, (long long)need);
    if(need <= 0 && !o.sleep) { SIM_CHECK(!waited, "past-due-waits", "%s waited although its time had passed", o.how); SIM_PROBE("past-due"); }
    if(need <= 0 && o.sleep) SIM_CHECK(!waited, "past-due-sleeps", "%s slept although its time had passed", o.how);
    // late: other than what pre-emption added before the wait began, at most a tick
    if(waited && (o.sleep || !o.ok)) SIM_CHECK(__int128(woke - blocked) <= (need > 0 ? need : 0) + latest_extra, "late", "%s ended %" PRIu64 " ticks after it began to wait; its wait is %lld ticks", o.how, woke - blocked, (long long)need);
    if(slips == rtos::slips() && (o.sleep || !o.ok)) SIM_CHECK(__int128(woke - called) <= (need > 0 ? need : 0) + latest_extra + 1, "late", "%s ended %" PRIu64 " ticks after the call; its wait is %lld ticks", o.how, woke - called, (long long)need);
    // however often it had to begin again
    SIM_CHECK(__int128(rtos::waited() - waits0) <= (need > 0 ? need : 0) + latest_extra, "late", "%s waited %" PRIu64 " ticks in all; its wait is %lld ticks", o.how, rtos::waited() - waits0, (long long)need);
    if(!o.sleep && !o.ok) SIM_CHECK(!available, "refused-available", "%s gave up although there was no need to wait", o.how);
    if(given_done != NEVER && !o.sleep && !o.ok) SIM_CHECK(given_done >= called + uint64_t(need > 0 ? need : 0), "missed", "%s gave up at %" PRIu64 " although what it waited for came at %" PRIu64 ", in time", o.how, now - called, given_done - called);
    if(o.ok && given_at == NEVER) SIM_CHECK(available || contended, "success-from-nothing", "%s succeeded but there was nothing to get", o.how);
    if(waited && ((called ^ now) >> 32)) SIM_PROBE("wrapped-during-wait");
    if(waited && uint32_t(called) < 0x80000000u && uint32_t(now) >= 0x80000000u) SIM_PROBE("half-way-during-wait");
    sim::state(sim::mix(uint64_t(need > 1000 ? 1000 + (need > 100000) : need < -1 ? -1 : need), uint64_t(o.ok) * 4 + o.sleep * 2 + waited));
}
template <class D> D pick_duration()
{
    typedef typename D::rep R;
    double unit_ticks = double(D::period::num) * HZ / D::period::den;     // ticks in one unit
    const double cap = 2000000000.0;                                       // well within what ticks can count
    double ticks = 0;
    switch(sim::choose(9))
    {
        case 0: return D(R(0));
        case 1: if(std::is_signed<R>::value) { double t = double(sim::range(1, sim::chance(1, 2) ? 50 : 1000000)); double c = t / unit_ticks; if(c > 2e9 && sizeof(R) < 8) c = 2e9; if(!std::is_floating_point<R>::value) c = std::ceil(c); return D(R(-c)); } return D(R(0));
        case 2: ticks = double(sim::range(1, 100)) / 100.0; break;         // less than a tick
        case 3: case 4: ticks = double(sim::range(1, 12)); break;
        case 5: ticks = double(sim::range(100, 1500)) / 100.0; break;      // not a whole number of them
        case 6: ticks = double(sim::range(1000, 1000000)); break;
        case 7: ticks = double(sim::range(1, 2000)) * 1000000.0; break;
        default: return D(R(sim::range(1, 3)));
    }
    if(ticks > cap) ticks = cap;
    double c = ticks / unit_ticks;
    const double most = std::is_floating_point<R>::value ? 1e15 : sizeof(R) == 8 ? 9e18 : std::is_signed<R>::value ? double((uint64_t(1) << (8 * sizeof(R) - 1)) - 1) : double((uint64_t(1) << (8 * sizeof(R))) - 1);
    if(c > most) c = most;
    if(!std::is_floating_point<R>::value) { if(c < 1) c = 1; c = sim::chance(1, 2) ? std::floor(c) : std::floor(c) + (c + 1 < most && unit_ticks < 1 ? double(sim::choose(2)) : 0); }
    D d = D(R(c));
    if(double(d.count()) * unit_ticks > 4200000000.0) d = D(R(1));
    return d;
}
// floating point: a few units in the last place either way are not judged
template <class D> __int128 ticks_of(D d, int side = -1)
{
    if constexpr(std::is_floating_point<typename D::rep>::value)
    {
        long double t = (long double)d.count() * D::period::num * HZ / D::period::den;
        long double eps = std::fabs(t) * 8 * std::numeric_limits<typename D::rep>::epsilon() + 1e-9L;
        return __int128(std::ceil(t + side * eps));
    }
    else return exact_ticks(d.count(), d);
}
template <class D> __int128 slack_of(D d) { return ticks_of(d, 1) - ticks_of(d, -1); }

// sets the scene: what is waited for is missing, there at once, or comes later from another task
struct Scene { std::unique_ptr<World> w; unsigned kind; bool until; uint64_t delay = NEVER; bool high; };
void set_scene(Scene& s)
{
    rtos::Config c = rt::config(); rtos::boot(c);
    s.w.reset(new World); available = prepared = contended = false; given_at = given_done = NEVER;
}
void helper(Scene& s, uint64_t need_hint)
{
    available = sim::chance(1, 5) && !(s.kind == 0);
    bool later = !available && sim::chance(1, 3) && s.kind != 0;
    World* w = s.w.get(); const bool mutex = s.kind >= 1 && s.kind <= 3;
    // now and then what is waited for is there for a moment, and mostly taken by someone else
    if(!available && !later && s.kind && (mutex || (s.until ? s.kind >= 4 : s.kind <= 6)) && sim::chance(1, 2))
    {
        contended = true; bool until = s.until; unsigned kind = s.kind, times = sim::range(1, 12), nap = uint32_t(std::min<uint64_t>(need_hint, 1000000)) / times + 2;
        if(!mutex && !until && kind == 5) rtos::spawn("filler", 7, [w]{ w->full.send(1); w->full.send(2); prepared = true; });
        rtos::spawn("rival", 7 - sim::choose(5), [=]{
            if(mutex) { w->mutex.lock(); prepared = true; } else if(until || kind != 5) prepared = true; else while(!prepared) vTaskDelay(1);
            for(unsigned i = 0; i < times; ++i)
            {
                vTaskDelay(sim::range(1, nap)); int v;
                if(mutex) { w->mutex.unlock(); if(sim::chance(1, 3)) taskYIELD(); w->mutex.lock(); }
                else if(until || kind == 4) { w->sem.release(); if(sim::chance(1, 3)) taskYIELD(); w->sem.acquire(); }
                else if(kind == 5) { w->full.receive(&v); if(sim::chance(1, 3)) taskYIELD(); w->full.send(7); }
                else { w->empty.send(7); if(sim::chance(1, 3)) taskYIELD(); w->empty.receive(&v); }
                SIM_FAULT("snatched-away");
            }
            if(mutex) vTaskSuspend(nullptr);
        });
        return;
    }
    if(s.until ? s.kind >= 1 && s.kind <= 3 : s.kind >= 1 && s.kind <= 3)     // a mutex is given by the task that holds it
    {
        if(available) { prepared = true; return; }
        if(!later) { rtos::spawn("holder", 7, [w]{ w->mutex.lock(); prepared = true; vTaskSuspend(nullptr); }); return; }
        uint64_t d = sim::chance(1, 2) ? sim::range(1, 20) : 1 + sim::choose(uint32_t(std::min<uint64_t>(2 * need_hint + 2, 3000000000u)));
        rtos::spawn("holder", 7, [w, d]{ w->mutex.lock(); prepared = true; vTaskDelay(TickType_t(d)); given_at = rtos::now(); w->mutex.unlock(); given_done = rtos::now(); });
        return;
    }
    bool until = s.until; unsigned kind = s.kind;
    if(available) { if(until ? kind >= 4 : kind == 4 || kind >= 6) rtos::spawn("giver", 7, [w, kind, until]{ give(*w, kind, until); prepared = true; }); else prepared = true; return; }
    if(!until && kind == 5) rtos::spawn("filler", 7, [w]{ w->full.send(1); w->full.send(2); prepared = true; }); else prepared = true;
    if(later)
    {
        uint64_t d = sim::chance(1, 2) ? sim::range(1, 20) : 1 + sim::choose(uint32_t(std::min<uint64_t>(2 * need_hint + 2, 3000000000u)));
        rtos::spawn("giver", 6, [w, d, kind, until]{ while(!prepared) vTaskDelay(1); vTaskDelay(TickType_t(d)); given_at = rtos::now(); give(*w, kind, until); given_done = rtos::now(); });
    }
}
template <class D> void relative()
{
    Scene s; set_scene(s); s.until = false; s.kind = sim::choose(FOR_KINDS);
    D d = pick_duration<D>(); __int128 need = ticks_of(d);
    rtos::Config dummy; (void)dummy;
    helper(s, need > 0 ? uint64_t(need) : 0);
    rtos::spawn("waiter", 3, [&]{
        do vTaskDelay(1); while(!prepared);      // after whoever prepares
        uint64_t b0 = rtos::blocked_at(), slips = rtos::slips(), called = rtos::now(); waits0 = rtos::waited();
        if(given_at != NEVER) { sim::log("too late to wait"); return; }
        Outcome o = wait_for(*s.w, d, s.kind);
        check(o, called, slips, need, slack_of(d), b0); sim::nontrivial();
        if(o.ok && s.kind >= 1 && s.kind <= 3) s.w->mutex.unlock();
    });
    rtos::on_deadlock([]{}); rtos::run();
    s.w.release();   // a holder may still have it
}
template <class Clk, class D> void absolute()
{
    Scene s; set_scene(s); s.until = true; s.kind = sim::choose(UNTIL_KINDS);
    D d = pick_duration<D>();
    if(ticks_of(d) > 2000000000) d = D(typename D::rep(1));
    helper(s, ticks_of(d) > 0 ? uint64_t(ticks_of(d)) : 0);
    rtos::spawn("waiter", 3, [&]{
        do vTaskDelay(1); while(!prepared);
        if(given_at != NEVER) { sim::log("too late to wait"); return; }
        // deadline by the clock itself: 'need' is what is left of it when the call is made
        typedef chrono::time_point<Clk, D> P;
        uint64_t base = rtos::now(); __int128 due;
        P t = P(D(0));
        if constexpr(std::is_same<Clk, Clock>::value)
        {
            // the counter shows the low 32 bits; coarser and finer units start from there
            __int128 unit_num = __int128(D::period::num) * HZ, unit_den = D::period::den;
            __int128 shown = uint32_t(base), c = shown * unit_den / unit_num;      // whole units, rounded down
            __int128 sum = c + __int128(d.count());
            if(!std::is_signed<typename D::rep>::value) sum = c + __int128(typename D::rep(d.count()));
            typename D::rep rep = typename D::rep(sum);
            t = P(D(rep));
            __int128 dist = (sum * unit_num + (sum >= 0 ? unit_den - 1 : 0)) / unit_den - shown;
            due = __int128(base) + dist;
        }
        else
        {
            auto now = Clk::now(); (void)now; base = rtos::now();
            auto exact = typename Clk::time_point(now);
            // in the clock's own finer unit
            t = P(D(exact.time_since_epoch()) + d);
            __int128 epoch = std::is_same<Clk, MicroClock>::value ? 777000000 : 0;
            __int128 us_num = __int128(t.time_since_epoch().count()) * D::period::num * 1000000, us = us_num >= 0 ? (us_num + D::period::den - 1) / D::period::den : -((-us_num) / __int128(D::period::den));
            __int128 total = us + epoch; due = total >= 0 ? (total + TICK_US - 1) / TICK_US : -((-total) / __int128(TICK_US));
        }
        uint64_t b0 = rtos::blocked_at(), slips = rtos::slips(), called = rtos::now(); waits0 = rtos::waited();
        if(given_at != NEVER) { sim::log("too late to wait"); return; }
        Outcome o = wait_until(*s.w, t, s.kind);
        __int128 need = due - __int128(called);
        check(o, called, slips, need, __int128(rtos::blocked_at() != b0 ? 1 : 0), b0); sim::nontrivial();
        if(o.ok && s.kind >= 1 && s.kind <= 3) s.w->mutex.unlock();
    });
    rtos::on_deadlock([]{}); rtos::run();
    s.w.release();
}
// for ever means for ever, and so does what is too long to count
void endless()
{
    Scene s; set_scene(s); s.until = false; s.kind = 1 + sim::choose(FOR_KINDS - 1);
    World* w = s.w.get(); unsigned kind = s.kind, form = sim::choose(9); uint64_t after = uint64_t(sim::range(1, 4000000)) * 1000;  // up to 4 * 10^9 ticks
    rtos::spawn("holder", 7, [=]{
        if(kind <= 3) w->mutex.lock();
        if(kind == 5) { w->full.send(1); w->full.send(2); }
        prepared = true;
        for(uint64_t left = after * (form == 2 ? 1 : 2); left; ) { uint64_t n = std::min<uint64_t>(left, 2000000000u); vTaskDelay(TickType_t(n)); left -= n; }
        given_at = rtos::now(); give(*w, kind, false);
    });
    rtos::spawn("waiter", 3, [=]{
        do vTaskDelay(1); while(!prepared);
        Outcome o; static const int64_t huge[] = { INT64_MAX, INT64_MAX / 2, INT64_MAX / 7, (int64_t(1) << 62) + 1, int64_t(1) << 58, int64_t(1) << 55 };
        switch(form)
        {
            case 0: o = wait_for(*w, freertos::max_delay(), kind); break;
            case 1: o = wait_for(*w, chrono::hours(24 * 365 * 10), kind); break;
            case 2: o = wait_for(*w, chrono::seconds(42949672), kind); break;      // the longest that can be counted
            case 3: o = wait_for(*w, chrono::duration<double>(1e12), kind); break;
            // what overflows when reckoned in ticks
            case 4: o = wait_for(*w, chrono::duration<int64_t, ratio<3600>>(sim::pick(huge)), kind); break;
            case 5: o = wait_for(*w, chrono::duration<int64_t>(sim::pick(huge)), kind); break;
            case 6: o = wait_for(*w, chrono::duration<uint64_t, ratio<86400>>(~uint64_t(0) - sim::choose(3)), kind); break;
            case 7: o = wait_for(*w, chrono::duration<int64_t, milli>(sim::pick(huge)), kind); break;
            default: o = wait_for(*w, chrono::duration<double>(1e300), kind); break;
        }
        SIM_CHECK(o.ok && given_at != NEVER, "gave-up-early", "%s gave up a wait without end", o.how); sim::nontrivial(); SIM_PROBE("endless");
        if(o.ok && kind <= 3) w->mutex.unlock();
    });
    rtos::run(); s.w.release();
}
// the steady clock shows the ticks and never goes back between two wraps
void clock_shows_ticks()
{
    rtos::boot(rt::config());
    rtos::spawn("reader", 2, []{
        for(int n = 20; n--;)
        {
            uint64_t a = rtos::now(); auto t = Clock::now(); uint64_t b = rtos::now(); uint32_t shown = t.time_since_epoch().count();
            SIM_CHECK(uint32_t(shown - uint32_t(a)) <= uint32_t(b - a), "clock", "the clock shows %u between ticks %u and %u", shown, uint32_t(a), uint32_t(b));
            if(sim::chance(1, 2)) vTaskDelay(sim::range(1, 1000)); sim::nontrivial();
        } });
    rtos::run();
}
typedef chrono::duration<int64_t, ratio<1, 3>> thirds; typedef chrono::duration<uint16_t, milli> short_ms; typedef chrono::duration<int32_t, micro> us32; typedef chrono::duration<uint32_t, ratio<1, 1024>> binary_ms;
typedef chrono::duration<double> fsec; typedef chrono::duration<float, milli> fms;
typedef chrono::duration<int64_t, ratio<1, 100>> ticks64;
// deadlines worked out from readings of the clock, in every mixture of units, against exact arithmetic
template <class D> __int128 nanos(const D& d) { return (__int128)d.count() * D::period::num * 1000000000 / D::period::den; }
template <class A, class B> void mixed()
{
    typedef chrono::time_point<Clock, A> TA; typedef chrono::time_point<Clock, B> TB;
    auto len = [](auto unit) { typedef decltype(unit) D; __int128 per = (__int128)1000000000 * D::period::num / D::period::den; int64_t most = int64_t((__int128)2000000000000 / per); int64_t n = sim::chance(1, 4) ? int64_t(sim::choose(4)) : int64_t(sim::choose(uint32_t(most > 1000000000 ? 1000000000 : most) + 1)); return D(sim::chance(1, 3) ? -n : n); };
    A a = len(A(0)), c = len(A(0)); B b = len(B(0)); if(sim::chance(1, 4)) { b = B(A(0)); if(sim::chance(1, 2)) a = A(chrono::seconds(sim::choose(5))), b = B(chrono::seconds(sim::choose(5))); }
    __int128 na = nanos(a), nb = nanos(b), nc = nanos(c);
#define SAME(what, x, y) SIM_CHECK(nanos(x) == (y), "arithmetic", "%s of %lld and %lld nanoseconds is %lld", what, (long long)na, (long long)nb, (long long)nanos(x))
#define SAYS(what, x, y) SIM_CHECK((x) == (y), "arithmetic", "%lld nanoseconds %s %lld: %d", (long long)na, what, (long long)nb, int(x))
    SAME("the sum", a + b, na + nb); SAME("the difference", a - b, na - nb); SAME("the difference", b - a, nb - na);
    SAYS("<", a < b, na < nb); SAYS(">", a > b, na > nb); SAYS("<=", a <= b, na <= nb); SAYS(">=", a >= b, na >= nb); SAYS("==", a == b, na == nb); SAYS("!=", a != b, na != nb);
    int k = int(sim::choose(9)) - 4; SAME("the multiple", a * k, na * k); A m = a; m *= k; SAME("the multiple", m, na * k); SAME("the negative", -a, -na); SAME("the same", +a, na);
    m = a; m += c; SIM_CHECK(nanos(m) == na + nc, "arithmetic", "adding on"); m = a; m -= c; SIM_CHECK(nanos(m) == na - nc, "arithmetic", "taking away");
    // moments
    TA ta(a), tc(c); TB tb(b); auto at = [](auto t) { return nanos(t.time_since_epoch()); };
    SAME("the time between", ta - tb, na - nb); SAYS("is before", ta < tb, na < nb); SAYS("is after", ta > tb, na > nb); SAYS("is not before", ta >= tb, na >= nb); SAYS("is the same moment as", ta == tb, na == nb); SAYS("is another moment than", ta != tb, na != nb);
    SIM_CHECK(at(ta + c) == na + nc && at(ta - c) == na - nc, "arithmetic", "a moment moved by %lld nanoseconds", (long long)nc);
    TA u = ta; u += c; SIM_CHECK(at(u) == na + nc, "arithmetic", "a moment moved ahead"); u -= c; u -= c; SIM_CHECK(at(u) == na - nc, "arithmetic", "a moment moved back");
    // from unit to unit, also by way of the standard library's own durations
    __int128 per = nanos(A(1));
    if(nb % per == 0)
    {
        SIM_CHECK(nanos(A(b)) == nb, "arithmetic", "%lld nanoseconds in another unit are %lld", (long long)nb, (long long)nanos(A(b)));
        TA moved(tb); SIM_CHECK(at(moved) == nb, "arithmetic", "the moment %lld in another unit is %lld", (long long)nb, (long long)at(moved));
        A given(std::chrono::duration<int64_t, std::ratio<B::period::num, B::period::den>>(b.count())); SIM_CHECK(nanos(given) == nb, "arithmetic", "%lld nanoseconds of the standard library are %lld", (long long)nb, (long long)nanos(given));
    }
    std::chrono::duration<int64_t, std::ratio<A::period::num, A::period::den>> std_a = a; SIM_CHECK(std_a.count() == a.count(), "arithmetic", "%lld units are %lld of the standard library's", (long long)a.count(), (long long)std_a.count());
    SIM_CHECK(A::zero().count() == 0 && A::min() <= a && a <= A::max() && A::min().count() < A::max().count(), "arithmetic", "the range of lengths of time does not hold %lld", (long long)a.count());
    (void)tc;
}
typedef chrono::duration<int64_t, nano> ns64; typedef chrono::duration<int64_t, micro> us64; typedef chrono::duration<int64_t, milli> ms64; typedef chrono::duration<int64_t> s64; typedef chrono::duration<int64_t, ratio<60>> min64; typedef chrono::duration<int64_t, ratio<1, 100>> cs64;
void deadline_arithmetic()
{
    rtos::boot(rt::config());
    rtos::spawn("planner", 2, []{
        for(int n = 24; n--;)
        {
            switch(sim::choose(9))
            {
                case 0: mixed<ns64, ms64>(); break; case 1: mixed<us64, s64>(); break; case 2: mixed<ms64, us64>(); break; case 3: mixed<cs64, ms64>(); break; case 4: mixed<ms64, min64>(); break;
                case 5: mixed<s64, s64>(); break; case 6: mixed<cs64, ns64>(); break; case 7: mixed<min64, us64>(); break; default: mixed<ms64, cs64>(); break;
            }
            // the next deadline, from a reading
            auto now = Clock::now(); Clock::duration d(sim::range(1, 50)); auto due = now + d; vTaskDelay(sim::choose(60)); auto later = Clock::now();
            if(later.time_since_epoch().count() >= now.time_since_epoch().count() && due.time_since_epoch().count() > now.time_since_epoch().count()) { auto gone = later - now; SIM_CHECK((later >= due) == (gone.count() >= d.count()), "arithmetic", "%u ticks on, a deadline of %u ticks %s", unsigned(gone.count()), unsigned(d.count()), later >= due ? "has passed" : "has not passed"); }
            sim::nontrivial(); sim::state(sim::mix(d.count(), later.time_since_epoch().count() - now.time_since_epoch().count()));
        } });
    rtos::run();
}
}
const sim::Scenario scen[] = {
    { "ticks", relative<Clock::duration>, 2 }, { "ms", relative<chrono::milliseconds>, 3 }, { "us", relative<chrono::microseconds>, 3 }, { "ns", relative<chrono::nanoseconds>, 2 }, { "s", relative<chrono::seconds>, 2 },
    { "minutes", relative<chrono::minutes>, 1 }, { "hours", relative<chrono::hours>, 1 }, { "thirds", relative<thirds>, 1 }, { "short-ms", relative<short_ms>, 1 }, { "us32", relative<us32>, 1 }, { "binary-ms", relative<binary_ms>, 1 }, { "float-s", relative<fsec>, 1 }, { "float-ms", relative<fms>, 1 },
    { "until-ticks", absolute<Clock, Clock::duration>, 4 }, { "until-ticks64", absolute<Clock, ticks64>, 2 }, { "until-ms", absolute<Clock, chrono::milliseconds>, 2 }, { "until-us", absolute<Clock, chrono::microseconds>, 1 }, { "until-s", absolute<Clock, chrono::seconds>, 1 },
    { "until-micro", absolute<MicroClock, chrono::microseconds>, 2 }, { "until-long", absolute<LongClock, LongClock::duration>, 2 },
    { "endless", endless, 1 }, { "clock", clock_shows_ticks, 1 }, { "deadline-arithmetic", deadline_arithmetic, 1 }, { "host", c10_host, 1 }, { "arduino", c10_arduino, 1 }, { "pico", c10_pico, 1 },
};
const sim::Harness sim::harness = { "C10",
    "Every timed wait is compared with its duration or deadline reckoned exactly: a sleep or a wait that gives up has lasted at least as long and, apart from time lost to pre-emption before it began, no more than a tick longer; past-due waits do not block; a wait for something that is there, or comes in time, succeeds; waits without end do not end without success. Sleeps on the desktop, Arduino and Pico ports are compared in the same way with their own simulated clocks.",
    "sleep_for, sleep_until, timed_mutex, unique_lock, counting_semaphore, queue and event group waits, freertos_clock, duration and time_point conversions; sleeping in the std, Arduino and Pico ports and arduino_clock, pico_clock",
    "FreeRTOS kernel (simulated ticks, wrap of the 32-bit tick counter, pre-emption), user-defined clocks, nanosleep (interrupted, late), delay/millis, sleep_us/sleep_until",
    "time is what the tick counter shows|deadlines lie within half the range of the tick counter|sleeps are at most 2^32-1 ticks|on the desktop parts of a nanosecond are lost in the C++ library",
    60000, 3000000, scen, sizeof scen / sizeof *scen, nullptr };
