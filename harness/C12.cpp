// BUILD: -DFREERTOS -I$R/src -I$V/fake/freertos -I$V/harness
// EXTRA: $V/fake/freertos/kernel.cpp
#include <estd/thread.h>
#include <estd/port/freertos/timer.h>
#include "rtos.h"
#include <type_traits>
#include <string>
#include <deque>

namespace {
using namespace estd;
typedef chrono::freertos_clock Clock; typedef Clock::duration Ticks;
typedef unsigned long long ull;
const unsigned MS = 1000 / configTICK_RATE_HZ;
// f with n ticks, given in ticks or in milliseconds
template <class F> auto in_some_unit(TickType_t n, F f)
{
    if(n == portMAX_DELAY) return f(freertos::internal::wait_duration(freertos::max_delay()));
    switch(sim::choose(3)) { case 0: if(n < 4000000) return f(freertos::internal::wait_duration(chrono::milliseconds(n * MS))); [[fallthrough]]; case 1: if(n && n < 4000000) return f(freertos::internal::wait_duration(chrono::milliseconds((n - 1) * MS + 1))); [[fallthrough]]; default: return f(freertos::internal::wait_duration(Ticks(n))); }
}
struct Any { virtual ~Any() {} virtual freertos::internal::timer& t() = 0; };
template <bool S> struct Impl : Any { freertos::timer<S> tm; template <class... A> explicit Impl(A... a) : tm(a...) {} freertos::internal::timer& t() override { return tm; } };

// ---- one driver below the timer service: everything happens at once and is known exactly
struct World; struct Slot;
struct Cell { World* w; unsigned i; };
enum Kind { START, STOP, RESET, PERIOD, DESTROY, PEND };
struct Pending { Kind k; unsigned i; TickType_t val; uint64_t at; unsigned number; };
struct Slot
{
    std::unique_ptr<Any> a; bool alive = false, active = false, reload = false, is_static = false; TickType_t period = 0; uint64_t expiry = 0; unsigned fired = 0; const char* name = nullptr; void* id = nullptr;
};
struct World
{
    static const unsigned N = 4;
    Slot s[N]; Cell cell[N][2]; std::deque<Pending> pend; uint64_t busy_end = 0; unsigned cap = 1, pend_ran = 0, pend_want = 0, actions = 0; bool slow = false;
    World() { for(unsigned i = 0; i < N; ++i) for(auto& c : cell[i]) c = Cell{ this, i }; }
    void apply(Kind k, unsigned i, TickType_t val, uint64_t at, uint64_t now)
    {
        Slot& x = s[i];
        switch(k)
        {
            case START: case RESET: x.active = true; x.expiry = at + x.period; break;
            case STOP: x.active = false; break;
            case PERIOD: x.period = val; x.active = true; x.expiry = now + val; break;
            case DESTROY: x.alive = x.active = false; break;
            case PEND: ++pend_want; break;
        }
    }
    // what the timer service has carried out of the commands given in callbacks
    void flush() { while(!pend.empty() && pend.front().number <= rtos::commands_put() - rtos::commands()) { Pending p = pend.front(); pend.pop_front(); apply(p.k, p.i, p.val, p.at, busy_end); } }
    void fired(TimerHandle_t h);
    void overdue(const char* what)
    {
        for(unsigned i = 0; i < N; ++i) if(s[i].alive && s[i].active) SIM_CHECK(s[i].expiry > rtos::now(), "not-fired", "after %s timer %u, due at %llu, has not fired at %llu", what, i, ull(s[i].expiry), ull(rtos::now()));
        SIM_CHECK(pend_ran == pend_want, "pended", "after %s %u deferred calls ran instead of %u", what, pend_ran, pend_want);
    }
    void in_callback(unsigned self);
};
void pended(void* p, uint32_t v) { World* w = static_cast<World*>(p); SIM_CHECK(v == 0xABCD0000u + 7, "pended", "a deferred call got %x", v); w->flush(); ++w->pend_ran; }
void on_timer(TimerHandle_t h)
{
    void* id = pvTimerGetTimerID(h); SIM_CHECK(id, "id", "a timer has lost its id"); Cell* c = static_cast<Cell*>(id);
    c->w->fired(h);
}
void World::fired(TimerHandle_t h)
{
    flush(); void* id = pvTimerGetTimerID(h); Cell* c = static_cast<Cell*>(id); Slot& x = s[c->i]; uint64_t now = rtos::now();
    sim::log("timer %u fires", c->i);
    SIM_CHECK(x.alive, "fired-destroyed", "the callback of timer %u ran after it was destroyed", c->i);
    SIM_CHECK(x.active, "fired-inactive", "the callback of timer %u ran although it is not active", c->i);
    SIM_CHECK(x.id == id, "id", "timer %u was called with another id", c->i);
    SIM_CHECK(now >= x.expiry, "early", "timer %u fired at %llu, due at %llu", c->i, ull(now), ull(x.expiry));
    SIM_CHECK(now == x.expiry || x.expiry <= busy_end, "late", "timer %u fired at %llu, due at %llu", c->i, ull(now), ull(x.expiry));
    if(now != x.expiry) SIM_PROBE("fired-late-behind-a-slow-callback");
    ++x.fired; if(x.reload) x.expiry += x.period; else x.active = false;
    if(slow && sim::chance(1, 4)) { SIM_FAULT("slow-callback"); rtos::busy(sim::range(1, 12)); }
    if(actions && sim::chance(1, 2)) { --actions; in_callback(c->i); }
    if(slow && sim::chance(1, 8)) rtos::busy(sim::range(1, 3));
    busy_end = rtos::now(); sim::nontrivial();
}
TickType_t some_period() { return sim::chance(1, 10) ? sim::range(100, 3000) : sim::range(1, 15); }
void World::in_callback(unsigned self)
{
    for(int n = sim::range(1, 3); n--;)
    {
        unsigned i = sim::chance(1, 2) ? self : sim::choose(N); Slot& x = s[i]; bool gone = !x.alive; for(auto& p : pend) if(p.k == DESTROY && p.i == i) gone = true;
        if(gone) continue;
        bool room = rtos::commands() < cap; Kind k = Kind(sim::choose(6)); TickType_t v = some_period(); BaseType_t r = pdFAIL; uint64_t at = rtos::now(); Ticks none(0);
        if(k == DESTROY) { if(x.is_static || !room) continue; x.a.reset(); r = pdPASS; SIM_PROBE("destroyed-in-callback"); }      // its storage has to outlive the callback, see the findings
        else switch(k)
        {
            case START: r = x.a->t().start(none); break; case STOP: r = x.a->t().stop(none); break; case RESET: r = x.a->t().reset(none); break;
            case PERIOD: r = in_some_unit(v, [&](auto d) { return x.a->t().period(d, none); }); break;
            default: r = freertos::internal::timer::pend_function_call(pended, this, 0xABCD0000u + 7, none); break;
        }
        sim::log("callback: command %d timer %u %ld", k, i, long(r));
        SIM_CHECK((r == pdPASS) == room, "command-result", "command %d from a callback reported %ld %s", k, long(r), room ? "with room in the queue" : "with the queue full");
        if(r == pdPASS) pend.push_back({ k, i, v, at, rtos::commands_put() });
        if(!n && sim::chance(1, 4) && slow) rtos::busy(1);
    }
}
void model()
{
    rtos::Config c = rt::config(); c.smp = false; c.tick_num = 0; c.preempt_num = 0; c.daemon_priority = 7; c.command_queue = 1 + sim::choose(5); rtos::boot(c); sim::step_limit(4000000);   // long periods, looked at tick by tick
    World w; w.cap = c.command_queue; w.slow = sim::chance(1, 4); w.actions = sim::chance(1, 2) ? sim::choose(12) : 0;
    rtos::spawn("driver", 1, [&]{
        static const char* names[] = { "one", "two", "three", "four" };
        for(int steps = sim::range(6, 40); steps--;)
        {
            w.flush();
            unsigned i = sim::choose(World::N); Slot& x = w.s[i]; char what[80] = ""; TickType_t n = sim::chance(1, 3) ? 0 : sim::chance(1, 4) ? portMAX_DELAY : sim::range(1, 9); BaseType_t r = pdPASS;
            if(!x.alive)
            {
                x.reload = sim::chance(1, 2); x.period = some_period(); x.is_static = sim::chance(1, 2); x.name = names[i]; x.id = &w.cell[i][0]; x.fired = 0; unsigned before = rtos::denied();
                if(!x.is_static && sim::chance(1, 6)) rtos::deny(1);
                sim::log("create %u %s %s period %u", i, x.is_static ? "static" : "dynamic", x.reload ? "reload" : "once", x.period);
                in_some_unit(x.period, [&](freertos::internal::wait_duration d) { if(x.is_static) x.a.reset(new Impl<true>(x.name, d, x.reload, x.id, on_timer)); else x.a.reset(new Impl<false>(x.name, d, x.reload, x.id, on_timer)); return 0; });
                rtos::deny(0); if(rtos::denied() != before) { x.a.reset(); continue; }       // no timer was made: it can only be destroyed
                x.alive = true; x.active = false; snprintf(what, sizeof what, "creation");
            }
            else switch(sim::choose(12))
            {
                case 0: case 1: sim::log("start %u", i); snprintf(what, sizeof what, "start"); w.apply(START, i, 0, rtos::now(), rtos::now()); r = in_some_unit(n, [&](auto d) { return x.a->t().start(d); }); break;
                case 2: sim::log("stop %u", i); snprintf(what, sizeof what, "stop"); w.apply(STOP, i, 0, 0, 0); r = in_some_unit(n, [&](auto d) { return x.a->t().stop(d); }); break;
                case 3: sim::log("reset %u", i); snprintf(what, sizeof what, "reset"); w.apply(RESET, i, 0, rtos::now(), rtos::now()); r = in_some_unit(n, [&](auto d) { return x.a->t().reset(d); }); break;
                case 4: { TickType_t p = some_period(); sim::log("period %u %u", i, p); snprintf(what, sizeof what, "a change of period"); w.apply(PERIOD, i, p, 0, rtos::now()); r = in_some_unit(p, [&](auto a) { return in_some_unit(n, [&](auto b) { return x.a->t().period(a, b); }); }); break; }
                case 5: snprintf(what, sizeof what, "destruction"); if(!sim::chance(1, 2)) break; { sim::log("destroy %u", i); size_t had = rtos::objects(); w.apply(DESTROY, i, 0, 0, 0); x.a.reset(); SIM_CHECK(rtos::objects() == had - 1, "kernel-object-leak", "destroying a timer deleted %zu kernel objects", had - rtos::objects()); } break;
                case 6:
                {
                    sim::log("interrupt"); snprintf(what, sizeof what, "an interrupt"); unsigned many = 1 + sim::choose(7), ok = 0; BaseType_t woken = pdFALSE;
                    rtos::interrupt([&]{
                        std::vector<Pending> done;
                        for(unsigned k = 0; k < many; ++k)
                        {
                            unsigned j = sim::choose(World::N); Slot& y = w.s[j]; if(!y.alive) continue;
                            Kind what = Kind(sim::choose(4)); BaseType_t r;
                            switch(what)
                            {
                                case START: r = y.a->t().native().start_from_isr(&woken); break;
                                case STOP: r = y.a->t().stop_from_isr(&woken); break;
                                case RESET: r = y.a->t().reset_from_isr(&woken); break;
                                default: what = PEND; r = freertos::wrapper::timer::pend_function_call_from_isr(pended, &w, 0xABCD0000u + 7, &woken); break;
                            }
                            sim::log("isr command %d timer %u %ld", what, j, long(r));
                            SIM_CHECK((r == pdPASS) == (ok < w.cap), "isr-result", "command %d from an interrupt reported %ld with %u of %u waiting", what, long(r), ok, w.cap);
                            if(r == pdPASS) { ++ok; done.push_back({ what, j, 0, rtos::now(), 0 }); }
                            if(ok == 1) SIM_CHECK(woken == pdTRUE, "isr-woken", "an interrupt was not told that it woke a task above the running one");
                        }
                        for(auto& p : done) w.apply(p.k, p.i, p.val, p.at, rtos::now());
                    });
                    break;
                }
                case 7:
                {
                    snprintf(what, sizeof what, "a deferred call"); w.apply(PEND, 0, 0, 0, 0);
                    r = sim::chance(1, 2) ? in_some_unit(n, [&](auto d) { return freertos::internal::timer::pend_function_call(pended, &w, 0xABCD0000u + 7, d); }) : freertos::wrapper::timer::pend_function_call(pended, &w, 0xABCD0000u + 7, n); break;
                }
                case 9:
                {
                    // a timer which nothing owns is given up by hand
                    snprintf(what, sizeof what, "giving a timer up by hand"); size_t had = rtos::objects();
                    TimerHandle_t h = in_some_unit(some_period(), [&](auto d) { return TimerHandle_t(freertos::wrapper::timer::create("H", d.count(), true, &w.cell[i][0], on_timer)); });
                    if(!h) break;
                    freertos::internal::timer t{freertos::wrapper::timer(h)}; r = in_some_unit(n, [&](auto d) { return t.free(d); });
                    SIM_CHECK(rtos::objects() == had, "kernel-object-leak", "a timer given up by hand left %zd kernel objects", ssize_t(rtos::objects() - had)); SIM_PROBE("given-up-by-hand"); break;
                }
                case 8: { void* id = &w.cell[i][sim::choose(2)]; snprintf(what, sizeof what, "a change of id"); x.id = id; x.a->t().id(id); break; }
                default:
                {
                    unsigned k = sim::chance(1, 8) ? sim::range(100, 4000) : sim::range(1, 12); snprintf(what, sizeof what, "%u ticks", k); sim::log("%s", what);
                    if(sim::chance(1, 3) && k < 100) rtos::busy(k); else vTaskDelay(k); break;
                }
            }
            SIM_CHECK(r == pdPASS, "command-result", "%s reported %ld although the timer service takes commands at once", what, long(r));
            w.flush(); w.overdue(what);
            for(unsigned k = 0; k < World::N; ++k)
            {
                Slot& y = w.s[k]; if(!y.alive) continue;
                auto& t = y.a->t();
                SIM_CHECK(t.active() == y.active && t.dormant() == !y.active, "active", "after %s timer %u says it is %sactive", what, k, t.active() ? "" : "not ");
                SIM_CHECK(t.period() == Ticks(y.period), "period", "after %s timer %u has period %u instead of %u", what, k, unsigned(t.period().count()), y.period);
                SIM_CHECK(t.name() == y.name && t.id() == y.id, "id", "after %s timer %u has another name or id", what, k);
                if(y.active) SIM_CHECK(t.expiry().time_since_epoch().count() == TickType_t(y.expiry), "expiry", "after %s timer %u says it is due at %u instead of %u", what, k, unsigned(t.expiry().time_since_epoch().count()), TickType_t(y.expiry));
            }
            sim::state(sim::mix(w.s[0].active + 2 * w.s[1].active + 4 * w.s[2].active + 8 * w.s[0].alive, w.s[0].expiry - rtos::now()));
        }
        w.actions = 0; w.slow = false;
        for(auto& x : w.s) { x.alive = x.active = false; x.a.reset(); }
        SIM_CHECK(rtos::objects() == 0, "kernel-object-leak", "destroyed timers left %zu kernel objects", rtos::objects());
        vTaskDelay(5000); w.overdue("the end");
    });
    rtos::run();
}
// ---- any schedule: timers of several tasks, with a timer service of any priority
struct Owned
{
    alignas(freertos::timer<true>) unsigned char raw[sizeof(freertos::timer<true>) + 64]; bool is_static = false, reload = false; freertos::internal::timer* t = nullptr;
    TickType_t period = 0; uint64_t fires = 0; unsigned ran = 0, slow = 6;
    bool quiet = false;
    uint64_t g(uint64_t from, uint64_t to) const { if(to < from) return 0; uint64_t n = (to - from) / period; return reload ? n : n ? 1 : 0; }
};
void owned_fired(TimerHandle_t h)
{
    Owned* o = static_cast<Owned*>(pvTimerGetTimerID(h)); ++o->fires; sim::log("fires @%llu", ull(rtos::now()));
    SIM_CHECK(!o->quiet, "fired-inactive", "the callback of a timer which is not active ran");
    if(o->slow && sim::chance(1, 6)) { --o->slow; SIM_FAULT("slow-callback"); rtos::busy(sim::range(1, 3)); } sim::nontrivial();
}
void mark(void* p, uint32_t v) { Owned* o = static_cast<Owned*>(p); SIM_CHECK(v == o->ran + 1, "pended", "deferred call %u ran after %u", v, o->ran); o->ran = v; }
void idle() { do vTaskDelay(1); while(!rtos::service_idle()); }
void any_schedule()
{
    rtos::Config c = rt::config(); c.daemon_priority = 1 + sim::choose(7); c.command_queue = 1 + sim::choose(4); rtos::boot(c);
    // the timer service must be able to keep up although its own calls take time
    const unsigned shortest = !c.tick_num ? 3 : c.tick_den < 8 ? 20 : 10;
    unsigned n = sim::range(1, 3); std::vector<std::unique_ptr<Owned>> own; for(unsigned i = 0; i < n; ++i) own.emplace_back(new Owned);
    for(unsigned i = 0; i < n; ++i) rtos::spawn(("T" + std::to_string(i)).c_str(), rt::prio(), [&, i]{
        Owned& o = *own[i]; o.is_static = sim::chance(1, 2); o.reload = sim::chance(1, 2); o.period = sim::range(shortest, 40); o.quiet = true;
        if(o.is_static) o.t = new(o.raw) freertos::timer<true>("S", Ticks(o.period), o.reload, &o, owned_fired); else o.t = new(o.raw) freertos::timer<false>("D", Ticks(o.period), o.reload, &o, owned_fired);
        unsigned marks = 0; bool running = false; uint64_t lo = 0, hi = 0;        // started at some time from lo to hi
        for(int steps = sim::range(2, 10); steps--;)
        {
            unsigned op = sim::choose(5); TickType_t wait = sim::chance(1, 3) ? 0 : sim::chance(1, 3) ? portMAX_DELAY : sim::range(1, 6), p = o.period; BaseType_t r = pdFAIL; const char* how = "";
            unsigned mine = rtos::commands_by_me(), puts = rtos::commands_put(); bool room = rtos::commands() < c.command_queue; o.quiet = false;
            uint64_t t0 = rtos::now(); uint64_t fires0 = o.fires; rt::Timed timed; bool flood = sim::chance(1, 4);
            switch(op)
            {
                case 0: how = "start"; r = in_some_unit(wait, [&](auto d) { return o.t->start(d); }); break;
                case 1: how = "reset"; r = in_some_unit(wait, [&](auto d) { return o.t->reset(d); }); break;
                case 2: how = "stop"; r = in_some_unit(wait, [&](auto d) { return o.t->stop(d); }); break;
                case 3: how = "a change of period"; p = sim::range(shortest, 40); r = in_some_unit(wait, [&](auto d) { return o.t->period(Ticks(p), d); }); break;
                default: how = "a deferred call"; r = freertos::internal::timer::pend_function_call(mark, &o, marks + 1, wait == portMAX_DELAY ? Ticks(100000000) : Ticks(wait)); if(r == pdPASS) ++marks; break;
            }
            uint64_t t1 = rtos::now(); unsigned accepted = rtos::commands_by_me() - mine;
            sim::log("%s %ld", how, long(r));
            SIM_CHECK((r == pdPASS) == (accepted == 1) && accepted < 2, "command-result", "%s reported %ld but %u commands were queued", how, long(r), accepted);
            if(r != pdPASS)
            {
                timed.gave_up(wait, how); SIM_PROBE("command-refused");
                SIM_CHECK(!(room && rtos::commands_put() == puts), "refused-room", "%s failed although there was room in the command queue all the time", how);
                SIM_CHECK(wait != portMAX_DELAY, "gave-up-early", "%s gave up a wait without end", how);
            }
            if(flood && r == pdPASS) { BaseType_t f = freertos::internal::timer::pend_function_call(mark, &o, marks + 1, Ticks(0)); if(f == pdPASS) ++marks; }
            idle(); uint64_t ti = rtos::now(); SIM_CHECK(o.ran == marks, "pended", "%u deferred calls ran instead of %u", o.ran, marks);
            // between t0 and ti either the old order of things or the new one held
            if(r == pdPASS && op < 4)
            {
                uint64_t most = (running ? o.g(lo, ti) - std::min(o.g(lo, ti), o.g(hi, t0)) : 0) + 1; (void)fires0;
                if(op == 2) { SIM_CHECK(o.fires - fires0 <= most, "fired-twice", "a timer of period %u fired %llu times in %llu ticks around its being stopped", o.period, ull(o.fires - fires0), ull(ti - t0)); running = false; }
                else { o.period = p; running = true; lo = t0; hi = op == 3 ? ti : t1; SIM_CHECK(o.fires - fires0 >= o.g(hi, ti), "not-fired", "a timer of period %u did not fire in %llu ticks", o.period, ull(ti - hi)); }
            }
            else if(running) SIM_CHECK(o.fires - fires0 <= o.g(lo, ti) - o.g(hi, t0), "fired-twice", "a timer of period %u fired %llu times in %llu ticks", o.period, ull(o.fires - fires0), ull(ti - t0));
            else SIM_CHECK(o.fires == fires0, "fired-inactive", "a timer fired which is not active");
            o.quiet = !running;
            // and now only the new one
            uint64_t f1 = o.fires; unsigned k = sim::range(1, 40); if(sim::chance(1, 2)) vTaskDelay(k); else rtos::busy(k);
            idle(); uint64_t t2 = rtos::now(), f2 = o.fires - f1;
            if(running)
            {
                uint64_t least = o.g(hi, t2) - std::min(o.g(hi, t2), o.g(lo, ti)), most = o.g(lo, t2) - std::min(o.g(lo, t2), o.g(hi, ti));
                SIM_CHECK(f2 >= least, "not-fired", "a timer of period %u fired %llu times instead of %llu in the ticks from %llu to %llu after its start", o.period, ull(f2), ull(least), ull(ti - lo), ull(t2 - lo));
                SIM_CHECK(f2 <= most, "fired-twice", "a timer of period %u fired %llu times instead of %llu in the ticks from %llu to %llu after its start", o.period, ull(f2), ull(most), ull(ti - lo), ull(t2 - lo));
            }
            sim::state(sim::mix(o.period, f2 * 4 + running * 2 + o.reload));
        }
    });
    rtos::run();
    rtos::spawn("last", 1, [&]{
        for(auto& o : own) { o->quiet = false; if(o->is_static) static_cast<freertos::timer<true>*>(o->t)->~timer(); else static_cast<freertos::timer<false>*>(o->t)->~timer(); }
        idle(); for(auto& o : own) o->quiet = true;
        vTaskDelay(50); SIM_CHECK(rtos::objects() == 0, "kernel-object-leak", "destroyed timers left %zu kernel objects", rtos::objects()); });
    rtos::run();
}
// ---- made, started and destroyed by several tasks, below a timer service which is never held up; storage is gone at once
struct Brief { bool dead = false; bool active = false; unsigned fires = 0; };
void brief_fired(TimerHandle_t h) { Brief* b = static_cast<Brief*>(pvTimerGetTimerID(h)); SIM_CHECK(!b->dead, "fired-destroyed", "a callback ran after its timer was destroyed"); SIM_CHECK(b->active, "fired-inactive", "a timer which was not started fired"); ++b->fires; sim::nontrivial(); }
template <bool S> void one_life(std::vector<std::unique_ptr<Brief>>& all)
{
    all.emplace_back(new Brief); Brief& b = *all.back(); typedef freertos::timer<S> T;
    {
    rt::Heap<T> t("t", Ticks(sim::range(1, 6)), sim::chance(2, 3), &b, brief_fired);
    for(int k = sim::range(0, 4); k--;)
    {
        switch(sim::choose(4)) { case 0: b.active = true; t->start(Ticks(5)); break; case 1: b.active = true; t->reset(Ticks(0)); break; case 2: b.active = true; t->period(Ticks(sim::range(1, 6)), Ticks(1)); break; default: t->stop(Ticks(9)); b.active = false; break; }
        switch(sim::choose(3)) { case 0: break; case 1: rtos::busy(sim::range(1, 9)); break; default: vTaskDelay(sim::range(1, 12)); }
    }
    if constexpr(std::is_copy_constructible<T>::value) { T copy(*t); copy.stop(Ticks(0)); }
    sim::log("destroy"); b.active = true;
    }
    b.dead = true;
}
void lives()
{
    std::vector<std::unique_ptr<Brief>> all; unsigned fires = sim::choose(10);
    auto isr = [&]() -> bool { if(!fires) return false; --fires; for(int k = sim::range(1, 6); k--;) { BaseType_t w = pdFALSE; freertos::wrapper::timer::pend_function_call_from_isr([](void*, uint32_t){}, nullptr, 0, &w); } return true; };
    rtos::Config c = rt::config(sim::chance(1, 2) ? std::function<bool()>(isr) : nullptr); c.smp = false; c.daemon_priority = 7; c.command_queue = 1 + sim::choose(4); rtos::boot(c);
    unsigned n = sim::range(1, 3);
    for(unsigned i = 0; i < n; ++i) rtos::spawn(("T" + std::to_string(i)).c_str(), rt::prio(), [&]{ for(int k = sim::range(1, 5); k--;) { if(sim::chance(1, 2)) one_life<false>(all); else one_life<true>(all); if(sim::chance(1, 2)) vTaskDelay(sim::range(1, 5)); } });
    rtos::run(); rtos::settle(100);
    SIM_CHECK(rtos::objects() == 0, "kernel-object-leak", "destroyed timers left %zu kernel objects", rtos::objects());
}
// ---- listed findings
void destroyed_above_service()
{
    rtos::Config c; c.daemon_priority = 1; c.tick_num = 0; rtos::boot(c);
    static Brief b; b = Brief(); b.active = true;
    rtos::spawn("owner", 3, []{
        { freertos::timer<false> t("t", Ticks(2), true, &b, [](TimerHandle_t h) { brief_fired(h); rtos::busy(2); }); t.start(Ticks(0)); vTaskDelay(1); rtos::busy(sim::range(5, 12)); vTaskDelay(1); }
        b.dead = true; vTaskDelay(20); });
    rtos::run(); rtos::settle(20); sim::nontrivial();
}
void storage_after_destruction()
{
    rtos::Config c; c.daemon_priority = 1; c.tick_num = 0; rtos::boot(c);
    static Brief b; b = Brief(); b.active = true;
    rtos::spawn("owner", 3, []{
        alignas(freertos::timer<true>) unsigned char raw[sizeof(freertos::timer<true>)]; auto* t = new(raw) freertos::timer<true>("t", Ticks(2), true, &b, brief_fired);
        t->start(Ticks(0)); t->~timer(); for(auto& x : raw) x = 0xDD; vTaskDelay(sim::range(1, 5)); });
    rtos::run(); rtos::settle(20); sim::nontrivial();
}
void never_deleted()
{
    rtos::Config c; c.daemon_priority = 1; c.tick_num = 0; c.command_queue = 2; rtos::boot(c);
    static Brief b; b = Brief();
    rtos::spawn("owner", 3, []{
        { freertos::timer<false> t("t", Ticks(2), true, &b, brief_fired); for(int i = 0; i < 3; ++i) freertos::internal::timer::pend_function_call([](void*, uint32_t){}, nullptr, 0, Ticks(0)); }
        vTaskDelay(20); });
    rtos::spawn("busy", 2, []{ rtos::busy(sim::range(20, 30)); });
    rtos::run(); rtos::settle(20); sim::nontrivial();
    SIM_CHECK(rtos::objects() == 0, "never-deleted", "a destroyed timer still exists in the kernel");
}
}
const sim::Scenario scen[] = {
    { "model", model, 6 }, { "any-schedule", any_schedule, 4 }, { "lives", lives, 3 },
    { "destroyed-above-service", destroyed_above_service, 0 }, { "storage-after-destruction", storage_after_destruction, 0 }, { "never-deleted", never_deleted, 0 },
};
const sim::Harness sim::harness = { "C12",
    "Below the timer service every callback must come at exactly the tick a model of each timer's state gives (later only behind a slow callback), none may be missing, and state, period, expiry, id and name equal the model's; in free schedules the number of callbacks lies within what the start times allow, an inactive timer never fires, a command's result equals whether the service's queue took it, having waited no longer than asked and never in spite of room; destroyed timers never fire, their kernel object is deleted exactly once and their storage is not touched.",
    "static and dynamic timers, their wrappers, deferred calls",
    "FreeRTOS kernel (simulated: timer service, command queue, ticks, interrupts)",
    "when timers are destroyed the timer service is idle or of higher priority (otherwise: listed findings)|callbacks do not block",
    40000, 2000000, scen, sizeof scen / sizeof *scen, nullptr };
