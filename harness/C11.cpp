// BUILD: -DFREERTOS -I$R/src -I$V/fake/freertos -I$V/harness
// EXTRA: $V/fake/freertos/kernel.cpp
#include <estd/thread.h>
#include <estd/port/freertos/event_groups.h>
#include <estd/port/freertos/wrapper/task.h>
#include "rtos.h"
#include <type_traits>
#include <string>

namespace {
using namespace estd;
typedef chrono::freertos_clock Clock; typedef Clock::duration Ticks;
const uint64_t FOREVER = ~uint64_t(0);
typedef freertos::event_group<false> ED; typedef freertos::event_group<true> ES;
typedef freertos::wrapper::task Task;

EventBits_t some_bits(bool any_zero = false) { EventBits_t b = sim::chance(1, 5) ? 1u << sim::choose(24) : 1 + sim::choose(15); return any_zero && sim::chance(1, 8) ? 0 : b; }
template <class E> EventBits_t wait(E& e, EventBits_t want, bool clear, bool all, TickType_t n)
{
    return n == portMAX_DELAY ? e.wait_bits(want, clear, all, freertos::max_delay()) : e.wait_bits(want, clear, all, Ticks(n));
}
template <class E> EventBits_t sync(E& e, EventBits_t set, EventBits_t want, TickType_t n) { return n == portMAX_DELAY ? e.sync(set, want, freertos::max_delay()) : e.sync(set, want, Ticks(n)); }

// ---- one step at a time against a model: waiters above, a driver below which acts when all of them are settled
struct Req { EventBits_t want = 0, set = 0; bool clear = false, all = false, sync = false; TickType_t n = 0; };
struct Waiter { TaskHandle_t t = nullptr; Req r; bool ordered = false, returned = false; EventBits_t got = 0; uint64_t when = 0;    // real
                bool waiting = false; uint64_t deadline = FOREVER; EventBits_t expect = 0; bool expected = false; uint64_t expect_at = 0; };   // model
template <class E> struct Model
{
    std::unique_ptr<E> e; EventBits_t bits = 0; Waiter w[4]; unsigned n = 0; bool over = false;
    bool met(const Req& r, EventBits_t b) const { return r.all || r.sync ? (b & r.want) == r.want : (b & r.want) != 0; }
    void release(Waiter& x, EventBits_t got, uint64_t at) { x.waiting = false; x.expected = true; x.expect = got; x.expect_at = at; }
    void set(EventBits_t b)
    {
        bits |= b; EventBits_t clear = 0;
        for(unsigned i = 0; i < n; ++i) if(w[i].waiting && met(w[i].r, bits)) { release(w[i], bits, rtos::now()); if(w[i].r.clear || w[i].r.sync) clear |= w[i].r.want; }
        bits &= ~clear;
    }
    void begin(Waiter& x)
    {
        const Req& r = x.r; x.expected = false;
        if(r.sync)
        {
            EventBits_t orig = bits; set(r.set);
            if(((orig | r.set) & r.want) == r.want) { release(x, orig | r.set, rtos::now()); bits &= ~r.want; return; }
        }
        else if(met(r, bits)) { release(x, bits, rtos::now()); if(r.clear) bits &= ~r.want; return; }
        if(!r.n) { release(x, bits, rtos::now()); return; }
        x.waiting = true; x.deadline = r.n == portMAX_DELAY ? FOREVER : rtos::now() + r.n;
    }
    void check(const char* what)
    {
        for(unsigned i = 0; i < n; ++i)
        {
            Waiter& x = w[i];
            SIM_CHECK(!(x.expected && !x.returned), "wake-up-lost", "after %s waiter %u (want %x %s%s) did not return; it should with %x", what, i, x.r.want, x.r.all || x.r.sync ? "all" : "any", x.r.sync ? " rendezvous" : "", x.expect);
            SIM_CHECK(!(x.returned && !x.expected), "wake-up-invented", "after %s waiter %u (want %x %s) returned with %x; it should still wait", what, i, x.r.want, x.r.all || x.r.sync ? "all" : "any", x.got);
            if(x.returned)
            {
                SIM_CHECK(x.got == x.expect, "value", "after %s waiter %u (want %x) got %x instead of %x", what, i, x.r.want, x.got, x.expect);
                SIM_CHECK(x.when == x.expect_at, "wake-up-time", "after %s waiter %u returned at %llu instead of %llu", what, i, (unsigned long long)x.when, (unsigned long long)x.expect_at);
                x.returned = x.expected = false; x.ordered = false;
            }
        }
        SIM_CHECK(rtos::bits(*e) == bits, "bits", "after %s the flags are %x instead of %x", what, rtos::bits(*e), bits);
        sim::state(sim::mix(bits, w[0].waiting + 2 * w[1].waiting + 4 * w[2].waiting));
    }
};
template <class E> void flags_model()
{
    rtos::Config c = rt::config(); c.smp = false; c.tick_num = 0; c.preempt_num = 0; c.daemon_priority = 7; c.command_queue = 1 + sim::choose(4); rtos::boot(c);
    Model<E> m; m.n = sim::range(1, 4);
    rtos::spawn("driver", 1, [&]{
        m.e.reset(new E); SIM_CHECK(rtos::bits(*m.e) == 0, "bits", "a new event group has flags %x", rtos::bits(*m.e));
        for(unsigned i = 0; i < m.n; ++i)
        {
            Waiter& x = m.w[i];
            x.t = rtos::spawn(("W" + std::to_string(i)).c_str(), 3 + sim::choose(3), [&m, &x]{
                for(;;)
                {
                    vTaskSuspend(nullptr); if(m.over) return;
                    Req r = x.r; EventBits_t v = r.sync ? sync(*m.e, r.set, r.want, r.n) : wait(*m.e, r.want, r.clear, r.all, r.n);
                    sim::log("got %x", v); x.got = v; x.when = rtos::now(); x.returned = true;
                } });
        }
        rtos::point();
        for(int steps = sim::range(4, 24); steps--;)
        {
            char what[80];
            switch(sim::choose(7))
            {
                case 0: case 1:
                {
                    Waiter* x = nullptr; for(unsigned i = 0, s = sim::choose(m.n); i < m.n && !x; ++i) if(!m.w[(s + i) % m.n].ordered) x = &m.w[(s + i) % m.n];
                    if(!x) continue;
                    Req& r = x->r; r.sync = sim::chance(1, 4); r.want = some_bits(); r.set = some_bits(true); r.clear = sim::chance(1, 2); r.all = sim::chance(1, 2);
                    r.n = sim::chance(1, 6) ? 0 : sim::chance(1, 2) ? portMAX_DELAY : sim::range(1, 12);
                    snprintf(what, sizeof what, "a %s for %x", r.sync ? "rendezvous" : "wait", r.want);
                    sim::log("order %s %s%s ticks %u set %x", what, r.all ? "all " : "", r.clear ? "clear" : "", r.n, r.sync ? r.set : 0);
                    x->ordered = true; m.begin(*x); vTaskResume(x->t); break;
                }
                case 2: case 3: { EventBits_t b = some_bits(true); snprintf(what, sizeof what, "setting %x", b); sim::log("%s", what); m.set(b); m.e->set_bits(b); break; }
                case 4: { EventBits_t b = some_bits(true), was = m.bits; snprintf(what, sizeof what, "clearing %x", b); sim::log("%s", what); m.bits &= ~b; EventBits_t r = m.e->clear_bits(b); SIM_CHECK(r == was, "value", "clear_bits returned %x; the flags were %x", r, was); break; }
                case 5:
                {
                    unsigned many = 1 + sim::choose(6), ok = 0; snprintf(what, sizeof what, "an interrupt"); sim::log("interrupt x%u", many);
                    struct Late { bool set; EventBits_t b; }; Late late[6]; BaseType_t woken = pdFALSE;
                    rtos::interrupt([&]{ for(unsigned i = 0; i < many; ++i)
                    {
                        Late l{ sim::chance(2, 3), some_bits() }; BaseType_t r = l.set ? m.e->set_bits_from_isr(l.b, &woken) : m.e->clear_bits_from_isr(l.b);
                        SIM_CHECK((r == pdPASS) == (ok < c.command_queue), "isr-result", "request %u from an interrupt reported %ld; there is room for %u", i + 1, long(r), c.command_queue);
                        if(r == pdPASS) late[ok++] = l; else SIM_FAULT("command-queue-full");
                        if(r == pdPASS && ok == 1 && l.set) SIM_CHECK(woken == pdTRUE, "isr-woken", "an interrupt was not told that it woke a task above the running one");
                    }
                    // the timer service carries them out in order once the interrupt is over
                    for(unsigned i = 0; i < ok; ++i) { if(late[i].set) m.set(late[i].b); else m.bits &= ~late[i].b; } });
                    break;
                }
                default:
                {
                    unsigned n = sim::range(1, 6); snprintf(what, sizeof what, "%u ticks", n); uint64_t end = rtos::now() + n;
                    for(unsigned i = 0; i < m.n; ++i) if(m.w[i].waiting && m.w[i].deadline <= end) m.release(m.w[i], m.bits, m.w[i].deadline);
                    vTaskDelay(n); break;
                }
            }
            rtos::point(); m.check(what);
        }
        // let everyone go
        m.set(0xffffff); m.e->set_bits(0xffffff); rtos::point(); m.check("setting all flags"); m.over = true;
        for(unsigned i = 0; i < m.n; ++i) vTaskResume(m.w[i].t);
        rtos::point(); m.e.reset(); sim::nontrivial();
        SIM_CHECK(rtos::objects() == 0, "kernel-object-leak", "a destroyed event group left a kernel object");
    });
    rtos::run();
}
// ---- any schedule: rendezvous rounds, hand-shakes and time-outs
template <class E> void rendezvous()
{
    rtos::boot(rt::config());
    auto e = std::make_unique<E>(); unsigned n = sim::range(2, 4), rounds = sim::range(1, 6); EventBits_t all = (1u << n) - 1, other = sim::chance(1, 2) ? 0xff0000 : 0;
    if(other) e->set_bits(other);
    unsigned arrived[4] = {}, passed[4] = {};
    for(unsigned i = 0; i < n; ++i)
        rtos::spawn(("P" + std::to_string(i)).c_str(), rt::prio(), [&, i]{
            for(unsigned r = 1; r <= rounds; ++r)
            {
                if(sim::chance(1, 2)) vTaskDelay(sim::range(1, 5)); else rtos::busy(sim::choose(3));
                arrived[i] = r; sim::log("P%u arrives %u", i, r);
                EventBits_t v = e->sync(1u << i, all, freertos::max_delay());
                SIM_CHECK((v & all) == all, "rendezvous", "participant %u left round %u with flags %x", i, r, v);
                for(unsigned k = 0; k < n; ++k) SIM_CHECK(arrived[k] >= r, "rendezvous-early", "participant %u left round %u before participant %u arrived", i, r, k);
                SIM_CHECK((v & other) == other, "value", "other flags are missing: %x", v);
                passed[i] = r; sim::log("P%u leaves %u", i, r);
                // the next round cannot be entered by all before everyone left this one, so nobody is two ahead
                for(unsigned k = 0; k < n; ++k) SIM_CHECK(passed[k] + 1 >= passed[i], "rendezvous-early", "participant %u is two rounds ahead", i);
            } });
    rtos::run();
    for(unsigned i = 0; i < n; ++i) SIM_CHECK(passed[i] == rounds, "wake-up-lost", "participant %u passed %u rounds of %u", i, passed[i], rounds);
    SIM_CHECK(rtos::bits(*e) == other, "bits", "after the last round the flags are %x", rtos::bits(*e)); sim::nontrivial();
}
template <class E> void handshake()
{
    rtos::boot(rt::config());
    auto e = std::make_unique<E>(); unsigned rounds = sim::range(1, 8), n = sim::range(1, 3); unsigned asked[3] = {}, answered[3] = {};
    for(unsigned i = 0; i < n; ++i)
    {
        EventBits_t ask = 1u << i, ans = 0x100u << i;
        rtos::spawn("server", rt::prio(), [&, i, ask, ans]{ for(unsigned r = 0; r < rounds; ++r) { EventBits_t v = e->wait_bits(ask, true, sim::chance(1, 2), freertos::max_delay()); SIM_CHECK(v & ask, "value", "woken without its flag: %x", v); ++answered[i]; SIM_CHECK(answered[i] == asked[i], "wake-up-invented", "answer %u to question %u", answered[i], asked[i]); e->set_bits(ans); } });
        rtos::spawn("client", rt::prio(), [&, i, ask, ans]{
            for(unsigned r = 0; r < rounds; ++r)
            {
                if(sim::chance(1, 3)) vTaskDelay(sim::range(1, 4));
                ++asked[i]; e->set_bits(ask);
                for(;;)
                {
                    TickType_t n = sim::chance(1, 2) ? portMAX_DELAY : sim::choose(4); uint64_t t0 = rtos::now(); EventBits_t v = wait(*e, ans, true, true, n);
                    if(v & ans) break;
                    SIM_CHECK(n != portMAX_DELAY && rtos::now() - t0 >= n, "wake-up-invented", "a wait of %u ended after %llu without its flag", n, (unsigned long long)(rtos::now() - t0)); SIM_PROBE("wait-timed-out");
                }
                SIM_CHECK(answered[i] == asked[i], "wake-up-invented", "question %u answered before it was seen", asked[i]);
            } });
    }
    rtos::run(); for(unsigned i = 0; i < n; ++i) SIM_CHECK(answered[i] == rounds, "wake-up-lost", "%u of %u answered", answered[i], rounds);
    SIM_CHECK(rtos::bits(*e) == 0, "bits", "flags %x are left although every wait consumes", rtos::bits(*e)); sim::nontrivial();
}
template <class E> void lifetime()
{
    rtos::boot(rt::config());
    rtos::spawn("A", 2, []{
        for(int n = sim::range(1, 4); n--;)
        {
            bool deny = sim::chance(1, 3); unsigned before = rtos::denied(); if(deny) rtos::deny(1);
            {
                E e; rtos::deny(0); bool null = EventGroupHandle_t(e) == nullptr;
                SIM_CHECK(null == (rtos::denied() != before), "creation", "the event group %s although the kernel %s", null ? "has no kernel object" : "has one", null ? "had memory" : "refused");
                if(!null)
                {
                    e.set_bits(6); SIM_CHECK(wait(e, 2, true, true, 0) == 6 && rtos::bits(e) == 4, "bits", "flags are %x", rtos::bits(e));
                    if constexpr(std::is_copy_constructible<E>::value) { E copy(e); copy.set_bits(1); }
                    e.clear_bits(4); sim::nontrivial();
                }
            }
            SIM_CHECK(rtos::objects() == 0, "kernel-object-leak", "a destroyed event group left %zu kernel objects", rtos::objects());
        } });
    rtos::run();
}
// ---- notifications ----------------------------------------------------------------------------------
// few bits (so that they meet) at either end of the word, or any of them
uint32_t some_value(unsigned few) { switch(sim::choose(6)) { case 4: return sim::choose(few) << sim::choose(32); case 5: return sim::choose(0x10000) << 16 | sim::choose(0x10000); default: return sim::choose(few); } }
struct Note { uint32_t v = 0; bool pending = false; };
struct Target
{
    Task t{ TaskHandle_t(nullptr) }; Note note[configTASK_NOTIFICATION_ARRAY_ENTRIES];
    bool ordered = false, take = false, clear = false; unsigned slot = 0; TickType_t n = 0; uint32_t entry = 0, exit = 0;
    bool returned = false; uint32_t got = 0; bool ok = false; uint64_t when = 0;
    bool waiting = false, expected = false; uint32_t expect = 0; bool expect_ok = false; uint64_t expect_at = 0, deadline = 0;
    bool over = false;
    void resolve(uint64_t at)       // the wait is over: what it returns
    {
        Note& s = note[slot]; expected = true; waiting = false; expect_at = at;
        if(take) { expect = s.v; expect_ok = s.v != 0; if(s.v) s.v = clear ? 0 : s.v - 1; }
        else { expect = s.v; expect_ok = s.pending; if(s.pending) s.v &= ~exit; }
        s.pending = false;
    }
    void begin()
    {
        Note& s = note[slot];
        bool now = take ? s.v != 0 : s.pending;
        if(!take && !s.pending) s.v &= ~entry;
        if(take && !now) s.pending = false;     // the state becomes "waiting"
        if(now || !n) { resolve(rtos::now()); return; }
        waiting = true; deadline = n == portMAX_DELAY ? FOREVER : rtos::now() + n;
    }
    bool notify(unsigned i, uint32_t v, eNotifyAction a)
    {
        Note& s = note[i]; bool was = s.pending, ok = true; s.pending = true;
        switch(a) { case eSetBits: s.v |= v; break; case eIncrement: ++s.v; break; case eSetValueWithOverwrite: s.v = v; break; case eSetValueWithoutOverwrite: if(was) ok = false; else s.v = v; break; default: break; }
        if(waiting && slot == i) resolve(rtos::now());
        return ok;
    }
    void body()
    {
        for(;;)
        {
            vTaskSuspend(nullptr); if(over) return;
            uint32_t v = 0; bool r;
            if(take) { v = ulTaskNotifyTakeIndexed(slot, clear, n); r = v != 0; } else r = xTaskNotifyWaitIndexed(slot, entry, exit, &v, n) == pdTRUE;
            got = v; ok = r; when = rtos::now(); returned = true; sim::log("received %u %x", r, v);
        }
    }
};
void target_main(void* p) { static_cast<Target*>(p)->body(); vTaskDelete(nullptr); }
void notifications()
{
    rtos::Config c = rt::config(); c.smp = false; c.tick_num = 0; c.preempt_num = 0; rtos::boot(c);
    Target tg[3]; unsigned n = sim::range(1, 3); typedef Task::storage<512> Store; Store* store[3] = {};
    rtos::spawn("driver", 1, [&]{
        for(unsigned i = 0; i < n; ++i)
        {
            static const char* names[] = { "T0", "T1", "T2" };
            switch(sim::choose(3))
            {
                case 0: SIM_CHECK(tg[i].t.create(target_main, names[i], 200, &tg[i], 3 + i) == pdPASS, "creation", "create failed"); break;
                case 1: store[i] = new Store; tg[i].t = Task::create_static(target_main, names[i], &tg[i], 3 + i, store[i]); break;
                default: store[i] = new Store; tg[i].t = Task::create_static(target_main, names[i], Store::stack_depth, &tg[i], 3 + i, store[i]->stack, &store[i]->task); break;
            }
            rtos::point();
            SIM_CHECK(std::string(tg[i].t.name()) == names[i], "name", "task %u is called %s", i, tg[i].t.name());
            SIM_CHECK(uxTaskPriorityGet(tg[i].t) == 3 + i, "priority", "task %u has priority %lu", i, uxTaskPriorityGet(tg[i].t));
            SIM_CHECK(tg[i].t.state() == eSuspended, "state", "a suspended task is in state %d", tg[i].t.state());
        }
        SIM_CHECK(std::string(Task::current().name()) == "driver" && Task::current().state() == eRunning, "current", "current() is %s", Task::current().name());
        for(int steps = sim::range(4, 30); steps--;)
        {
            Target& t = tg[sim::choose(n)]; char what[80] = "";
            switch(sim::choose(9))
            {
                case 0: case 1:
                    if(t.ordered) continue;
                    t.ordered = true; t.take = sim::chance(1, 2); t.clear = sim::chance(1, 2); t.slot = sim::choose(3); t.n = sim::chance(1, 6) ? 0 : sim::chance(1, 2) ? portMAX_DELAY : sim::range(1, 9);
                    t.entry = sim::chance(1, 3) ? some_value(16) : 0; t.exit = sim::chance(1, 2) ? 0xffffffffu : some_value(16);
                    snprintf(what, sizeof what, "a wait on slot %u", t.slot); sim::log("order %s take %d ticks %u", what, t.take, t.n);
                    t.begin(); t.t.resume(); break;
                case 2: { bool idx = sim::chance(1, 2); unsigned i = idx ? sim::choose(3) : 0; snprintf(what, sizeof what, "notify_give %u", i); sim::log("%s", what); bool ok = t.notify(i, 0, eIncrement); BaseType_t r = idx ? t.t.notify_give(i) : t.t.notify_give(); SIM_CHECK((r == pdPASS) == ok, "notify-result", "notify_give reported %ld", long(r)); break; }
                case 3: case 4:
                {
                    eNotifyAction a = eNotifyAction(sim::choose(5)); uint32_t v = some_value(64); snprintf(what, sizeof what, "notify %x action %d", v, a); sim::log("%s", what);
                    bool ok = t.notify(0, v, a); BaseType_t r = t.t.notify(v, a); SIM_CHECK((r == pdPASS) == ok, "notify-result", "notify reported %ld instead of %d", long(r), ok); break;
                }
                case 5:
                {
                    bool give = sim::chance(1, 2), told = sim::chance(2, 3); eNotifyAction a = eNotifyAction(sim::choose(5)); uint32_t v = some_value(64); BaseType_t woken = pdFALSE; snprintf(what, sizeof what, "a notification from an interrupt"); sim::log("isr %s", give ? "give" : "notify");
                    rtos::interrupt([&]{
                        bool waited = t.waiting && t.slot == 0; bool ok = t.notify(0, v, give ? eIncrement : a); BaseType_t r = pdPASS;
                        if(give) { if(told) t.t.notify_give_from_isr(&woken); else t.t.notify_give_from_isr(); } else r = told ? t.t.notify_from_isr(v, a, &woken) : t.t.notify_from_isr(v, a);
                        if(!give) SIM_CHECK((r == pdPASS) == ok, "notify-result", "notify_from_isr reported %ld instead of %d", long(r), ok);
                        if(told) SIM_CHECK((woken == pdTRUE) == waited, "isr-woken", "an interrupt was %stold that it woke a task above the running one", woken ? "" : "not ");
                    });
                    break;
                }
                case 6: { uint32_t b = some_value(16), was = t.note[0].v; t.note[0].v &= ~b; uint32_t r = t.t.notify_value_clear(b); snprintf(what, sizeof what, "notify_value_clear"); SIM_CHECK(r == was, "value", "notify_value_clear returned %x instead of %x", r, was); break; }
                case 7: { bool was = t.note[0].pending; t.note[0].pending = false; BaseType_t r = t.t.notify_state_clear(); snprintf(what, sizeof what, "notify_state_clear"); SIM_CHECK((r == pdTRUE) == was, "notify-result", "notify_state_clear returned %ld instead of %d", long(r), was); break; }
                default:
                {
                    unsigned k = sim::range(1, 5); snprintf(what, sizeof what, "%u ticks", k); uint64_t end = rtos::now() + k;
                    for(unsigned i = 0; i < n; ++i) if(tg[i].waiting && tg[i].deadline <= end) tg[i].resolve(tg[i].deadline);
                    vTaskDelay(k);
                }
            }
            rtos::point();
            for(unsigned i = 0; i < n; ++i)
            {
                Target& x = tg[i];
                SIM_CHECK(!(x.expected && !x.returned), "notification-lost", "after %s task %u still waits on slot %u", what, i, x.slot);
                SIM_CHECK(!(x.returned && !x.expected), "wake-up-invented", "after %s task %u returned from slot %u", what, i, x.slot);
                if(x.returned)
                {
                    SIM_CHECK(x.got == x.expect && x.ok == x.expect_ok, "notification-value", "after %s task %u got %x (%d) from slot %u instead of %x (%d)", what, i, x.got, x.ok, x.slot, x.expect, x.expect_ok);
                    SIM_CHECK(x.when == x.expect_at, "wake-up-time", "task %u woke at %llu instead of %llu", i, (unsigned long long)x.when, (unsigned long long)x.expect_at);
                    x.returned = x.expected = x.ordered = false;
                }
                for(unsigned k = 0; k < 3; ++k) SIM_CHECK(rtos::notified(x.t, k) == x.note[k].v, "notification-slot", "after %s slot %u of task %u has %x instead of %x", what, k, i, rtos::notified(x.t, k), x.note[k].v);
                SIM_CHECK(x.t.state() == (x.waiting ? (x.deadline == FOREVER ? eSuspended : eBlocked) : eSuspended), "state", "after %s task %u is in state %d", what, i, x.t.state());
            }
            sim::state(sim::mix(tg[0].note[0].v, tg[0].waiting * 2 + tg[0].note[0].pending));
        }
        for(unsigned i = 0; i < n; ++i)
        {
            Target& x = tg[i]; x.over = true;
            if(x.waiting) { x.t.suspend(); SIM_CHECK(x.t.state() == eSuspended, "state", "suspend left state %d", x.t.state()); vTaskDelete(x.t); } else x.t.resume();
        }
        rtos::point(); sim::nontrivial();
    });
    rtos::run();
    for(auto s : store) delete s;
}
// any schedule: gives are neither lost nor invented
void gives()
{
    unsigned fires = sim::choose(8), sent = 0, got = 0, need = 0; TaskHandle_t h = nullptr;
    std::function<bool()> isr = [&]() -> bool { if(!h || !fires) return h && fires; --fires; Task(h).notify_give_from_isr(); ++sent; return true; };
    rtos::Config c = rt::config(isr); rtos::boot(c);
    unsigned givers = sim::range(1, 3), each = sim::range(1, 8); need = givers * each; bool one = sim::chance(1, 2); unsigned index = sim::choose(3); if(index) fires = 0;
    h = rtos::spawn("taker", rt::prio(), [&]{ while(got < need) { uint32_t v = ulTaskNotifyTakeIndexed(index, !one, sim::chance(1, 3) ? sim::range(1, 3) : portMAX_DELAY); got += one ? (v ? 1 : 0) : v; SIM_CHECK(got <= sent + givers, "wake-up-invented", "%u received, %u sent", got, sent); if(sim::chance(1, 3)) rtos::busy(1); } });
    for(unsigned i = 0; i < givers; ++i) rtos::spawn("giver", rt::prio(), [&]{ Task t(h); for(unsigned k = 0; k < each; ++k) { if(index) t.notify_give(index); else if(sim::chance(1, 2)) t.notify_give(); else t.notify(0, eIncrement); ++sent; if(sim::chance(1, 3)) vTaskDelay(sim::range(1, 3)); } });
    rtos::run(); 
    SIM_CHECK(got + (rtos::notified(h, index)) == sent, "notification-lost", "%u sent, %u received, %u left", sent, got, rtos::notified(h, index)); sim::nontrivial();
}
}
const sim::Scenario scen[] = {
    { "model", flags_model<ED>, 4 }, { "model-static", flags_model<ES>, 4 }, { "rendezvous", rendezvous<ED>, 2 }, { "rendezvous-static", rendezvous<ES>, 2 },
    { "handshake", handshake<ED>, 2 }, { "handshake-static", handshake<ES>, 2 }, { "life", lifetime<ED>, 1 }, { "life-static", lifetime<ES>, 1 },
    { "notifications", notifications, 6 }, { "gives", gives, 2 },
};
const sim::Harness sim::harness = { "C11",
    "After every step each waiter has returned exactly if a model of its condition, the flags and the clock says so, with the value and at the tick the model gives, and flags, notification values and task states equal the model's; in free schedules nobody leaves a rendezvous before all have arrived, every question is answered once and no give is lost or invented; kernel objects are deleted exactly once.",
    "event groups (static and dynamic) and their wrapper, task wrapper (creation, notifications, suspend, resume, state)",
    "FreeRTOS kernel (simulated: event groups, notifications, timer service carrying out deferred calls, interrupts)",
    "notifications are received with the kernel's own calls, as the library has none",
    40000, 2000000, scen, sizeof scen / sizeof *scen, nullptr };
