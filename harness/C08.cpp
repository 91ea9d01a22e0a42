// BUILD: -DFREERTOS -I$R/src -I$V/fake/freertos -I$V/harness
// EXTRA: $V/fake/freertos/kernel.cpp
#include <estd/mutex.h>
#include <estd/thread.h>
#include <estd/port/freertos/mutex.h>
#include "rtos.h"
#include <string>
#include <type_traits>
#include <utility>

namespace {
using namespace estd;
typedef chrono::freertos_clock Clock;
struct Thrown {};

template <class M> struct Traits { static const bool recursive = false, timed = false; };
template <> struct Traits<freertos::recursive_mutex<false>> { static const bool recursive = true, timed = false; };
template <> struct Traits<freertos::recursive_mutex<true>> { static const bool recursive = true, timed = false; };
template <> struct Traits<freertos::timed_mutex<false>> { static const bool recursive = false, timed = true; };
template <> struct Traits<freertos::timed_mutex<true>> { static const bool recursive = false, timed = true; };

// a mutex and what the harness knows of who is inside
template <class M> struct Box
{
    M m; TaskHandle_t in = nullptr; unsigned depth = 0, entries = 0;
    SemaphoreHandle_t h() const { return m.native_handle(); }
};
template <class M> void enter(Box<M>& b, const char* how)
{
    TaskHandle_t me = xTaskGetCurrentTaskHandle();
    SIM_CHECK(rtos::holder(b.h()) == me, "not-held", "%s said the lock was taken, but the task does not hold it", how);
    SIM_CHECK(!b.in || b.in == me, "two-inside", "%s let a second task in while another is inside", how);
    if(!Traits<M>::recursive) SIM_CHECK(!b.in, "two-inside", "%s took a mutex its task had already", how);
    b.in = me; ++b.depth; ++b.entries;
    sim::log("enter by %s (%s)", pcTaskGetName(me), how);
    if(Traits<M>::recursive) SIM_CHECK(rtos::depth(b.h()) == b.depth, "recursion-depth", "after %s the mutex counts %u locks, not %u", how, rtos::depth(b.h()), b.depth);
}
template <class M> void leaving(Box<M>& b) { SIM_CHECK(b.in == xTaskGetCurrentTaskHandle() && b.depth, "harness", "not inside"); if(--b.depth == 0) b.in = nullptr; sim::log("leave"); }
// after the release: whoever holds it now, it is not for the released lock
template <class M> void left(Box<M>& b, unsigned depth_was, const char* how)
{
    TaskHandle_t me = xTaskGetCurrentTaskHandle();
    bool mine = rtos::holder(b.h()) == me;
    SIM_CHECK(mine == (depth_was > 1), "release", "%s left the mutex %s", how, mine ? "held" : "free although it was locked more than once");
    if(mine && Traits<M>::recursive) SIM_CHECK(rtos::depth(b.h()) == depth_was - 1, "recursion-depth", "after %s the mutex counts %u locks, not %u", how, rtos::depth(b.h()), depth_was - 1);
}
template <class M> void inside()
{
    switch(sim::choose(5)) { case 0: break; case 1: rtos::point(); break; case 2: rtos::busy(sim::range(1, 3)); break;
        case 3: vTaskDelay(sim::range(1, 4)); break; default: if(sim::chance(1, 4)) vTaskDelay(sim::range(100, 2000000)); else taskYIELD(); }
}
template <class M> struct Attempt   // was a refusal legitimate?
{
    Box<M>& b; bool was_free; unsigned takes; bool mine; uint64_t waited = rtos::waited();
    explicit Attempt(Box<M>& b) : b(b), was_free(rtos::holder(b.h()) == nullptr), takes(rtos::takes(b.h())), mine(rtos::holder(b.h()) == xTaskGetCurrentTaskHandle()) {}
    void check(bool ok, const char* how)
    {
        const std::string h = how; const size_t n = h.size() < 8 ? 0 : h.size() - 8;
        if(h.substr(n) == "try_lock" || h.find("try_to_lock") != h.npos) SIM_CHECK(rtos::waited() == waited, "waits", "%s made its task wait", how);
        bool have = rtos::holder(b.h()) == xTaskGetCurrentTaskHandle();
        if(!(mine && !Traits<M>::recursive)) SIM_CHECK(ok == have || (mine && Traits<M>::recursive), ok ? "not-held" : "held-unreported", "%s reported %s but the task %s the mutex", how, ok ? "success" : "failure", have ? "holds" : "does not hold");
        if(!ok) SIM_CHECK(!(was_free && rtos::takes(b.h()) == takes), "refused-free", "%s failed on a mutex that was free all the time", how);
        if(!ok && mine && Traits<M>::recursive) sim::fail("refused-holder", "%s refused the task that holds the recursive mutex", how);
        if(!ok) SIM_PROBE("attempt-refused"); else SIM_PROBE("attempt-taken");
    }
};
template <class D> D some_wait() { return D(typename D::rep(sim::chance(1, 4) ? 0 : sim::range(1, 300))); }
template <class M> bool attempt(Box<M>& b, const char*& how)
{
    Attempt<M> a(b); bool ok = false;
    if constexpr(Traits<M>::timed)
    {
        switch(sim::choose(4))
        {
            case 0: how = "try_lock_for"; ok = b.m.try_lock_for(some_wait<chrono::milliseconds>()); break;
            case 1: how = "try_lock_for"; ok = b.m.try_lock_for(some_wait<Clock::duration>()); break;
            case 2: how = "try_lock_until"; ok = b.m.try_lock_until(Clock::now() + some_wait<Clock::duration>()); break;
            default: how = "try_lock"; ok = b.m.try_lock(); break;
        }
    }
    else { how = "try_lock"; ok = b.m.try_lock(); }
    a.check(ok, how);
    return ok;
}
template <class M> void raw_unlock(Box<M>& b)
{
    unsigned d = b.depth; leaving(b);
    bool ok = b.m.unlock();
    SIM_CHECK(ok, "unlock-result", "unlock of a held mutex reported failure");
    left(b, d, "unlock");
}
template <class M> void plain(Box<M>& b)
{
    const char* how = "lock"; bool in = true;
    if(sim::chance(1, 2)) b.m.lock(); else in = attempt(b, how);
    if(!in) return;
    enter(b, how);
    inside<M>();
    if(Traits<M>::recursive && b.depth < 5 && sim::chance(1, 2)) { SIM_PROBE("recursed"); plain(b); inside<M>(); }
    raw_unlock(b);
}
template <class M> void scoped(Box<M>& b, int ending)
{
    unsigned d = b.in == xTaskGetCurrentTaskHandle() ? b.depth : 0;
    try
    {
        lock_guard<M> g(b.m);
        enter(b, "lock_guard");
        inside<M>();
        if(Traits<M>::recursive && b.depth < 4 && sim::chance(1, 3)) scoped(b, int(sim::choose(3)));
        leaving(b);
        if(ending == 1) throw Thrown();
        if(ending == 2) goto out;
        rtos::point();
    }
    catch(Thrown&) { SIM_FAULT("exception"); }
out:
    left(b, d + 1, "lock_guard");
}
// a movable lock and what it should be
template <class M> struct Slot { typedef unique_lock<M> L; alignas(L) unsigned char raw[sizeof(L)]; bool live = false; Box<M>* box = nullptr; bool owns = false; L& l() { return *reinterpret_cast<L*>(raw); } };
template <class M> void agree(Slot<M>& s, const char* how)
{
    if(!s.live) return;
    SIM_CHECK(s.l().mutex() == (s.box ? &s.box->m : nullptr), "which-mutex", "after %s a lock is associated with the wrong mutex", how);
    SIM_CHECK(s.l().owns_lock() == s.owns, "owns", "after %s owns_lock() is %d", how, s.l().owns_lock());
    SIM_CHECK(bool(s.l()) == s.owns, "owns", "after %s the lock converts to %d", how, bool(s.l()));
}
template <class M> void let_go(Slot<M>& s, const char* how, const std::function<void()>& f)
{
    Box<M>* b = s.owns ? s.box : nullptr; unsigned d = b ? b->depth : 0;
    if(b) leaving(*b);
    f();
    s.owns = false;
    if(b) left(*b, d, how);
}
template <class M> void movable(std::vector<std::unique_ptr<Box<M>>>& boxes, bool one_at_a_time)
{
    typedef unique_lock<M> L;
    Slot<M> slot[3]; const bool R = Traits<M>::recursive;
    // locks held when we came in (recursive mutexes only) stay as they were
    auto held = [&](Box<M>& b) { return b.in == xTaskGetCurrentTaskHandle(); };
    auto any = [&] { for(auto& b : boxes) if(held(*b)) return true; return false; };
    auto may_wait = [&](Box<M>& b) { return (R && held(b)) || !any(); };           // so that no two tasks wait for each other
    for(int steps = sim::range(2, 14); steps--;)
    {
        Slot<M>& s = slot[sim::choose(3)]; Slot<M>& o = slot[sim::choose(3)]; Box<M>& b = *boxes[sim::choose(boxes.size())];
        if(!s.live)
        {
            unsigned form = sim::choose(7);
            if(!R && held(b)) form = form == 3 ? 3 : 1;        // its owner must not lock it again; adopting is for locks nobody else manages
            switch(form)
            {
                case 0: new(s.raw) L(); s.box = nullptr; s.owns = false; break;
                case 1: new(s.raw) L(b.m, defer_lock_t()); s.box = &b; s.owns = false; break;
                case 2: { Attempt<M> a(b); new(s.raw) L(b.m, try_to_lock_t()); s.box = &b; bool ok = s.l().owns_lock(); a.check(ok, "unique_lock(try_to_lock)"); s.owns = ok; if(ok) enter(b, "unique_lock(try_to_lock)"); break; }
                case 3:
                    if((!R && held(b)) || !may_wait(b)) continue;
                    b.m.lock(); enter(b, "lock"); new(s.raw) L(b.m, adopt_lock_t()); s.box = &b; s.owns = true; break;
                case 4: case 5: if constexpr(Traits<M>::timed)
                {
                    Attempt<M> a(b);
                    if(form == 4) new(s.raw) L(b.m, chrono::milliseconds(sim::choose(200)));
                    else new(s.raw) L(b.m, Clock::now() + Clock::duration(sim::choose(20)));
                    s.box = &b; bool ok = s.l().owns_lock(); a.check(ok, "unique_lock(timeout)"); s.owns = ok; if(ok) enter(b, "unique_lock(timeout)"); break;
                } // else as below
                [[fallthrough]];
                default: if(!may_wait(b)) continue; new(s.raw) L(b.m); s.box = &b; s.owns = true; enter(b, "unique_lock"); break;
            }
            s.live = true; agree(s, "construction"); continue;
        }
        switch(sim::choose(9))
        {
            case 0: let_go(s, "unique_lock's destructor", [&]{ s.l().~L(); }); s.live = false; break;
            case 1: let_go(s, "unique_lock's unlock", [&]{ if(s.box) s.l().unlock(); }); agree(s, "unlock"); break;
            case 2:
                if(!s.box || s.owns || (!R && held(*s.box)) || !may_wait(*s.box)) break;
                s.l().lock(); s.owns = true; enter(*s.box, "unique_lock's lock"); agree(s, "lock"); break;
            case 3: case 4:
            {
                if(!s.box || s.owns || (!R && held(*s.box))) break;
                Attempt<M> a(*s.box); bool ok; const char* how = "unique_lock's try_lock";
                if constexpr(Traits<M>::timed)
                {
                    switch(sim::choose(3)) { case 0: ok = s.l().try_lock(); break;
                        case 1: ok = s.l().try_lock_for(chrono::milliseconds(sim::choose(200))); how = "unique_lock's try_lock_for"; break;
                        default: ok = s.l().try_lock_until(Clock::now() + Clock::duration(sim::choose(20))); how = "unique_lock's try_lock_until"; }
                }
                else ok = s.l().try_lock();
                a.check(ok, how); s.owns = ok; if(ok) enter(*s.box, how); agree(s, how); break;
            }
            case 5:     // the caller takes over
            {
                M* m = s.l().release(); bool owned = s.owns; Box<M>* was = s.box; s.owns = false; s.box = nullptr;
                SIM_CHECK(m == (was ? &was->m : nullptr), "which-mutex", "release returned another mutex"); agree(s, "release");
                if(owned) { SIM_CHECK(rtos::holder(was->h()) == xTaskGetCurrentTaskHandle(), "release-unlocked", "release() unlocked the mutex"); inside<M>(); raw_unlock(*was); SIM_PROBE("ownership-released"); }
                break;
            }
            case 6:     // move construction
                if(o.live) break;
                new(o.raw) L(std::move(s.l())); o.live = true; o.box = s.box; o.owns = s.owns; s.box = nullptr; s.owns = false;
                if(o.owns) SIM_CHECK(rtos::holder(o.box->h()) == xTaskGetCurrentTaskHandle(), "move-unlocked", "moving a lock released it");
                agree(s, "having been moved from"); agree(o, "move construction"); SIM_PROBE("moved"); break;
            case 7:     // move assignment, also to itself
            {
                if(!o.live) break;
                if(&o == &s) { L& self = o.l(); o.l() = std::move(self); agree(o, "self-assignment"); break; }
                bool same = R && o.owns && s.owns && o.box == s.box; unsigned d = o.owns ? o.box->depth : 0; Box<M>* drop = o.owns ? o.box : nullptr;
                if(drop) leaving(*drop);
                o.l() = std::move(s.l());
                o.box = s.box; o.owns = s.owns; s.box = nullptr; s.owns = false;
                if(drop) left(*drop, d, "move assignment");
                (void)same; agree(s, "having been moved from"); agree(o, "move assignment"); SIM_PROBE("move-assigned"); break;
            }
            default: inside<M>();
        }
        for(auto& x : slot) agree(x, "an operation on another lock");
    }
    (void)one_at_a_time;
    unsigned order = sim::choose(3);
    for(unsigned i = 0; i < 3; ++i) { Slot<M>& s = slot[(i + order) % 3]; if(s.live) { let_go(s, "unique_lock's destructor", [&]{ s.l().~L(); }); s.live = false; } }
}
// the same as a function would use it: left by return or exception
template <class M> void held_by_scope(Box<M>& b)
{
    unsigned d = b.in == xTaskGetCurrentTaskHandle() ? b.depth : 0; bool tried = sim::chance(1, 3), got = true;
    if(!Traits<M>::recursive && b.in == xTaskGetCurrentTaskHandle()) return;
    try
    {
        unique_lock<M> l = tried ? unique_lock<M>(b.m, try_to_lock_t()) : unique_lock<M>(b.m);
        got = l.owns_lock();
        if(got) { enter(b, "unique_lock"); inside<M>(); leaving(b); }
        if(sim::chance(1, 2)) throw Thrown();
    }
    catch(Thrown&) { SIM_FAULT("exception"); }
    if(got) left(b, d + 1, "unique_lock");
}
template <class M> void finish(Box<M>& b)
{
    SIM_CHECK(rtos::holder(b.h()) == nullptr && rtos::count(b.h()) == 1, "left-locked", "every task has left, but the mutex is not free");
    SIM_CHECK(!b.in, "harness", "someone is inside");
}
template <class M> void contend()
{
    rtos::boot(rt::config());
    std::vector<std::unique_ptr<Box<M>>> boxes;
    for(unsigned n = sim::range(1, 2); n--;) boxes.emplace_back(new Box<M>);
    for(unsigned n = sim::range(1, 4), i = 0; i < n; ++i)
    {
        static const char* names[] = { "A", "B", "C", "D" };
        unsigned ops = sim::range(1, 5);
        rtos::spawn(names[i], rt::prio(), [&, ops]{
            for(unsigned k = 0; k < ops; ++k)
            {
                Box<M>& b = *boxes[sim::choose(boxes.size())];
                switch(sim::choose(5))
                {
                    case 0: plain(b); break;
                    case 1: scoped(b, int(sim::choose(3))); break;
                    case 2: held_by_scope(b); break;
                    case 3: movable(boxes, true); break;
                    default: if(Traits<M>::recursive && sim::chance(1, 2))
                        {   // somebody else's lock is not ours to release
                            TaskHandle_t h = rtos::holder(b.h()), me = xTaskGetCurrentTaskHandle();
                            if(h != me) SIM_CHECK(!b.m.unlock(), "unlock-result", "unlock succeeded in a task which does not hold the recursive mutex");
                        }
                        else inside<M>();
                }
                sim::state(sim::mix(b.entries, uint64_t(b.in != nullptr)));
            }
        });
    }
    rtos::run();
    for(auto& b : boxes) finish(*b);
    if(boxes[0]->entries) sim::nontrivial();
    boxes.clear();
    SIM_CHECK(rtos::objects() == 0, "kernel-object-leak", "%zu kernel objects are left after the mutexes were destroyed", rtos::objects());
}
// creation, also when the kernel has no memory; copies where they are possible; destruction
template <class M> void lifetime()
{
    rtos::boot(rt::config());
    rtos::spawn("A", 2, []{
        for(int n = sim::range(1, 4); n--;)
        {
            bool deny = sim::chance(1, 3); unsigned before = rtos::denied();
            if(deny) rtos::deny(1);
            {
                Box<M> b; rtos::deny(0);
                bool null = b.h() == nullptr;
                SIM_CHECK(null == (rtos::denied() != before), "creation", "the mutex %s although the kernel %s", null ? "has no kernel object" : "has one", null ? "had memory" : "refused");
                if(!null)
                {
                    SIM_CHECK(rtos::holder(b.h()) == nullptr && rtos::count(b.h()) == 1, "created-locked", "a new mutex is not free");
                    plain(b);
                    if constexpr(std::is_copy_constructible<M>::value) { M copy(b.m); copy.lock(); copy.unlock(); }
                    plain(b); finish(b); sim::nontrivial();
                }
            }
            SIM_CHECK(rtos::objects() == 0, "kernel-object-leak", "a destroyed mutex left %zu kernel objects", rtos::objects());
        }
    });
    rtos::run();
}
// whoever waits gets the mutex once it is free, and in the order of their priorities when nothing else runs
template <class M> void handover()
{
    rtos::Config c = rt::config(); rtos::boot(c);
    auto b = std::make_unique<Box<M>>(); unsigned done = 0, n = sim::range(2, 5);
    for(unsigned i = 0; i < n; ++i)
        rtos::spawn("waiter", rt::prio(), [&]{
            for(int k = sim::range(1, 3); k--;) switch(sim::choose(3)) { case 0: { b->m.lock(); enter(*b, "lock"); vTaskDelay(sim::range(1, 3)); raw_unlock(*b); break; } case 1: scoped(*b, int(sim::choose(2))); break; default: held_by_scope(*b); }
            ++done; });
    rtos::run();
    SIM_CHECK(done == n, "waits-for-ever", "only %u of %u tasks got through", done, n);
    finish(*b); sim::nontrivial();
}
typedef freertos::mutex<false> MD; typedef freertos::mutex<true> MS; typedef freertos::timed_mutex<false> TD; typedef freertos::timed_mutex<true> TS;
typedef freertos::recursive_mutex<false> RD; typedef freertos::recursive_mutex<true> RS;
}
const sim::Scenario scen[] = {
    { "mutex", contend<MD>, 3 }, { "mutex-static", contend<MS>, 3 }, { "timed", contend<TD>, 3 }, { "timed-static", contend<TS>, 3 },
    { "recursive", contend<RD>, 3 }, { "recursive-static", contend<RS>, 3 },
    { "handover-mutex", handover<MS>, 1 }, { "handover-timed", handover<TD>, 1 }, { "handover-recursive", handover<RD>, 1 },
    { "life-mutex", lifetime<MD>, 1 }, { "life-mutex-static", lifetime<MS>, 1 }, { "life-timed", lifetime<TD>, 1 }, { "life-recursive", lifetime<RD>, 1 }, { "life-recursive-static", lifetime<RS>, 1 },
};
const sim::Harness sim::harness = { "C08",
    "At every step: no task is inside a mutex while another is; a lock or attempt reports success exactly when the kernel has the task as holder, and never fails on a mutex that stayed free; the recursion depth matches; every guard or movable lock matches a model of what it owns, its end leaves the mutex free (or one level shallower) and touches nothing it does not own; at the end every mutex is free, nobody waits for ever, and each kernel object was deleted exactly once.",
    "lock_guard, unique_lock, mutex, timed_mutex, recursive_mutex (static and dynamic) and their kernel wrapper",
    "FreeRTOS kernel (simulated: tasks, priorities, mutexes, ticks)",
    "a mutex is unlocked by its holder, as the kernel requires (unlocking another task's recursive mutex is tried)|the binary (no owner) mode of the mutex classes is excluded",
    40000, 2000000, scen, sizeof scen / sizeof *scen, nullptr };
