// BUILD: -DFREERTOS -I$R/src -I$V/fake/freertos -I$V/harness
// EXTRA: $V/fake/freertos/kernel.cpp
#include <estd/thread.h>
#include <estd/port/freertos/wrapper/task.h>
#include "rtos.h"
#include <string>
#include <cstring>

namespace {
using namespace estd;
typedef freertos::wrapper::task Task;

// ---- tasks made through the wrapper, ordered about by a director and by one another
template <unsigned N> struct Room
{
    typedef Task::storage<N> S; S* s = static_cast<S*>(malloc(sizeof(S)));
    Room() { memset((void*)s, 0x5A, sizeof(S)); }
    ~Room() { free(s); }
};
struct Job
{
    Task t; std::string name; unsigned prio = 0, entered = 0, beats = 0; bool made = false, stop = false, over = false; void* self_arg = nullptr; TaskHandle_t self = nullptr;
    bool suspended = false; unsigned resumes = 0;   // by the director
    std::shared_ptr<void> room; const void* stack = nullptr; size_t depth = 0;
    unsigned seen = 0;   // beats when it was suspended
};
const unsigned MOST = 4;
struct World { Job j[MOST]; unsigned n = 0; bool going = true; uint64_t turn = 0; };
World* W;
void body(void* p)
{
    Job& x = *static_cast<Job*>(p); ++x.entered; x.self_arg = p; x.self = xTaskGetCurrentTaskHandle();
    sim::log("%s enters", x.name.c_str());
    SIM_CHECK(x.entered == 1, "entered-twice", "%s was entered %u times", x.name.c_str(), x.entered);
    char here; (void)here;
    while(!x.stop)
    {
        SIM_CHECK(!x.suspended, "ran-while-suspended", "%s runs although it is suspended", x.name.c_str());
        ++x.beats;
        switch(sim::choose(6))
        {
            case 0: vTaskDelay(sim::range(1, 3)); break;
            case 1: this_thread::yield(); break;
            case 2: { Task me = Task::current(); SIM_CHECK(TaskHandle_t(me) == x.self && this_thread::get_id() == x.self, "current", "%s is told it is another task", x.name.c_str()); SIM_CHECK(me.name() == x.name, "name", "%s is called %s", x.name.c_str(), me.name()); break; }
            case 3: SIM_CHECK(Task(x.self).state() == eRunning, "state", "%s is running and in state %d", x.name.c_str(), Task(x.self).state()); break;
            case 4: { sim::log("%s suspends itself", x.name.c_str()); const unsigned before = x.resumes; Task::current().suspend(); SIM_CHECK(x.resumes != before, "resumed-by-nobody", "%s suspended itself and goes on although nobody resumed it", x.name.c_str()); break; }
            default: rtos::busy(sim::choose(2)); break;
        }
    }
    sim::log("%s ends", x.name.c_str()); x.over = true;
    vTaskDelete(nullptr);
}
template <unsigned N> Task in_room(Job& x, bool whole)
{
    std::shared_ptr<Room<N>> r(new Room<N>); x.room = r; x.stack = r->s->stack; x.depth = N / sizeof(StackType_t);
    if(whole) return Task::create_static<N>(body, x.name.c_str(), &x, x.prio, r->s);
    return Task::create_static(body, x.name.c_str(), x.depth, &x, x.prio, r->s->stack, &r->s->task);
}
void make(Job& x, unsigned i)
{
    static const char* const names[] = { "A", "Bee", "a rather long name for a task", "D4" };
    x.name = names[i]; x.prio = rt::prio(); unsigned how = sim::choose(4);
    sim::log("create %s at %u (%u)", names[i], x.prio, how);
    if(how < 2)
    {
        const bool refuse = sim::chance(1, 6); const unsigned d0 = rtos::denied(); const size_t o0 = rtos::objects(); (void)o0; if(refuse) rtos::deny(1);
        Task t(nullptr); BaseType_t r = t.create(body, x.name.c_str(), configSTACK_DEPTH_TYPE(128 + sim::choose(400)), &x, x.prio); if(refuse) rtos::deny(0);
        const bool denied = rtos::denied() != d0;
        SIM_CHECK((r == pdPASS) == !denied, "creation-result", "creating %s said %d", names[i], int(r));
        if(denied) { SIM_CHECK(!TaskHandle_t(t), "creation-result", "a task that was not created has a handle"); return; }
        x.t = t;
    }
    else switch(sim::choose(3)) { case 0: x.t = in_room<256>(x, how == 2); break; case 1: x.t = in_room<1000>(x, how == 2); break; default: x.t = in_room<4096>(x, how == 2); break; }
    x.made = true;
    SIM_CHECK(TaskHandle_t(x.t) != nullptr, "creation-result", "%s has no handle", names[i]);
    SIM_CHECK(x.t.name() == x.name, "name", "%s is called %s", names[i], x.t.name());
    SIM_CHECK(uxTaskPriorityGet(x.t) == x.prio, "priority", "%s has priority %u instead of %u", names[i], unsigned(uxTaskPriorityGet(x.t)), x.prio);
    if(x.stack) SIM_CHECK(rtos::stack(x.t) == x.stack && rtos::stack_depth(x.t) == x.depth, "stack", "%s runs on %zu words instead of its own %zu", names[i], rtos::stack_depth(x.t), x.depth);
}
void tasks()
{
    rtos::Config c = rt::config(); rtos::boot(c);
    W = new World; World& w = *W; w.n = sim::range(1, MOST);
    rtos::spawn("director", sim::chance(1, 2) ? 7 : rt::prio(), [&w]{
        for(unsigned i = 0; i < w.n; ++i) make(w.j[i], i);
        for(int k = sim::range(4, 30); k--;)
        {
            Job& x = w.j[sim::choose(w.n)];
            if(!x.made) continue;
            switch(sim::choose(6))
            {
                case 0: case 1: if(!x.over && !x.stop)
                {
                    sim::log("suspend %s", x.name.c_str()); SIM_FAULT("suspended-by-another");
                    // in force once the call returns
                    x.t.suspend(); if(x.over) break; x.suspended = true; x.seen = x.beats; sim::nontrivial();
                    SIM_CHECK(rtos::suspended(x.t), "not-suspended", "%s was suspended and is not", x.name.c_str());
                    SIM_CHECK(x.t.state() == eSuspended, "state", "%s is suspended and in state %d", x.name.c_str(), x.t.state());
                }
                break;
                case 2: case 3: if(!x.over)
                {
                    sim::log("resume %s", x.name.c_str()); x.suspended = false; ++x.resumes; x.t.resume();
                }
                break;
                case 4: vTaskDelay(sim::range(1, 5)); break;
                default: this_thread::yield(); break;
            }
            for(unsigned i = 0; i < w.n; ++i)
            {
                Job& y = w.j[i]; if(!y.made) { SIM_CHECK(y.entered == 0, "entered-anyway", "a task that was not created runs"); continue; }
                SIM_CHECK(y.entered <= 1, "entered-twice", "%s was entered %u times", y.name.c_str(), y.entered);
                if(y.entered) SIM_CHECK(y.self_arg == &y && y.self == TaskHandle_t(y.t), "argument", "%s got somebody else's argument", y.name.c_str());
                if(y.suspended) SIM_CHECK(y.beats == y.seen || y.over, "ran-while-suspended", "%s went on from beat %u to %u while suspended", y.name.c_str(), y.seen, y.beats);
                if(y.suspended && !y.over) SIM_CHECK(rtos::suspended(y.t) , "resumed-by-nobody", "%s is no longer suspended though nobody resumed it", y.name.c_str());
            }
            sim::state(sim::mix(w.j[0].suspended + 2 * w.j[1].suspended + 4 * w.j[2].suspended, w.n));
        }
        // everybody finishes
        for(unsigned i = 0; i < w.n; ++i) w.j[i].stop = true;
        for(bool all = false; !all;)
        {
            all = true; sim::step("no-progress");
            for(unsigned i = 0; i < w.n; ++i) { Job& x = w.j[i]; if(x.made && !x.over) { all = false; x.suspended = false; ++x.resumes; x.t.resume(); } }
            vTaskDelay(4);
        }
    });
    rtos::run();
    for(unsigned i = 0; i < w.n; ++i) { Job& x = w.j[i]; SIM_CHECK(x.entered == x.made, "not-entered", "task %u was %screated and entered %u times", i, x.made ? "" : "not ", x.entered); }
    sim::nontrivial(); delete W; W = nullptr;
}
// ---- tasks of one priority share the processor by yielding
void sharing()
{
    rtos::Config c; c.tick_num = 0; c.preempt_num = 0; rtos::boot(c);
    const unsigned n = sim::range(2, 4), laps = sim::range(1, 6); unsigned turn = 0, done = 0;
    for(unsigned i = 0; i < n; ++i) rtos::spawn(("S" + std::to_string(i)).c_str(), 3, [&, i]{
        for(unsigned k = 0; k < laps; ++k)
        {
            for(unsigned spins = 0; turn % n != i; ++spins) { sim::step("no-progress"); SIM_CHECK(spins < 5000, "never-its-turn", "%u yields and nobody else came round", spins); this_thread::yield(); }
            sim::log("S%u takes turn %u", i, turn); ++turn;
        }
        ++done; });
    rtos::run(); SIM_CHECK(done == n && turn == n * laps, "turns", "%u of %u finished after %u turns", done, n, turn); sim::nontrivial(); sim::state(sim::mix(n, laps));
}
}
const sim::Scenario scen[] = { { "tasks", tasks, 8 }, { "sharing", sharing, 1 } };
const sim::Harness sim::harness = { "C25",
    "a run creates 1-4 tasks through the wrapper (on memory of their own or the kernel's, which may refuse) and has a director and the tasks suspend and resume them in a random schedule; non-trivial when a task was suspended from outside or all came to their end; distinct by hash of the event log",
    "task wrapper (creation with and without storage, names, states, suspend, resume, current), this_thread::yield and get_id of the FreeRTOS port",
    "FreeRTOS kernel (simulated scheduler with pre-emption at every call, one or several cores)",
    "task functions end by deleting their task, as FreeRTOS demands|the experimental thread class (off by default) is left out",
    60000, 3000000, scen, sizeof scen / sizeof *scen, nullptr };
