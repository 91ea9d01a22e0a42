// Simulated FreeRTOS kernel.  Tasks are fibers on one stack switcher; every kernel call is a point where the
// seeded scheduler may let time pass, raise an interrupt or run another task.
#include "kernel.h"
#include <sim.h>
#include <vector>
#include <deque>
#include <memory>
#include <string>
#include <cstring>
#include <algorithm>
#include <map>

using namespace rtos;
typedef uint64_t u64;
static const u64 FOREVER = ~(u64)0;

struct KObj
{
    const char* kind; bool deleted = false, is_static = false; struct Store { void* owner; uint64_t magic; }* store = nullptr;
    explicit KObj(const char* k) : kind(k) {}
    virtual ~KObj() {}
};
enum Why { W_NONE, W_WOKEN, W_TIMEOUT, W_RESUMED };
struct SimTask : KObj
{
    SimTask() : KObj("task") {}
    sim::Fiber* fiber = nullptr; std::string name; unsigned prio = 0; std::function<void()> fn;
    enum St { READY, BLOCKED, SUSPENDED, DONE } st = READY;
    u64 wake = FOREVER, ready_at = 0, blocked_at = 0, waited = 0, seq = 0; std::vector<SimTask*>* list = nullptr; Why why = W_NONE; bool service = false; const void* stack = nullptr; size_t depth = 0;
    struct Note { uint32_t value = 0; enum { IDLE, WAITING, RECEIVED } st = IDLE; } note[configTASK_NOTIFICATION_ARRAY_ENTRIES];
    // event group wait
    EventBits_t want = 0, got = 0; bool all = false, clear = false;
};
struct SimQueue : KObj
{
    SimQueue(const char* k) : KObj(k) {}
    unsigned len = 0, item = 0, count = 0, head = 0; uint8_t* buf = nullptr; std::vector<uint8_t> own;
    enum { QUEUE, SEM, MUTEX, RECURSIVE } type = QUEUE; SimTask* holder = nullptr; unsigned depth = 0;
    std::vector<SimTask*> recv, send; unsigned takes = 0, puts = 0; std::map<SimTask*, Tally> tally;
};
struct SimEvents : KObj { SimEvents() : KObj("event group") {} EventBits_t bits = 0; std::vector<SimTask*> wait; };
struct SimTimer : KObj
{
    SimTimer() : KObj("timer") {}
    const char* name = nullptr; TickType_t period = 0; bool reload = false, active = false; void* id = nullptr; TimerCallbackFunction_t cb = nullptr; u64 expiry = 0;
};
struct Cmd { int cmd; SimTimer* t; TickType_t val; u64 at; PendedFunction_t fn; void* p; uint32_t u; };

namespace {
struct Kernel
{
    Config cfg; u64 now = 0, seq = 0; SimTask* cur = nullptr; bool isr = false; unsigned critical = 0, sched_off = 0, isrs_left = 0;
    std::vector<std::unique_ptr<SimTask>> tasks; std::vector<std::unique_ptr<KObj>> objs; std::vector<SimTimer*> timers;
    std::deque<Cmd> cmds; std::vector<SimTask*> cmd_send, cmd_recv; unsigned cmd_puts = 0; std::map<SimTask*, unsigned> cmd_by; bool in_service = false; SimTask* daemon = nullptr;
    unsigned deny_in = 0, denied = 0; std::function<void()> deadlock; bool running = false, woke_higher = false; u64 slips = 0;
};
Kernel* K;

[[noreturn]] void misuse(const char* what) { sim::fail("kernel-misuse", "FreeRTOS was misused: %s (by %s)", what, K->isr ? "an interrupt" : K->cur ? K->cur->name.c_str() : "the main program"); }

template <class T> T* check(T* o, const char* call)
{
    if(!o) { char b[100]; snprintf(b, sizeof b, "%s on a null handle", call); misuse(b); }
    if(o->deleted) { char b[120]; snprintf(b, sizeof b, "%s on a deleted %s", call, o->kind); misuse(b); }
    if(o->store && (o->store->owner != (void*)o || o->store->magic != 0x5EED5EED5EEDull)) { char b[140]; snprintf(b, sizeof b, "%s: the storage of a %s was overwritten or reused", call, o->kind); misuse(b); }
    return o;
}
void no_isr(const char* call) { if(K->isr) { char b[100]; snprintf(b, sizeof b, "%s called from an interrupt", call); misuse(b); } }
void may_block(const char* call, TickType_t ticks)
{
    no_isr(call);
    if(ticks && (K->critical || K->sched_off)) { char b[120]; snprintf(b, sizeof b, "%s may block inside a critical section", call); misuse(b); }
}
template <class T, class S> void bind_store(T* o, S* s) { if(!s) misuse("creation on null storage"); memset((void*)s, 0, sizeof *s); o->is_static = true; o->store = (KObj::Store*)(void*)s; o->store->owner = o; o->store->magic = 0x5EED5EED5EEDull; }
template <class T> T* add(T* o) { K->objs.emplace_back(o); return o; }
bool refuse() { if(K->deny_in && --K->deny_in == 0) { SIM_FAULT("kernel-out-of-memory"); ++K->denied; return true; } return false; }

void take_off(std::vector<SimTask*>& l, SimTask* t) { l.erase(std::remove(l.begin(), l.end(), t), l.end()); }
void make_ready(SimTask* t, Why w, u64 at)
{
    if(t->list) { take_off(*t->list, t); t->list = nullptr; }
    t->st = SimTask::READY; t->why = w; t->wake = FOREVER; t->ready_at = at; t->seq = ++K->seq;
}
void ticks(u64 n)
{
    K->now += n; sim::advance_time(n * 1000000 / configTICK_RATE_HZ);
    for(;;)   // in order of their deadlines
    {
        SimTask* first = nullptr;
        for(auto& t : K->tasks) if(t->st == SimTask::BLOCKED && t->wake <= K->now && (!first || t->wake < first->wake)) first = t.get();
        if(!first) return;
        make_ready(first, W_TIMEOUT, first->wake);
    }
}
bool fire_isr()
{
    if(!K->isrs_left || !K->cfg.isr || K->critical) return false;
    --K->isrs_left; bool was = K->isr; K->isr = true;
    bool did = K->cfg.isr(); K->isr = was;
    if(did) SIM_FAULT("interrupt"); else K->isrs_left = 0;
    return did;
}
bool runnable(SimTask* t) { return t->st == SimTask::READY; }
bool must_yield()
{
    if(K->critical || K->sched_off) return false;
    bool peer = false;
    for(auto& t : K->tasks)
        if(t.get() != K->cur && runnable(t.get()))
        {
            if(!K->cfg.smp && t->prio > K->cur->prio) return true;
            if(K->cfg.smp || t->prio == K->cur->prio) peer = true;
        }
    if(peer && K->cfg.preempt_num && sim::chance(K->cfg.preempt_num, K->cfg.preempt_den)) { SIM_FAULT("pre-emption"); return true; }
    return false;
}
void pt()
{
    if(K->isr || !K->cur) return;
    sim::step("no-progress");
    if(!K->critical && K->cfg.tick_num && sim::chance(K->cfg.tick_num, K->cfg.tick_den)) { ++K->slips; ticks(sim::chance(1, 6) ? sim::range(2, 6) : 1); }
    if(K->isrs_left && sim::chance(1, 5)) { ++K->slips; fire_isr(); }
    if(must_yield()) { ++K->slips; sim::fiber_switch_main(); }
}
Why block(std::vector<SimTask*>* list, u64 wake)
{
    SimTask* t = K->cur;
    if(K->critical || K->sched_off) misuse("blocking inside a critical section");
    t->st = SimTask::BLOCKED; t->wake = wake; t->list = list; t->why = W_NONE; t->seq = ++K->seq; t->blocked_at = K->now;
    if(list) list->push_back(t);
    SIM_PROBE("blocked");
    sim::fiber_switch_main();
    t->waited += t->ready_at - t->blocked_at;
    if(t->why == W_TIMEOUT) SIM_PROBE("timed-out");
    return t->why;
}
SimTask* wake_one(std::vector<SimTask*>& l)
{
    SimTask* best = nullptr;
    for(auto t : l) if(!best || t->prio > best->prio) best = t;
    if(best) make_ready(best, W_WOKEN, K->now);
    return best;
}
void woken(SimTask* t, BaseType_t* flag) { K->woke_higher = t && K->cur && t->prio > K->cur->prio; if(flag && K->woke_higher) *flag = pdTRUE; }
u64 deadline(TickType_t ticks) { return ticks == portMAX_DELAY ? FOREVER : K->now + ticks; }

void run_timer(SimTimer* t) { check(t, "the timer service"); TimerCallbackFunction_t cb = t->cb; cb(t); }
// a timer due at 'due': its callback for that time and, if it reloads, for every further one up to 'now'
void catch_up(SimTimer* t, u64 due, u64 now)
{
    if(t->reload) for(;;)
    {
        t->expiry = due + t->period;
        if(t->expiry > now) break;
        due = t->expiry; run_timer(t);
    }
    else t->active = false;
    run_timer(t);
}
void service()
{
    for(;;)
    {
        SimTimer* first = nullptr;
        for(auto t : K->timers) if(!t->deleted && t->active) { check(t, "the timer service"); if(!first || t->expiry < first->expiry) first = t; }
        if(first && first->expiry <= K->now)
        {
            catch_up(first, first->expiry, K->now); pt();
        }
        else if(K->cmds.empty()) block(&K->cmd_recv, first ? first->expiry : FOREVER);
        while(!K->cmds.empty())
        {
            Cmd c = K->cmds.front(); K->cmds.pop_front(); wake_one(K->cmd_send);
            if(c.fn) { c.fn(c.p, c.u); pt(); continue; }
            SimTimer* t = check(c.t, "a timer command");
            switch(c.cmd)
            {
                case SIM_TM_START: case SIM_TM_RESET:
                    t->active = true; t->expiry = c.at + t->period;
                    if(t->expiry <= K->now) catch_up(t, t->expiry, K->now);
                    break;
                case SIM_TM_STOP: t->active = false; break;
                case SIM_TM_PERIOD: if(c.val == 0) misuse("a timer period of 0"); t->period = c.val; t->active = true; t->expiry = K->now + c.val; break;
                case SIM_TM_DELETE: t->active = false; t->deleted = true; if(t->store) t->store->magic = 0; t->store = nullptr; break;
            }
            pt();
        }
    }
}
void start_task(SimTask* t)
{
    t->ready_at = K->now; t->seq = ++K->seq;
    t->fiber = sim::fiber_create([t]{ t->fn(); if(!t->deleted) { t->st = SimTask::DONE; } }, 0);
}
void pick_and_run(bool allow_idle)
{
    std::vector<SimTask*> c;
    for(auto& t : K->tasks) if(runnable(t.get())) c.push_back(t.get());
    if(!K->cfg.smp && !c.empty())
    {
        unsigned top = 0; for(auto t : c) top = std::max(top, t->prio);
        c.erase(std::remove_if(c.begin(), c.end(), [&](SimTask* t) { return t->prio < top; }), c.end());
    }
    if(c.empty()) { (void)allow_idle; return; }
    std::sort(c.begin(), c.end(), [](SimTask* a, SimTask* b) { return a->seq < b->seq; });
    SimTask* t = c[c.size() > 1 ? sim::choose(c.size()) : 0];
    K->cur = t; t->seq = ++K->seq;
    sim::log("run %s @%llu", t->name.c_str(), (unsigned long long)(K->now - K->cfg.start_tick));
    sim::fiber_switch(t->fiber);
    K->cur = nullptr;
    if(sim::fiber_done(t->fiber)) t->st = SimTask::DONE;
}
bool any_ready() { for(auto& t : K->tasks) if(runnable(t.get())) return true; return false; }
u64 next_wake() { u64 w = FOREVER; for(auto& t : K->tasks) if(t->st == SimTask::BLOCKED) w = std::min(w, t->wake); return w; }
}

namespace rtos {
void boot(const Config& c)
{
    delete K; K = new Kernel; K->cfg = c; K->now = c.start_tick; K->isrs_left = c.isr ? c.isr_budget : 0;
    SimTask* d = new SimTask; K->tasks.emplace_back(d); d->name = "timer service"; d->prio = c.daemon_priority; d->service = true; d->fn = service; K->daemon = d; start_task(d);
}
TaskHandle_t spawn(const char* name, unsigned prio, std::function<void()> fn)
{
    SimTask* t = new SimTask; K->tasks.emplace_back(t); t->name = name; t->prio = prio; t->fn = std::move(fn); start_task(t); return t;
}
void run()
{
    for(;;)
    {
        bool left = false; for(auto& t : K->tasks) if(!t->service && t->st != SimTask::DONE && !t->deleted) left = true;
        if(!left) return;
        if(any_ready()) { sim::step("no-progress"); pick_and_run(true); continue; }
        u64 w = next_wake();
        if(K->isrs_left && (w == FOREVER || sim::chance(1, 2)) && fire_isr()) continue;
        if(w == FOREVER)
        {
            bool client = false; for(auto& t : K->tasks) if(!t->service && (t->st == SimTask::BLOCKED || t->st == SimTask::SUSPENDED)) client = true;
            if(K->isrs_left) { if(fire_isr()) continue; }
            if(client)
            {
                std::string who; for(auto& t : K->tasks) if(!t->service && t->st != SimTask::DONE) who += t->name + " ";
                if(K->deadlock) { K->deadlock(); return; }
                sim::fail("waits-for-ever", "nothing can run any more; still waiting: %s", who.c_str());
            }
            return;
        }
        sim::step("no-progress");
        ticks(w - K->now);
    }
}
void settle(u64 n)
{
    u64 end = K->now + n;
    for(;;)
    {
        if(any_ready()) { sim::step("no-progress"); pick_and_run(true); continue; }
        u64 w = next_wake();
        if(w > end) { ticks(end - K->now); return; }
        ticks(w - K->now);
    }
}
void point() { pt(); }
void busy(unsigned n) { while(n--) { if(!K->critical) ticks(1); pt(); } }
u64 now() { return K->now; }
u64 ready_at() { return K->cur ? K->cur->ready_at : 0; }
bool in_isr() { return K->isr; }
size_t objects() { size_t n = 0; for(auto& o : K->objs) n += !o->deleted; return n; }
void deny(unsigned nth) { K->deny_in = nth; }
unsigned denied() { return K->denied; }
void on_deadlock(std::function<void()> f) { K->deadlock = f; }
bool blocked(TaskHandle_t t) { return t->st == SimTask::BLOCKED; }
bool suspended(TaskHandle_t t) { return t->st == SimTask::SUSPENDED; }
const void* stack(TaskHandle_t t) { return t->stack; }
size_t stack_depth(TaskHandle_t t) { return t->depth; }
bool finished(TaskHandle_t t) { return t->st == SimTask::DONE; }
u64 waited() { return K->cur ? K->cur->waited : 0; }
u64 blocked_at() { return K->cur ? K->cur->blocked_at : 0; }
TaskHandle_t holder(QueueHandle_t q) { return q->holder; }
unsigned depth(QueueHandle_t q) { return q->holder ? q->depth : 0; }
unsigned count(QueueHandle_t q) { return q->count; }
unsigned capacity(QueueHandle_t q) { return q->len; }
unsigned takes(QueueHandle_t q) { return q->takes; }
unsigned puts(QueueHandle_t q) { return q->puts; }
Tally& tally(QueueHandle_t q) { return q->tally[K->isr ? nullptr : K->cur]; }
void interrupt(std::function<void()> f) { bool was = K->isr; K->isr = true; f(); K->isr = was; SIM_FAULT("interrupt"); if(!was) pt(); }
EventBits_t bits(EventGroupHandle_t g) { return g->bits; }
unsigned commands() { return unsigned(K->cmds.size()); }
unsigned commands_put() { return K->cmd_puts; }
unsigned commands_by_me() { return K->cmd_by[K->isr ? nullptr : K->cur]; }
bool service_idle()
{
    if(!K->cmds.empty() || K->daemon->st != SimTask::BLOCKED) return false;
    for(auto t : K->timers) if(!t->deleted && t->active && t->expiry <= K->now) return false;
    return true;
}
unsigned notified(TaskHandle_t t, unsigned slot) { return t->note[slot].value; }
bool woke_higher() { return K->woke_higher; }
u64 slips() { return K->slips; }
unsigned waiting_on(const void* o) { unsigned n = 0; for(auto& x : K->objs) if(x.get() == o) { if(SimQueue* q = dynamic_cast<SimQueue*>(x.get())) n = q->recv.size() + q->send.size(); else if(SimEvents* e = dynamic_cast<SimEvents*>(x.get())) n = e->wait.size(); } return n; }
}

extern "C" {
void sim_rtos_misuse(const char* what) { misuse(what); }
int sim_rtos_in_isr(void) { return K->isr; }
void sim_rtos_critical(int enter) { if(enter) ++K->critical; else { if(!K->critical) misuse("leaving a critical section that was not entered"); if(!--K->critical) pt(); } }

// ---- tasks ------------------------------------------------------------------------------------
static void nothing() {}
BaseType_t xTaskCreate(TaskFunction_t fn, const char* name, configSTACK_DEPTH_TYPE, void* arg, UBaseType_t prio, TaskHandle_t* out)
{
    no_isr("xTaskCreate"); (void)nothing;
    if(refuse()) return pdFAIL;
    TaskHandle_t t = spawn(name ? name : "task", unsigned(prio), [fn, arg]{ fn(arg); misuse("a task function returned"); });
    if(out) *out = t;
    pt(); return pdPASS;
}
TaskHandle_t xTaskCreateStatic(TaskFunction_t fn, const char* name, uint32_t depth, void* arg, UBaseType_t prio, StackType_t* stack, StaticTask_t* tcb)
{
    no_isr("xTaskCreateStatic"); if(!stack || !tcb) misuse("xTaskCreateStatic without storage");
    memset((void*)stack, 0xA5, depth * sizeof(StackType_t));     // as the kernel does: the whole stack is its own
    TaskHandle_t t = spawn(name ? name : "task", unsigned(prio), [fn, arg]{ fn(arg); misuse("a task function returned"); });
    bind_store(t, tcb); t->stack = stack; t->depth = depth;
    pt(); return t;
}
void vTaskDelete(TaskHandle_t t)
{
    no_isr("vTaskDelete");
    if(!t) t = K->cur;
    check(t, "vTaskDelete");
    if(t->list) take_off(*t->list, t);
    t->list = nullptr; t->st = SimTask::DONE; t->deleted = true; t->wake = FOREVER;
    if(t->store) t->store->magic = 0;
    t->store = nullptr;
    if(t == K->cur) sim::fiber_switch_main(); else pt();
}
void vTaskDelay(TickType_t n)
{
    may_block("vTaskDelay", n);
    pt();
    if(n) block(nullptr, K->now + n); else sim_task_yield();    // portMAX_DELAY is not for ever here
}
BaseType_t xTaskDelayUntil(TickType_t* last, TickType_t inc)
{
    may_block("xTaskDelayUntil", inc); pt();
    TickType_t due = *last + inc; *last = due; int32_t d = int32_t(due - TickType_t(K->now));
    if(d <= 0) return pdFALSE;
    block(nullptr, K->now + uint32_t(d)); return pdTRUE;
}
TickType_t xTaskGetTickCount(void) { pt(); return TickType_t(K->now); }
TickType_t xTaskGetTickCountFromISR(void) { return TickType_t(K->now); }
TaskHandle_t xTaskGetCurrentTaskHandle(void) { return K->cur; }
const char* pcTaskGetName(TaskHandle_t t) { return check(t ? t : K->cur, "pcTaskGetName")->name.c_str(); }
UBaseType_t uxTaskPriorityGet(TaskHandle_t t) { return check(t ? t : K->cur, "uxTaskPriorityGet")->prio; }
void vTaskSuspend(TaskHandle_t t)
{
    no_isr("vTaskSuspend"); pt();
    if(!t) t = K->cur;
    check(t, "vTaskSuspend");
    if(t->list) { take_off(*t->list, t); t->list = nullptr; }
    for(auto& n : t->note) if(n.st == SimTask::Note::WAITING) n.st = SimTask::Note::IDLE;
    t->st = SimTask::SUSPENDED; t->wake = FOREVER;
    if(t == K->cur) sim::fiber_switch_main(); else pt();
}
void vTaskResume(TaskHandle_t t)
{
    no_isr("vTaskResume"); check(t, "vTaskResume");
    if(t->st == SimTask::SUSPENDED) make_ready(t, W_RESUMED, K->now);
    pt();
}
eTaskState eTaskGetState(TaskHandle_t t)
{
    if(!t) misuse("eTaskGetState on a null handle");
    pt();
    if(t == K->cur) return eRunning;
    if(t->deleted || t->st == SimTask::DONE) return eDeleted;
    if(t->st == SimTask::SUSPENDED) return eSuspended;
    if(t->st == SimTask::BLOCKED) return t->wake == FOREVER && !t->list ? eSuspended : eBlocked;
    return eReady;
}
void sim_task_yield(void) { if(!K->isr && K->cur && !K->critical && !K->sched_off) { pt(); sim::fiber_switch_main(); } }
void vTaskSuspendAll(void) { ++K->sched_off; }
BaseType_t xTaskResumeAll(void) { if(!K->sched_off) misuse("xTaskResumeAll without vTaskSuspendAll"); if(!--K->sched_off) pt(); return pdTRUE; }
BaseType_t xTaskAbortDelay(TaskHandle_t t) { check(t, "xTaskAbortDelay"); if(t->st != SimTask::BLOCKED) return pdFAIL; make_ready(t, W_RESUMED, K->now); return pdPASS; }
BaseType_t xTaskGetSchedulerState(void) { return K->sched_off ? taskSCHEDULER_SUSPENDED : taskSCHEDULER_RUNNING; }
void vTaskSetTimeOutState(TimeOut_t* t) { t->overflow = 0; t->entered = TickType_t(K->now); }
BaseType_t xTaskCheckForTimeOut(TimeOut_t* t, TickType_t* left)
{
    pt();
    if(*left == portMAX_DELAY) return pdFALSE;
    TickType_t el = TickType_t(K->now) - t->entered;
    if(el < *left) { *left -= el; vTaskSetTimeOutState(t); return pdFALSE; }
    *left = 0; return pdTRUE;
}

// ---- notifications ------------------------------------------------------------------------------
BaseType_t sim_task_notify(TaskHandle_t t, UBaseType_t i, uint32_t v, eNotifyAction a, int isr, BaseType_t* w)
{
    if(!isr) { no_isr("xTaskNotify"); pt(); } else K->woke_higher = false;
    check(t, "a notification"); if(i >= configTASK_NOTIFICATION_ARRAY_ENTRIES) misuse("notification index out of range");
    auto& n = t->note[i]; auto was = n.st; BaseType_t r = pdPASS; n.st = SimTask::Note::RECEIVED;
    switch(a)
    {
        case eSetBits: n.value |= v; break;
        case eIncrement: n.value++; break;
        case eSetValueWithOverwrite: n.value = v; break;
        case eSetValueWithoutOverwrite: if(was != SimTask::Note::RECEIVED) n.value = v; else r = pdFAIL; break;
        case eNoAction: break;
    }
    if(was == SimTask::Note::WAITING) { make_ready(t, W_WOKEN, K->now); woken(t, w); }
    if(!isr) pt();
    return r;
}
uint32_t sim_notify_take(UBaseType_t i, BaseType_t clear, TickType_t n)
{
    may_block("ulTaskNotifyTake", n); pt();
    auto& e = K->cur->note[i];
    if(e.value == 0) { e.st = SimTask::Note::WAITING; if(n) block(nullptr, deadline(n)); }
    uint32_t r = e.value; if(r) e.value = clear ? 0 : r - 1;
    e.st = SimTask::Note::IDLE; return r;
}
BaseType_t sim_notify_wait(UBaseType_t i, uint32_t ce, uint32_t cx, uint32_t* v, TickType_t n)
{
    may_block("xTaskNotifyWait", n); pt();
    auto& e = K->cur->note[i];
    if(e.st != SimTask::Note::RECEIVED) { e.value &= ~ce; e.st = SimTask::Note::WAITING; if(n) block(nullptr, deadline(n)); }
    if(v) *v = e.value;
    BaseType_t r = pdFALSE; if(e.st == SimTask::Note::RECEIVED) { e.value &= ~cx; r = pdTRUE; }
    e.st = SimTask::Note::IDLE; return r;
}
uint32_t sim_notify_value_clear(TaskHandle_t t, UBaseType_t i, uint32_t bits) { pt(); auto& e = check(t ? t : K->cur, "ulTaskNotifyValueClear")->note[i]; uint32_t r = e.value; e.value &= ~bits; return r; }
BaseType_t sim_notify_state_clear(TaskHandle_t t, UBaseType_t i) { pt(); auto& e = check(t ? t : K->cur, "xTaskNotifyStateClear")->note[i]; bool r = e.st == SimTask::Note::RECEIVED; if(r) e.st = SimTask::Note::IDLE; return r; }

// ---- queues -------------------------------------------------------------------------------------
static SimQueue* make_queue(const char* kind, unsigned len, unsigned item, uint8_t* storage, StaticQueue_t* st, bool dyn)
{
    no_isr(kind);
    if(!len) misuse("a queue of length 0");
    if(dyn && refuse()) return nullptr;
    SimQueue* q = add(new SimQueue(kind)); q->len = len; q->item = item;
    if(dyn) { q->own.resize(size_t(len) * item); q->buf = q->own.data(); }
    else { bind_store(q, st); q->buf = storage; if(item && !storage) misuse("a static queue without storage"); }
    return q;
}
QueueHandle_t xQueueCreate(UBaseType_t len, UBaseType_t item) { return make_queue("queue", len, item, nullptr, nullptr, true); }
QueueHandle_t xQueueCreateStatic(UBaseType_t len, UBaseType_t item, uint8_t* s, StaticQueue_t* q) { return make_queue("queue", len, item, s, q, false); }
void vQueueDelete(QueueHandle_t q)
{
    no_isr("vQueueDelete"); pt(); check(q, "deletion");
    if(!q->recv.empty() || !q->send.empty()) { char b[100]; snprintf(b, sizeof b, "deleting a %s on which tasks wait", q->kind); misuse(b); }
    q->deleted = true; if(q->store) q->store->magic = 0; q->store = nullptr; sim::log("delete %s", q->kind);
}
static void put(SimQueue* q, const void* p, int where)
{
    q->puts++; tally(q).gave++;
    if(where == 2 && q->count == q->len) { if(q->len != 1) misuse("overwriting in a queue longer than 1"); memcpy(q->buf, p, q->item); return; }
    unsigned at; if(where == 1) { q->head = (q->head + q->len - 1) % q->len; at = q->head; } else at = (q->head + q->count) % q->len;
    if(q->item) memcpy(q->buf + size_t(at) * q->item, p, q->item);
    q->count++;
}
static void get(SimQueue* q, void* p, bool remove)
{
    if(q->item) memcpy(p, q->buf + size_t(q->head) * q->item, q->item);
    if(remove) { q->head = (q->head + 1) % q->len; q->count--; q->takes++; tally(q).took++; }
}
static BaseType_t send(SimQueue* q, const void* p, TickType_t n, int where)
{
    u64 end = deadline(n); bool first = true;
    for(;;)
    {
        check(q, "sending");
        if(q->count < q->len || where == 2) { put(q, p, where); wake_one(q->recv); pt(); return pdPASS; }
        if(n == 0) return errQUEUE_FULL;
        if(first) { end = deadline(n); first = false; }
        if(K->now >= end) return errQUEUE_FULL;
        block(&q->send, end);
    }
}
static BaseType_t receive(SimQueue* q, void* p, TickType_t n, bool remove)
{
    u64 end = 0; bool first = true;
    for(;;)
    {
        check(q, "receiving");
        if(q->count) { get(q, p, remove); if(remove) wake_one(q->send); else wake_one(q->recv); pt(); return pdPASS; }
        if(n == 0) return errQUEUE_EMPTY;
        if(first) { end = deadline(n); first = false; }
        if(K->now >= end) return errQUEUE_EMPTY;
        block(&q->recv, end);
    }
}
BaseType_t sim_queue_send(QueueHandle_t q, const void* p, TickType_t n, int where) { may_block("xQueueSend", n); pt(); return send(check(q, "xQueueSend"), p, n, where); }
BaseType_t sim_queue_send_isr(QueueHandle_t q, const void* p, BaseType_t* w, int where)
{
    check(q, "xQueueSendFromISR"); K->woke_higher = false;
    if(q->count >= q->len && where != 2) return errQUEUE_FULL;
    put(q, p, where); woken(wake_one(q->recv), w); return pdPASS;
}
BaseType_t xQueueReceive(QueueHandle_t q, void* p, TickType_t n) { may_block("xQueueReceive", n); pt(); return receive(check(q, "xQueueReceive"), p, n, true); }
BaseType_t xQueuePeek(QueueHandle_t q, void* p, TickType_t n) { may_block("xQueuePeek", n); pt(); return receive(check(q, "xQueuePeek"), p, n, false); }
BaseType_t xQueuePeekFromISR(QueueHandle_t q, void* p) { check(q, "xQueuePeekFromISR"); if(!q->count) return pdFAIL; get(q, p, false); return pdPASS; }
BaseType_t xQueueReceiveFromISR(QueueHandle_t q, void* p, BaseType_t* w) { check(q, "xQueueReceiveFromISR"); if(!q->count) return pdFAIL; get(q, p, true); woken(wake_one(q->send), w); return pdPASS; }
UBaseType_t uxQueueMessagesWaiting(QueueHandle_t q) { no_isr("uxQueueMessagesWaiting"); pt(); return check(q, "uxQueueMessagesWaiting")->count; }
UBaseType_t uxQueueMessagesWaitingFromISR(QueueHandle_t q) { return check(q, "uxQueueMessagesWaitingFromISR")->count; }
BaseType_t xQueueIsQueueFullFromISR(QueueHandle_t q) { return check(q, "xQueueIsQueueFullFromISR")->count == q->len; }
BaseType_t xQueueIsQueueEmptyFromISR(QueueHandle_t q) { return check(q, "xQueueIsQueueEmptyFromISR")->count == 0; }
UBaseType_t uxQueueSpacesAvailable(QueueHandle_t q) { pt(); check(q, "uxQueueSpacesAvailable"); return q->len - q->count; }
BaseType_t xQueueReset(QueueHandle_t q) { pt(); check(q, "xQueueReset"); q->count = 0; q->head = 0; wake_one(q->send); return pdPASS; }
BaseType_t xQueueGetStaticBuffers(QueueHandle_t q, uint8_t** s, StaticQueue_t** b) { check(q, "xQueueGetStaticBuffers"); if(!q->is_static) return pdFALSE; if(s) *s = q->buf; *b = (StaticQueue_t*)(void*)q->store; return pdTRUE; }

// ---- semaphores and mutexes ----------------------------------------------------------------------
static SimQueue* make_sem(const char* kind, unsigned max, unsigned initial, StaticSemaphore_t* st, bool dyn, int type)
{
    if(initial > max) misuse("a semaphore with more permits than its maximum");
    SimQueue* q = make_queue(kind, max, 0, nullptr, st, dyn); if(!q) return nullptr;
    q->type = decltype(q->type)(type); q->count = initial; return q;
}
SemaphoreHandle_t xSemaphoreCreateBinary(void) { return make_sem("binary semaphore", 1, 0, nullptr, true, SimQueue::SEM); }
SemaphoreHandle_t xSemaphoreCreateBinaryStatic(StaticSemaphore_t* s) { return make_sem("binary semaphore", 1, 0, s, false, SimQueue::SEM); }
SemaphoreHandle_t xSemaphoreCreateCounting(UBaseType_t m, UBaseType_t i) { return make_sem("semaphore", m, i, nullptr, true, SimQueue::SEM); }
SemaphoreHandle_t xSemaphoreCreateCountingStatic(UBaseType_t m, UBaseType_t i, StaticSemaphore_t* s) { return make_sem("semaphore", m, i, s, false, SimQueue::SEM); }
SemaphoreHandle_t xSemaphoreCreateMutex(void) { return make_sem("mutex", 1, 1, nullptr, true, SimQueue::MUTEX); }
SemaphoreHandle_t xSemaphoreCreateMutexStatic(StaticSemaphore_t* s) { return make_sem("mutex", 1, 1, s, false, SimQueue::MUTEX); }
SemaphoreHandle_t xSemaphoreCreateRecursiveMutex(void) { return make_sem("recursive mutex", 1, 1, nullptr, true, SimQueue::RECURSIVE); }
SemaphoreHandle_t xSemaphoreCreateRecursiveMutexStatic(StaticSemaphore_t* s) { return make_sem("recursive mutex", 1, 1, s, false, SimQueue::RECURSIVE); }
// the permit goes before the switch to whoever it wakes, so the holder is set at the same moment as the count
static BaseType_t take(SimQueue* q, TickType_t n)
{
    u64 end = 0; bool first = true;
    for(;;)
    {
        check(q, "taking");
        if(q->count) { q->count--; q->takes++; tally(q).took++; if(q->type != SimQueue::SEM) { q->holder = K->cur; q->depth = 1; } pt(); return pdPASS; }
        if(n == 0) return errQUEUE_EMPTY;
        if(first) { end = deadline(n); first = false; }
        if(K->now >= end) return errQUEUE_EMPTY;
        block(&q->recv, end);
    }
}
BaseType_t xSemaphoreTake(SemaphoreHandle_t q, TickType_t n)
{
    may_block("xSemaphoreTake", n); pt(); check(q, "xSemaphoreTake");
    if(q->type == SimQueue::QUEUE) misuse("xSemaphoreTake on a queue");
    if(q->type == SimQueue::RECURSIVE) misuse("xSemaphoreTake on a recursive mutex");
    return take(q, n);
}
BaseType_t xSemaphoreGive(SemaphoreHandle_t q)
{
    no_isr("xSemaphoreGive"); pt(); check(q, "xSemaphoreGive");
    if(q->type == SimQueue::RECURSIVE) misuse("xSemaphoreGive on a recursive mutex");
    if(q->count >= q->len) { tally(q).refused++; return errQUEUE_FULL; }
    if(q->type == SimQueue::MUTEX) { if(q->holder != K->cur) misuse("a mutex was given by a task that does not hold it"); q->holder = nullptr; }
    q->count++; tally(q).gave++; wake_one(q->recv); pt(); return pdPASS;
}
BaseType_t xSemaphoreTakeRecursive(SemaphoreHandle_t q, TickType_t n)
{
    may_block("xSemaphoreTakeRecursive", n); pt(); check(q, "xSemaphoreTakeRecursive");
    if(q->type != SimQueue::RECURSIVE) misuse("xSemaphoreTakeRecursive on something else");
    if(q->holder == K->cur) { q->depth++; q->takes++; tally(q).took++; return pdPASS; }
    return take(q, n);
}
BaseType_t xSemaphoreGiveRecursive(SemaphoreHandle_t q)
{
    no_isr("xSemaphoreGiveRecursive"); pt(); check(q, "xSemaphoreGiveRecursive");
    if(q->type != SimQueue::RECURSIVE) misuse("xSemaphoreGiveRecursive on something else");
    if(q->holder != K->cur) { tally(q).refused++; return pdFAIL; }
    tally(q).gave++;
    if(--q->depth == 0) { q->holder = nullptr; q->count++; wake_one(q->recv); pt(); }
    return pdPASS;
}
BaseType_t xSemaphoreGiveFromISR(SemaphoreHandle_t q, BaseType_t* w)
{
    check(q, "xSemaphoreGiveFromISR"); if(q->type != SimQueue::SEM) misuse("xSemaphoreGiveFromISR on a mutex");
    K->woke_higher = false;
    if(q->count >= q->len) { tally(q).refused++; return errQUEUE_FULL; }
    q->count++; tally(q).gave++; woken(wake_one(q->recv), w); return pdPASS;
}
BaseType_t xSemaphoreTakeFromISR(SemaphoreHandle_t q, BaseType_t*)
{
    check(q, "xSemaphoreTakeFromISR"); if(q->type != SimQueue::SEM) misuse("xSemaphoreTakeFromISR on a mutex");
    if(!q->count) return pdFAIL;
    q->count--; q->takes++; tally(q).took++; return pdPASS;
}
UBaseType_t uxSemaphoreGetCount(SemaphoreHandle_t q) { pt(); return check(q, "uxSemaphoreGetCount")->count; }
TaskHandle_t xSemaphoreGetMutexHolder(SemaphoreHandle_t q) { pt(); return check(q, "xSemaphoreGetMutexHolder")->holder; }
void vSemaphoreDelete(SemaphoreHandle_t q) { vQueueDelete(q); }

// ---- event groups -------------------------------------------------------------------------------
EventGroupHandle_t xEventGroupCreate(void) { if(refuse()) return nullptr; return add(new SimEvents); }
EventGroupHandle_t xEventGroupCreateStatic(StaticEventGroup_t* s) { SimEvents* e = add(new SimEvents); bind_store(e, s); return e; }
void vEventGroupDelete(EventGroupHandle_t g)
{
    no_isr("vEventGroupDelete"); pt(); check(g, "deletion"); if(!g->wait.empty()) misuse("deleting an event group on which tasks wait");
    g->deleted = true; if(g->store) g->store->magic = 0; g->store = nullptr; sim::log("delete event group");
}
static bool met(EventBits_t have, EventBits_t want, bool all) { return all ? (have & want) == want : (have & want) != 0; }
static EventBits_t set_bits(SimEvents* g, EventBits_t b)
{
    g->bits |= b; EventBits_t clear = 0; auto w = g->wait;
    for(auto t : w) if(met(g->bits, t->want, t->all)) { t->got = g->bits; if(t->clear) clear |= t->want; make_ready(t, W_WOKEN, K->now); }
    g->bits &= ~clear; return g->bits;
}
static void no_control(EventBits_t b) { if(b & 0xff000000u) misuse("event bits above the lowest 24"); }
EventBits_t xEventGroupWaitBits(EventGroupHandle_t g, EventBits_t want, BaseType_t clear, BaseType_t all, TickType_t n)
{
    may_block("xEventGroupWaitBits", n); pt(); check(g, "xEventGroupWaitBits"); no_control(want); if(!want) misuse("waiting for no event bits");
    EventBits_t cur = g->bits;
    if(met(cur, want, all)) { if(clear) g->bits &= ~want; pt(); return cur; }
    if(!n) return cur;
    K->cur->want = want; K->cur->all = all; K->cur->clear = clear;
    Why w = block(&g->wait, deadline(n)); check(g, "xEventGroupWaitBits");
    if(w == W_WOKEN) return K->cur->got;
    cur = g->bits; if(met(cur, want, all) && clear) g->bits &= ~want;
    return cur;
}
EventBits_t xEventGroupSetBits(EventGroupHandle_t g, EventBits_t b) { no_isr("xEventGroupSetBits"); pt(); check(g, "xEventGroupSetBits"); no_control(b); EventBits_t r = set_bits(g, b); pt(); return r; }
EventBits_t xEventGroupClearBits(EventGroupHandle_t g, EventBits_t b) { no_isr("xEventGroupClearBits"); pt(); check(g, "xEventGroupClearBits"); no_control(b); EventBits_t r = g->bits; g->bits &= ~b; return r; }
EventBits_t sim_event_bits(EventGroupHandle_t g) { return check(g, "xEventGroupGetBitsFromISR")->bits; }
static void late_set(void* g, uint32_t b) { set_bits(check((SimEvents*)g, "deferred xEventGroupSetBits"), b); }
static void late_clear(void* g, uint32_t b) { check((SimEvents*)g, "deferred xEventGroupClearBits")->bits &= ~b; }
BaseType_t xEventGroupClearBitsFromISR(EventGroupHandle_t g, EventBits_t b) { check(g, "xEventGroupClearBitsFromISR"); no_control(b); return xTimerPendFunctionCallFromISR(late_clear, g, b, NULL); }
BaseType_t xEventGroupSetBitsFromISR(EventGroupHandle_t g, EventBits_t b, BaseType_t* w) { check(g, "xEventGroupSetBitsFromISR"); no_control(b); return xTimerPendFunctionCallFromISR(late_set, g, b, w); }
EventBits_t xEventGroupSync(EventGroupHandle_t g, EventBits_t set, EventBits_t want, TickType_t n)
{
    may_block("xEventGroupSync", n); pt(); check(g, "xEventGroupSync"); no_control(want); if(!want) misuse("waiting for no event bits");
    EventBits_t orig = g->bits; set_bits(g, set);
    if(((orig | set) & want) == want) { EventBits_t r = orig | set; g->bits &= ~want; pt(); return r; }
    if(!n) return g->bits;
    K->cur->want = want; K->cur->all = true; K->cur->clear = true;
    Why w = block(&g->wait, deadline(n)); check(g, "xEventGroupSync");
    if(w == W_WOKEN) return K->cur->got;
    EventBits_t cur = g->bits; if((cur & want) == want) g->bits &= ~want;
    return cur;
}

// ---- timers -------------------------------------------------------------------------------------
static SimTimer* make_timer(const char* name, TickType_t p, UBaseType_t reload, void* id, TimerCallbackFunction_t cb)
{
    if(!p) misuse("a timer period of 0");
    SimTimer* t = add(new SimTimer); t->name = name; t->period = p; t->reload = reload; t->id = id; t->cb = cb; K->timers.push_back(t); return t;
}
TimerHandle_t xTimerCreate(const char* n, TickType_t p, UBaseType_t r, void* id, TimerCallbackFunction_t cb) { if(refuse()) return nullptr; return make_timer(n, p, r, id, cb); }
TimerHandle_t xTimerCreateStatic(const char* n, TickType_t p, UBaseType_t r, void* id, TimerCallbackFunction_t cb, StaticTimer_t* s) { SimTimer* t = make_timer(n, p, r, id, cb); bind_store(t, s); return t; }
static BaseType_t post(Cmd c, TickType_t n, int isr, BaseType_t* w)
{
    if(!isr) { may_block("a timer command", n); pt(); }
    u64 end = 0; bool first = true;
    for(;;)
    {
        if(c.t) { check(c.t, "a timer command"); }
        if(K->cmds.size() < K->cfg.command_queue) { if(isr || first) c.at = K->now; K->cmds.push_back(c); K->cmd_puts++; K->cmd_by[K->isr ? nullptr : K->cur]++; woken(wake_one(K->cmd_recv), w); if(!isr) pt(); return pdPASS; }
        if(isr || !n) { SIM_FAULT("command-queue-full"); return pdFAIL; }
        if(first) { c.at = K->now; end = deadline(n); first = false; }
        if(K->now >= end) { SIM_FAULT("command-queue-full"); return pdFAIL; }
        block(&K->cmd_send, end);
    }
}
BaseType_t sim_timer_cmd(TimerHandle_t t, int cmd, TickType_t val, TickType_t n, int isr, BaseType_t* w) { check(t, "a timer command"); Cmd c = { cmd, t, val, 0, nullptr, nullptr, 0 }; return post(c, n, isr, w); }
BaseType_t xTimerPendFunctionCall(PendedFunction_t f, void* p, uint32_t u, TickType_t n) { Cmd c = { 0, nullptr, 0, 0, f, p, u }; return post(c, n, 0, nullptr); }
BaseType_t xTimerPendFunctionCallFromISR(PendedFunction_t f, void* p, uint32_t u, BaseType_t* w) { Cmd c = { 0, nullptr, 0, 0, f, p, u }; return post(c, 0, 1, w); }
TaskHandle_t xTimerGetTimerDaemonTaskHandle(void) { return K->daemon; }
void vTimerSetTimerID(TimerHandle_t t, void* id) { pt(); check(t, "vTimerSetTimerID")->id = id; }
void* pvTimerGetTimerID(TimerHandle_t t) { pt(); return check(t, "pvTimerGetTimerID")->id; }
const char* pcTimerGetName(TimerHandle_t t) { return check(t, "pcTimerGetName")->name; }
TickType_t xTimerGetExpiryTime(TimerHandle_t t) { pt(); return TickType_t(check(t, "xTimerGetExpiryTime")->expiry); }
TickType_t xTimerGetPeriod(TimerHandle_t t) { return check(t, "xTimerGetPeriod")->period; }
BaseType_t xTimerIsTimerActive(TimerHandle_t t) { pt(); return check(t, "xTimerIsTimerActive")->active; }
void vTimerSetReloadMode(TimerHandle_t t, UBaseType_t r) { pt(); check(t, "vTimerSetReloadMode")->reload = r; }
UBaseType_t uxTimerGetReloadMode(TimerHandle_t t) { pt(); return check(t, "uxTimerGetReloadMode")->reload; }
}
