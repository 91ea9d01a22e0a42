// Simulated FreeRTOS kernel: what harnesses use to set up and drive it.
#pragma once
#include "FreeRTOS.h"
#include "task.h"
#include "queue.h"
#include "semphr.h"
#include "event_groups.h"
#include "timers.h"
#include <functional>

namespace rtos {
struct Config
{
    uint64_t start_tick = 0;         // shown to the code as its low 32 bits
    bool smp = false;                // any ready task may run at any point (several cores); otherwise by priority
    unsigned daemon_priority = 7;    // timer service
    unsigned command_queue = 4;
    unsigned isr_budget = 0;         // interrupts that may be injected
    std::function<bool()> isr;       // one interrupt; false: nothing left to do
    unsigned tick_num = 1, tick_den = 8;      // chance that a kernel call takes a tick
    unsigned preempt_num = 1, preempt_den = 3;
};
void boot(const Config&);                    // once per run, first
TaskHandle_t spawn(const char* name, unsigned priority, std::function<void()> fn);
void run();                                  // until every spawned task has finished
void settle(uint64_t ticks);                 // let the timer service work on for a while (from the main stack)
void point();                                // pre-emption point
void busy(unsigned ticks);                   // compute for so long (pre-emptible)
uint64_t now();                              // ticks since boot, never wraps
uint64_t ready_at();                         // when the running task last became ready
bool in_isr();
size_t objects();                            // kernel objects created and not yet deleted
void deny(unsigned nth);                     // the nth dynamic creation from now fails (0: none)
unsigned denied();                           // how many creations were denied
void on_deadlock(std::function<void()>);     // nothing can ever run again
bool blocked(TaskHandle_t);
bool finished(TaskHandle_t);
bool suspended(TaskHandle_t);
const void* stack(TaskHandle_t);             // what it was created with
size_t stack_depth(TaskHandle_t);            // in words
unsigned waiting_on(const void* kernel_object);
uint64_t blocked_at();                       // when the running task last began to wait
uint64_t waited();                           // how long the running task has waited so far, all waits together
TaskHandle_t holder(QueueHandle_t);          // of a mutex
unsigned depth(QueueHandle_t);               // of a recursive mutex
unsigned count(QueueHandle_t);               // permits, messages
unsigned capacity(QueueHandle_t);
unsigned takes(QueueHandle_t);               // successful so far, by anyone
unsigned puts(QueueHandle_t);                // messages sent so far, by anyone
struct Tally { unsigned took = 0, gave = 0, refused = 0; };
Tally& tally(QueueHandle_t);                 // by the running task (or by interrupts, from one)
bool woke_higher();                          // the last call from an interrupt readied a task above the running one
void interrupt(std::function<void()>);       // one, now
EventBits_t bits(EventGroupHandle_t);
unsigned commands();                         // waiting for the timer service
unsigned commands_put();                     // accepted so far
unsigned commands_by_me();                   // of those by the running task (or by interrupts, from one)
bool service_idle();                         // the timer service has done all it has to do for now
unsigned notified(TaskHandle_t, unsigned slot);  // value, without taking it
uint64_t slips();                            // times the clock moved or another context ran, other than by waiting
}
