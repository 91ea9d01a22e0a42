// Deterministic-simulation core.  Everything a harness decides at random goes through
// sim::choose(); the sequence of those decisions (the "tape") is the execution.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdarg>
#include <functional>

namespace sim {

// ---- decisions -----------------------------------------------------------------
// 0..n-1.  By convention 0 is the simplest outcome (no fault, keep running, stop): a tape
// that has run out yields 0 for ever, which is what lets the minimiser cut it short.
uint32_t choose(uint32_t n);
inline uint32_t range(uint32_t lo, uint32_t hi) { return lo + choose(hi - lo + 1); }
// true with probability num/den; a zero tape entry means false
bool chance(uint32_t num, uint32_t den);
template <class T, size_t N> const T& pick(const T (&a)[N]) { return a[choose(N)]; }
bool tape_done();            // replay tape exhausted (always false while recording)

// ---- faults / probes / coverage -------------------------------------------------
int  register_counter(const char* kind, const char* name);
void bump(int idx, uint64_t by = 1);
#define SIM_FAULT(name) do { static int sim_i_ = ::sim::register_counter("fault", name); ::sim::bump(sim_i_); ::sim::log("fault %s", name); ::sim::nontrivial(); } while(0)
#define SIM_PROBE(name) do { static int sim_i_ = ::sim::register_counter("probe", name); ::sim::bump(sim_i_); } while(0)
void state(uint64_t h);      // reached abstract state (distinct ones are counted)
void nontrivial();           // this run exercised a fault or an interleaving point
void advance_time(uint64_t us);  // simulated time covered
uint64_t mix(uint64_t a, uint64_t b);
uint64_t hash_bytes(const void* p, size_t n, uint64_t h = 1469598103934665603ull);

// ---- log / verdict ----------------------------------------------------------------
void log(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
bool tracing();
[[noreturn]] void fail(const char* key, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
#define SIM_CHECK(cond, key, ...) do { if(!(cond)) ::sim::fail(key, __VA_ARGS__); } while(0)
// bounded work: every seam calls this; exceeding the bound is the violation `key`
void step(const char* key_if_exceeded = "no-progress");
void step_limit(uint64_t n);
[[noreturn]] void end_run(); // legal early end of a run from any stack

// ---- harness definition -------------------------------------------------------------
struct Scenario { const char* name; void (*run)(); uint32_t weight; };
struct Known { const char* key; const char* text; void (*probe)(); };
struct Harness {
    const char* property;
    const char* rule;
    const char* real_components;
    const char* stub_components;
    const char* assumptions;        // '|' separated
    uint64_t quick_runs, thorough_runs;
    const Scenario* scenarios; size_t n_scenarios;
    void (*reset)();                 // reset harness globals before each run
};
extern const Harness harness;      // defined by each harness

// ---- fibers (used by the cooperative/pre-emptive schedulers) -----------------------------
struct Fiber;
Fiber* fiber_create(std::function<void()> fn, size_t stack = 128 * 1024);
void fiber_switch(Fiber* to);       // from main or from any fiber
Fiber* fiber_current();             // nullptr on the main stack
void fiber_switch_main();
void fiber_destroy(Fiber*);         // not running
bool fiber_done(Fiber*);
void fiber_reset_all();             // drop all fibers (between runs)

}
