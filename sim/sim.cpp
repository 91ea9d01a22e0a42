// Simulator core: decision tape, worker pool, violation gate, minimiser, replay files.
#include "sim.h"
#include <sanitizer/common_interface_defs.h>
#include <sanitizer/asan_interface.h>
#include <cxxabi.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <time.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <atomic>
#include <exception>

namespace sim {

static const uint32_t MAX_TAPE = 1u << 15;
static const int MAX_COUNTERS = 256;
static const uint32_t BITMAP_BITS = 1u << 24;

enum { ST_IDLE = 0, ST_RUNNING = 1, ST_VIOLATION = 2, ST_DONE = 3 };

struct Slot {
    volatile int state;
    uint64_t run;               // run index being executed
    uint64_t next_run;          // next run index for this worker
    uint32_t tape_len;
    uint64_t hash;
    uint32_t pos;
    char scenario[48];
    char key[96];
    char msg[1024];
    uint16_t tape[MAX_TAPE];
};

struct Counter { char kind[8]; char name[56]; std::atomic<uint64_t> n; };

struct Shared {
    std::atomic<int> stop;
    std::atomic<uint64_t> runs, nontrivial, steps, choices, time_us, digest_sum, digest_xor, truncated;
    std::atomic<uint64_t> distinct_runs, distinct_states;
    std::atomic<int> lock;
    std::atomic<int> ncounters;
    Counter counters[MAX_COUNTERS];
    std::atomic<uint64_t> run_bitmap[BITMAP_BITS / 64];
    std::atomic<uint64_t> state_bitmap[BITMAP_BITS / 64];
    Slot slots[66];             // one per worker, [64] for confirm / minimise, [65] spare
};

static Shared* sh;
static Slot* slot;

// ---- per-run state --------------------------------------------------------------------
static uint64_t rng_s;
static bool replaying;
static uint32_t tape_in_len;
static uint64_t cur_hash;
static uint64_t step_count, step_max;
static bool run_nontrivial;
static uint64_t run_time;
static bool trace_on;
static FILE* trace_file;
static volatile uint64_t hang_guard_run;
static volatile int hang_ticks;

static uint64_t splitmix(uint64_t& s)
{
    uint64_t z = (s += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}

uint64_t mix(uint64_t a, uint64_t b)
{
    uint64_t s = a * 0x9e3779b97f4a7c15ull ^ (b + 0x7f4a7c15ull);
    return splitmix(s);
}

uint64_t hash_bytes(const void* p, size_t n, uint64_t h)
{
    const unsigned char* c = (const unsigned char*)p;
    for(size_t i = 0; i < n; ++i) { h ^= c[i]; h *= 1099511628211ull; }
    return h;
}

static uint16_t tape_in[MAX_TAPE];

uint32_t choose(uint32_t n)
{
    if(n <= 1) return 0;
    if(n > 65536)   // two entries on the tape
    {
        uint32_t hi = choose(((n - 1) >> 16) + 1), w = hi << 16 | choose(65536);
        return w < n ? w : w % n;
    }
    uint32_t v;
    uint32_t pos = slot->pos;
    if(replaying) v = pos < tape_in_len ? tape_in[pos] % n : 0;
    else if(pos >= MAX_TAPE) v = 0;
    else v = (uint32_t)((splitmix(rng_s) >> 16) % n);
    if(pos < MAX_TAPE) { slot->tape[pos] = (uint16_t)v; slot->tape_len = pos + 1; }
    slot->pos = pos + 1;
    cur_hash = (cur_hash ^ v ^ ((uint64_t)n << 20)) * 1099511628211ull;
    slot->hash = cur_hash;
    return v;
}

bool chance(uint32_t num, uint32_t den)
{
    // 0 on the tape must mean "no"
    return num != 0 && choose(den) >= den - num;
}

bool tape_done() { return replaying ? slot->pos >= tape_in_len : slot->pos >= MAX_TAPE; }

static void lock_sh() { int z = 0; while(!sh->lock.compare_exchange_weak(z, 1)) z = 0; }
static void unlock_sh() { sh->lock = 0; }

int register_counter(const char* kind, const char* name)
{
    lock_sh();
    int n = sh->ncounters, i;
    for(i = 0; i < n; ++i)
        if(!strcmp(sh->counters[i].name, name) && !strcmp(sh->counters[i].kind, kind)) break;
    if(i == n && n < MAX_COUNTERS)
    {
        snprintf(sh->counters[n].kind, sizeof sh->counters[n].kind, "%s", kind);
        snprintf(sh->counters[n].name, sizeof sh->counters[n].name, "%s", name);
        sh->ncounters = n + 1;
    }
    unlock_sh();
    return i;
}

static bool counting = true;   // off while confirming / minimising

void bump(int idx, uint64_t by) { if(counting && idx < MAX_COUNTERS) sh->counters[idx].n += by; }

static bool bitmap_set(std::atomic<uint64_t>* bm, uint64_t h)
{
    uint32_t b = (uint32_t)(h ^ (h >> 32)) & (BITMAP_BITS - 1);
    uint64_t m = 1ull << (b & 63);
    return !(bm[b >> 6].fetch_or(m) & m);
}

void state(uint64_t h)
{
    if(!counting) return;
    h = mix(h, 0x51a7e);
    if(bitmap_set(sh->state_bitmap, h)) ++sh->distinct_states;
}

void nontrivial() { run_nontrivial = true; }
void advance_time(uint64_t us) { run_time += us; }
bool tracing() { return trace_on; }

void log(const char* fmt, ...)
{
    char buf[512];
    va_list ap;
    va_start(ap, fmt);
    int n = vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    if(n > (int)sizeof buf - 1) n = sizeof buf - 1;
    cur_hash = hash_bytes(buf, n, cur_hash);
    slot->hash = cur_hash;
    if(trace_on && trace_file) { fputs(buf, trace_file); fputc('\n', trace_file); fflush(trace_file); }
}

static void record(const char* key, const char* msg)
{
    snprintf(slot->key, sizeof slot->key, "%s", key);
    snprintf(slot->msg, sizeof slot->msg, "%s", msg);
    slot->hash = cur_hash;
    slot->state = ST_VIOLATION;
}

void fail(const char* key, const char* fmt, ...)
{
    char buf[1000];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    record(key, buf);
    if(trace_on && trace_file) { fprintf(trace_file, "VIOLATED %s: %s\n", key, buf); fflush(trace_file); }
    _exit(10);
}

void step_limit(uint64_t n) { step_max = n; }
void step(const char* key)
{
    if(++step_count > step_max)
        fail(key, "no progress after %llu simulator steps", (unsigned long long)step_max);
}

// ---- crash capture ----------------------------------------------------------------------
static void on_signal(int sig)
{
    if(sig == SIGVTALRM)
    {
        static uint64_t last_run; static int same;
        if(slot->state != ST_RUNNING || slot->run != last_run) { last_run = slot->run; same = 0; return; }
        if(++same < 4) return;
        record("hang", "the code under test did not return within 8 s of CPU time");
        _exit(10);
    }
    const char* k = sig == SIGABRT ? "abort" : sig == SIGSEGV ? "segv" : sig == SIGFPE ? "fpe" : sig == SIGBUS ? "bus" : "signal";
    record(k, "the code under test terminated abnormally");
    _exit(10);
}

static void on_terminate()
{
    record("terminate", "std::terminate in the code under test");
    _exit(10);
}

extern "C" const char* __asan_default_options()
{
    return "detect_leaks=0:exitcode=99:abort_on_error=0:allocator_may_return_null=1:"
           "detect_stack_use_after_return=0:handle_segv=1:handle_abort=0:print_stats=0:"
           "quarantine_size_mb=8:max_malloc_fill_size=8192:malloc_fill_byte=190:malloc_context_size=6:print_legend=0:alloc_dealloc_mismatch=0";
}

extern "C" void __asan_on_error()
{
    if(!slot) return;
    char k[96];
    const char* d = __asan_get_report_description();
    snprintf(k, sizeof k, "memory:%s", d && *d ? d : "error");
    record(k, "memory error in the code under test (sanitizer report in the replay's stderr)");
}

static void install_handlers()
{
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_handler = on_signal;
    sa.sa_flags = SA_ONSTACK;
    sigaction(SIGABRT, &sa, nullptr);
    sigaction(SIGFPE, &sa, nullptr);
    sigaction(SIGVTALRM, &sa, nullptr);
    std::set_terminate(on_terminate);
    struct itimerval it;
    it.it_interval.tv_sec = 2; it.it_interval.tv_usec = 0;
    it.it_value = it.it_interval;
    setitimer(ITIMER_VIRTUAL, &it, nullptr);
    struct rlimit rl = { 0, 0 };
    setrlimit(RLIMIT_CORE, &rl);
}

// ---- fibers ---------------------------------------------------------------------------------
extern "C" void sim_switch_asm(void** save_sp, void* load_sp);
#if defined(__x86_64__)
asm(R"(
.text
.globl sim_switch_asm
.type sim_switch_asm,@function
sim_switch_asm:
    pushq %rbp
    pushq %rbx
    pushq %r12
    pushq %r13
    pushq %r14
    pushq %r15
    movq %rsp, (%rdi)
    movq %rsi, %rsp
    popq %r15
    popq %r14
    popq %r13
    popq %r12
    popq %rbx
    popq %rbp
    ret
.size sim_switch_asm,.-sim_switch_asm
)");
#else
#error "fiber switch: x86-64 only"
#endif

struct EhGlobals { void* caught; unsigned int uncaught; };
extern "C" EhGlobals* sim_eh_globals() { return (EhGlobals*)(void*)__cxxabiv1::__cxa_get_globals(); }

struct Fiber {
    void* sp;
    char* stack; size_t size;
    std::function<void()> fn;
    bool done;
    EhGlobals eh;
    void* fake;
    Fiber* from;
};

static Fiber main_fiber;
static Fiber* cur_fiber = &main_fiber;
static std::vector<Fiber*> all_fibers;
static std::vector<char*> stack_pool;
static const void* main_stack_bottom; static size_t main_stack_size;

static void finish_switch(Fiber* self)
{
    const void* b; size_t s;
    __sanitizer_finish_switch_fiber(self->fake, &b, &s);
    if(self->from == &main_fiber) { main_stack_bottom = b; main_stack_size = s; }
    *sim_eh_globals() = self->eh;
}

static void do_switch(Fiber* to)
{
    Fiber* from = cur_fiber;
    if(from == to) return;
    from->eh = *sim_eh_globals();
    to->from = from;
    cur_fiber = to;
    const void* b = to == &main_fiber ? main_stack_bottom : to->stack;
    size_t s = to == &main_fiber ? main_stack_size : to->size;
    __sanitizer_start_switch_fiber(from->done && from != &main_fiber ? nullptr : &from->fake, b, s);
    sim_switch_asm(&from->sp, to->sp);
    finish_switch(from);
}

extern "C" void sim_fiber_entry()
{
    Fiber* self = cur_fiber;
    self->fake = nullptr;
    finish_switch(self);
    self->fn();
    self->done = true;
    do_switch(&main_fiber);
    abort();
}

Fiber* fiber_create(std::function<void()> fn, size_t stack)
{
    const size_t SZ = 128 * 1024;
    (void)stack;
    Fiber* f = new Fiber();
    f->size = SZ;
    if(stack_pool.empty())
        f->stack = (char*)mmap(nullptr, SZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    else { f->stack = stack_pool.back(); stack_pool.pop_back(); }
    __asan_unpoison_memory_region(f->stack, SZ);
    f->fn = std::move(fn);
    f->done = false;
    f->eh.caught = nullptr; f->eh.uncaught = 0;
    uintptr_t top = ((uintptr_t)f->stack + SZ) & ~(uintptr_t)15;
    void** sp = (void**)top;
    *--sp = nullptr;                    // alignment / fake return
    *--sp = (void*)sim_fiber_entry;
    for(int i = 0; i < 6; ++i) *--sp = nullptr;
    f->sp = sp;
    all_fibers.push_back(f);
    return f;
}

void fiber_switch(Fiber* to) { do_switch(to); }
void fiber_switch_main() { do_switch(&main_fiber); }
Fiber* fiber_current() { return cur_fiber == &main_fiber ? nullptr : cur_fiber; }
bool fiber_done(Fiber* f) { return f->done; }

void fiber_destroy(Fiber* f)
{
    for(size_t i = 0; i < all_fibers.size(); ++i)
        if(all_fibers[i] == f) { all_fibers.erase(all_fibers.begin() + i); break; }
    stack_pool.push_back(f->stack);
    f->fn = nullptr;
    delete f;
}

void fiber_reset_all()
{
    while(!all_fibers.empty()) fiber_destroy(all_fibers.back());
}

void end_run()
{
    // only meaningful from a fiber: park for ever and let the main stack finish the run
    if(cur_fiber != &main_fiber) { cur_fiber->done = true; do_switch(&main_fiber); }
    record("internal:end_run-on-main", "harness error"); _exit(11);
}

// ---- one run --------------------------------------------------------------------------------
static const char* forced_scenario;

static void one_run(uint64_t seed, uint64_t run, bool from_tape)
{
    slot->state = ST_RUNNING;
    slot->run = run;
    slot->pos = 0; slot->tape_len = 0; slot->key[0] = 0; slot->msg[0] = 0;
    replaying = from_tape;
    rng_s = mix(seed, run * 2 + 1);
    cur_hash = 1469598103934665603ull;
    step_count = 0; step_max = 200000;
    run_nontrivial = false; run_time = 0;
    fiber_reset_all();
    if(harness.reset) harness.reset();
    const Scenario* sc = nullptr;
    if(forced_scenario)
    {
        for(size_t i = 0; i < harness.n_scenarios; ++i)
            if(!strcmp(harness.scenarios[i].name, forced_scenario)) sc = &harness.scenarios[i];
        if(!sc) { fprintf(stderr, "no scenario %s\n", forced_scenario); _exit(12); }
    }
    else
    {
        uint32_t total = 0;
        for(size_t i = 0; i < harness.n_scenarios; ++i) total += harness.scenarios[i].weight;
        uint32_t r = choose(total);
        for(size_t i = 0; i < harness.n_scenarios; ++i)
        {
            if(r < harness.scenarios[i].weight) { sc = &harness.scenarios[i]; break; }
            r -= harness.scenarios[i].weight;
        }
    }
    snprintf(slot->scenario, sizeof slot->scenario, "%s", sc->name);
    log("scenario %s", sc->name);
    sc->run();
    slot->hash = cur_hash;
    slot->state = ST_DONE;
    if(counting)
    {
        ++sh->runs;
        sh->steps += step_count;
        sh->choices += slot->pos;
        sh->time_us += run_time;
        if(slot->pos > MAX_TAPE) ++sh->truncated;
        uint64_t h = mix(cur_hash, 77);
        if(run_nontrivial) { ++sh->nontrivial; if(bitmap_set(sh->run_bitmap, h)) ++sh->distinct_runs; }
        uint64_t hr = mix(cur_hash, run);
        sh->digest_sum += hr; sh->digest_xor ^= mix(hr, 3);
    }
}

static double now_s() { struct timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts); return ts.tv_sec + ts.tv_nsec * 1e-9; }

// run a tape in a forked child; result in slot 64
static bool run_tape(const std::vector<uint16_t>& tape, std::string& key, std::string& msg, uint64_t& hash,
    std::vector<uint16_t>* out, bool quiet = true)
{
    Slot* s = &sh->slots[64];
    s->state = ST_IDLE;
    pid_t p = fork();
    if(p == 0)
    {
        slot = s; counting = false;
        if(quiet) { int fd = open("/dev/null", O_WRONLY); dup2(fd, 2); }
        install_handlers();
        tape_in_len = tape.size();
        memcpy(tape_in, tape.data(), tape.size() * 2);
        one_run(0, 0, true);
        _exit(0);
    }
    int st; while(waitpid(p, &st, 0) < 0) {}
    if(s->state == ST_RUNNING) { snprintf(s->key, sizeof s->key, "crash"); s->state = ST_VIOLATION; }
    key = s->state == ST_VIOLATION ? s->key : "";
    msg = s->msg; hash = s->hash;
    if(out) out->assign(s->tape, s->tape + s->tape_len);
    return s->state == ST_VIOLATION;
}

struct Found { std::string key, msg, scenario; uint64_t run; std::vector<uint16_t> tape; uint64_t hash; };

static void minimise(Found& f, double budget)
{
    double t0 = now_s();
    std::vector<uint16_t> best = f.tape;
    std::string k, m; uint64_t h; std::vector<uint16_t> o;
    auto attempt = [&](std::vector<uint16_t> t) -> bool {
        while(!t.empty() && t.back() == 0) t.pop_back();
        if(t == best) return false;
        if(!run_tape(t, k, m, h, &o) || k != f.key) return false;
        if(o.size() < t.size()) t.resize(o.size());
        while(!t.empty() && t.back() == 0) t.pop_back();
        best = t; f.msg = m; f.hash = h;
        return true;
    };
    attempt(best);
    bool progress = true;
    while(progress && now_s() - t0 < budget)
    {
        progress = false;
        // truncate
        for(size_t cut = best.size() / 2; cut > 0 && now_s() - t0 < budget; cut /= 2)
            while(best.size() > cut && now_s() - t0 < budget)
            {
                std::vector<uint16_t> t(best.begin(), best.end() - cut);
                if(attempt(t)) progress = true; else break;
            }
        // delete chunks
        for(size_t len : { 64, 32, 16, 8, 4, 3, 2, 1 })
            for(size_t i = best.size(); i-- > 0 && now_s() - t0 < budget;)
            {
                if(i + len > best.size()) continue;
                std::vector<uint16_t> t = best;
                t.erase(t.begin() + i, t.begin() + i + len);
                if(attempt(t)) { progress = true; if(i > best.size()) i = best.size(); }
            }
        // zero and lower
        for(size_t i = 0; i < best.size() && now_s() - t0 < budget; ++i)
        {
            if(best[i] == 0) continue;
            std::vector<uint16_t> t = best;
            t[i] = 0;
            if(attempt(t)) { progress = true; continue; }
            for(uint16_t lower : { (uint16_t)1, (uint16_t)(best[i] / 2), (uint16_t)(best[i] - 1) })
            {
                if(i >= best.size() || lower >= best[i] || lower == 0) continue;
                t = best; t[i] = lower;
                if(attempt(t)) { progress = true; break; }
            }
        }
    }
    f.tape = best;
}

static std::string json_escape(const std::string& s)
{
    std::string r;
    for(unsigned char c : s)
        if(c == '"' || c == '\\') { r += '\\'; r += c; }
        else if(c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += c;
    return r;
}

static int do_replay(const char* file, bool trace, const char* trace_path, bool verbose)
{
    FILE* f = fopen(file, "r");
    if(!f) { perror(file); return 2; }
    std::string all; char buf[4096]; size_t n;
    while((n = fread(buf, 1, sizeof buf, f)) > 0) all.append(buf, n);
    fclose(f);
    size_t p = all.find("\"tape\"");
    if(p == std::string::npos) { fprintf(stderr, "not a replay file: %s\n", file); return 2; }
    p = all.find('[', p) + 1;
    std::vector<uint16_t> tape;
    while(p < all.size() && all[p] != ']')
    {
        if(isdigit((unsigned char)all[p])) { char* e; tape.push_back((uint16_t)strtoul(&all[p], &e, 10)); p = e - all.data(); }
        else ++p;
    }
    auto field = [&](const char* name) -> std::string {
        std::string pat = std::string("\"") + name + "\": \"";
        size_t q = all.find(pat);
        if(q == std::string::npos) return "";
        q += pat.size();
        return all.substr(q, all.find('"', q) - q);
    };
    std::string want_key = field("key"), want_hash = field("hash");
    std::string sc = field("forced_scenario");
    static std::string forced_store = sc;
    if(!sc.empty()) forced_scenario = forced_store.c_str();
    if(trace) { trace_on = true; trace_file = trace_path ? fopen(trace_path, "w") : stdout; }
    std::string key, msg; uint64_t hash;
    bool bad = run_tape(tape, key, msg, hash, nullptr, !verbose);
    char hb[32]; snprintf(hb, sizeof hb, "%016llx", (unsigned long long)hash);
    if(!bad) { if(verbose) printf("replay: the property held\n"); return 0; }
    if(verbose) printf("replay: violated [%s] %s (hash %s)\n", key.c_str(), msg.c_str(), hb);
    if(key != want_key) return 4;
    if(want_hash != hb) return 5;
    return 1;
}

static void write_replay(const std::string& path, const Found& f, uint64_t seed, const std::string& trace)
{
    FILE* o = fopen(path.c_str(), "w");
    if(!o) { perror(path.c_str()); exit(3); }
    fprintf(o, "{\n \"property\": \"%s\",\n \"seed\": %llu,\n \"run\": %llu,\n \"scenario\": \"%s\",\n \"key\": \"%s\",\n \"message\": \"%s\",\n \"hash\": \"%016llx\",\n",
        harness.property, (unsigned long long)seed, (unsigned long long)f.run, json_escape(f.scenario).c_str(),
        json_escape(f.key).c_str(), json_escape(f.msg).c_str(), (unsigned long long)f.hash);
    if(forced_scenario) fprintf(o, " \"forced_scenario\": \"%s\",\n", forced_scenario);
    fprintf(o, " \"tape\": [");
    for(size_t i = 0; i < f.tape.size(); ++i) fprintf(o, "%s%u", i ? "," : "", f.tape[i]);
    fprintf(o, "],\n \"trace\": [");
    bool first = true; size_t p = 0;
    while(p < trace.size())
    {
        size_t e = trace.find('\n', p);
        if(e == std::string::npos) e = trace.size();
        fprintf(o, "%s\n  \"%s\"", first ? "" : ",", json_escape(trace.substr(p, e - p)).c_str());
        first = false; p = e + 1;
    }
    fprintf(o, "\n ]\n}\n");
    fclose(o);
}

static std::string slurp(const std::string& path)
{
    std::string all; FILE* f = fopen(path.c_str(), "r");
    if(!f) return all;
    char buf[4096]; size_t n;
    while((n = fread(buf, 1, sizeof buf, f)) > 0) all.append(buf, n);
    fclose(f);
    return all;
}

static const uint64_t GENERATION = 4000;

static void worker(int w, int nworkers, uint64_t seed, uint64_t total, double deadline)
{
    slot = &sh->slots[w];
    int fd = open("/dev/null", O_WRONLY); dup2(fd, 2);
    install_handlers();
    uint64_t done = 0;
    while(slot->next_run < total && !sh->stop && done < GENERATION)
    {
        uint64_t r = slot->next_run;
        slot->next_run = r + nworkers;
        one_run(seed, r, false);
        ++done;
        if(deadline > 0 && (done & 15) == 0 && now_s() > deadline) { sh->stop = 2; break; }
    }
    slot->state = ST_IDLE;
    _exit(slot->next_run < total && !sh->stop ? 1 : 0);
}

}

using namespace sim;

int main(int argc, char** argv)
{
    sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    slot = &sh->slots[65];
    std::string cmd = argc > 1 ? argv[1] : "";
    uint64_t seed = 1, runs = 0; int workers = 8; double cap = 0; bool thorough = false, trace = false;
    std::string out, rdir = ".", trace_path, file; std::vector<std::string> known; bool digest_only = false;
    for(int i = 2; i < argc; ++i)
    {
        std::string a = argv[i];
        auto next = [&]() -> const char* { return i + 1 < argc ? argv[++i] : ""; };
        if(a == "--seed") seed = strtoull(next(), nullptr, 10);
        else if(a == "--runs") runs = strtoull(next(), nullptr, 10);
        else if(a == "--workers") workers = atoi(next());
        else if(a == "--time-cap") cap = atof(next());
        else if(a == "--tier") thorough = !strcmp(next(), "thorough");
        else if(a == "--out") out = next();
        else if(a == "--replay-dir") rdir = next();
        else if(a == "--known") known.push_back(next());
        else if(a == "--scenario") forced_scenario = strdup(next());
        else if(a == "--trace") trace = true;
        else if(a == "--trace-file") { trace = true; trace_path = next(); }
        else if(a == "--digest") digest_only = true;
        else file = a;
    }
    if(workers < 1) workers = 1;
    if(workers > 60) workers = 60;
    if(cmd == "replay") return do_replay(file.c_str(), trace, trace_path.empty() ? nullptr : trace_path.c_str(), true);
    if(cmd == "verify") return do_replay(file.c_str(), trace, trace_path.empty() ? nullptr : trace_path.c_str(), false);
    if(cmd == "one")   // run one seed/run pair verbosely
    {
        trace_on = true; trace_file = stdout; counting = false;
        install_handlers();
        one_run(seed, runs, false);
        printf("hash %016llx\n", (unsigned long long)slot->hash);
        return 0;
    }
    if(cmd != "run") { fprintf(stderr, "usage: %s run|replay|verify|one ...\n", argv[0]); return 2; }

    uint64_t total = runs ? runs : thorough ? harness.thorough_runs : harness.quick_runs;
    double t0 = now_s(), deadline = cap > 0 ? t0 + cap : 0;
    std::map<pid_t, int> pids;
    std::map<std::string, Found> found;
    std::map<std::string, uint64_t> found_count;
    auto is_known = [&](const std::string& k) { for(auto& s : known) if(s == k) return true; return false; };
    auto spawn = [&](int w) {
        fflush(nullptr);
        pid_t p = fork();
        if(p == 0) worker(w, workers, seed, total, deadline);
        pids[p] = w;
    };
    for(int w = 0; w < workers; ++w) { sh->slots[w].next_run = w; spawn(w); }
    uint64_t nviol = 0;
    while(!pids.empty())
    {
        int st; pid_t p = waitpid(-1, &st, 0);
        if(p < 0) continue;
        auto it = pids.find(p);
        if(it == pids.end()) continue;
        int w = it->second; pids.erase(it);
        Slot& s = sh->slots[w];
        bool crashed = !(WIFEXITED(st) && (WEXITSTATUS(st) == 0 || WEXITSTATUS(st) == 1)) || s.state == ST_VIOLATION || s.state == ST_RUNNING;   // an exit in the middle of a run is one, too
        if(crashed)
        {
            if(s.state != ST_VIOLATION) { snprintf(s.key, sizeof s.key, "crash"); snprintf(s.msg, sizeof s.msg, "the worker died (status %x)", st); }
            if(WIFEXITED(st) && WEXITSTATUS(st) >= 11 && WEXITSTATUS(st) < 20) { fprintf(stderr, "harness error: %s %s\n", s.key, s.msg); sh->stop = 1; return 3; }
            std::string key = s.key;
            ++found_count[key]; ++nviol;
            if(!found.count(key) || found[key].run > s.run)
            {
                Found f; f.key = key; f.msg = s.msg; f.scenario = s.scenario; f.run = s.run; f.hash = s.hash;
                f.tape.assign(s.tape, s.tape + s.tape_len);
                found[key] = f;
            }
            size_t unknown = 0;
            for(auto& kv : found) if(!is_known(kv.first)) ++unknown;
            if(!digest_only && (unknown >= 1 || nviol > 3000)) sh->stop = 1;
            if(digest_only) { sh->digest_sum += mix(s.hash, s.run); sh->digest_xor ^= mix(mix(s.hash, s.run), 3); ++sh->runs; }
            if(s.next_run < total && !sh->stop) spawn(w);
        }
        else if(s.next_run < total && !sh->stop) spawn(w);
    }
    double t1 = now_s();
    if(digest_only)
    {
        printf("digest %016llx %016llx runs %llu violations %llu\n", (unsigned long long)sh->digest_sum.load(),
            (unsigned long long)sh->digest_xor.load(), (unsigned long long)sh->runs.load(), (unsigned long long)nviol);
        return 0;
    }
    // gate, minimise, write replay files
    int rc = 0; uint64_t nunknown = 0; std::string known_hit;
    for(auto& kv : found)
    {
        Found& f = kv.second;
        if(is_known(f.key)) { printf("KNOWN-HIT key=%s count=%llu\n", f.key.c_str(), (unsigned long long)found_count[f.key]); continue; }
        if(nunknown >= 3) break;
        std::string k1, m1, k2, m2; uint64_t h1, h2;
        bool b1 = run_tape(f.tape, k1, m1, h1, nullptr), b2 = run_tape(f.tape, k2, m2, h2, nullptr);
        if(!b1 || !b2 || k1 != f.key || k2 != f.key || h1 != h2 || h1 != f.hash)
        {
            fprintf(stderr, "NON-REPRODUCIBLE: run %llu key %s: got %s/%s hashes %llx %llx %llx\n", (unsigned long long)f.run, f.key.c_str(),
                k1.c_str(), k2.c_str(), (unsigned long long)f.hash, (unsigned long long)h1, (unsigned long long)h2);
            rc = 3; continue;
        }
        size_t before = f.tape.size();
        minimise(f, f.key == "hang" ? 90 : 20);
        std::string safe = f.key;
        for(char& c : safe) if(!isalnum((unsigned char)c)) c = '_';
        std::string path = rdir + "/" + harness.property + "-" + safe + ".json";
        // trace from a traced run of the minimised tape
        std::string tp = path + ".trace";
        trace_on = true; trace_file = fopen(tp.c_str(), "w");
        run_tape(f.tape, k1, m1, h1, nullptr);
        fclose(trace_file); trace_on = false;
        f.hash = h1; f.msg = m1;
        std::string tr = slurp(tp);
        unlink(tp.c_str());
        write_replay(path, f, seed, tr);
        // fresh process
        fflush(nullptr);
        pid_t p = fork();
        if(p == 0) { execl("/proc/self/exe", argv[0], "verify", path.c_str(), (char*)nullptr); _exit(9); }
        int st; waitpid(p, &st, 0);
        if(!(WIFEXITED(st) && WEXITSTATUS(st) == 1))
        {
            fprintf(stderr, "NON-REPRODUCIBLE in a fresh process: %s (status %x)\n", path.c_str(), st);
            rc = 3; continue;
        }
        ++nunknown;
        printf("FOUND key=%s run=%llu tape %zu -> %zu: %s\n", f.key.c_str(), (unsigned long long)f.run, before, f.tape.size(), f.msg.c_str());
        printf("REPLAY %s\n", path.c_str());
    }
    if(!out.empty())
    {
        FILE* o = fopen(out.c_str(), "w");
        fprintf(o, "{\"property\":\"%s\",\"seed\":%llu,\"planned_runs\":%llu,\"runs\":%llu,\"nontrivial\":%llu,\"distinct_runs\":%llu,\"distinct_states\":%llu,"
            "\"steps\":%llu,\"decisions\":%llu,\"sim_time_us\":%llu,\"wall_s\":%.3f,\"workers\":%d,\"truncated\":%llu,\"violations\":%llu,\"time_capped\":%s,\"digest\":\"%016llx%016llx\",",
            harness.property, (unsigned long long)seed, (unsigned long long)total, (unsigned long long)sh->runs.load(), (unsigned long long)sh->nontrivial.load(),
            (unsigned long long)sh->distinct_runs.load(), (unsigned long long)sh->distinct_states.load(), (unsigned long long)sh->steps.load(),
            (unsigned long long)sh->choices.load(), (unsigned long long)sh->time_us.load(), t1 - t0, workers, (unsigned long long)sh->truncated.load(),
            (unsigned long long)nunknown, sh->stop == 2 ? "true" : "false", (unsigned long long)sh->digest_sum.load(), (unsigned long long)sh->digest_xor.load());
        for(const char* kind : { "fault", "probe" })
        {
            fprintf(o, "\"%ss\":{", kind);
            bool first = true;
            for(int i = 0; i < sh->ncounters; ++i)
                if(!strcmp(sh->counters[i].kind, kind))
                { fprintf(o, "%s\"%s\":%llu", first ? "" : ",", sh->counters[i].name, (unsigned long long)sh->counters[i].n.load()); first = false; }
            fprintf(o, "},");
        }
        // three samples: traces of runs 0..2
        fprintf(o, "\"samples\":[");
        for(int i = 0; i < 3; ++i)
        {
            std::string tp = rdir + "/sample.trace";
            fflush(nullptr);
            pid_t p = fork();
            if(p == 0)
            {
                slot = &sh->slots[64]; counting = false; trace_on = true; trace_file = fopen(tp.c_str(), "w");
                int fd = open("/dev/null", O_WRONLY); dup2(fd, 2);
                install_handlers();
                one_run(seed, i, false);
                _exit(0);
            }
            int st; waitpid(p, &st, 0);
            std::string tr = slurp(tp);
            unlink(tp.c_str());
            if(tr.size() > 1500) tr = tr.substr(0, 1500) + "...";
            for(char& c : tr) if(c == '\n') c = ';';
            fprintf(o, "%s{\"run\":%d,\"events\":\"%s\"}", i ? "," : "", i, json_escape(tr).c_str());
        }
        fprintf(o, "],\"rule\":\"%s\",\"real\":\"%s\",\"stub\":\"%s\",\"assumptions\":\"%s\",\"scenarios\":[", json_escape(harness.rule).c_str(),
            json_escape(harness.real_components).c_str(), json_escape(harness.stub_components).c_str(), json_escape(harness.assumptions).c_str());
        for(size_t i = 0; i < harness.n_scenarios; ++i) fprintf(o, "%s\"%s\"", i ? "," : "", harness.scenarios[i].name);
        fprintf(o, "]}\n");
        fclose(o);
    }
    if(nunknown) return 1;
    return rc;
}
