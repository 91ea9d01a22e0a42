// C20: fixed pools.  Several clients take and return blocks in any interleaving, constructors fail, pools
// run dry; every block in use carries a pattern that must survive.
#include <estd/array.h>
#include <estd/internal/memory/pool.h>
#include <estd/memory.h>
#include <estd/forward_list.h>
#include <estd/exp/memory/memory_pool.h>
#include <estd/exp/memory/memory_pool2.h>
#include <ledger.h>
#include <cstring>
#include <memory>
#include <vector>

namespace {
using led::Val;

// what every pool is asked to do, whatever its interface
struct Pool
{
    virtual ~Pool() {}
    virtual void* take() = 0;                 // nullptr: exhausted; may throw led::Boom
    virtual void give(void*) = 0;
    virtual int available() = 0;              // -1: the pool cannot tell
    virtual int full() { return -1; }         // "no free block" as the pool reports it
    virtual bool handle(void*) { return true; }
    virtual bool peek_null() { return true; } // taking from an exhausted pool is defined
};
template <unsigned S, unsigned N> struct Raw : Pool
{
    estd::internal::memory::pool<S, N> p;
    void* take() override { return p.alloc(); }
    void give(void* b) override { p.free(b); }
    int available() override { return (int)p.available_blocks(); }
    int full() override { return p.full(); }
    bool handle(void* b) override { return p.from_handle(p.to_handle(b)) == b && p.to_handle(b) >= 0 && (unsigned)p.to_handle(b) < N; }
};
template <class T, unsigned N> struct Typed : Pool
{
    estd::internal::memory::typed_pool<T, N> p;
    void* take() override { return p.emplace(1234); }
    void give(void* b) override { p.erase((T*)b); }
    int available() override { return (int)p.available_blocks(); }
    int full() override { return p.full(); }
    bool handle(void* b) override { return p.from_handle(p.to_handle(b)) == b; }
};
template <class P> struct V1 : Pool
{
    P p;
    void* take() override { return p.allocate(); }
    void give(void* b) override { p.deallocate((typename P::value_type*)b); }
    int available() override { return (int)p.count_free(); }
};
template <class P> struct V1Typed : Pool
{
    P p;
    void* take() override { return p.count_free() ? &p.construct(1234) : nullptr; }
    void give(void* b) override { p.destroy(*(Val*)b); }
    int available() override { return (int)p.count_free(); }
};
template <class P> struct V2 : Pool
{
    P p;
    void* take() override { return p.allocate(); }
    void give(void* b) override { p.deallocate((typename P::value_type*)b); }
    int available() override { return (int)p.count_free(); }
};

struct Held { unsigned char* p; unsigned tag; unsigned client; };

template <class P> void drive(unsigned cap, unsigned size, bool typed, bool can_fail, unsigned align)
{
    led::reset();
    std::unique_ptr<P> pool(new P());
    unsigned char* lo = (unsigned char*)&pool->p, *hi = lo + sizeof(pool->p);
    std::vector<Held> held; unsigned tag = 1;
    sim::log("capacity %u block %u%s", cap, size, typed ? " typed" : "");
    auto fill = [&](Held& h) { if(typed) ((Val*)h.p)->v = (int)h.tag; else for(unsigned i = 0; i < size; ++i) h.p[i] = (unsigned char)(h.tag * 31 + i); };
    auto intact = [&](const Held& h) { if(typed) return ((Val*)h.p)->ok() && ((Val*)h.p)->v == (int)h.tag; for(unsigned i = 0; i < size; ++i) if(h.p[i] != (unsigned char)(h.tag * 31 + i)) return false; return true; };
    auto audit = [&](const char* op)
    {
        if(held.size() < 50 || sim::choose(40) == 0) for(const Held& h : held) SIM_CHECK(intact(h), "block-damaged", "after %s: the block of client %u is not what it wrote", op, h.client);
        int av = pool->available();
        SIM_CHECK(av < 0 || av == (int)(cap - held.size()), "free-count", "after %s: %d blocks reported free, %zu of %u are in use", op, av, held.size(), cap);
        int f = pool->full();
        SIM_CHECK(f < 0 || (f != 0) == (held.size() == cap), "full-report", "after %s: full() is %d with %zu of %u in use", op, f, held.size(), cap);
        if(typed) SIM_CHECK(led::live() == held.size(), "object-count", "after %s: %zu objects alive, %zu handed out", op, led::live(), held.size());
        sim::state(sim::mix(held.size(), cap));
    };
    auto take = [&](unsigned client, bool boom)
    {
        if(boom) led::arm(1);
        unsigned char* b = nullptr; bool threw = false;
        try { b = (unsigned char*)pool->take(); } catch(led::Boom&) { threw = true; }
        led::disarm();
        sim::log("client %u takes -> %s", client, threw ? "construction failed" : b ? std::to_string(b - lo).c_str() : "exhausted");
        if(threw) { audit("failed construction"); return; }
        SIM_CHECK((b == nullptr) == (held.size() == cap), "exhaustion", "%s with %zu of %u blocks in use", b ? "a block was handed out" : "exhaustion reported", held.size(), cap);
        if(!b) { SIM_FAULT("exhausted"); audit("refused take"); return; }
        SIM_CHECK(b >= lo && b + size <= hi, "outside", "block at %td of a pool of %zu bytes", b - lo, sizeof(pool->p));
        SIM_CHECK((uintptr_t)b % align == 0, "misaligned", "block at %td is not aligned to %u", b - lo, align);
        for(const Held& h : held) SIM_CHECK(b + size <= h.p || h.p + size <= b, "overlap", "block at %td overlaps the one at %td", b - lo, h.p - lo);
        SIM_CHECK(pool->handle(b), "handle", "handle of the block at %td does not lead back to it", b - lo);
        held.push_back({ b, tag++, client }); fill(held.back());
        audit("take");
    };
    auto give = [&](unsigned i)
    {
        sim::log("client %u returns %td", held[i].client, held[i].p - lo);
        unsigned char* b = held[i].p; held.erase(held.begin() + i);
        pool->give(b);
        audit("return");
    };
    audit("creation");
    for(unsigned k = 0, n = sim::range(2, 60); k < n; ++k)
    {
        unsigned client = sim::choose(3);
        switch(sim::choose(6))
        {
            case 0: case 1: case 2: take(client, can_fail && sim::choose(4) == 1); break;
            case 3: for(unsigned j = 0; j <= cap && held.size() < cap; ++j) take(client, false); take(client, false); break;
            case 4: if(!held.empty()) give(sim::choose(held.size())); break;
            default: for(unsigned i = held.size(); i-- > 0; ) if(held[i].client == client) give(i); break;
        }
        if(held.size() > 1) sim::nontrivial();
    }
    while(!held.empty()) give(sim::choose(held.size()));
    for(unsigned i = 0; i < cap; ++i) { take(0, false); SIM_CHECK(held.size() == i + 1, "capacity-lost", "after everything was returned only %u of %u blocks are available", i, cap); }
    take(0, false);
    while(!held.empty()) give(held.size() - 1);
}
void s_raw()
{
    switch(sim::choose(6))
    {
        case 0: drive<Raw<1, 1>>(1, 1, false, false, sizeof(void*)); break;
        case 1: drive<Raw<8, 3>>(3, 8, false, false, sizeof(void*)); break;
        case 2: drive<Raw<13, 5>>(5, 13, false, false, sizeof(void*)); break;
        case 3: drive<Raw<64, 4>>(4, 64, false, false, sizeof(void*)); break;
        case 4: drive<Raw<4, 20>>(20, 4, false, false, sizeof(void*)); break;
        default: drive<Raw<24, 100>>(100, 24, false, false, sizeof(void*)); break;
    }
}
void s_typed()
{
    switch(sim::choose(3))
    {
        case 0: drive<Typed<Val, 1>>(1, sizeof(Val), true, true, alignof(Val)); break;
        case 1: drive<Typed<Val, 4>>(4, sizeof(Val), true, true, alignof(Val)); break;
        default: drive<Typed<Val, 17>>(17, sizeof(Val), true, true, alignof(Val)); break;
    }
}
namespace v1 = estd::experimental::memory::v1; namespace v2 = estd::experimental::memory::v2;
void s_experimental()
{
    typedef estd::array<char, 16> Block; typedef estd::array<char, 5> Odd;
    switch(sim::choose(6))
    {
        case 0: drive<V1<v1::memory_pool_1<Block, 6>>>(6, 16, false, false, 1); break;
        case 1: drive<V1<v1::memory_pool_1<Odd, 1>>>(1, 5, false, false, 1); break;
        case 2: drive<V1Typed<v1::memory_pool_1<Val, 5>>>(5, sizeof(Val), true, false, 1); break;
        case 3: drive<V1<v1::memory_pool_ll<Block, 6>>>(6, 16, false, false, 1); break;
        case 4: drive<V2<v2::memory_pool<Block, 7, v2::pool_types::linked_list>>>(7, 16, false, false, 1); break;
        default: drive<V2<v2::memory_pool<Odd, 3, v2::pool_types::linked_list>>>(3, 5, false, false, 1); break;
    }
}
// more blocks than a byte counts, and either side of that
void s_large()
{
    typedef estd::array<char, 16> Block; typedef estd::array<char, 5> Odd;
    switch(sim::choose(10))
    {
        case 0: drive<Raw<8, 255>>(255, 8, false, false, sizeof(void*)); break;
        case 1: drive<Raw<3, 256>>(256, 3, false, false, sizeof(void*)); break;
        case 2: drive<Raw<300, 257>>(257, 300, false, false, sizeof(void*)); break;
        case 3: drive<Typed<Val, 300>>(300, sizeof(Val), true, true, alignof(Val)); break;
        case 4: drive<V1<v1::memory_pool_1<Odd, 255>>>(255, 5, false, false, 1); break;
        case 5: drive<V1<v1::memory_pool_1<Block, 256>>>(256, 16, false, false, 1); break;
        case 6: drive<V1<v1::memory_pool_ll<Block, 255>>>(255, 16, false, false, 1); break;
        case 7: drive<V1<v1::memory_pool_ll<Block, 300>>>(300, 16, false, false, 1); break;
        case 8: drive<V2<v2::memory_pool<Block, 255, v2::pool_types::linked_list>>>(255, 16, false, false, 1); break;
        default: drive<V2<v2::memory_pool<Odd, 300, v2::pool_types::linked_list>>>(300, 5, false, false, 1); break;
    }
}
const sim::Scenario scen[] = { { "raw", s_raw, 30 }, { "typed", s_typed, 30 }, { "experimental", s_experimental, 20 }, { "large", s_large, 1 } };
}
const sim::Harness sim::harness = {
    "C20",
    "a run is an interleaving of 2-60 takes, failed constructions and returns by three clients on one pool of 1-100 blocks, rarely of 255-300, ending with a full drain and refill; non-trivial when two blocks are out at once or a fault was injected; distinct by hash of the event log",
    "memory::v1 pool and typed_pool, experimental pools v1 (handle and linked) and v2",
    "none",
    "only blocks obtained from the pool are returned, once each|a failing constructor is only injected into typed_pool; the experimental pools construct only after a free block was confirmed",
    200000, 20000000, scen, sizeof scen / sizeof *scen, nullptr,
};
