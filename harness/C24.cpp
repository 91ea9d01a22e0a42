// C24: the compacting heap with handles (exp/memory/memory_pool2.h): blocks and free pieces always partition
// the storage, contents stay, a refusal is justified and changes nothing, upkeep ends and joins what is free.
#include <sim.h>
#include <new>
#include <cstring>
#include <memory>
#include <vector>
#include <algorithm>
#include <estd/array.h>
#include <estd/memory.h>
#include <estd/exp/memory/memory_pool2.h>

namespace {
namespace v2 = estd::experimental::memory::v2;

// what one client holds
struct Held { int h; unsigned want; unsigned seed; int owner; };

unsigned char at(unsigned seed, unsigned i) { return (unsigned char)(seed * 31 + i * 7 + (i >> 8) * 13 + 1); }

template <unsigned N, unsigned H> struct Heap
{
    typedef v2::virtual_memory<N, H> VM;
    // memory around the heap catches what is written outside it, beside ASan
    struct Box { unsigned char before[32]; VM vm; unsigned char after[32]; };
    std::unique_ptr<Box> box; VM& v; std::vector<Held> held; unsigned seeds = 0; bool dirty = false;

    Heap() : box(make()), v(box->vm) {}
    // what the storage holds before is anything at all
    static Box* make()
    {
        void* m = ::operator new(sizeof(Box)); memset(m, sim::choose(2) ? 0xA5 : 0, sizeof(Box)); Box* b = (Box*)m;
        memset(b->before, 0x5A, 32); memset(b->after, 0x5A, 32); new (&b->vm) VM(); return b;
    }

    struct Piece { unsigned from, size; bool used; };
    std::vector<Piece> pieces; unsigned largest, nodes, freed;

    void fail_map(const char* k, const char* what, size_t a, size_t b) { SIM_CHECK(false, k, "%s (%zu, %zu)", what, a, b); }

    void look(bool contents)
    {
        pieces.clear(); largest = nodes = freed = 0;
        for(auto i = v.free_head; i; i = i->next)
        {
            size_t off = (size_t)((unsigned char*)i - v.storage);
            SIM_CHECK((unsigned char*)i >= v.storage && off + sizeof(*i) <= N, "free-outside", "a free piece lies at offset %td of %u", (unsigned char*)i - v.storage, N);
            SIM_CHECK(i->chunk_size >= sizeof(*i) && off + i->chunk_size <= N, "free-size", "a free piece of %u at offset %zu of %u", (unsigned)i->chunk_size, off, N);
            pieces.push_back({ (unsigned)off, i->chunk_size, false }); ++nodes; freed += i->chunk_size; largest = std::max<unsigned>(largest, i->chunk_size);
            SIM_CHECK(nodes <= N, "free-endless", "the free list does not end");
        }
        for(const Held& h : held)
        {
            auto& d = v.handles[h.h]; size_t off = (size_t)(d.data - v.storage);
            SIM_CHECK(d.data >= v.storage && off < N && d.chunk_size >= h.want && off + d.chunk_size <= N, "block-outside", "block %d of %u bytes: %u at offset %zu of %u", h.h, h.want, (unsigned)d.chunk_size, off, N);
            pieces.push_back({ (unsigned)off, d.chunk_size, true });
            if(contents) for(unsigned i = 0; i < h.want; ++i) SIM_CHECK(d.data[i] == at(h.seed, i), "contents", "byte %u of block %d changed", i, h.h);
        }
        std::sort(pieces.begin(), pieces.end(), [](const Piece& a, const Piece& b) { return a.from < b.from; });
        unsigned end = 0;
        for(const Piece& p : pieces) { SIM_CHECK(p.from >= end, "overlap", "the %s piece at %u overlaps the one that ends at %u", p.used ? "used" : "free", p.from, end); SIM_CHECK(p.from == end, "lost", "the storage from %u to %u belongs to nobody", end, p.from); end = p.from + p.size; }
        SIM_CHECK(end == N, "lost", "the storage from %u to %u belongs to nobody", end, N);
        typename VM::size_type n = 77; unsigned t = sim::choose(2) ? v.total_free(&n) : (n = nodes, v.total_free());
        SIM_CHECK(t == freed && n == nodes, "count", "%u bytes in %u pieces reported, %u in %u are free", t, (unsigned)n, freed, nodes);
        for(unsigned char c : box->before) SIM_CHECK(c == 0x5A, "outside", "memory before the heap was changed");
        for(unsigned char c : box->after) SIM_CHECK(c == 0x5A, "outside", "memory after the heap was changed");
    }
    bool adjacent() const { for(size_t i = 1; i < pieces.size(); ++i) if(!pieces[i].used && !pieces[i - 1].used) return true; return false; }

    bool allocate(unsigned want, int owner)
    {
        unsigned need = std::max<unsigned>(want, sizeof(typename VM::item));
        int h = (int)v.allocate(want); sim::log("%d: allocate %u -> %d", owner, want, h);
        if(h == -1)
        {
            SIM_FAULT("refused"); if(held.size() == H) SIM_PROBE("no-handle"); else SIM_PROBE("no-piece");
            SIM_CHECK(held.size() == H || largest < need, "refused", "%u bytes refused with a free piece of %u and %zu of %u handles in use", want, largest, held.size(), H);
            unsigned was = freed, wasn = nodes; look(true);
            SIM_CHECK(was == freed && wasn == nodes, "refusal-changes", "a refusal changed the free space"); return false;
        }
        SIM_CHECK(h >= 0 && h < (int)H, "handle", "handle %d of %u", h, H);
        for(const Held& x : held) SIM_CHECK(x.h != h, "handle-twice", "handle %d is in use", h);
        SIM_CHECK(largest >= need, "too-big", "%u bytes granted, the largest free piece is %u", want, largest);
        if(largest == need) SIM_PROBE("exact"); else if(largest < need + sizeof(typename VM::item)) SIM_PROBE("sliver");
        unsigned s = ++seeds; held.push_back({ h, want, s, owner }); look(false);
        for(unsigned i = 0; i < want; ++i) v.handles[h].data[i] = at(s, i);
        return true;
    }
    void release(size_t i)
    {
        sim::log("%d: free %d", held[i].owner, held[i].h); v.free(held[i].h); held.erase(held.begin() + i);
    }
    void upkeep() { v.maint(); sim::log("upkeep -> %u", (unsigned)v.state()); SIM_PROBE("upkeep"); }
    // no one else does anything: the upkeep ends, and what is free and adjacent is one piece
    void settle()
    {
        unsigned bound = (nodes + 2) * (nodes + 3) + 16, i = 0; bool first = true;
        // a pass may be under way: it ends, and one whole round follows
        for(int round = 0; round < 2; ++round)
            do { SIM_CHECK(i++ < 2 * bound, "upkeep-endless", "upkeep of %u pieces has not ended after %u steps", nodes, i); v.maint(); if(N <= 4096 || i % 64 == 0) look(false); } while(v.state() != v2::uninitialized);
        (void)first; look(true); sim::log("settled after %u steps: %u pieces", i, nodes);
        SIM_CHECK(!adjacent(), "not-joined", "two neighbouring free pieces are still apart after the upkeep ended");
        if(held.empty()) SIM_CHECK(nodes == 1 && largest == N, "whole", "everything is free in %u pieces", nodes);
        SIM_PROBE("settled");
    }
    unsigned some_size()
    {
        switch(sim::choose(8))
        {
            case 0: return sim::range(0, 16);
            case 1: return largest ? largest : 1;                                     // exactly the largest piece
            case 2: return largest > 24 ? largest - sim::range(1, 24) : 16;           // leaves a sliver
            case 3: return largest + 1;
            case 4: { std::vector<unsigned> f; for(auto& p : pieces) if(!p.used) f.push_back(p.size); return f.empty() ? 16 : f[sim::choose(f.size())]; }
            case 5: return sim::range(1, N);
            default: return sim::range(16, std::max(17u, N / 8));
        }
    }
    uint64_t key() { uint64_t k = v.state(); for(auto i = v.free_head; i; i = i->next) k = sim::mix(k, (unsigned char*)i - v.storage); for(auto& p : pieces) k = sim::mix(k, p.from * 2 + p.used); return k; }
    void run(int steps)
    {
        look(true); int clients = sim::range(1, 3), quota = sim::range(1, H); unsigned upk = sim::choose(4);
        for(int s = 0; s < steps; ++s)
        {
            int me = sim::choose(clients); unsigned op = sim::choose(10);
            if(op < upk * 2) upkeep();
            else if(sim::chance(1, 30)) settle();
            else if(held.size() < (size_t)quota ? sim::chance(2, 3) : sim::chance(1, 5)) allocate(some_size(), me);
            else
            {
                std::vector<size_t> mine; for(size_t i = 0; i < held.size(); ++i) if(held[i].owner == me) mine.push_back(i);
                if(mine.size()) { SIM_PROBE("free"); release(mine[sim::choose(mine.size())]); }
            }
            look(N <= 512 || sim::chance(1, 16)); sim::state(key()); sim::nontrivial();
        }
        if(sim::choose(2)) { settle(); if(sim::choose(2)) for(unsigned w; held.size() < H && largest >= 16; ) { w = sim::chance(1, 4) ? largest : sim::range(16, largest); if(!allocate(w, 0)) break; } }
        while(held.size()) { if(sim::chance(1, 6)) upkeep(); release(sim::choose(held.size())); look(false); }
        settle();
        // and all of it can be had
        SIM_CHECK(allocate(N, 0), "whole", "all is free but the whole is refused"); look(true);
        SIM_CHECK(!v.free_head && freed == 0, "whole", "nothing is left but something is free"); upkeep(); look(true); release(0); look(true);
    }
};
template <unsigned N, unsigned H> void heap(int lo, int hi) { Heap<N, H> h; sim::log("%u bytes, %u handles", N, H); h.run((int)sim::range(lo, hi)); }

void s_small()
{
    switch(sim::choose(6))
    {
        case 0: heap<64, 3>(4, 40); break;
        case 1: heap<100, 8>(4, 40); break;
        case 2: heap<256, 20>(4, 80); break;
        case 3: heap<512, 5>(4, 80); break;
        case 4: heap<1024, 20>(4, 120); break;
        default: heap<16, 1>(3, 12); break;
    }
}
void s_many() { if(sim::choose(2)) heap<1024, 64>(100, 300); else heap<4096, 64>(100, 300); }
void s_large() { if(sim::choose(2)) heap<70000, 1093>(100, 2500); else heap<262144, 300>(100, 900); }
const sim::Scenario scen[] = { { "small", s_small, 300 }, { "many", s_many, 20 }, { "large", s_large, 1 } };
}
const sim::Harness sim::harness = {
    "C24",
    "a run is a history of 3-2500 allocations, releases and upkeep steps by 1-3 clients on one heap of 16 bytes to 256 kB with 1-1093 handles, ended by releasing everything; non-trivial when an operation ran; distinct by hash of the pieces and the order of the free list after each operation",
    "virtual_memory (exp/memory/memory_pool2.h): allocate, free, total_free, maint and its states",
    "none",
    "only blocks that are held are released|clients write only what they asked for",
    60000, 8000000, scen, sizeof scen / sizeof *scen, nullptr,
};
