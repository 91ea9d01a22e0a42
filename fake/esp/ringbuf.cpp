// Simulated ESP-IDF ring buffer (item and byte kinds) on the simulated FreeRTOS kernel.
#include <sim.h>
#include <kernel.h>
#include "freertos/ringbuf.h"
#include "ring.h"
#include <sanitizer/asan_interface.h>
#include <deque>
#include <vector>
#include <cstring>
#include <cstdio>
#include <cstdlib>
#include <algorithm>

struct SimRing
{
    struct Item { size_t off, total; uint8_t* p; size_t n; enum { PAD, ACQUIRED, READY, OUT, BACK } st; };
    size_t cap; RingbufferType_t type; uint8_t* buf; bool own, gone = false; StaticRingbuffer_t* store = nullptr;
    std::deque<Item> items; size_t w = 0; unsigned waiters = 0;
    std::deque<uint8_t> bytes; size_t held = 0, rpos = 0; uint8_t* chunk = nullptr;
};
namespace {
std::vector<SimRing*>& all() { static std::vector<SimRing*> v; return v; }
unsigned refuse_in, refusals;
const size_t HEAD = 8;
size_t round4(size_t n) { return (n + 3) & ~size_t(3); }
SimRing* check(SimRing* r, const char* call, bool isr = false)
{
    static char b[160];
    bool known = false; for(SimRing* x : all()) known |= x == r;
    if(!known) { snprintf(b, sizeof b, "%s on something that is no ring buffer", call); sim_rtos_misuse(b); }
    if(r->gone) { snprintf(b, sizeof b, "%s on a deleted ring buffer", call); sim_rtos_misuse(b); }
    if(r->store && (r->store->owner != (void*)r || r->store->magic != 0x5EED)) { snprintf(b, sizeof b, "%s: the storage of the ring buffer was overwritten", call); sim_rtos_misuse(b); }
    if(!isr && sim_rtos_in_isr()) { snprintf(b, sizeof b, "%s called from an interrupt", call); sim_rtos_misuse(b); }
    if(isr && !sim_rtos_in_isr()) { snprintf(b, sizeof b, "%s called from a task", call); sim_rtos_misuse(b); }
    return r;
}
SimRing* make(size_t cap, RingbufferType_t type, uint8_t* buf, bool own)
{
    if(type != RINGBUF_TYPE_NOSPLIT && type != RINGBUF_TYPE_BYTEBUF) sim_rtos_misuse("creation of a ring buffer of a kind nobody asked for");
    SimRing* r = new SimRing; r->cap = cap; r->type = type; r->buf = buf; r->own = own; memset(buf, 0xA5, cap); ASAN_POISON_MEMORY_REGION(buf, cap); all().push_back(r); return r;
}
size_t most(SimRing* r) { return r->type == RINGBUF_TYPE_BYTEBUF ? r->cap : (r->cap / 2 & ~size_t(3)) - HEAD; }
void settle(SimRing* r) { while(!r->items.empty() && (r->items.front().st == SimRing::Item::BACK || r->items.front().st == SimRing::Item::PAD)) r->items.pop_front(); if(r->items.empty()) r->w = 0; }
SimRing::Item* room(SimRing* r, size_t n)
{
    size_t total = HEAD + round4(n); if(n > most(r)) return nullptr;
    settle(r);
    if(!r->items.empty())
    {
        size_t f = r->items.front().off; bool wrapped = r->w <= f;
        if(!wrapped && r->cap - r->w < total) { if(f < total) return nullptr; r->items.push_back({ r->w, r->cap - r->w, nullptr, 0, SimRing::Item::PAD }); r->w = 0; }
        else if(wrapped && f - r->w < total) return nullptr;
    }
    SimRing::Item i{ r->w, total, r->buf + r->w + HEAD, n, SimRing::Item::ACQUIRED }; r->w += total; if(r->w == r->cap) r->w = 0;
    r->items.push_back(i); ASAN_UNPOISON_MEMORY_REGION(i.p, n); return &r->items.back();
}
bool put(SimRing* r, const void* p, size_t n)
{
    if(r->type == RINGBUF_TYPE_BYTEBUF)
    {
        if(r->bytes.size() + r->held + n > r->cap) return false;
        const uint8_t* b = static_cast<const uint8_t*>(p); r->bytes.insert(r->bytes.end(), b, b + n); return true;
    }
    SimRing::Item* i = room(r, n); if(!i) return false;
    if(n) memcpy(i->p, p, n);
    i->st = SimRing::Item::READY; ASAN_POISON_MEMORY_REGION(i->p, n); return true;
}
void* get(SimRing* r, size_t* n)
{
    if(r->type == RINGBUF_TYPE_BYTEBUF)
    {
        if(r->chunk || r->bytes.empty()) return nullptr;
        size_t k = std::min(r->bytes.size(), r->cap - r->rpos); r->chunk = static_cast<uint8_t*>(malloc(k)); for(size_t i = 0; i < k; ++i) r->chunk[i] = r->bytes[i];
        r->bytes.erase(r->bytes.begin(), r->bytes.begin() + k); r->held = k; *n = k; return r->chunk;
    }
    for(auto& i : r->items)
    {
        if(i.st == SimRing::Item::ACQUIRED) return nullptr;      // what comes behind it waits for it
        if(i.st == SimRing::Item::READY) { i.st = SimRing::Item::OUT; ASAN_UNPOISON_MEMORY_REGION(i.p, i.n); *n = i.n; return i.p; }
    }
    return nullptr;
}
void give_back(SimRing* r, void* p)
{
    if(r->type == RINGBUF_TYPE_BYTEBUF)
    {
        if(p != r->chunk || !p) sim_rtos_misuse("return of something that was not received");
        r->rpos = (r->rpos + r->held) % r->cap; r->held = 0; free(r->chunk); r->chunk = nullptr; return;
    }
    for(auto& i : r->items) if(i.p == p && i.st == SimRing::Item::OUT) { i.st = SimRing::Item::BACK; ASAN_POISON_MEMORY_REGION(i.p, i.n); settle(r); return; }
    sim_rtos_misuse("return of something that was not received");
}
// try until it works or the time is up
template <class F> bool within(SimRing* r, TickType_t n, F f)
{
    rtos::point();
    const uint64_t t0 = rtos::now();
    while(!f())
    {
        if(n == 0 || (n != portMAX_DELAY && rtos::now() - t0 >= n)) return false;
        sim::step("no-progress"); ++r->waiters; vTaskDelay(1); --r->waiters;
        if(r->gone) sim_rtos_misuse("a ring buffer was deleted while a task waits for it");
    }
    rtos::point(); return true;
}
}
namespace ring {
void reset() { for(SimRing* r : all()) { ASAN_UNPOISON_MEMORY_REGION(r->buf, r->cap); if(!r->gone) { if(r->own) free(r->buf); free(r->chunk); } delete r; } all().clear(); refuse_in = refusals = 0; }
size_t live() { size_t n = 0; for(SimRing* r : all()) n += !r->gone; return n; }
unsigned waiters(RingbufHandle_t r) { return r->waiters; }
void refuse(unsigned nth) { refuse_in = nth; }
unsigned refused() { return refusals; }
bool is_static(RingbufHandle_t r) { return !r->own; }
size_t size(RingbufHandle_t r) { return r->cap; }
RingbufferType_t type(RingbufHandle_t r) { return r->type; }
}
extern "C" {
RingbufHandle_t xRingbufferCreate(size_t n, RingbufferType_t t)
{
    if(refuse_in && --refuse_in == 0) { SIM_FAULT("kernel-out-of-memory"); ++refusals; return nullptr; }
    if(t == RINGBUF_TYPE_NOSPLIT) n = round4(n);
    return make(n, t, static_cast<uint8_t*>(malloc(n)), true);
}
RingbufHandle_t xRingbufferCreateStatic(size_t n, RingbufferType_t t, uint8_t* storage, StaticRingbuffer_t* s)
{
    if(!storage || !s) sim_rtos_misuse("creation of a static ring buffer without storage");
    if(t == RINGBUF_TYPE_NOSPLIT && n != round4(n)) sim_rtos_misuse("creation of a static item ring of odd size");
    SimRing* r = make(n, t, storage, false); memset((void*)s, 0, sizeof *s); s->owner = r; s->magic = 0x5EED; r->store = s; return r;
}
void vRingbufferDelete(RingbufHandle_t r)
{
    check(r, "vRingbufferDelete"); if(r->waiters) sim_rtos_misuse("deletion of a ring buffer a task waits for");
    r->gone = true; ASAN_UNPOISON_MEMORY_REGION(r->buf, r->cap); if(r->store) r->store->magic = 0;
    if(r->own) free(r->buf);
    r->cap = 0; free(r->chunk); r->chunk = nullptr;
}
size_t xRingbufferGetMaxItemSize(RingbufHandle_t r) { return most(check(r, "xRingbufferGetMaxItemSize")); }
BaseType_t xRingbufferSend(RingbufHandle_t r, const void* p, size_t n, TickType_t t) { check(r, "xRingbufferSend"); if(n > most(r)) return pdFALSE; return within(r, t, [&] { return put(r, p, n); }); }
BaseType_t xRingbufferSendFromISR(RingbufHandle_t r, const void* p, size_t n, BaseType_t* w) { check(r, "xRingbufferSendFromISR", true); bool ok = put(r, p, n); if(ok && w && r->waiters) *w = pdTRUE; return ok; }
BaseType_t xRingbufferSendAcquire(RingbufHandle_t r, void** p, size_t n, TickType_t t)
{
    check(r, "xRingbufferSendAcquire"); if(r->type != RINGBUF_TYPE_NOSPLIT) sim_rtos_misuse("acquiring in a ring which cannot");
    *p = nullptr; if(n > most(r)) return pdFALSE;
    return within(r, t, [&] { SimRing::Item* i = room(r, n); if(i) *p = i->p; return i != nullptr; });
}
BaseType_t xRingbufferSendComplete(RingbufHandle_t r, void* p)
{
    check(r, "xRingbufferSendComplete");
    for(auto& i : r->items) if(i.p == p && i.st == SimRing::Item::ACQUIRED) { i.st = SimRing::Item::READY; ASAN_POISON_MEMORY_REGION(i.p, i.n); rtos::point(); return pdTRUE; }
    sim_rtos_misuse("completion of something that was not acquired"); return pdFALSE;
}
void* xRingbufferReceive(RingbufHandle_t r, size_t* n, TickType_t t) { check(r, "xRingbufferReceive"); void* p = nullptr; within(r, t, [&] { p = get(r, n); return p != nullptr; }); return p; }
void* xRingbufferReceiveUpTo(RingbufHandle_t, size_t*, TickType_t, size_t) { sim_rtos_misuse("xRingbufferReceiveUpTo is not simulated"); return nullptr; }
void* xRingbufferReceiveFromISR(RingbufHandle_t r, size_t* n) { return get(check(r, "xRingbufferReceiveFromISR", true), n); }
void vRingbufferReturnItem(RingbufHandle_t r, void* p) { check(r, "vRingbufferReturnItem"); give_back(r, p); rtos::point(); }
void vRingbufferReturnItemFromISR(RingbufHandle_t r, void* p, BaseType_t* w) { check(r, "vRingbufferReturnItemFromISR", true); give_back(r, p); if(w && r->waiters) *w = pdTRUE; }
size_t xRingbufferGetCurFreeSize(RingbufHandle_t r) { return check(r, "xRingbufferGetCurFreeSize")->cap; }
}
