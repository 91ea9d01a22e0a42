// BUILD: -DESP_PLATFORM -I$R/src -I$V/fake/esp -I$V/fake/freertos -I$V/harness
// EXTRA: $V/fake/freertos/kernel.cpp $V/fake/esp/ringbuf.cpp
#include <cstddef>
#include <cstdint>
#include <estd/port/freertos/ring_buffer.h>
#include "rtos.h"
#include <ring.h>
#include <string>
#include <cstring>

namespace {
typedef estd::freertos::wrapper::ring_buffer Ring;

// a ring in its own or the kernel's memory
struct Made
{
    Ring r; uint8_t* mem = nullptr; StaticRingbuffer_t* st = nullptr; bool ok = false; size_t size;
    Made(RingbufferType_t type, size_t n) : size(n)
    {
        memset((void*)&r, 0x5A, sizeof r); ring::reset();
        if(sim::choose(2))
        {
            mem = static_cast<uint8_t*>(malloc(n)); st = static_cast<StaticRingbuffer_t*>(malloc(sizeof *st));
            r.create(n, type, mem, st); ok = true;
        }
        else
        {
            const bool no = sim::chance(1, 10); if(no) ring::refuse(1);
            r.create(n, type); ring::refuse(0); ok = ring::refused() == 0;
            SIM_CHECK((RingbufHandle_t(r) != nullptr) == ok, "creation-result", "creation %s and the handle is %s", ok ? "worked" : "failed", RingbufHandle_t(r) ? "set" : "null");
        }
        if(ok) SIM_CHECK(RingbufHandle_t(r) && ring::size(r) == n && ring::type(r) == type && ring::is_static(r) == (mem != nullptr), "created", "the ring is not the one that was asked for");
        sim::log("ring of %zu bytes, kind %d, %s memory", n, int(type), mem ? "own" : "the kernel's");
    }
    void done()
    {
        if(ok) r.free();
        SIM_CHECK(ring::live() == 0, "not-released", "%zu ring buffers are left", ring::live());
        free(mem); free(st); ring::reset();
    }
};
struct Head { uint8_t from, seq, len; };
std::string message(unsigned from, unsigned seq, size_t len)
{
    std::string s(len, 0); for(size_t i = 0; i < len; ++i) s[i] = char(i == 0 ? from : i == 1 ? seq : i == 2 ? len : from * 50 + seq * 7 + i * 3);
    return s;
}
TickType_t patience() { return sim::chance(1, 3) ? 0 : sim::chance(1, 12) ? portMAX_DELAY : sim::range(1, 6); }
// how long a call waited: no longer than it said, and no shorter if it gave up
struct Wait
{
    uint64_t t0 = rtos::now(), w0 = rtos::waited();
    void over(TickType_t n, bool ok, const char* what)
    {
        if(!ok) SIM_CHECK(n != portMAX_DELAY && rtos::now() - t0 >= n, "gave-up-early", "%s with %u ticks gave up after %llu", what, n, (unsigned long long)(rtos::now() - t0));
        if(n != portMAX_DELAY) SIM_CHECK(rtos::waited() - w0 <= n, "late", "%s with %u ticks waited for %llu", what, n, (unsigned long long)(rtos::waited() - w0));
    }
};
void items()
{
    const unsigned senders = sim::range(1, 3), each = sim::range(1, 10); unsigned isr_seq = 0, busy = senders; const unsigned ISR = 9;
    std::unique_ptr<Made> m; int accepted[10][64] = {}, got[10][64] = {}; unsigned total = 0, taken = 0; size_t most = 0; void* from_isr = nullptr; size_t from_isr_n = 0; unsigned last_isr = 0; (void)last_isr;
    auto receipt = [&](void* p, size_t n, int* last)
    {
        std::string s(static_cast<char*>(p), n); SIM_CHECK(n >= 3, "unknown", "received %zu bytes nobody sent", n);
        unsigned f = (uint8_t)s[0], q = (uint8_t)s[1]; SIM_CHECK(f < 10 && q < 64 && s == message(f, q, n) && (uint8_t)s[2] == (uint8_t)n, "altered", "received %zu bytes that nobody sent like that", n);
        SIM_CHECK(++got[f][q] == 1, "duplicated", "message %u of %u came %d times", q, f, got[f][q]);
        SIM_CHECK(accepted[f][q] >= 0, "refused-but-sent", "message %u of %u was refused and came all the same", q, f);
        SIM_CHECK((int)q > last[f], "order", "message %u of %u came after %d", q, f, last[f]); last[f] = (int)q; ++taken;
    };
    int isr_last[10]; for(int& x : isr_last) x = -1;
    std::function<bool()> isr = [&]() -> bool
    {
        if(!m || !m->ok) return busy != 0;
        BaseType_t woken = pdFALSE; const unsigned waiting = ring::waiters(m->r);
        if(isr_seq < 30 && busy && sim::choose(2))
        {
            size_t n = 3 + sim::choose(most - 2); std::string s = message(ISR, isr_seq, n); std::unique_ptr<char[]> e(new char[n]); memcpy(e.get(), s.data(), n);
            bool ok = m->r.send_from_isr(e.get(), n, &woken) == pdTRUE; sim::log("interrupt sends %zu: %d", n, ok);
            accepted[ISR][isr_seq++] = ok ? 1 : -1; total += ok; if(ok) SIM_CHECK((woken == pdTRUE) == (waiting > 0), "woken", "%u tasks wait and the interrupt is told %d", waiting, int(woken)); return true;
        }
        if(from_isr) { m->r.return_item_from_isr(from_isr, &woken); SIM_CHECK((woken == pdTRUE) == (waiting > 0), "woken", "%u tasks wait and the interrupt is told %d", waiting, int(woken)); from_isr = nullptr; return true; }
        from_isr = m->r.receive_from_isr(&from_isr_n);
        if(from_isr) { int fresh[10]; for(int& x : fresh) x = -1; sim::log("interrupt receives %zu", from_isr_n); SIM_FAULT("received-in-interrupt"); receipt(from_isr, from_isr_n, fresh); }
        return busy != 0;
    };
    rtos::Config c = rt::config(isr); rtos::boot(c);
    m.reset(new Made(RINGBUF_TYPE_NOSPLIT, 4 * sim::range(12, 40)));
    if(!m->ok) { m->done(); sim::nontrivial(); return; }
    most = m->r.max_item_size(); SIM_CHECK(most == (m->size / 2 & ~size_t(3)) - 8, "max-item", "the largest item has %zu bytes in a ring of %zu", most, m->size);
    for(unsigned i = 0; i < senders; ++i) rtos::spawn(("S" + std::to_string(i)).c_str(), rt::prio(), [&, i]{
        for(unsigned q = 0; q < each; ++q)
        {
            size_t n = 3 + sim::choose(most); const TickType_t t = patience(); std::string s = message(i, q, n); bool ok; Wait w; const bool fits = n <= most; if(!fits) SIM_FAULT("too-large");
            accepted[i][q] = 0;
            if(sim::choose(2))
            {
                std::unique_ptr<char[]> e(new char[n]); memcpy(e.get(), s.data(), n);
                ok = m->r.send(e.get(), n, t) == pdTRUE; sim::log("S%u sends %zu: %d", i, n, ok); if(fits) w.over(t, ok, "send");
            }
            else
            {
                void* p = &p; ok = m->r.send_acquire(&p, n, t) == pdTRUE; sim::log("S%u acquires %zu: %d", i, n, ok); if(fits) w.over(t, ok, "acquire");
                SIM_CHECK(ok == (p != nullptr), "acquired", "acquiring said %d and gave %s", ok, p ? "memory" : "none");
                if(ok) { rtos::point(); memcpy(p, s.data(), n); rtos::busy(sim::choose(2)); SIM_CHECK(m->r.send_complete(p) == pdTRUE, "completed", "completion failed"); }
            }
            if(!fits) SIM_CHECK(!ok, "too-large", "%zu bytes were accepted, at most %zu fit", n, most);
            if(!ok) SIM_FAULT("ring-full");
            accepted[i][q] = ok ? 1 : -1; if(!ok) SIM_CHECK(got[i][q] == 0, "refused-but-sent", "message %u of %u was refused and came all the same", q, i); total += ok;
        }
        --busy; });
    const unsigned takers = sim::range(1, 2);
    for(unsigned k = 0; k < takers; ++k) rtos::spawn(("T" + std::to_string(k)).c_str(), rt::prio(), [&, k]{
        int last[10]; for(int& x : last) x = -1; std::vector<void*> held; std::vector<std::string> was;
        while(busy || taken < total || !held.empty())
        {
            sim::step("no-progress");
            if(from_isr && sim::chance(1, 8)) { rtos::interrupt([&]{ BaseType_t w = pdFALSE; m->r.return_item_from_isr(from_isr, &w); from_isr = nullptr; }); continue; }
            if(!held.empty() && (held.size() > 2 || sim::choose(2)))
            {
                unsigned i = sim::choose(held.size()); SIM_CHECK(!memcmp(held[i], was[i].data(), was[i].size()), "altered", "an item changed before it was returned");
                sim::log("T%u returns %zu", k, was[i].size()); m->r.return_item(held[i]); held.erase(held.begin() + i); was.erase(was.begin() + i); continue;
            }
            size_t n = 0; TickType_t t = patience(); if(t == portMAX_DELAY || t == 0) t = sim::range(0, 3); Wait w; void* p = m->r.receive(&n, t); w.over(t, p != nullptr, "receive");
            if(!p) { if(!t) vTaskDelay(1); continue; }
            sim::log("T%u receives %zu", k, n); receipt(p, n, last); was.push_back(std::string(static_cast<char*>(p), n)); held.push_back(p);
        } });
    rtos::run();
    if(from_isr) rtos::interrupt([&]{ BaseType_t w = pdFALSE; m->r.return_item_from_isr(from_isr, &w); });
    SIM_CHECK(taken == total, "lost", "%u messages were accepted, %u received", total, taken);
    for(unsigned f = 0; f < 10; ++f) for(unsigned q = 0; q < 64; ++q) SIM_CHECK(accepted[f][q] != 1 || got[f][q] == 1, "lost", "message %u of %u was accepted and received %d times", q, f, got[f][q]);
    // all room has come back
    rtos::boot(rtos::Config()); rtos::spawn("end", 1, [&]{ std::unique_ptr<char[]> e(new char[most]()); size_t n = 0; SIM_CHECK(m->r.send(e.get(), most, 0) == pdTRUE, "room-lost", "the empty ring refuses its largest item"); void* p = m->r.receive(&n, 0); SIM_CHECK(p && n == most, "room-lost", "the item did not come out"); m->r.return_item(p); });
    rtos::run(); sim::state(sim::mix(total, m->size)); sim::nontrivial(); m->done();
}
// a stream of bytes: sent and received in blocks of any size
void bytes()
{
    const unsigned senders = 1; bool busy = true; std::string sent, got; std::unique_ptr<Made> m;
    rtos::Config c = rt::config(); rtos::boot(c); m.reset(new Made(RINGBUF_TYPE_BYTEBUF, sim::range(5, 60))); (void)senders;
    if(!m->ok) { m->done(); sim::nontrivial(); return; }
    SIM_CHECK(m->r.max_item_size() == m->size, "max-item", "the largest block has %zu bytes in a ring of %zu", m->r.max_item_size(), m->size);
    rtos::spawn("S", rt::prio(), [&]{ unsigned x = 0; for(unsigned k = sim::range(1, 14); k--;) { size_t n = 1 + sim::choose(m->size + 2); std::string s; for(size_t i = 0; i < n; ++i) s += char('a' + x++ % 26); TickType_t t = patience(); Wait w;
        if(t == portMAX_DELAY && n > m->size) t = 2;
        sent += s; bool ok = m->r.send(&s[0], n, t) == pdTRUE; sim::log("sends %zu: %d", n, ok); if(n <= m->size) w.over(t, ok, "send"); else SIM_CHECK(!ok, "too-large", "%zu bytes accepted by a ring of %zu", n, m->size);
        if(!ok) { SIM_FAULT("ring-full"); SIM_CHECK(got.size() + n <= sent.size(), "refused-but-sent", "refused bytes arrived"); sent.resize(sent.size() - n); x -= unsigned(n); } } busy = false; });
    rtos::spawn("T", rt::prio(), [&]{ while(busy || got.size() < sent.size()) { sim::step("no-progress"); size_t n = 0; TickType_t t = sim::range(0, 3); Wait w; void* p = m->r.receive(&n, t); w.over(t, p != nullptr, "receive"); if(!p) { if(!t) vTaskDelay(1); continue; }
        got.append(static_cast<char*>(p), n); sim::log("receives %zu", n); SIM_CHECK(n > 0 && sent.compare(0, got.size(), got) == 0, "altered", "received bytes nobody sent like that"); rtos::busy(sim::choose(2)); m->r.return_item(p); } });
    rtos::run(); SIM_CHECK(got == sent, "lost", "%zu bytes were accepted, %zu received", sent.size(), got.size()); sim::state(sim::mix(sent.size(), m->size)); sim::nontrivial(); m->done();
}
}
const sim::Scenario scen[] = { { "items", items, 3 }, { "bytes", bytes, 1 } };
const sim::Harness sim::harness = { "C26",
    "a run has 1-3 sending tasks, interrupts and 1-2 receiving tasks share a ring buffer of 48-160 bytes through the wrapper, with items held and returned in any order, or sends bytes in blocks through a byte ring; non-trivial when it came to its end or the ring was refused its memory; distinct by hash of the event log",
    "ring buffer wrapper of the ESP-IDF port (creation with and without storage, sending in one or two steps, receiving, returning, all of it from tasks and interrupts)",
    "FreeRTOS kernel and ESP-IDF ring buffer (simulated; waiting is by polling once a tick)",
    "the splitting kind of ring is left out, the wrapper being the same for it",
    60000, 3000000, scen, sizeof scen / sizeof *scen, nullptr };
