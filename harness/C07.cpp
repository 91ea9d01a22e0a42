// BUILD: -DFREERTOS -I$R/src -I$V/fake/freertos -I$V/harness
// EXTRA: $V/fake/freertos/kernel.cpp
#include <estd/thread.h>
#include <estd/port/freertos/queue.h>
#include "rtos.h"
#include <type_traits>
#include <string>
#include <deque>
#include <cstring>

namespace {
using namespace estd;
typedef chrono::freertos_clock Clock; typedef Clock::duration Ticks;

// messages which show whether they are whole
template <unsigned N> struct Msg
{
    uint32_t id; uint8_t fill[N];
    static Msg make(uint32_t id) { Msg m; memset(&m, 0, sizeof m); m.id = id; for(unsigned i = 0; i < N; ++i) m.fill[i] = uint8_t(id * 31 + i * 7); return m; }
    bool whole() const { Msg m = make(id); return id && !memcmp(fill, m.fill, N); }
    uint32_t key() const { return id; }
};
struct Byte { uint8_t v; static Byte make(uint32_t id) { return Byte{ uint8_t(id) }; } bool whole() const { return v != 0; } uint32_t key() const { return v; } };
template <class T> T blank() { T t; memset((void*)&t, 0xEE, sizeof t); return t; }
template <class T> bool is_blank(const T& t) { for(size_t i = 0; i < sizeof t; ++i) if(((const uint8_t*)&t)[i] != 0xEE) return false; return true; }

// n ticks, in ticks or in milliseconds
template <class F> bool some_unit(TickType_t n, F f)
{
    const unsigned ms = 1000 / configTICK_RATE_HZ;
    switch(sim::choose(3)) { case 0: return f(chrono::milliseconds(n * ms)); case 1: if(n) return f(chrono::milliseconds((n - 1) * ms + 1)); [[fallthrough]]; default: return f(Ticks(n)); }
}
// the queue and what it stands on, each exactly as big as it has to be
template <class Q> struct Open : Q { using Q::Q; QueueHandle_t handle() const { return this->q; } };
template <class T> struct Dyn { typedef Open<freertos::queue<T, false>> Q; unsigned len; Q q; explicit Dyn(unsigned n) : len(n), q(n) {} };
template <class T> struct Buffer { T* p; explicit Buffer(unsigned n) : p(static_cast<T*>(::operator new(n * sizeof(T)))) {} ~Buffer() { ::operator delete(p); } };
template <class T> struct Sta
{
    typedef Open<freertos::queue<T, true>> Q; unsigned len; Buffer<T> b; Q q;
    explicit Sta(unsigned n) : len(n), b(n), q(b.p, n) {}
};
template <class T> struct Lay
{
    typedef Open<freertos::layer1::queue<T, 3>> Q; unsigned len; Q q; explicit Lay(unsigned) : len(3), q() {}
};
// history: when each message could have gone in and come out
struct Sent { uint32_t id = 0; uint64_t call = 0, ret = 0; bool ok = false, isr = false; };
struct Got { uint32_t id; uint64_t call, ret; unsigned who; };
template <class B, class T> struct Run
{
    std::unique_ptr<B> b; std::deque<Sent> sent; std::vector<Got> got; unsigned next = 0; uint64_t seq = 0; bool drained = false; unsigned accepted = 0, taken = 0, in_recv = 0, in_send = 0;
    QueueHandle_t h() { return b->q.handle(); }
    void within(const char* what)
    {
        unsigned n = rtos::count(h());
        SIM_CHECK(n <= b->len, "capacity", "after %s the queue holds %u of %u", what, n, b->len);
    }
    static T make(uint32_t id) { return T::make(id); }
    void receive_one(unsigned who, bool forever, TickType_t n)
    {
        alignas(T) T m = blank<T>(); rtos::Tally was = rtos::tally(h()); unsigned takes = rtos::takes(h()); bool had = rtos::count(h()) > 0; uint64_t call = ++seq; bool ok;
        rt::Timed timed; ++in_recv; ok = forever ? b->q.receive(&m) : some_unit(n, [&](auto d) { return b->q.receive(&m, d); }); --in_recv;
        within("receive");
        SIM_CHECK(rtos::tally(h()).took - was.took == (ok ? 1u : 0u), "receive-result", "receive reported %s but took %u messages", ok ? "success" : "failure", rtos::tally(h()).took - was.took);
        if(forever) SIM_CHECK(ok, "gave-up", "an untimed receive returned without a message");
        if(!ok)
        {
            SIM_CHECK(is_blank(m), "failed-receive-wrote", "a failed receive changed the caller's message"); SIM_PROBE("receive-timed-out");
            SIM_CHECK(!(had && rtos::takes(h()) == takes), "refused-available", "a receive failed although a message was there all the time");
            timed.gave_up(n, "a receive"); sim::log("recv %u no", who); return;
        }
        ++taken; take(m, call, who);
    }
    void take(const T& m, uint64_t call, unsigned who)
    {
        SIM_CHECK(m.whole(), "not-whole", "received message %x is not as any was sent", m.key());
        sim::log("recv %u got %u", who, m.key()); got.push_back({ m.key(), call, ++seq, who });
        sim::state(sim::mix(rtos::count(h()), in_recv * 8 + in_send)); sim::nontrivial();
    }
    void send_one(unsigned, bool forever, TickType_t n)
    {
        Sent& s = sent.emplace_back(); s.id = ++next; T m = make(s.id); T copy = m; rtos::Tally was = rtos::tally(h()); s.call = ++seq; sim::log("send %u", s.id); bool had = rtos::count(h()) < b->len; unsigned puts = rtos::puts(h());
        rt::Timed timed; ++in_send; s.ok = forever ? b->q.send(m) : some_unit(n, [&](auto d) { return b->q.send(m, d); }); --in_send; s.ret = ++seq;
        within("send");
        SIM_CHECK(!memcmp((void*)&m, (void*)&copy, sizeof m), "send-changed", "send changed the message it was given");
        SIM_CHECK(rtos::tally(h()).gave - was.gave == (s.ok ? 1u : 0u), "send-result", "send reported %s but %u messages went in", s.ok ? "success" : "failure", rtos::tally(h()).gave - was.gave);
        if(forever) SIM_CHECK(s.ok, "gave-up", "an untimed send returned without having sent");
        if(!s.ok) { SIM_PROBE("send-timed-out"); timed.gave_up(n, "a send"); SIM_CHECK(!(had && rtos::puts(h()) == puts), "refused-room", "a send failed although there was room all the time"); sim::log("send %u refused", s.id); } else ++accepted;
    }
    void isr()
    {
        Sent& s = sent.emplace_back(); s.id = ++next; s.isr = true; T m = make(s.id); BaseType_t woken = pdFALSE; rtos::Tally was = rtos::tally(h()); bool room = rtos::count(h()) < b->len; s.call = ++seq;
        bool told = sim::chance(2, 3); s.ok = (told ? b->q.send_from_isr(m, &woken) : b->q.send_from_isr(m)) == pdTRUE; s.ret = ++seq; within("send_from_isr"); sim::log("isr send %u %s", s.id, s.ok ? "ok" : "full");
        SIM_CHECK(s.ok == room, "isr-result", "a send from an interrupt reported %d with%s room", s.ok, room ? "" : "out");
        SIM_CHECK(rtos::tally(h()).gave - was.gave == (s.ok ? 1u : 0u), "send-result", "a send from an interrupt reported %d but %u messages went in", s.ok, rtos::tally(h()).gave - was.gave);
        if(told) SIM_CHECK((woken == pdTRUE) == rtos::woke_higher(), "isr-woken", "an interrupt was %stold that it woke a task above the running one", woken ? "" : "not ");
        if(s.ok) ++accepted; else SIM_FAULT("queue-full-in-isr");
    }
    void verify()
    {
        std::vector<unsigned> pos(next + 1, 0); unsigned n = 0;
        for(auto& g : got) { ++n; SIM_CHECK(g.id <= next, "invented", "message %u was never sent", g.id); SIM_CHECK(!pos[g.id], "duplicated", "message %u was received twice", g.id); pos[g.id] = n; }
        for(auto& s : sent)
        {
            SIM_CHECK(s.ok || !pos[s.id], "failed-send-delivered", "message %u was received although its send failed", s.id);
            SIM_CHECK(!s.ok || pos[s.id], "lost", "message %u was accepted and never received", s.id);
            if(!s.ok) continue;
            SIM_CHECK(s.call < got[pos[s.id] - 1].ret, "invented", "message %u was received before it was sent", s.id);
            // what had gone in before this was offered cannot come out after it
            for(auto& t : sent) if(t.ok && t.ret < s.call) SIM_CHECK(got[pos[t.id] - 1].call < got[pos[s.id] - 1].ret, "not-in-order", "message %u was accepted before %u was sent but a receiver only came for it after the other was delivered", t.id, s.id);
        }
    }
};
TickType_t some_wait() { return sim::chance(1, 4) ? 0 : sim::range(1, 12); }
void around() { switch(sim::choose(4)) { case 0: break; case 1: rtos::point(); break; case 2: rtos::busy(sim::range(1, 3)); break; default: vTaskDelay(sim::range(1, 6)); } }
template <class B, class T> void traffic()
{
    Run<B, T> r; unsigned fires = sim::choose(8); const unsigned most = sizeof(T) == 1 ? 200 : 100000;
    auto isr = [&]() -> bool { if(!r.b || r.drained || !fires || r.next >= most) return r.b && !r.drained && fires; --fires; r.isr(); return true; };
    rtos::boot(rt::config(sim::chance(2, 3) ? std::function<bool()>(isr) : nullptr));
    rtos::spawn("main", 5, [&]{ r.b.reset(new B(sim::range(1, 5))); });      // made by a task
    rtos::run();
    SIM_CHECK(rtos::capacity(r.h()) == r.b->len, "capacity", "a queue for %u messages was made with room for %u", r.b->len, rtos::capacity(r.h()));
    unsigned senders = sim::range(1, 3), receivers = sim::range(1, 3), left = senders, each = sim::range(1, 10); bool flood = sim::chance(1, 4);
    for(unsigned i = 0; i < senders; ++i)
        rtos::spawn(("S" + std::to_string(i)).c_str(), rt::prio(), [&, i]{ for(unsigned k = 0; k < each; ++k) { r.send_one(i, sim::chance(1, 2), some_wait()); if(!flood) around(); } --left; });
    for(unsigned i = 0; i < receivers; ++i)
        rtos::spawn(("R" + std::to_string(i)).c_str(), rt::prio(), [&, i]{
            // the first one stays until everything has been sent and taken
            for(unsigned k = 0; i ? k < each : left || rtos::count(r.h()); ++k)
            {
                r.receive_one(i, false, some_wait());
                if(sim::chance(1, 8)) { unsigned a = rtos::count(r.h()); uint64_t was = rtos::slips(); UBaseType_t n = r.b->q.messages_waiting(); if(was == rtos::slips()) SIM_CHECK(n == a, "count", "messages_waiting said %lu instead of %u", n, a); }
                around();
            } });
    rtos::run();
    // interrupts may have come after: drain
    rtos::spawn("last", 2, [&]{ r.drained = true; while(rtos::count(r.h())) r.receive_one(9, false, 0); T m = blank<T>(); SIM_CHECK(!r.b->q.receive(&m, Ticks(0)) && is_blank(m), "invented", "a message came out of an empty queue"); });
    rtos::run();
    r.verify(); r.b.reset();
    SIM_CHECK(rtos::objects() == 0, "kernel-object-leak", "a destroyed queue left %zu kernel objects", rtos::objects());
}
// untimed calls only: everybody gets through
template <class B, class T> void pipeline()
{
    Run<B, T> r; rtos::boot(rt::config());
    rtos::spawn("main", 5, [&]{ r.b.reset(new B(sim::range(1, 4))); }); rtos::run();
    unsigned senders = sim::range(1, 3), receivers = sim::range(1, 3), each = sim::range(1, 8), total = senders * each;
    for(unsigned i = 0; i < senders; ++i) rtos::spawn("S", rt::prio(), [&, i]{ for(unsigned k = 0; k < each; ++k) { r.send_one(i, true, 0); if(sim::chance(1, 2)) around(); if(sim::chance(1, 20)) rt::long_pause(); } });
    for(unsigned i = 0; i < receivers; ++i) rtos::spawn("R", rt::prio(), [&, i]{ for(unsigned k = i; k < total; k += receivers) { r.receive_one(i, true, 0); if(sim::chance(1, 2)) around(); if(sim::chance(1, 20)) rt::long_pause(); } });
    rtos::run();
    SIM_CHECK(r.taken == total, "lost", "%u sent, %u received", total, r.taken); r.verify();
}
// one task alone: the queue is a FIFO of exactly its capacity
template <class B, class T> void solo()
{
    rtos::boot(rt::config());
    rtos::spawn("A", 2, []{
        unsigned len = sim::chance(1, 6) ? sim::chance(1, 4) ? sim::range(254, 300) : sim::range(6, 40) : sim::range(1, 5); Run<B, T> r; r.b.reset(new B(len)); len = r.b->len; std::deque<uint32_t> model; auto& q = r.b->q; unsigned next = 0;
        for(int steps = sim::range(5, 40); steps--;)
        {
            TickType_t n = sim::chance(1, 2) ? 0 : sim::range(1, 5); uint64_t t0 = rtos::now();
            switch(sim::choose(6))
            {
                case 0: case 1: case 2:
                {
                    bool burst = sim::chance(1, 6); for(unsigned i = 0, k = burst ? len + 1 : 1; i < k; ++i)
                    {
                        T m = T::make(++next); bool room = model.size() < len; bool ok; t0 = rtos::now(); unsigned how = sim::choose(3);
                        if(how == 1) ok = room ? q.send(m) : q.send(m, Ticks(n)); else if(how == 2 && room) { bool w = false; rtos::interrupt([&]{ w = q.send_from_isr(m) == pdTRUE; }); ok = w; } else { ok = q.send(m, Ticks(n)); if(!ok) SIM_CHECK(rtos::now() - t0 >= n, "gave-up", "a send of %u ticks gave up after %llu", n, (unsigned long long)(rtos::now() - t0)); }
                        sim::log("send %u %d", next, ok); SIM_CHECK(ok == room, "capacity", "a queue for %u with %zu messages %s another", len, model.size(), ok ? "took" : "refused"); if(ok) model.push_back(T::make(next).key());
                    }
                    break;
                }
                case 3: case 4:
                {
                    T m = blank<T>(); bool ok = !model.empty() && sim::chance(1, 2) ? q.receive(&m) : q.receive(&m, Ticks(n));
                    SIM_CHECK(ok == !model.empty(), "receive-result", "receive reported %d with %zu messages", ok, model.size());
                    if(!ok) { SIM_CHECK(is_blank(m), "failed-receive-wrote", "a failed receive changed the caller's message"); SIM_CHECK(rtos::now() - t0 >= n, "gave-up", "a receive of %u ticks gave up after %llu", n, (unsigned long long)(rtos::now() - t0)); break; }
                    SIM_CHECK(m.whole() && m.key() == model.front(), "not-in-order", "message %u came out instead of %u", m.key(), model.front()); model.pop_front(); break;
                }
                default: if(sim::chance(1, 3)) vTaskDelay(1);
            }
            SIM_CHECK(q.messages_waiting() == model.size(), "count", "messages_waiting says %lu instead of %zu", q.messages_waiting(), model.size()); sim::state(sim::mix(len, model.size()));
        }
        if constexpr(std::is_same_v<B, Sta<T>>)
        {
            uint8_t* s = nullptr; StaticQueue_t* sq = nullptr; SIM_CHECK(q.static_buffers(&s, &sq) == pdTRUE, "static-buffers", "static_buffers failed");
            SIM_CHECK(s == reinterpret_cast<uint8_t*>(r.b->b.p) && (char*)sq >= (char*)&q && (char*)(sq + 1) <= (char*)(&q + 1), "static-buffers", "a static queue does not use the storage it was given");
        }
        sim::nontrivial();
    });
    rtos::run();
    SIM_CHECK(rtos::objects() == 0, "kernel-object-leak", "a destroyed queue left %zu kernel objects", rtos::objects());
}
template <class B, class T> void lifetime()
{
    rtos::boot(rt::config());
    rtos::spawn("A", 2, []{
        for(int n = sim::range(1, 4); n--;)
        {
            bool deny = sim::chance(1, 3); unsigned before = rtos::denied(); if(deny) rtos::deny(1);
            {
                std::unique_ptr<B> b(new B(sim::range(1, 4))); rtos::deny(0); bool null = b->q.handle() == nullptr;
                SIM_CHECK(null == (rtos::denied() != before), "creation", "the queue %s although the kernel %s", null ? "has no kernel object" : "has one", null ? "had memory" : "refused");
                if(!null)
                {
                    typedef typename B::Q Q; b->q.send(T::make(3));
                    if constexpr(std::is_copy_constructible<Q>::value) { Q copy(b->q); copy.send(T::make(4), Ticks(0)); }
                    T m; SIM_CHECK(b->q.receive(&m) && m.key() == T::make(3).key(), "not-in-order", "the message sent did not come back"); sim::nontrivial();
                    if(sim::chance(1, 2)) b->q.send(T::make(5));       // destroyed with a message inside
                }
            }
            SIM_CHECK(rtos::objects() == 0, "kernel-object-leak", "a destroyed queue left %zu kernel objects", rtos::objects());
        } });
    rtos::run();
}
// the thin wrapper over the kernel's queue
void wrapper()
{
    rtos::boot(rt::config());
    rtos::spawn("A", 2, []{
        typedef Msg<5> T; unsigned len = sim::chance(1, 2) ? 1 : sim::chance(1, 16) ? 300 : sim::range(2, 5); bool stat = sim::chance(1, 2); Buffer<T> buf(len); auto sq = std::make_unique<StaticQueue_t>();
        auto q = stat ? freertos::wrapper::queue::create(len, sizeof(T), (uint8_t*)buf.p, sq.get()) : freertos::wrapper::queue::create(len, sizeof(T));
        std::deque<uint32_t> model; unsigned next = 0; SIM_CHECK(rtos::capacity(q) == len, "capacity", "room for %u instead of %u", rtos::capacity(q), len);
        for(int steps = sim::range(5, 40); steps--;)
        {
            T m = T::make(++next), o = blank<T>(); bool ok = false; BaseType_t w = pdFALSE; TickType_t n = sim::choose(3); bool room = model.size() < len, some = !model.empty();
            switch(sim::choose(9))
            {
                case 0: ok = q.send(&m, n) == pdTRUE; SIM_CHECK(ok == room, "send-result", "send reported %d", ok); if(ok) model.push_back(next); break;
                case 1: ok = q.send_to_back(&m, n) == pdTRUE; SIM_CHECK(ok == room, "send-result", "send_to_back reported %d", ok); if(ok) model.push_back(next); break;
                case 2: ok = q.receive(&o, n) == pdTRUE; SIM_CHECK(ok == some && (ok ? o.whole() && o.id == model.front() : is_blank(o)), "receive-result", "receive reported %d and message %u", ok, o.id); if(ok) model.pop_front(); break;
                case 3: ok = q.peek(&o, n) == pdTRUE; SIM_CHECK(ok == some && (ok ? o.whole() && o.id == model.front() : is_blank(o)), "receive-result", "peek reported %d and message %u", ok, o.id); break;
                case 4: rtos::interrupt([&]{ ok = q.peek_from_isr(&o) == pdTRUE; }); SIM_CHECK(ok == some && (ok ? o.whole() && o.id == model.front() : is_blank(o)), "receive-result", "peek_from_isr reported %d and message %u", ok, o.id); break;
                case 5: rtos::interrupt([&]{ ok = q.send_from_isr(&m, &w) == pdTRUE; }); SIM_CHECK(ok == room, "send-result", "send_from_isr reported %d", ok); if(ok) model.push_back(next); break;
                case 6: if(len != 1) break; if(sim::chance(1, 2)) ok = q.overwrite(&m) == pdTRUE; else rtos::interrupt([&]{ ok = q.overwrite_from_isr(&m) == pdTRUE; }); SIM_CHECK(ok, "send-result", "overwrite failed"); model.assign(1, next); break;
                case 7: if(!sim::chance(1, 3)) break; SIM_CHECK(q.reset() == pdTRUE, "reset", "reset failed"); model.clear(); break;
                default: vTaskDelay(1);
            }
            SIM_CHECK(q.messages_waiting() == model.size() && q.spaces_available() == len - model.size(), "count", "%lu messages and %lu spaces instead of %zu and %zu", q.messages_waiting(), q.spaces_available(), model.size(), len - model.size());
        }
        q.free(); SIM_CHECK(rtos::objects() == 0, "kernel-object-leak", "free left the kernel object"); sim::nontrivial();
    });
    rtos::run();
}
}
const sim::Scenario scen[] = {
    { "traffic", traffic<Dyn<Msg<9>>, Msg<9>>, 4 }, { "traffic-static", traffic<Sta<Msg<9>>, Msg<9>>, 4 }, { "traffic-layer1", traffic<Lay<Msg<3>>, Msg<3>>, 3 }, { "traffic-bytes", traffic<Sta<Byte>, Byte>, 1 }, { "traffic-large", traffic<Dyn<Msg<200>>, Msg<200>>, 1 },
    { "pipeline", pipeline<Dyn<Msg<1>>, Msg<1>>, 2 }, { "pipeline-static", pipeline<Sta<Msg<9>>, Msg<9>>, 2 }, { "pipeline-layer1", pipeline<Lay<Msg<12>>, Msg<12>>, 2 },
    { "solo", solo<Dyn<Msg<9>>, Msg<9>>, 1 }, { "solo-static", solo<Sta<Msg<9>>, Msg<9>>, 2 }, { "solo-layer1", solo<Lay<Msg<12>>, Msg<12>>, 1 }, { "solo-long-messages", solo<Dyn<Msg<300>>, Msg<300>>, 1 }, { "solo-long-messages-static", solo<Sta<Msg<300>>, Msg<300>>, 1 }, { "traffic-long-messages", traffic<Lay<Msg<300>>, Msg<300>>, 1 }, { "solo-bytes", solo<Dyn<Byte>, Byte>, 1 },
    { "life", lifetime<Dyn<Msg<9>>, Msg<9>>, 1 }, { "life-static", lifetime<Sta<Msg<9>>, Msg<9>>, 1 }, { "life-layer1", lifetime<Lay<Msg<9>>, Msg<9>>, 1 },
    { "wrapper", wrapper, 2 },
};
const sim::Harness sim::harness = { "C07",
    "Over the recorded history every accepted message is received exactly once and whole, no refused one ever, and no two in an order which contradicts real time at both ends; a call's result equals what the kernel saw go in or out, a failed receive leaves the caller's message alone, nothing fails while it could have succeeded all along, untimed calls end only with success; the kernel queue has exactly the declared capacity, is never over it, and is deleted exactly once.",
    "message queues (dynamic, static, with built-in storage) and their kernel wrapper",
    "FreeRTOS kernel (simulated: tasks, priorities, queues, ticks, interrupts)",
    "messages are plain data, as the kernel copies them byte by byte",
    40000, 2000000, scen, sizeof scen / sizeof *scen, nullptr };
