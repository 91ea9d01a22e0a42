// C23: notification of observers.  Subjects with referenced, owned and stateless observers, proxies which pass on to
// other subjects, observers which notify again or throw while they are notified.
// BUILD: -Wno-cpp
#include <estd/exp/observer.h>
#include <sim.h>
#include <string>
#include <vector>

namespace {
using namespace estd::experimental;
struct Boom { int at; };
struct Tick { int n; };             // taken by all (some by value, some by reference)
struct Text { std::string s; };     // has a value of its own: must arrive unaltered and still be the caller's afterwards
struct Rare { int n; };             // taken by one kind only
struct Trace { std::vector<std::string> v; void add(const std::string& s) { v.push_back(s); } };

// what is to happen while observers run: decided by the simulator as they are called
struct World
{
    std::vector<std::string> got;   // who was told what, in order
    int depth, budget, faults; void (*again)(World&); void* subject;
} *w;
int quiet;                          // > 0: neither throws nor notifies again
void called(const char* kind, int id, const std::string& what)
{
    w->got.push_back(std::string(kind) + std::to_string(id) + ":" + what);
    if(quiet || w->got.size() > 200) return;
    if(w->depth < 2 && w->again && w->budget > 0 && sim::chance(1, 12)) { --w->budget; SIM_FAULT("notifies-again"); ++w->depth; w->got.push_back("("); try { w->again(*w); } catch(...) { --w->depth; throw; } w->got.push_back(")"); --w->depth; }
    if(sim::chance(1, 14)) { SIM_FAULT("observer-throws"); ++w->faults; w->got.push_back("!"); throw Boom{ id }; }
}
std::string str(const Tick& t) { return "T" + std::to_string(t.n); }
std::string str(const Text& t) { return "S" + t.s; }
std::string str(const Rare& t) { return "R" + std::to_string(t.n); }
std::string str(int t) { return "i" + std::to_string(t); }

// takes everything, with state of its own (told counts how often this very object was called)
struct All
{
    int id, told; std::string tag;
    All(int id = 0) : id(id), told(0), tag("tag of observer number " + std::to_string(id)) {}
    template <class N> void on(const N& n) { ++told; SIM_CHECK(tag == "tag of observer number " + std::to_string(id), "state-lost", "observer %d finds its own state spoilt", id); called("A", id, str(n)); }
    void on_notify(int n) { on(n); }
    void on_notify(Tick n) { on(n); }
    void on_notify(const Text& n) { on(n); }
};
// takes some kinds only, one of them with a context
struct Some
{
    int id, told; Some(int id = 0) : id(id), told(0) {}
    void on_notify(const Tick& n) { ++told; called("B", id, str(n)); }
    void on_notify(const Rare& n) { ++told; called("B", id, str(n)); }
    void on_notify(const Text& n, Trace& c) { ++told; c.add(std::to_string(id)); called("B", id, str(n) + "+"); }
};
// takes texts without looking at the context (a class with both forms of one notification does not compile)
struct Plain
{
    int id, told; Plain(int id = 0) : id(id), told(0) {}
    void on_notify(const Text& n) { ++told; called("C", id, str(n)); }
};
template <int k> struct Static
{
    static void on_notify(const Tick& n) { called("S", k, str(n)); }
    static void on_notify(const Text& n, Trace& c) { c.add(std::to_string(k)); called("S", k, str(n) + "+"); }
};
struct Deaf {};

// expectation: per observer what it does with a notification; "" when it takes none
enum What { TICK, TEXT, RARE, INT };
struct Who { char kind; int id; };
std::string expect(const Who& o, int what, bool ctx, const std::string& s, bool& told_ctx)
{
    std::string p = std::string(1, o.kind) + std::to_string(o.id) + ":"; told_ctx = false;
    switch(o.kind)
    {
        case 'A': return what == RARE ? "" : p + s;
        case 'B': if(what == TICK || what == RARE) return p + s; if(what == TEXT && ctx) { told_ctx = true; return p + s + "+"; } return "";
        case 'C': if(what == TEXT) return p + s; return "";
        case 'S': if(what == TICK) return p + s; if(what == TEXT && ctx) { told_ctx = true; return p + s + "+"; } return "";
    }
    return "";
}
std::string join(const std::vector<std::string>& v) { std::string r; for(auto& x : v) r += (r.empty() ? "" : " ") + x; return r; }

// a nested notification is always the same one, so that the expected sequence can be told from the recorded marks
template <class S> void nested(World& x) { static_cast<S*>(x.subject)->notify(Tick{ 77 }); }

// check the recorded calls against the observers in order: pos runs over got
bool follow(const std::vector<Who>& who, int what, bool ctx, const std::string& s, const std::vector<std::string>& got, size_t& at, std::vector<std::string>& ctxs, std::string& why)
{
    // returns true if it ran to the end, false if it ended with an exception
    for(auto& o : who)
    {
        bool c; std::string e = expect(o, what, ctx, s, c); if(e.empty()) continue;
        if(at >= got.size()) { why = e + " was not told"; return true; }
        if(got[at] != e) { why = "'" + got[at] + "' instead of '" + e + "'"; return true; }
        ++at; if(c) ctxs.push_back(std::to_string(o.id));
        if(at < got.size() && got[at] == "(")
        {
            ++at; std::vector<std::string> none; bool done = follow(who, TICK, false, "T77", got, at, none, why);
            if(!why.empty()) return true;
            if(!done) return false;
            if(at >= got.size() || got[at] != ")") { why = "nested notification told too many"; return true; }
            ++at;
        }
        if(at < got.size() && got[at] == "!") { ++at; return false; }
    }
    return true;
}

template <class S> void drive(S& subject, const std::vector<Who>& who, bool renotify)
{
    World world{ {}, 0, 3, 0, renotify ? nested<S> : nullptr, &subject }; w = &world; quiet = 0;
    for(unsigned k = 0, n = sim::range(2, 10); k < n; ++k)
    {
        world.got.clear(); Trace trace; int v = (int)sim::choose(50); bool ctx = sim::choose(3) == 0; int what = (int)sim::choose(4); bool threw = false; std::string s;
        sim::log("%u notify %s%d%s", k, (const char*[]){ "tick", "text", "rare", "int" }[what], v, ctx ? " with context" : "");
        try
        {
            switch(what)
            {
                case TICK: { Tick t{ v }; s = str(t); if(ctx) subject.notify(t, trace); else subject.notify(t); break; }
                case TEXT: { Text t{ "a text long enough to need memory " + std::to_string(v) }; s = str(t); std::string was = t.s;
                    try { if(ctx) subject.notify(t, trace); else subject.notify(t); } catch(...) { SIM_CHECK(t.s == was, "altered", "the notification was altered: '%s'", t.s.c_str()); throw; }
                    SIM_CHECK(t.s == was, "altered", "the notification was altered: '%s'", t.s.c_str()); break; }
                case RARE: { Rare t{ v }; s = str(t); if(ctx) subject.notify(t, trace); else subject.notify(t); break; }
                case INT: s = str(v); if(ctx) subject.notify(v, trace); else subject.notify(v); break;
            }
        }
        catch(const Boom&) { threw = true; }
        size_t at = 0; std::vector<std::string> ctxs; std::string why; bool done = follow(who, what, ctx, s, world.got, at, ctxs, why);
        SIM_CHECK(why.empty(), "order", "notification %s: %s; told: %s", s.c_str(), why.c_str(), join(world.got).c_str());
        SIM_CHECK(at == world.got.size(), "too-many", "notification %s: '%s' was told although it does not take it or was told before; told: %s", s.c_str(), world.got[at].c_str(), join(world.got).c_str());
        SIM_CHECK(done != threw, "exception", "notification %s: an observer %s, the caller saw %s", s.c_str(), done ? "did not throw" : "threw", threw ? "an exception" : "none");
        SIM_CHECK(join(trace.v) == join(ctxs), "context", "notification %s: the context saw observers [%s], should be [%s]", s.c_str(), join(trace.v).c_str(), join(ctxs).c_str());
        world.depth = 0; world.budget = 3;
        uint64_t h = 23 + what * 7 + ctx; for(auto& g : world.got) h = sim::mix(h, (g[0] << 8) + (g.size() > 1 ? g[1] : 0)); sim::state(h); if(!world.got.empty()) sim::nontrivial();
    }
    w = nullptr;
}

void referenced()
{
    All a(1), b(2); Some c(3); Plain d(4); Deaf e;
    switch(sim::choose(5))
    {
        case 0: { auto s = layer0::make_subject(a, b); drive(s, { { 'A', 1 }, { 'A', 2 } }, true); break; }
        case 1: { auto s = layer0::make_subject(a, c, d, e, b); drive(s, { { 'A', 1 }, { 'B', 3 }, { 'C', 4 }, { 'A', 2 } }, true); break; }
        case 2: { auto s = layer0::make_subject(e, d, c); drive(s, { { 'C', 4 }, { 'B', 3 } }, true); break; }
        case 3: { auto s = layer0::make_subject(c, c, a); drive(s, { { 'B', 3 }, { 'B', 3 }, { 'A', 1 } }, true); break; }
        default: { layer0::subject<> s; drive(s, {}, false); break; }
    }
    // the very objects were told
    sim::log("end: told %d %d %d %d", a.told, b.told, c.told, d.told);
}
void same_object()
{
    // a referenced observer is told itself, an owned one is the subject's own and outlives what it was made from
    All a(1); World world{ {}, 0, 0, 0, nullptr, nullptr };
    auto make = [&]() { All t(2); Some u(3); return layer0::make_subject(a, All(t), Some(u)); };
    auto s = make(); drive(s, { { 'A', 1 }, { 'A', 2 }, { 'B', 3 } }, true);
    w = &world; quiet = 1; int was = a.told; unsigned n = sim::range(1, 4); for(unsigned k = 0; k < n; ++k) s.notify(5); quiet = 0; w = nullptr;
    SIM_CHECK(a.told == was + (int)n, "not-itself", "the observer was told %d times, itself %d times", (int)n, a.told - was);
    auto copy = s; drive(copy, { { 'A', 1 }, { 'A', 2 }, { 'B', 3 } }, true);
    SIM_PROBE("owned");
}
void stateless()
{
    typedef internal::stateless_subject<Static<1>, Static<2>, Deaf, Static<3>> S; S s; drive(s, { { 'S', 1 }, { 'S', 2 }, { 'S', 3 } }, true);
}
void proxied()
{
    // one subject passes on to another through a proxy: its observers come where the proxy stands
    typedef layer0::subject<All, Some> Inner; Inner inner(All(4), Some(5)); SIM_PROBE("proxy");
    All a(1), b(2);
    observer_proxy<Inner, Tick, Text> p(std::move(inner));
    auto s = layer0::make_subject(a, p, b);
    World world{ {}, 0, 0, 0, nullptr, nullptr }; 
    for(unsigned k = 0, n = sim::range(1, 8); k < n; ++k)
    {
        w = &world; world.got.clear(); bool text = sim::choose(2); int v = (int)sim::choose(30); bool threw = false; sim::log("%u notify %s%d", k, text ? "text" : "tick", v); std::string x;
        try { if(text) { Text t{ std::to_string(v) }; x = str(t); s.notify(t); } else { Tick t{ v }; x = str(t); s.notify(t); } } catch(const Boom&) { threw = true; }
        size_t at = 0; std::vector<std::string> none; std::string why; bool done = follow({ { 'A', 1 }, { 'A', 4 }, { 'B', 5 }, { 'A', 2 } }, text ? TEXT : TICK, false, x, world.got, at, none, why);
        SIM_CHECK(why.empty() && at == world.got.size() && done != threw, "proxy", "notification %s through a proxy: %s; told: %s%s", x.c_str(), why.c_str(), join(world.got).c_str(), threw ? "; exception" : "");
        sim::state(sim::mix(230, world.got.size() * 2 + text)); sim::nontrivial();
    }
    w = nullptr;
}
// virtual observers reached through their interface
struct Virt : observer_abstract<Tick, Text> { int id; Virt(int id) : id(id) {} void on_notify(const Tick& n) override { called("A", id, str(n)); } void on_notify(const Text& n) override { called("A", id, str(n)); } };
void interfaces()
{
    Virt x(1), y(2); typedef observer_abstract<Tick, Text> I; I& a = x; I& b = y; Some c(3);
    auto s = layer0::make_subject(a, c, b); World world{ {}, 0, 0, 0, nullptr, nullptr };
    for(unsigned k = 0, n = sim::range(1, 8); k < n; ++k)
    {
        w = &world; world.got.clear(); bool text = sim::choose(2); int v = (int)sim::choose(30); bool threw = false; sim::log("%u notify %s%d", k, text ? "text" : "tick", v); std::string z;
        try { if(text) { Text t{ std::to_string(v) }; z = str(t); s.notify(t); } else { Tick t{ v }; z = str(t); s.notify(t); } } catch(const Boom&) { threw = true; }
        size_t at = 0; std::vector<std::string> none; std::string why; bool done = follow({ { 'A', 1 }, { 'B', 3 }, { 'A', 2 } }, text ? TEXT : TICK, false, z, world.got, at, none, why);
        SIM_CHECK(why.empty() && at == world.got.size() && done != threw, "interface", "notification %s: %s; told: %s%s", z.c_str(), why.c_str(), join(world.got).c_str(), threw ? "; exception" : "");
        sim::state(sim::mix(231, world.got.size() * 2 + text)); sim::nontrivial();
    }
    w = nullptr;
}
const sim::Scenario scen[] = { { "referenced", referenced, 3 }, { "owned", same_object, 2 }, { "stateless", stateless, 1 }, { "proxied", proxied, 1 }, { "interfaces", interfaces, 1 } };
}
const sim::Harness sim::harness = { "C23", "a notification that reached at least one observer",
    "estd/exp/observer.h: layer0::subject, stateless_subject, observer_proxy, observer_abstract", "the observers",
    "observers are not destroyed while a subject refers to them", 150000, 3000000, scen, sizeof scen / sizeof *scen, nullptr };
