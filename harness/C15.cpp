// C15: see C15.h; the kinds of container are spread over several files because they take long to compile.
#include <estd/string.h>
#include <sim.h>
#include <string>

void fixed_a(unsigned), fixed_b(unsigned), fixed_c(unsigned), moving_a(bool), moving_b(bool), vec_a(), vec_b(), vec_c(unsigned), large_vec(), large_string(), s_created();

namespace {
void s_fixed_strings() { unsigned k = sim::choose(10); if(k < 3) fixed_a(k); else if(k < 6) fixed_b(k - 3); else fixed_c(k - 6); }
void s_moving_strings() { bool z = sim::choose(2); if(sim::chance(1, 2)) moving_a(z); else moving_b(z); }
void s_fixed_vectors() { if(sim::chance(1, 2)) vec_a(); else vec_b(); }
void s_moving_vectors() { vec_c(sim::choose(4)); }

// strings whose limit nobody knows, read only
void s_unbounded()
{
    std::string t(sim::choose(600), 'q'); for(char& c : t) c = "abq"[sim::choose(3)];
    estd::layer2::const_string s(t.c_str());
    sim::nontrivial();
    SIM_CHECK(s.size() == t.size(), "size", "a constant string of %zu characters reports %zu", t.size(), size_t(s.size()));
    estd::layer1::string<700> u; u = s;
    SIM_CHECK(u == t.c_str(), "contents", "a constant string of %zu characters was copied as %zu", t.size(), size_t(u.size()));
    sim::state(t.size());
}
}
const sim::Scenario scen[] = { { "fixed-strings", s_fixed_strings, 60 }, { "moving-strings", s_moving_strings, 60 }, { "fixed-vectors", s_fixed_vectors, 40 }, { "moving-vectors", s_moving_vectors, 50 }, { "unbounded", s_unbounded, 10 }, { "large-vectors", large_vec, 4 }, { "large-strings", large_string, 4 }, { "created-strings", s_created, 10 } };
const sim::Harness sim::harness = { "C15",
    "a vector (up to 300 elements, more if it grows) or string (up to 70000 characters) holds what a reference sequence would; what cannot get memory changes nothing and loses no block; removed elements are destroyed once; memory is locked during every access and released afterwards",
    "estd::layer1/layer2/layer3 vectors and strings, estd::vector and basic_string over a handle-based allocator, string_view and const_string as sources",
    "the handle-based allocator (blocks move whenever they are locked, are inaccessible while unlocked, may be refused)",
    "ranges given by iterators and elements handed over by moving do not live in the container they are added to|a container is told to drop its elements before it goes (it has no destructor of its own)|containers over one handle are not copied as a whole|elements of the reference sequence are copied without fail",
    150000, 6000000, scen, sizeof scen / sizeof *scen, nullptr };
