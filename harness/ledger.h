// Values that account for every construction, use and destruction, and fail on demand.
#pragma once
#include <sim.h>
#include <unordered_map>
#include <utility>
#include <cstdlib>

namespace led {
struct Boom {};
// the ledger's own memory is not a request of the code under test
template <class T> struct Own
{
    typedef T value_type;
    Own() {} template <class U> Own(const Own<U>&) {}
    T* allocate(size_t n) { return (T*)std::malloc(n * sizeof(T)); }
    void deallocate(T* p, size_t) { std::free(p); }
    template <class U> bool operator==(const Own<U>&) const { return true; }
    template <class U> bool operator!=(const Own<U>&) const { return false; }
};
struct Ledger { std::unordered_map<unsigned, int, std::hash<unsigned>, std::equal_to<unsigned>, Own<std::pair<const unsigned, int>>> live; unsigned next = 1; int fuse = -1; unsigned booms = 0, destroyed = 0; };
inline Ledger& st() { static Ledger l; return l; }
inline void reset() { st().live.clear(); st().next = 1; st().fuse = -1; st().booms = 0; st().destroyed = 0; }
inline size_t live() { return st().live.size(); }
// the n-th construction or assignment from now on throws
inline void arm(int n) { st().fuse = n; }
inline void disarm() { st().fuse = -1; }
inline void maybe_throw() { Ledger& l = st(); if(l.fuse > 0 && --l.fuse == 0) { l.fuse = -1; ++l.booms; SIM_FAULT("construction-fails"); throw Boom(); } }

struct Val
{
    unsigned magic, id; int v;
    void born() { id = st().next++; magic = id * 2654435761u ^ 0xA11FEu; st().live[id] = 1; }
    bool ok() const { return magic == (id * 2654435761u ^ 0xA11FEu) && st().live.count(id); }
    void use(const char* what) const { SIM_CHECK(ok(), "dead-value", "%s of a value that is not alive (id %u)", what, id); }
    int get() const { use("read"); return v; }
    Val() : v(0) { maybe_throw(); born(); }
    Val(int n) : v(n) { maybe_throw(); born(); }
    Val(const Val& o) : v((o.use("copy"), o.v)) { maybe_throw(); born(); }
    Val(Val&& o) : v((o.use("move"), o.v)) { maybe_throw(); born(); o.v = -777; }
    Val& operator=(const Val& o) { use("assignment to"); o.use("assignment from"); maybe_throw(); v = o.v; return *this; }
    Val& operator=(Val&& o) { use("assignment to"); o.use("move-assignment from"); maybe_throw(); if(this != &o) { v = o.v; o.v = -777; } return *this; }
    ~Val() { SIM_CHECK(ok(), "destroyed-twice", "destruction of a value that is not alive (id %u)", id); st().live.erase(id); ++st().destroyed; magic = 0xDEAD; }
    bool operator==(const Val& o) const { return get() == o.get(); }
    bool operator!=(const Val& o) const { return get() != o.get(); }
    bool operator<(const Val& o) const { return get() < o.get(); }
    bool operator>(const Val& o) const { return get() > o.get(); }
    bool operator<=(const Val& o) const { return get() <= o.get(); }
    bool operator>=(const Val& o) const { return get() >= o.get(); }
};
}
