// Instrumented translation unit: the persistence primitives.
#include <cassert>
#include <cstddef>
#include <cstdint>
#include "persistence.hpp"
#include "prim.h"
template <class U> struct P
{
    static U u(uint64_t v) { return (U)(uintptr_t)v; }
    static int cas(void *w, uint64_t *old, uint64_t nw)
    {
        U o = u(*old); bool r = pcas<U>((std::atomic<U> *)w, o, u(nw));
        *old = (uint64_t)(uintptr_t)o; return r;
    }
    static uint64_t read(void *w) { return (uint64_t)(uintptr_t)pcas_read<U>((std::atomic<U> *)w); }
    // The flag set by hand, as the primitives allow.
    static int hand(void *w, uint64_t old, uint64_t nw)
    {
        U o = u(old), d = u(nw | DirtyFlag);
        if (!((std::atomic<U> *)w)->compare_exchange_strong(o, d)) return 0;
        persist<U>((std::atomic<U> *)w, d);
        return 1;
    }
    static const PrimApi api;
};
template <class U> const PrimApi P<U>::api = {cas, read, hand};
struct Node { int x; };
extern "C" const PrimApi *prim_api(int t) { return t == 0 ? &P<uint64_t>::api : t == 1 ? &P<Node *>::api : &P<int64_t>::api; }
extern "C" void prim_persist(const void *a, size_t n) { PERSIST(a, n); }
extern "C" void prim_flush_only(const void *a, size_t n) { PERSIST_FLUSH_ONLY(a, n); }
extern "C" void prim_barrier() { PERSIST_BARRIER_ONLY(); }
extern "C" uint64_t prim_flag() { return DirtyFlag; }
