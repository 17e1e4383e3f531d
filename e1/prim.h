#pragma once
#include <cstddef>
#include <cstdint>
struct PrimApi {
    int (*cas)(void *w, uint64_t *old, uint64_t nw);
    uint64_t (*read)(void *w);
    int (*hand)(void *w, uint64_t old, uint64_t nw);
};
extern "C" const PrimApi *prim_api(int type);      // 0: integers, 1: pointers, 2: signed integers
extern "C" void prim_persist(const void *a, size_t n);
extern "C" void prim_flush_only(const void *a, size_t n);
extern "C" void prim_barrier();
extern "C" uint64_t prim_flag();
