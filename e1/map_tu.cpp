// Instrumented translation unit: PMap through its public interface.
#include <cassert>
#include <algorithm>
#include <array>
#include <chrono>
#include <cstring>
#include <fstream>
#include <list>
#include <mutex>
#include <sstream>
#include <stdexcept>
#include <string>
#include <thread>
#include <vector>
#include "containers/ucfMap.hpp"
#include "hash.hpp"
#include "api.h"
TestOptions::TestOptions()
{
    numthreads = 1; numops = 0; numruns = 1; capacity = 3; recover = false; wipeFile = false;
}
// Many keys share a home slot, whatever the table size up to 64.
struct ClusterHash { size_t operator()(const size_t &k) const { return ((k >> 3) & 3) * 5 + (((k >> 5) * 64)); } };
template <class H> struct Impl
{
    using M = ConcurrentHashMap<KeyT, ValT, H>;
    static constexpr size_t S = M::BITS_MARKED;
    static uint64_t val(ValT v)
    {
        if (M::isValueReserved(v)) return ABSENT;
        if (v & ((1u << S) - 1)) return WEIRD;
        return v >> S;
    }
    static void *create(const char *dir, size_t cap, bool rec) { return new M(dir, cap, rec); }
    static uint64_t op(void *p, int kind, uint64_t k, uint64_t a, uint64_t b)
    {
        M *m = (M *)p;
        k <<= S; a <<= S; b <<= S;
        switch (kind)
        {
        case OP_PUT: return val(m->put(k, a));
        case OP_PUTIFABSENT: return val(m->putIfAbsent(k, a));
        case OP_REMOVE: return m->remove(k);
        case OP_REMOVEIF: return m->remove(k, a);
        case OP_REPLACE: return m->replace(k, a, b);
        case OP_GET: return val(m->get(k));
        case OP_CONTAINS: return m->containsKey(k);
        // The value argument is only a placeholder. Sometimes it is a plausible value.
        case OP_INC: return val(m->update(k, a ? a : ((((size_t)1 << 61) - 3) << S), M::Table::increment));
        }
        return WEIRD;
    }
    static uint64_t size(void *p) { return ((M *)p)->size(); }
    static int empty(void *p) { return ((M *)p)->isEmpty(); }
    static const MapApi api;
};
template <class H> const MapApi Impl<H>::api = {create, op, size, empty};
extern "C" const MapApi *map_api(int h)
{
    switch (h)
    {
    case H_XX: return &Impl<xxhash<KeyT>>::api;
    case H_CLUSTER: return &Impl<ClusterHash>::api;
    default: return &Impl<std::hash<KeyT>>::api;
    }
}
