// Plain C view of the objects under test, implemented by the instrumented translation units.
#pragma once
#include <cstddef>
#include <cstdint>
enum OpKind : uint8_t { OP_PUT, OP_PUTIFABSENT, OP_REMOVE, OP_REMOVEIF, OP_REPLACE, OP_GET, OP_CONTAINS, OP_INC, OP_NKINDS };
struct MapApi {
    void *(*create)(const char *dir, size_t capacity, bool reconstruct);
    // Keys and values are small logical numbers; the TU shifts them as the adapters do.
    uint64_t (*op)(void *m, int kind, uint64_t key, uint64_t a, uint64_t b);
    uint64_t (*size)(void *m);
    int (*empty)(void *m);
};
static const uint64_t ABSENT = ~0ull;     // canonical "no value"
static const uint64_t WEIRD = ~0ull - 1;  // a result that is no value the client could have stored
enum HashKind { H_IDENT, H_XX, H_CLUSTER, H_NKINDS };
extern "C" const MapApi *map_api(int hash_kind);
