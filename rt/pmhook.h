// The libpmem functions libpmemobj calls, replaced: a model of what has reached persistent memory, and crash images taken from it.
#pragma once
#include <cstddef>
#include <cstdint>
struct PmCounts { uint64_t flushes, drains, lines, images, dirtyLines, keptLines, failed, allocs, frees; };
extern PmCounts pmCounts;
extern thread_local bool pmBackground;   // set by a background thread for itself
extern void (*pmUsleep)();               // called instead of usleep (clevel's expansion thread)
void pmArm(void *base, size_t len, const char *file);   // from here on everything in the pool counts as persistent only once flushed and fenced
// Takes a crash image at each of these event numbers (flushes and drains count as one each). before/after surround the copying.
// bg: the same among the events of a background thread that touch new addresses.
void pmPlan(const uint64_t *at, int n, const uint64_t *bg, int nbg, const char *prefix, uint64_t seed, void (*before)(int), void (*after)(int));
uint64_t pmEvents();
void pmDisarm();
extern void (*pmOpened)(void *base);    // called when a pool has been opened, before the container looks at it
extern uint64_t pmFreedTwice;            // offset of an object that was given back to the allocator twice, or 0
