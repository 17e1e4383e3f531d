// Deterministic scheduler, persistence model and interposition layer.
#pragma once
#include <cstddef>
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) { next(); next(); }
    uint64_t next() { uint64_t z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    bool chance(double p) { return (next() >> 11) * (1.0 / 9007199254740992.0) < p; }
    template <class T> const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
};
static inline uint64_t mix(uint64_t a, uint64_t b) { Rng r(a ^ (b * 0xD6E8FEB86659FD93ull)); return r.next(); }

namespace eng {
enum StratKind { RANDOM, PCT, RR };
struct StallRule {
    uint64_t seed; uint32_t mod;      // which sites: hash(seed, pc) % mod == 0
    uint32_t occurrence;              // on the n-th hit
    uint32_t threads;                 // mask
    int duration;                     // steps; -1: until the others are done
    uint32_t hits; bool fired;
};
struct Strategy {
    StratKind kind = RANDOM;
    double p = 0.1;                   // switch probability per step
    int depth = 3; uint32_t horizon = 2000;
    std::vector<StallRule> rules;
    uint64_t seed = 1;
    uint64_t unfair_limit = 60000, total_limit = 400000;
    // Freeze: at step freeze_at all threads outside keep_mask stop for good.
    uint64_t freeze_at = ~0ull; uint32_t keep_mask = ~0u; uint64_t frozen_limit = 0;
    // Crash: at step crash_at, run() returns CRASHED.
    uint64_t crash_at = ~0ull;
    double evict_p = 0;               // spontaneous write-back of a recently written line, per step
};
enum Result { DONE, HANG, CRASHED };
struct Stats { uint64_t steps = 0, switches = 0, cas_ok = 0, cas_fail = 0, flushes = 0, fences = 0, evictions = 0, maps = 0, unmaps = 0, stalls = 0, sites = 0, aba = 0; uint64_t sched_hash = 0; bool frozen = false; int unfinished = 0; };
extern Stats stats;
// Runs the bodies as fibers under the strategy.
Result run(std::vector<std::function<void()>> bodies, const Strategy &st);
int current();                        // fiber index, -1 outside
uint64_t fiber_steps(int i);
bool fiber_done(int i);
void yield_point();                   // explicit scheduling point
void sleep(uint64_t steps);           // lets the other fibers run for so many steps
void set_clock(uint64_t c);
uint64_t now();                       // logical clock, strictly increasing

// --- file system redirection and persistence model ---
void set_root(const std::string &dir);        // /mnt/pmem/pm1 -> dir
void pm_enable(bool on);                      // track mappings and flushes
void pm_crash_image(Rng &rng, int style, std::vector<std::pair<std::string, std::string>> &files); // contents surviving a crash
struct PmStats { uint64_t dirty_lines = 0, pending_lines = 0, evicted = 0; };
extern PmStats last_crash;
// Bad arguments seen by mmap/munmap on behalf of the code under test; empty if none.
std::string map_complaint();
void reset_maps();
size_t mapped_tables();
// Arms a step counter outside run(), so that single-threaded code can be crashed too.
void arm_solo(uint64_t crash_at, double evict_p, uint64_t seed);   // throws SoloCrash
void disarm_solo();
uint64_t solo_steps();
struct SoloCrash {};
extern void (*solo_crash_fn)();
extern void (*on_hang)();
extern uint64_t solo_limit;
// True if the cache line of addr is fully persistent in the model.
bool is_durable(const void *addr, size_t len);
bool is_tracked(const void *addr);
void track_region(void *addr, size_t len, const char *name);   // anonymous memory treated as persistent
uint64_t durable_word(const void *addr);                       // what a crash would leave of it at least
extern void (*on_write)(uintptr_t addr);                       // after each atomic write to a mapping
extern void (*on_flush)(uintptr_t addr);
extern void (*on_fence)();
extern uint64_t *aba_sink;                                     // counts the known finding described at note_clear()
extern bool reclaim_stacks;                                    // reuse the stacks of abandoned fibers
}
