// Called at every basic block of the code under test (-fsanitize-coverage=trace-pc): random short delays and yields,
// and now and then a stall that lasts until the other threads have done a certain number of operations.
#include "delays.h"
#include <sched.h>
#include <time.h>
thread_local uint64_t delayState = 0; thread_local uint32_t delayMask = 0; thread_local uint64_t delayCount = 0, stallCount = 0;
thread_local uint64_t stallAt = 0, stallPc = 0, stallVisits = 0;
unsigned stallScale = 6; Sites *delaySites = nullptr;
std::atomic<uint64_t> *delayProgress = nullptr;
static uint64_t rnd()
{
    uint64_t z = delayState += 0x9E3779B97F4A7C15ull;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    return z ^ (z >> 31);
}
void delayPickSite()
{
    uint32_t n = delaySites ? delaySites->n.load(std::memory_order_acquire) : 0; if (n > 8192) n = 8192;
    uint64_t r = rnd();
    stallPc = n ? delaySites->pc[(r >> 8) % n] : 0; stallVisits = 1 + (r >> 40) % (1ull << r % 7);
}
static void stall()
{
    stallCount++;
    uint64_t r = rnd(), p = delayProgress->load(std::memory_order_relaxed), until = p + 4 + (r >> 8) % (1ull << (2 + r % 10)); int quiet = 0; const int enough = (r >> 60) < 3 ? 80 : 12;
    // Until the others got that far, or do not get any further.
    while (p < until && quiet < enough)
    {
        timespec t{0, 100000}; nanosleep(&t, nullptr);
        uint64_t q = delayProgress->load(std::memory_order_relaxed);
        quiet = q == p ? quiet + 1 : 0; p = q;
    }
}
extern "C" void __sanitizer_cov_trace_pc(void)
{
    if (stallAt && --stallAt == 0)
    {
        stall();
        uint64_t r = rnd(); stallAt = stallCount > 40 ? 0 : 1 + (r >> 8) % (1ull << (stallScale + r % 12));
    }
    if (!delayMask) return;
    if (delaySites)
    {
        const uint64_t pc = (uint64_t)__builtin_return_address(0);
        if (pc == stallPc && --stallVisits == 0) { stall(); if (stallCount <= 40) delayPickSite(); }
        uint32_t h = (pc ^ pc >> 17) & 0x1ffff; std::atomic<uint64_t> &w = delaySites->seen[h >> 6]; const uint64_t bit = 1ull << (h & 63);
        if (!(w.load(std::memory_order_relaxed) & bit) && !(w.fetch_or(bit) & bit))
        {
            uint32_t i = delaySites->n.load(); if (i < 8192) { i = delaySites->n.fetch_add(1); if (i < 8192) delaySites->pc[i] = pc; }
        }
    }
    uint64_t z = rnd();
    if (z & delayMask) return;
    delayCount++;
    if ((z >> 40) % 8 == 0) { timespec t{0, (long)((z >> 44) % 60000)}; nanosleep(&t, nullptr); }
    else if ((z >> 40) % 8 < 4) sched_yield();
    else for (unsigned i = (z >> 44) % 400; i; i--) __builtin_ia32_pause();
}
