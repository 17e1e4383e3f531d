// Compiled without instrumentation.
#include "pmhook.h"
#include <atomic>
#include <cerrno>
#include <cstdio>
#include <cstring>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>
#include <vector>
#include <unordered_set>
#include <dlfcn.h>
#include <libpmemobj.h>
#include <immintrin.h>
PmCounts pmCounts;
void (*pmUsleep)(); void (*pmOpened)(void *);
static size_t hdrLo, hdrHi;   // the heap's chunk headers
static char *base, *shadow; static uint32_t *lineSeq; static size_t len; static int poolFd = -1;
static volatile bool armed;
static std::atomic<uint64_t> events{0}; static std::atomic<uint32_t> seqNo{1};
static std::vector<uint64_t> plan; static size_t nextPlan; static char prefix[512]; static uint64_t rng;
static void (*before)(int), (*after)(int);
static struct Spin
{
    std::atomic<char> f{0};
    void lock() { for (int i = 0; f.exchange(1); i++) if (i > 100) { usleep(0); } else _mm_pause(); }
    void unlock() { f.store(0); }
} mu;
struct Pending { uint32_t line, seq; uint64_t w[8]; };
static thread_local std::vector<Pending> pending;

static void stable(const char *p, uint64_t *w)
{
    // Twice the same: the words belong together.
    volatile const uint64_t *q = (volatile const uint64_t *)p; uint64_t v[8];
    for (int tries = 0; tries < 64; tries++)
    {
        for (int i = 0; i < 8; i++) w[i] = q[i];
        for (int i = 0; i < 8; i++) v[i] = q[i];
        if (!memcmp(w, v, 64)) return;
    }
}
static uint64_t rnd() { uint64_t z = (rng += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
static int made;
static void capture()   // mu held
{
    const int k = made;
    if (before) before(k);
    char f[600]; snprintf(f, sizeof f, "%s%d", prefix, k);
    int fd = open(f, O_CREAT | O_TRUNC | O_RDWR, 0644); bool ok = true;
    if (fd < 0 || ftruncate(fd, len)) { if (fd >= 0) close(fd); pmCounts.failed++; return; }
    int mode = rnd() % 5; uint64_t keep = mode == 0 ? 0 : mode == 1 ? 1000 : rnd() % 1001;   // how many of 1000 unflushed lines survive
    off_t at = 0; const size_t P = 4096; static char page[4096];
    while ((size_t)at < len)
    {
        off_t d = lseek(poolFd, at, SEEK_DATA); if (d < 0) { if (errno != ENXIO) ok = false; break; }
        off_t h = lseek(poolFd, d, SEEK_HOLE); if (h < 0) { ok = false; break; }
        for (size_t o = d & ~(P - 1); o < (size_t)h && o < len; o += P)
        {
            if (!memcmp(base + o, shadow + o, P))
                memcpy(page, shadow + o, P);
            else
            {
                memcpy(page, shadow + o, P);
                for (size_t l = 0; l < P; l += 64)
                {
                    uint64_t w[8]; stable(base + o + l, w);
                    if (memcmp(w, page + l, 64)) { pmCounts.dirtyLines++; if (rnd() % 1000 < keep || (o + l >= hdrLo && o + l < hdrHi)) { memcpy(page + l, w, 64); pmCounts.keptLines++; } }
                }
            }
            bool zero = true; for (size_t i = 0; i < P && zero; i += 8) zero = *(uint64_t *)(page + i) == 0;
            if (!zero && pwrite(fd, page, P, o) != (ssize_t)P) ok = false;
        }
        at = h;
    }
    close(fd);
    if (!ok) { unlink(f); pmCounts.failed++; return; }
    pmCounts.images++; made++;
    if (after) after(k);
}
static std::vector<uint64_t> bgPlan; static size_t nextBg; static uint64_t bgEvents; thread_local bool pmBackground;
static void event(const void *p = nullptr)   // mu held
{
    uint64_t e = events.fetch_add(1);
    if (nextPlan < plan.size() && e >= plan[nextPlan]) { nextPlan++; capture(); }
    if (!pmBackground) return;
    // The background thread flushes the same two words again and again; what matters is when it writes something else.
    static thread_local const void *recent[4]; static thread_local int at, since = 9;
    if (p)
    {
        bool old = false; for (auto r : recent) if (r == p) old = true;
        if (!old) { since = 0; recent[at++ & 3] = p; } else since++;
    }
    if (since > 0) return;
    uint64_t b = bgEvents++;
    if (nextBg < bgPlan.size() && b >= bgPlan[nextBg]) { nextBg++; capture(); }
}
static void flushLines(const void *p, size_t n)
{
    if (!armed || !n || (char *)p < base || (char *)p >= base + len) return;
    mu.lock();
    event(p);
    size_t a = ((char *)p - base) & ~63ull, e = (char *)p - base + n; if (e > len) e = len;
    for (; a < e; a += 64)
    {
        Pending x; x.line = a / 64; x.seq = seqNo.fetch_add(1); stable(base + a, x.w); pending.push_back(x);
        pmCounts.lines++;
    }
    pmCounts.flushes++;
    mu.unlock();
}
static void drain()
{
    if (!armed) return;
    mu.lock();
    event();
    for (auto &x : pending) if (x.seq > lineSeq[x.line]) { memcpy(shadow + x.line * 64ull, x.w, 64); lineSeq[x.line] = x.seq; }
    pending.clear(); pmCounts.drains++;
    mu.unlock();
}
extern "C" {
int pmem_is_pmem(const void *, size_t) { return 1; }
void pmem_flush(const void *p, size_t n) { flushLines(p, n); }
void pmem_drain(void) { drain(); }
void pmem_persist(const void *p, size_t n) { flushLines(p, n); drain(); }
int pmem_msync(const void *p, size_t n) { flushLines(p, n); drain(); return 0; }
void pmem_deep_flush(const void *p, size_t n) { flushLines(p, n); }
#define AFTER(d, n, fl) if (!((fl) & 32)) { flushLines(d, n); if (!((fl) & 1)) drain(); }
void *pmem_memmove(void *d, const void *s, size_t n, unsigned fl) { memmove(d, s, n); AFTER(d, n, fl) return d; }
void *pmem_memcpy(void *d, const void *s, size_t n, unsigned fl) { memmove(d, s, n); AFTER(d, n, fl) return d; }
void *pmem_memset(void *d, int c, size_t n, unsigned fl) { memset(d, c, n); AFTER(d, n, fl) return d; }
int flock(int, int) { return 0; }   // nothing else uses the pool; the lock of a process that just ended may linger
int posix_fallocate(int fd, off_t o, off_t n) { struct stat s; if (fstat(fd, &s) == 0 && s.st_size < o + n) return ftruncate(fd, o + n); return 0; }
int usleep(useconds_t us) { if (pmUsleep && us >= 10000) { pmUsleep(); return 0; } struct timespec t = {us / 1000000, (us % 1000000) * 1000}; nanosleep(&t, nullptr); return 0; }
}
// ---- entries given back to the allocator must not be given back again
static std::unordered_set<uint64_t> freed; static Spin fmu;
uint64_t pmFreedTwice;
extern "C" {
PMEMobjpool *pmemobj_open(const char *path, const char *layout)
{
    static auto real = (PMEMobjpool *(*)(const char *, const char *))dlsym(RTLD_NEXT, "pmemobj_open");
    PMEMobjpool *p = real(path, layout);
    if (p && pmOpened) pmOpened(p);
    return p;
}
void pmemobj_free(PMEMoid *o)
{
    static auto real = (void (*)(PMEMoid *))dlsym(RTLD_NEXT, "pmemobj_free");
    if (o && o->off)
    {
        fmu.lock(); bool again = !freed.insert(o->off).second; if (again) pmFreedTwice = o->off; fmu.unlock();
        pmCounts.frees++;
        if (again) return;
    }
    real(o);
}
PMEMoid pmemobj_tx_xalloc(size_t size, uint64_t type, uint64_t flags)
{
    static auto real = (PMEMoid (*)(size_t, uint64_t, uint64_t))dlsym(RTLD_NEXT, "pmemobj_tx_xalloc");
    PMEMoid o = real(size, type, flags);
    if (o.off) { fmu.lock(); freed.erase(o.off); fmu.unlock(); pmCounts.allocs++; }
    return o;
}
int pmemobj_xalloc(PMEMobjpool *pop, PMEMoid *o, size_t size, uint64_t type, uint64_t flags, pmemobj_constr ctor, void *arg)
{
    static auto real = (int (*)(PMEMobjpool *, PMEMoid *, size_t, uint64_t, uint64_t, pmemobj_constr, void *))dlsym(RTLD_NEXT, "pmemobj_xalloc");
    int r = real(pop, o, size, type, flags, ctor, arg);
    if (r == 0 && o) { fmu.lock(); freed.erase(o->off); fmu.unlock(); pmCounts.allocs++; }
    return r;
}
}
void pmArm(void *b, size_t n, const char *file)
{
    base = (char *)b; len = n;
    poolFd = open(file, O_RDONLY);
    shadow = (char *)mmap(nullptr, len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    lineSeq = (uint32_t *)mmap(nullptr, len / 16, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    off_t at = 0;
    while ((size_t)at < len)
    {
        off_t d = lseek(poolFd, at, SEEK_DATA); if (d < 0) break;
        off_t h = lseek(poolFd, d, SEEK_HOLE); if (h < 0) h = len;
        memcpy(shadow + d, base + d, h - d);
        at = h;
    }
    // libpmemobj 1.13 does not flush the footers among its chunk headers, and after a crash takes a stale header in the place of one for it and reads out of bounds.
    // So these lines always survive.
    for (size_t o = 0; o + 64 < len && o < 64 << 20; o += 4096) if (!memcmp(base + o, "MEMORY_HEAP_HDR", 15)) { hdrLo = o + 1024; hdrHi = hdrLo + 64 + 65528 * 8; break; }
    armed = true;
}
void pmPlan(const uint64_t *at, int n, const uint64_t *bg, int nbg, const char *pre, uint64_t seed, void (*b)(int), void (*a)(int))
{
    mu.lock();   // background threads are already running
    plan.assign(at, at + n); bgPlan.assign(bg, bg + nbg); nextBg = 0; bgEvents = 0; nextPlan = 0; snprintf(prefix, sizeof prefix, "%s", pre); rng = seed; before = b; after = a; events = 0;
    mu.unlock();
}
uint64_t pmEvents() { return events; }
void pmDisarm() { armed = false; }
