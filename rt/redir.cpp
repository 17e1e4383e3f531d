// Table files go to a scratch directory, and every mapping, unmapping and file size is watched.
// Compiled without instrumentation, and calls nothing a sanitizer intercepts while threads run: it must neither order the threads under test nor be reported itself.
#include "redir.h"
#include <cstdarg>
#include <cstdio>
#include <dirent.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <unistd.h>
static const char PFX[] = "/mnt/pmem/pm1";
static char ROOTDIR[512];
static unsigned rootLen;
static volatile bool on;
static struct Spin
{
    char f = 0;
    void lock() { while (__atomic_exchange_n(&f, 1, __ATOMIC_SEQ_CST)) __builtin_ia32_pause(); }
    void unlock() { __atomic_store_n(&f, 0, __ATOMIC_SEQ_CST); }
} mu;
struct Guard { Guard() { mu.lock(); } ~Guard() { mu.unlock(); } };
struct Area { uintptr_t at; size_t len; int state; };   // 0 free, 1 mapped, 2 unmapped by the code under test
static const int NAREA = 8192;
static Area areas[NAREA];
static int nAreas;
static volatile char fdOurs[65536];
RedirStats redirStats;
extern "C" void __asan_poison_memory_region(void const volatile *, size_t) __attribute__((weak));
extern "C" void __asan_unpoison_memory_region(void const volatile *, size_t) __attribute__((weak));
static void err(const char *m, uint64_t a = 0, uint64_t b = 0) { if (!redirStats.error) { redirStats.errA = a; redirStats.errB = b; redirStats.error = m; } }

struct Path
{
    char b[1024];
    explicit Path(const char *p)
    {
        volatile char *o = b; unsigned n = 0, i = 0;
        bool m = on && p;
        if (m) for (unsigned k = 0; PFX[k]; k++) if (p[k] != PFX[k]) { m = false; break; }
        if (m) { for (; n < rootLen; n++) o[n] = ROOTDIR[n]; i = sizeof PFX - 1; }
        if (p) while (p[i] && n < 1000) o[n++] = p[i++];
        o[n] = 0;
    }
    bool ours() const { if (!on) return false; for (unsigned k = 0; k < rootLen; k++) if (b[k] != ROOTDIR[k]) return false; return true; }
};
static int doOpen(int dfd, const char *path, int fl, mode_t m)
{
    Path p(path);
    int r = syscall(SYS_openat, dfd, p.b, fl, m);
    if (r >= 0 && r < 65536) fdOurs[r] = p.ours();
    if (r >= 0 && (fl & O_CREAT) && p.ours()) __atomic_add_fetch(&redirStats.created, 1, __ATOMIC_RELAXED);
    return r;
}
extern "C" {
#define MODE mode_t m = 0; if (fl & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, fl); m = va_arg(a, mode_t); va_end(a); }
int open(const char *p, int fl, ...) { MODE return doOpen(AT_FDCWD, p, fl, m); }
int open64(const char *p, int fl, ...) { MODE return doOpen(AT_FDCWD, p, fl, m); }
int openat(int d, const char *p, int fl, ...) { MODE return doOpen(d, p, fl, m); }
int openat64(int d, const char *p, int fl, ...) { MODE return doOpen(d, p, fl, m); }
int __open_2(const char *p, int fl) { return doOpen(AT_FDCWD, p, fl, 0); }
int __open64_2(const char *p, int fl) { return doOpen(AT_FDCWD, p, fl, 0); }
int creat(const char *p, mode_t m) { return doOpen(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }
int rename(const char *a, const char *b) noexcept
{
    Path x(a), y(b);
    int r = syscall(SYS_renameat2, AT_FDCWD, x.b, AT_FDCWD, y.b, 0);
    if (r == 0 && y.ours()) __atomic_add_fetch(&redirStats.renamed, 1, __ATOMIC_RELAXED);
    return r;
}
int unlink(const char *p) noexcept { Path x(p); if (x.ours()) __atomic_add_fetch(&redirStats.removed, 1, __ATOMIC_RELAXED); return syscall(SYS_unlinkat, AT_FDCWD, x.b, 0); }
int remove(const char *p) noexcept { return unlink(p); }
int access(const char *p, int m) noexcept { Path x(p); return syscall(SYS_faccessat, AT_FDCWD, x.b, m); }
static int doTrunc(int fd, off_t n)
{
    if (on && fdOurs[fd & 65535])
    {
        Guard g;
        redirStats.bytes += n; if ((uint64_t)n > redirStats.largest) redirStats.largest = n;
        if (redirStats.limit && (uint64_t)n > redirStats.limit(redirStats.limitArg)) redirStats.overLimit = n;
    }
    return syscall(SYS_ftruncate, fd, n);
}
int ftruncate(int fd, off_t n) noexcept { return doTrunc(fd, n); }
int ftruncate64(int fd, off_t n) noexcept { return doTrunc(fd, n); }
static void *doMap(void *a, size_t n, int pr, int fl, int fd, off_t off)
{
    void *r; const bool mine = on && fd >= 0 && fdOurs[fd & 65535];
    if (mine && redirStats.guard && !a)
    {
        // Unmapped pages before and after the table, and poison between its end and the end of its last page.
        size_t n2 = (n + 4095) & ~4095ull;
        char *area = (char *)syscall(SYS_mmap, nullptr, n2 + 8192, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if ((void *)area == MAP_FAILED) return MAP_FAILED;
        r = (void *)syscall(SYS_mmap, area + 4096, n, pr, fl | MAP_FIXED, fd, off);
        if (r != MAP_FAILED && __asan_poison_memory_region && n2 != n) __asan_poison_memory_region((char *)r + n, n2 - n);
    }
    else
        r = (void *)syscall(SYS_mmap, a, n, pr, fl, fd, off);
    if (mine && r != MAP_FAILED)
    {
        Guard g;
        struct stat st;
        if (syscall(SYS_fstat, fd, &st) == 0 && (size_t)st.st_size < n + off) err("mmap of %llu bytes of a file of %llu", n, st.st_size);
        if (nAreas < NAREA) areas[nAreas++] = {(uintptr_t)r, n, 1};
        redirStats.mapped++;
    }
    return r;
}
void *mmap(void *a, size_t n, int pr, int fl, int fd, off_t off) noexcept { return doMap(a, n, pr, fl, fd, off); }
void *mmap64(void *a, size_t n, int pr, int fl, int fd, off_t off) noexcept { return doMap(a, n, pr, fl, fd, off); }
int munmap(void *a, size_t n) noexcept
{
    if (on)
    {
        Guard g;
        int i = nAreas - 1;
        while (i >= 0 && areas[i].at != (uintptr_t)a) i--;
        if (i >= 0)
        {
            if (areas[i].state == 2) err("munmap of a table that is not mapped");
            else
            {
                if (areas[i].len != n) err("munmap of %llu bytes of a mapping of %llu", n, areas[i].len);
                areas[i].state = 2; redirStats.unmapped++;
            }
            if (redirStats.guard || redirStats.keepAddresses)
            {
                // Stays inaccessible until the case ends, so that a late access is seen.
                syscall(SYS_mmap, a, (areas[i].len + 4095) & ~4095ull, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
                return 0;
            }
            areas[i] = areas[--nAreas];
        }
        else if (redirStats.strict) err("munmap of %llu bytes at %#llx, which mmap did not return", n, (uintptr_t)a);
    }
    return syscall(SYS_munmap, a, n);
}
}
static void wipe()
{
    char d[600]; snprintf(d, sizeof d, "%s/tables", ROOTDIR);
    if (DIR *p = opendir(d))
    {
        char f[1200];
        while (dirent *e = readdir(p))
            if (e->d_name[0] != '.') { snprintf(f, sizeof f, "%s/%s", d, e->d_name); syscall(SYS_unlinkat, AT_FDCWD, f, 0); }
        closedir(p);
    }
}
void redirStart(const char *root)
{
    rootLen = snprintf(ROOTDIR, sizeof ROOTDIR, "%s", root);
    char d[600]; snprintf(d, sizeof d, "%s/tables", root);
    mkdir(root, 0755); mkdir(d, 0755); wipe();
    redirStats = RedirStats(); on = true;
}
void redirForgetMaps()
{
    Guard g;
    for (int i = 0; i < nAreas; i++)
    {
        uintptr_t a = areas[i].at; size_t n2 = (areas[i].len + 4095) & ~4095ull;
        if (redirStats.keepAddresses) syscall(SYS_mmap, a, n2, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
        else if (redirStats.guard)
        {
            if (__asan_unpoison_memory_region) __asan_unpoison_memory_region((void *)a, n2);
            syscall(SYS_munmap, a - 4096, n2 + 8192);
        }
        else if (areas[i].state == 1) syscall(SYS_munmap, a, areas[i].len);
    }
    nAreas = 0;
}
void redirEnd() { redirForgetMaps(); on = false; wipe(); }
size_t redirLive() { Guard g; size_t n = 0; for (int i = 0; i < nAreas; i++) n += areas[i].state == 1; return n; }
