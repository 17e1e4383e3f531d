#include "engine.h"
#include <algorithm>
#include <cassert>
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dirent.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <map>
#include <set>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <unordered_map>
#include <unordered_set>

namespace eng {
Stats stats;
PmStats last_crash;
void (*solo_crash_fn)() = nullptr;
void (*on_hang)() = nullptr;
uint64_t solo_limit = ~0ull;
void (*on_write)(uintptr_t) = nullptr;
void (*on_flush)(uintptr_t) = nullptr;
void (*on_fence)() = nullptr;
bool reclaim_stacks = false;
uint64_t *aba_sink = nullptr;

struct Image { std::string bytes; std::vector<uint64_t> ver; };      // per 64-byte line: sequence of the last write-back
struct Mapping { uintptr_t a; size_t len; uint64_t key; };
static bool pm_on = false;
static std::map<uintptr_t, Mapping> maps;                            // by start
static std::map<uint64_t, Image> images;                             // by inode (or pseudo inode)
struct Pending { uint64_t key; size_t line; uint64_t seq; std::string data; };
static std::map<int, std::vector<Pending>> pending;                  // per thread
struct LastFlush { uintptr_t line = 0; bool fenced = false; std::string data; };
static std::map<int, LastFlush> last_flush;                              // per thread
// ---------------------------------------------------------------- fibers
struct Fiber {
    void *sp = nullptr; char *stack = nullptr; std::function<void()> body;
    bool done = false, frozen = false;
    uint64_t steps = 0;
    int64_t stall_until = 0; bool stall_forever = false;
    const void *blocked_on = nullptr;
    double prio = 0;
};
static const size_t STACK = 512 * 1024;
static std::vector<Fiber> fibers;
static std::vector<char *> stack_pool;
static int cur = -1;
static void *main_sp;
static bool active = false, ended = false;
static Result end_result;
static Strategy S;
static Rng R(1);
static std::vector<uint64_t> change_points;
static uint64_t clock_ = 0, run_steps = 0;
static std::unordered_set<uint64_t> seen_sites;
static int in_engine = 0;

// solo mode
static bool solo = false; static uint64_t solo_n = 0, solo_crash_at = ~0ull; static double solo_evict = 0;

extern "C" void verif_switch(void **save, void *to);
asm(R"(
.text
.globl verif_switch
.type verif_switch,@function
verif_switch:
    pushq %rbp
    pushq %rbx
    pushq %r12
    pushq %r13
    pushq %r14
    pushq %r15
    movq %rsp, (%rdi)
    movq %rsi, %rsp
    popq %r15
    popq %r14
    popq %r13
    popq %r12
    popq %rbx
    popq %rbp
    ret
.size verif_switch,.-verif_switch
)");

uint64_t now() { return ++clock_; }
void set_clock(uint64_t c) { clock_ = c; }
int current() { return cur; }
uint64_t fiber_steps(int i) { return fibers[i].steps; }
bool fiber_done(int i) { return fibers[i].done; }

static void to_main() { int me = cur; cur = -1; verif_switch(&fibers[me].sp, main_sp); }
static void fiber_entry()
{
    Fiber &f = fibers[cur];
    try { f.body(); }
    catch (const std::exception &e) { fprintf(stderr, "uncaught exception: %s\n", e.what()); abort(); }
    f.done = true;
    to_main();
    abort();
}
static char *get_stack()
{
    if (!stack_pool.empty()) { char *p = stack_pool.back(); stack_pool.pop_back(); return p; }
    char *p = (char *)syscall(SYS_mmap, 0, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    mprotect(p, 4096, PROT_NONE);
    return p;
}

static bool runnable(int i)
{
    Fiber &f = fibers[i];
    return !f.done && !f.frozen && !f.blocked_on && !f.stall_forever && (int64_t)run_steps >= f.stall_until;
}
// Picks the next fiber, or -1.
static int pick()
{
    std::vector<int> r;
    for (int i = 0; i < (int)fibers.size(); i++) if (runnable(i)) r.push_back(i);
    if (r.empty()) {
        // Everybody is stalled or blocked: end the stalls.
        bool any = false;
        for (auto &f : fibers) if (!f.done && !f.frozen && (f.stall_forever || f.stall_until > (int64_t)run_steps)) { f.stall_forever = false; f.stall_until = 0; any = true; }
        if (!any) return -1;
        for (int i = 0; i < (int)fibers.size(); i++) if (runnable(i)) r.push_back(i);
        if (r.empty()) return -1;
    }
    if (S.kind == PCT && run_steps < S.unfair_limit) {
        int best = r[0];
        for (int i : r) if (fibers[i].prio > fibers[best].prio) best = i;
        return best;
    }
    if (S.kind == RR || run_steps >= S.unfair_limit) {
        for (int d = 1; d <= (int)fibers.size(); d++) { int i = (cur < 0 ? d - 1 : (cur + d)) % fibers.size(); if (std::find(r.begin(), r.end(), i) != r.end()) return i; }
    }
    return r[R.below(r.size())];
}
static void finish(Result r) { ended = true; end_result = r; }
// Called by a fiber at a scheduling point; may switch to another.
static void switch_to(int nxt)
{
    if (nxt == cur) return;
    stats.switches++;
    stats.sched_hash = mix(stats.sched_hash, (run_steps << 8) | (nxt + 1));
    if (nxt < 0) { to_main(); return; }
    int me = cur; cur = nxt;
    verif_switch(&fibers[me].sp, fibers[nxt].sp);
}
static void evict_some(Rng &r, double p);

static void step(uint64_t pc)
{
    stats.steps++;
    if (!active || cur < 0) {
        if (solo) {
            solo_n++;
            if (solo_evict > 0) evict_some(R, solo_evict);
            if (solo_n >= solo_crash_at) { solo = false; if (solo_crash_fn) solo_crash_fn(); }
            if (solo_n > solo_limit) { solo = false; if (on_hang) on_hang(); }
        }
        return;
    }
    if (ended) { to_main(); return; }
    run_steps++;
    Fiber &f = fibers[cur];
    f.steps++;
    seen_sites.insert(pc);
    if (S.evict_p > 0) evict_some(R, S.evict_p);
    if (run_steps >= S.crash_at) { finish(CRASHED); to_main(); return; }
    if (run_steps >= S.total_limit) { finish(HANG); to_main(); return; }
    if (run_steps == S.freeze_at) {
        stats.frozen = true;
        for (size_t i = 0; i < fibers.size(); i++) { if (!(S.keep_mask >> i & 1)) fibers[i].frozen = true; else { fibers[i].stall_forever = false; fibers[i].stall_until = 0; } }
        S.total_limit = run_steps + S.frozen_limit; S.unfair_limit = 0;
        S.rules.clear();
    }
    bool must = false;
    for (auto &ru : S.rules)
        if (!ru.fired && (ru.threads >> cur & 1) && mix(ru.seed, pc) % ru.mod == 0 && ++ru.hits == ru.occurrence) {
            ru.fired = true; stats.stalls++;
            if (ru.duration < 0) f.stall_forever = true; else f.stall_until = run_steps + ru.duration;
            must = true;
        }
    if (run_steps >= S.unfair_limit) {
        for (auto &g : fibers) { g.stall_forever = false; g.stall_until = 0; }
        // Fair phase: short quanta, round robin.
        if (f.frozen || run_steps % 7 == 0) switch_to(pick());
        return;
    }
    if (f.frozen || must) { switch_to(pick()); return; }
    switch (S.kind) {
    case RANDOM: if (R.chance(S.p)) switch_to(pick()); break;
    case RR: if (run_steps % (uint64_t)(1 / S.p) == 0) switch_to(pick()); break;
    case PCT:
        for (size_t i = 0; i < change_points.size(); i++) if (change_points[i] == run_steps) f.prio = -(double)(i + 1) - (double)run_steps * 1e-9;
        switch_to(pick());
        break;
    }
    if (ended) to_main();
}
void yield_point() { step(1); }
void sleep(uint64_t steps) { if (!active || cur < 0 || run_steps >= S.unfair_limit) return; fibers[cur].stall_until = run_steps + steps; switch_to(pick()); if (ended) to_main(); }

// Used by blocking primitives: gives way to the others until try_() succeeds.
template <class F> static void block_until(F try_)
{
    while (!try_()) {
        if (!active || cur < 0) { usleep(10); continue; }
        stats.steps++; run_steps++; fibers[cur].steps++;
        if (run_steps >= S.crash_at) { finish(CRASHED); to_main(); continue; }
        if (run_steps >= S.total_limit) { finish(HANG); to_main(); continue; }
        // Low priority while waiting, so that the holder can run.
        int me = cur;
        fibers[me].blocked_on = &me;
        int n = pick();
        fibers[me].blocked_on = nullptr;
        if (n < 0) { if (run_steps > S.unfair_limit) {} n = me; }
        if (n != me) switch_to(n);
    }
}

Result run(std::vector<std::function<void()>> bodies, const Strategy &st)
{
    S = st; R = Rng(st.seed); stats = Stats{}; run_steps = 0; ended = false; end_result = DONE;
    seen_sites.clear();
    fibers.clear(); fibers.resize(bodies.size());
    change_points.clear();
    for (int i = 0; i < S.depth; i++) change_points.push_back(1 + R.below(S.horizon));
    std::vector<double> pr; for (size_t i = 0; i < bodies.size(); i++) pr.push_back(i + 1);
    for (size_t i = pr.size(); i > 1; i--) std::swap(pr[i - 1], pr[R.below(i)]);
    for (size_t i = 0; i < bodies.size(); i++) {
        Fiber &f = fibers[i];
        f.body = std::move(bodies[i]); f.prio = pr[i];
        f.stack = get_stack();
        uint64_t *top = (uint64_t *)(f.stack + STACK - 64);
        *--top = 0;                       // alignment
        *--top = (uint64_t)&fiber_entry;  // return address
        for (int j = 0; j < 6; j++) *--top = 0;
        f.sp = top;
    }
    last_flush.clear();
    active = true;
    while (true) {
        if (ended) break;
        bool all = true;
        for (auto &f : fibers) if (!f.done && !f.frozen) all = false;
        if (all) break;
        int n = pick();
        if (n < 0) { end_result = HANG; break; }   // deadlock
        cur = n;
        verif_switch(&main_sp, fibers[n].sp);
    }
    active = false; cur = -1;
    // What a finished thread has flushed but not fenced can no longer be fenced by it.
    { std::vector<Pending> left; for (auto &t : pending) if (t.first >= 0 && t.first < 1000000) for (auto &p : t.second) left.push_back(p); auto old = pending[1000000]; for (auto &p : left) old.push_back(p); pending.clear(); if (!old.empty()) pending[1000000] = old; }
    for (auto &f : fibers) { if (!f.done) stats.unfinished++; if (f.done || reclaim_stacks) stack_pool.push_back(f.stack); /* abandoned stacks leak on purpose */ }
    stats.sites = seen_sites.size();
    return end_result;
}
void arm_solo(uint64_t crash_at, double ev, uint64_t seed) { solo = true; solo_n = 0; solo_crash_at = crash_at; solo_evict = ev; R = Rng(seed); }
void disarm_solo() { solo = false; }
uint64_t solo_steps() { return solo_n; }

// ---------------------------------------------------------------- persistence model
static uint64_t seq = 0;
static std::vector<uintptr_t> recent;                                // recently written lines
static size_t recent_i = 0;
static std::string complaint;
static std::map<std::string, void *> region_names;
std::string map_complaint() { return complaint; }
size_t mapped_tables() { return maps.size(); }
void reset_maps()
{
    maps.clear(); images.clear(); pending.clear(); last_flush.clear(); recent.clear(); recent_i = 0; complaint.clear(); region_names.clear();
}
void pm_enable(bool on) { pm_on = on; }

static Mapping *find_map(uintptr_t p)
{
    auto it = maps.upper_bound(p);
    if (it == maps.begin()) return nullptr;
    --it;
    return p < it->second.a + it->second.len ? &it->second : nullptr;
}
// Known finding: a thread that has flushed and fenced a flagged word clears the flag of the same word
// written anew by another thread, which is not persistent yet. Executions showing it are counted in stats.aba.
static void note_clear(uintptr_t p, uint64_t old, uint64_t nw)
{
    if (!pm_on || !(old & 1) || nw != (old & ~1ull)) return;
    Mapping *m = find_map(p);
    if (!m) return;
    auto it = last_flush.find(cur);
    if (it == last_flush.end() || !it->second.fenced || it->second.line != (p & ~63ull)) return;
    size_t at = p & 63; uint64_t flushed, img;
    if (at + 8 > it->second.data.size()) return;
    memcpy(&flushed, &it->second.data[at], 8);
    memcpy(&img, &images[m->key].bytes[p - m->a], 8);
    if (flushed == old && (img & ~1ull) != nw) { stats.aba++; if (aba_sink) ++*aba_sink; }
}
static void apply(uint64_t key, size_t line, uint64_t s, const char *data, size_t n)
{
    Image &im = images[key];
    if (line * 64 >= im.bytes.size()) return;
    if (im.ver.size() <= line) im.ver.resize(im.bytes.size() / 64 + 1);
    if (im.ver[line] > s) return;
    im.ver[line] = s;
    memcpy(&im.bytes[line * 64], data, std::min(n, im.bytes.size() - line * 64));
}
static void write_back(Mapping &m, size_t line)
{
    apply(m.key, line, ++seq, (char *)m.a + line * 64, std::min<size_t>(64, m.len - line * 64));
}
static void note_write(uintptr_t p)
{
    if (!pm_on || !find_map(p)) return;
    if (recent.size() < 64) recent.push_back(p & ~63ull);
    else recent[recent_i++ % 64] = p & ~63ull;
    if (on_write) on_write(p);
}
static void evict_some(Rng &r, double p)
{
    if (!pm_on || recent.empty() || !r.chance(p)) return;
    uintptr_t l = recent[r.below(recent.size())];
    if (Mapping *m = find_map(l)) { write_back(*m, (l - m->a) / 64); stats.evictions++; }
}
bool is_tracked(const void *a) { return find_map((uintptr_t)a) != nullptr; }
bool is_durable(const void *a, size_t len)
{
    Mapping *m = find_map((uintptr_t)a);
    if (!m) return false;
    size_t off = (uintptr_t)a - m->a;
    return memcmp(&images[m->key].bytes[off], a, len) == 0;
}
uint64_t durable_word(const void *a)
{
    Mapping *m = find_map((uintptr_t)a); uint64_t v = 0;
    if (m) memcpy(&v, &images[m->key].bytes[(uintptr_t)a - m->a], 8);
    return v;
}
void track_region(void *addr, size_t len, const char *name)
{
    uint64_t key = ~0ull - region_names.size(); region_names[name] = addr;
    maps[(uintptr_t)addr] = {(uintptr_t)addr, len, key};
    Image &im = images[key]; im.bytes.assign((char *)addr, len); im.ver.assign(len / 64 + 1, 0);
}
static std::string root;
void set_root(const std::string &d) { root = d; }

static void walk(const std::string &dir, const std::string &rel, std::vector<std::pair<std::string, std::string>> &out);
void pm_crash_image(Rng &rng, int style, std::vector<std::pair<std::string, std::string>> &files)
{
    last_crash = PmStats{};
    // Flushed but not fenced lines: each may or may not have been written back.
    for (auto &t : pending) for (auto &p : t.second) {
        last_crash.pending_lines++;
        if (style == 2 || (style == 1 && rng.chance(0.5))) apply(p.key, p.line, p.seq, p.data.data(), p.data.size());
    }
    pending.clear();
    // Dirty lines: likewise.
    for (auto &kv : maps) {
        Mapping &m = kv.second; Image &im = images[m.key];
        for (size_t l = 0; l * 64 < m.len; l++) {
            size_t n = std::min<size_t>(64, m.len - l * 64);
            if (memcmp(&im.bytes[l * 64], (char *)m.a + l * 64, n)) {
                last_crash.dirty_lines++;
                if (getenv("E1_DEBUG")) { dprintf(1, "dirty key %lu line %zu:\n", m.key, l); for (int z = 0; z < 8; z++) dprintf(1, "   mem %016lx img %016lx\n", ((uint64_t *)(m.a + l * 64))[z], ((uint64_t *)&im.bytes[l * 64])[z]); }
                if (style == 2 || (style == 1 && rng.chance(0.5))) { write_back(m, l); last_crash.evicted++; }
            }
        }
    }
    walk(root, "", files);
    for (auto &r : region_names) files.push_back({"region:" + r.first, images[maps[(uintptr_t)r.second].key].bytes});
}

// ---------------------------------------------------------------- redirection
static const char PFX[] = "/mnt/pmem/pm1";
static thread_local char pathbuf[2][4096];
static const char *redir(const char *p, int slot = 0)
{
    if (!p || root.empty()) return p;
    size_t n = sizeof(PFX) - 1;
    if (strncmp(p, PFX, n) == 0 && (p[n] == 0 || p[n] == '/')) { snprintf(pathbuf[slot], sizeof pathbuf[slot], "%s%s", root.c_str(), p + n); return pathbuf[slot]; }
    return p;
}
template <class F> static F real(const char *name)
{
    return (F)dlsym(RTLD_NEXT, name);
}
static void walk(const std::string &dir, const std::string &rel, std::vector<std::pair<std::string, std::string>> &out)
{
    DIR *d = opendir(dir.c_str());
    if (!d) return;
    while (dirent *e = readdir(d)) {
        std::string n = e->d_name;
        if (n == "." || n == "..") continue;
        std::string p = dir + "/" + n, r = rel.empty() ? n : rel + "/" + n;
        struct stat st;
        if (syscall(SYS_newfstatat, AT_FDCWD, p.c_str(), &st, AT_SYMLINK_NOFOLLOW) != 0) continue;
        if (S_ISDIR(st.st_mode)) { out.push_back({r + "/", ""}); walk(p, r, out); continue; }
        auto it = images.find(st.st_ino);
        std::string c;
        if (it != images.end()) { c = it->second.bytes; c.resize(st.st_size, 0); }
        else {
            int fd = (int)syscall(SYS_openat, AT_FDCWD, p.c_str(), O_RDONLY);
            c.resize(st.st_size); size_t got = 0; ssize_t k;
            while (got < c.size() && (k = pread(fd, &c[got], c.size() - got, got)) > 0) got += k;
            syscall(SYS_close, fd);
        }
        out.push_back({r, c});
    }
    closedir(d);
    std::sort(out.begin(), out.end());
}
} // namespace eng
using namespace eng;

extern "C" {
// ---- persistence instructions
static void do_flush(const void *addr, uint64_t pc)
{
    uintptr_t p = (uintptr_t)addr;
    if (on_flush) { on_flush(p); return; }
    if (pm_on) {
        if (Mapping *m = find_map(p)) {
            size_t line = (p - m->a) / 64;
            last_flush[cur] = {m->a + line * 64, false, std::string((char *)m->a + line * 64, std::min<size_t>(64, m->len - line * 64))};
            pending[cur].push_back({m->key, line, ++seq, std::string((char *)m->a + line * 64, std::min<size_t>(64, m->len - line * 64))});
        }
    }
    stats.flushes++;
    step(pc);
}
static void do_fence(uint64_t pc)
{
    if (on_fence) { on_fence(); return; }
    if (pm_on) {
        auto it = pending.find(cur);
        if (it != pending.end()) { for (auto &p : it->second) apply(p.key, p.line, p.seq, p.data.data(), p.data.size()); pending.erase(it); }
        auto lf = last_flush.find(cur); if (lf != last_flush.end()) lf->second.fenced = true;
    }
    stats.fences++;
    step(pc);
}
#define PC ((uint64_t)__builtin_return_address(0))
void verif_flush(const void *a) { do_flush(a, PC); }
void verif_fence() { do_fence(PC); }
void pmem_flush(const void *a, size_t n) { for (uintptr_t p = (uintptr_t)a & ~63ull; p < (uintptr_t)a + n; p += 64) do_flush((void *)p, PC); }
void pmem_drain() { do_fence(PC); }
void pmem_persist(const void *a, size_t n) { pmem_flush(a, n); pmem_drain(); }
int pmem_msync(const void *a, size_t n) { pmem_persist(a, n); return 0; }
int msync(void *a, size_t n, int) { pmem_persist(a, n); return 0; }

// ---- ThreadSanitizer callbacks
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void **, void *) {}
void __tsan_vptr_read(void **) {}
static inline void plain_read(void *a, uint64_t pc) { if (!maps.empty() && find_map((uintptr_t)a)) step(pc); }
static inline void plain_write(void *a, uint64_t pc) { if (!maps.empty() && find_map((uintptr_t)a)) { note_write((uintptr_t)a); step(pc); } }
#define RW(n) void __tsan_read##n(void *a) { plain_read(a, PC); } void __tsan_write##n(void *a) { plain_write(a, PC); } \
    void __tsan_unaligned_read##n(void *a) { plain_read(a, PC); } void __tsan_unaligned_write##n(void *a) { plain_write(a, PC); } \
    void __tsan_read##n##_pc(void *a, void *p) { plain_read(a, (uint64_t)p); } void __tsan_write##n##_pc(void *a, void *p) { plain_write(a, (uint64_t)p); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *a, size_t) { plain_read(a, PC); }
void __tsan_write_range(void *a, size_t) { plain_write(a, PC); }

#define ATOMICS(bits, T) \
T __tsan_atomic##bits##_load(const volatile T *a, int) { step(PC); return *a; } \
void __tsan_atomic##bits##_store(volatile T *a, T v, int) { step(PC); *a = v; note_write((uintptr_t)a); } \
T __tsan_atomic##bits##_exchange(volatile T *a, T v, int) { step(PC); T o = *a; *a = v; note_write((uintptr_t)a); return o; } \
T __tsan_atomic##bits##_fetch_add(volatile T *a, T v, int) { step(PC); T o = *a; *a = o + v; note_write((uintptr_t)a); return o; } \
T __tsan_atomic##bits##_fetch_sub(volatile T *a, T v, int) { step(PC); T o = *a; *a = o - v; note_write((uintptr_t)a); return o; } \
T __tsan_atomic##bits##_fetch_and(volatile T *a, T v, int) { step(PC); T o = *a; *a = o & v; note_write((uintptr_t)a); return o; } \
T __tsan_atomic##bits##_fetch_or(volatile T *a, T v, int) { step(PC); T o = *a; *a = o | v; note_write((uintptr_t)a); return o; } \
T __tsan_atomic##bits##_fetch_xor(volatile T *a, T v, int) { step(PC); T o = *a; *a = o ^ v; note_write((uintptr_t)a); return o; } \
T __tsan_atomic##bits##_fetch_nand(volatile T *a, T v, int) { step(PC); T o = *a; *a = ~(o & v); note_write((uintptr_t)a); return o; } \
static inline int cas##bits(volatile T *a, T *c, T v) { if (*a == *c) { *a = v; if (bits == 64) note_clear((uintptr_t)a, (uint64_t)*c, (uint64_t)v); note_write((uintptr_t)a); stats.cas_ok++; return 1; } *c = *a; stats.cas_fail++; return 0; } \
int __tsan_atomic##bits##_compare_exchange_strong(volatile T *a, T *c, T v, int, int) { step(PC); return cas##bits(a, c, v); } \
int __tsan_atomic##bits##_compare_exchange_weak(volatile T *a, T *c, T v, int, int) { step(PC); return cas##bits(a, c, v); } \
T __tsan_atomic##bits##_compare_exchange_val(volatile T *a, T c, T v, int, int) { step(PC); cas##bits(a, &c, v); return c; }
ATOMICS(8, uint8_t) ATOMICS(16, uint16_t) ATOMICS(32, uint32_t) ATOMICS(64, uint64_t) ATOMICS(128, unsigned __int128)
void __tsan_atomic_thread_fence(int mo) { if (mo == __ATOMIC_SEQ_CST) do_fence(PC); else step(PC); }
void __tsan_atomic_signal_fence(int) {}

// ---- blocking primitives
int pthread_mutex_lock(pthread_mutex_t *m)
{
    static auto tryl = real<int (*)(pthread_mutex_t *)>("pthread_mutex_trylock");
    static auto lock = real<int (*)(pthread_mutex_t *)>("pthread_mutex_lock");
    if (!active || cur < 0) return lock(m);
    step(PC);
    block_until([&] { return tryl(m) == 0; });
    return 0;
}
int pthread_mutex_unlock(pthread_mutex_t *m)
{
    static auto un = real<int (*)(pthread_mutex_t *)>("pthread_mutex_unlock");
    int r = un(m);
    if (active && cur >= 0) step(PC);
    return r;
}
int pthread_rwlock_rdlock(pthread_rwlock_t *m)
{
    static auto t = real<int (*)(pthread_rwlock_t *)>("pthread_rwlock_tryrdlock");
    static auto l = real<int (*)(pthread_rwlock_t *)>("pthread_rwlock_rdlock");
    if (!active || cur < 0) return l(m);
    step(PC);
    block_until([&] { return t(m) == 0; });
    return 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t *m)
{
    static auto t = real<int (*)(pthread_rwlock_t *)>("pthread_rwlock_trywrlock");
    static auto l = real<int (*)(pthread_rwlock_t *)>("pthread_rwlock_wrlock");
    if (!active || cur < 0) return l(m);
    step(PC);
    block_until([&] { return t(m) == 0; });
    return 0;
}
int pthread_rwlock_unlock(pthread_rwlock_t *m)
{
    static auto un = real<int (*)(pthread_rwlock_t *)>("pthread_rwlock_unlock");
    int r = un(m);
    if (active && cur >= 0) step(PC);
    return r;
}
int sched_yield()
{
    if (active && cur >= 0) { static int tries; tries = 1; block_until([&] { return tries-- <= 0; }); return 0; }
    return (int)syscall(SYS_sched_yield);
}

// ---- file system
int open(const char *p, int fl, ...)
{
    mode_t m = 0; if (fl & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, fl); m = va_arg(ap, int); va_end(ap); }
    int r = (int)syscall(SYS_openat, AT_FDCWD, redir(p), fl, m);
    if (pm_on && r >= 0) step(PC);
    return r;
}
int open64(const char *p, int fl, ...)
{
    mode_t m = 0; if (fl & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, fl); m = va_arg(ap, int); va_end(ap); }
    int r = (int)syscall(SYS_openat, AT_FDCWD, redir(p), fl, m);
    if (pm_on && r >= 0) step(PC);
    return r;
}
int __open_2(const char *p, int fl) { return open(p, fl, 0); }
int __open64_2(const char *p, int fl) { return open(p, fl, 0); }
int openat(int d, const char *p, int fl, ...)
{
    mode_t m = 0; if (fl & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, fl); m = va_arg(ap, int); va_end(ap); }
    return (int)syscall(SYS_openat, d, redir(p), fl, m);
}
int openat64(int d, const char *p, int fl, ...)
{
    mode_t m = 0; if (fl & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, fl); m = va_arg(ap, int); va_end(ap); }
    return (int)syscall(SYS_openat, d, redir(p), fl, m);
}
int __openat_2(int d, const char *p, int fl) { return openat(d, p, fl, 0); }
int __openat64_2(int d, const char *p, int fl) { return openat(d, p, fl, 0); }
int creat(const char *p, mode_t m) { return open(p, O_CREAT | O_WRONLY | O_TRUNC, m); }
int rename(const char *a, const char *b)
{
    if (pm_on) step(PC);
    return (int)syscall(SYS_renameat, AT_FDCWD, redir(a, 0), AT_FDCWD, redir(b, 1));
}
int renameat(int x, const char *a, int y, const char *b) { return (int)syscall(SYS_renameat, x, redir(a, 0), y, redir(b, 1)); }
int link(const char *a, const char *b) { return (int)syscall(SYS_linkat, AT_FDCWD, redir(a, 0), AT_FDCWD, redir(b, 1), 0); }
int unlink(const char *p) { if (pm_on) step(PC); return (int)syscall(SYS_unlinkat, AT_FDCWD, redir(p), 0); }
int unlinkat(int d, const char *p, int f) { if (pm_on) step(PC); return (int)syscall(SYS_unlinkat, d, redir(p), f); }
int remove(const char *p)
{
    if (pm_on) step(PC);
    p = redir(p);
    int r = (int)syscall(SYS_unlinkat, AT_FDCWD, p, 0);
    if (r != 0 && errno == EISDIR) r = (int)syscall(SYS_unlinkat, AT_FDCWD, p, AT_REMOVEDIR);
    return r;
}
int mkdir(const char *p, mode_t m) { return (int)syscall(SYS_mkdirat, AT_FDCWD, redir(p), m); }
int access(const char *p, int m) { return (int)syscall(SYS_faccessat, AT_FDCWD, redir(p), m); }
int stat(const char *p, struct stat *b) { return (int)syscall(SYS_newfstatat, AT_FDCWD, redir(p), b, 0); }
int lstat(const char *p, struct stat *b) { return (int)syscall(SYS_newfstatat, AT_FDCWD, redir(p), b, AT_SYMLINK_NOFOLLOW); }
int fstatat(int d, const char *p, struct stat *b, int f) { return (int)syscall(SYS_newfstatat, d, redir(p), b, f); }
int ftruncate(int fd, off_t n) { int r = (int)syscall(SYS_ftruncate, fd, n); if (pm_on) step(PC); return r; }
int truncate(const char *p, off_t n) { return (int)syscall(SYS_truncate, redir(p), n); }
DIR *opendir(const char *p)
{
    static auto f = real<DIR *(*)(const char *)>("opendir");
    return f(redir(p));
}
FILE *fopen(const char *p, const char *m)
{
    static auto f = real<FILE *(*)(const char *, const char *)>("fopen");
    return f(redir(p), m);
}

void *mmap(void *a, size_t len, int prot, int fl, int fd, off_t off)
{
    void *r = (void *)syscall(SYS_mmap, a, len, prot, fl, fd, off);
    if (r != MAP_FAILED && pm_on && fd >= 0 && (fl & MAP_SHARED)) {
        struct stat st;
        if (fstat(fd, &st) == 0 && S_ISREG(st.st_mode)) {
            stats.maps++;
            if ((size_t)off + len > ((size_t)st.st_size + 4095) / 4096 * 4096 && complaint.empty()) complaint = "mmap beyond the end of the file";
            maps[(uintptr_t)r] = {(uintptr_t)r, len, st.st_ino};
            if (!images.count(st.st_ino)) {
                Image &im = images[st.st_ino];
                im.bytes.assign(len, 0);
                // What is in the file when it is first mapped is taken to be durable.
                size_t n = std::min<size_t>(len, st.st_size);
                memcpy(&im.bytes[0], r, n);
                im.ver.assign(len / 64 + 1, 0);
            }
            step(PC);
        }
    }
    return r;
}
void *mmap64(void *a, size_t len, int prot, int fl, int fd, off_t off) { return mmap(a, len, prot, fl, fd, off); }
int munmap(void *a, size_t len)
{
    if (pm_on && !maps.empty()) {
        auto it = maps.find((uintptr_t)a);
        if (it != maps.end()) {
            if (((it->second.len + 4095) & ~4095ull) != ((len + 4095) & ~4095ull) && complaint.empty()) complaint = "munmap with the wrong length";
            // Lines still dirty in the cache stay unwritten in the image; remember them no more.
            maps.erase(it); stats.unmaps++;
            step(PC);
        }
        else if ((cur >= 0 || solo) && complaint.empty() && find_map((uintptr_t)a)) complaint = "munmap of an address inside a mapping";
    }
    return (int)syscall(SYS_munmap, a, len);
}
}
