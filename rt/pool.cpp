// The pm and clevel containers: concurrent histories, and crashes of the pool. Every era runs in a process of its own.
#include "pre.h"
#include <iostream>
#include <unordered_map>
#include <condition_variable>
#include <sys/prctl.h>
#include <execinfo.h>
#include <cxxabi.h>
#include <dlfcn.h>
#ifdef LEVEL
#include "containers/levelMap.hpp"
// The same container with small levels: they fill and are moved much faster.
namespace pmem { namespace obj { namespace experimental { template <typename K, typename T> using small_clevel_hash = clevel_hash<K, T, std::hash<K>, std::equal_to<K>, 3>; } } }
#undef CLEVEL_MAP_HPP
#define clevel clevel_small
#define clevel_hash small_clevel_hash
#include "containers/levelMap.hpp"
#undef clevel
#undef clevel_hash
#undef likely
#undef unlikely
#undef CAS
using Cont = clevel::container_type; using Small = clevel_small::container_type;
static const bool lev = true;
#else
#include "containers/pmemMap.hpp"
using Cont = pm::container_type; using Small = Cont;
static const bool lev = false;
#endif
#include "common.h"
#include "pmhook.h"
#include "../e1/history.h"
TestOptions::TestOptions() { numthreads = 1; numops = 0; numruns = 1; capacity = 3; recover = false; wipeFile = false; }
#include "delays.h"

enum { INS, DEL, HAS, GETV, CNT };
struct Ev { uint8_t kind; int8_t thread; uint64_t key, inv, ret, res; };
static const int MAXT = 8, MAXE = 6000, MAXI = 4;
struct Shared
{
    std::atomic<uint64_t> clock;
    std::atomic<uint32_t> n[MAXT]; Ev ev[MAXT][MAXE];
    uint64_t t0[MAXI], t1[MAXI]; int images;
    uint64_t count; bool countKnown, finished; uint64_t failed, capacity, capacity0, events, delays, stalls, flushes, drains, dirty, kept, gates;
    char error[1024]; Sites sites;
};
static Shared *sh;
static bool crash;
struct Plan
{
    int threads; uint64_t ops; std::vector<uint64_t> keys; uint32_t mask; int mix; bool readFirst; int images; uint64_t est; std::string image; uint64_t seed, bulk; bool eagerGate, spread, site; uint64_t stall;
};
static int specApply(const Op &o, uint64_t s, uint64_t &n)
{
    n = o.kind == INS ? 1 : o.kind == DEL ? 0 : s;
    if (!o.done) return true;
    switch (o.kind)
    {
    case INS: return o.res == (s == 0);
    case DEL: return o.res == (s == 1);
    default: return (o.res != 0) == (s == 1);
    }
}
static std::string evText(const Op &o)
{
    static const char *N[] = {"insert", "erase", "contains", "get"};
    return fmt("[%llu,%llu] era %d thread %d %s(%llu) = %s\n", (unsigned long long)o.inv, (unsigned long long)o.ret, o.era, o.thread, N[o.kind], (unsigned long long)o.key, !o.done ? "(interrupted)" : std::to_string(o.res).c_str());
}
// ---- clevel: erases and the movement of elements to another level exclude each other (known_findings.txt)
static std::atomic<int> erasers{0}; static std::atomic<uint64_t> gateOpen{0}; static std::atomic<bool> gateEager{false}; static bool gateHeld; static uint32_t gateMask; static uint64_t gateSeed, gateStall;
static std::atomic<uint64_t> gates{0};
static void gate()
{
    pmBackground = true;
    if (!delayState) { delayState = gateSeed | 1; delayMask = gateMask; if (gateSeed % 2) delayPickSite(); else stallAt = gateStall; }
    if (gateHeld) { gateHeld = false; erasers.store(0); }
    for (;;)
    {
        struct timespec t = {0, gateEager ? 20000 : 300000}; nanosleep(&t, nullptr);
        int z = 0; if (erasers.compare_exchange_strong(z, -1)) break;
    }
    gateHeld = true; gates.fetch_add(1, std::memory_order_relaxed);
}
template <class C> static bool eraseOne(C *c, uint64_t k)
{
    if (!lev) return c->erase(k);
    for (;;)
    {
        int e = erasers.load();
        if (e >= 0 && erasers.compare_exchange_weak(e, e + 1)) break;
        sched_yield();
    }
    bool r = c->erase(k);
    erasers.fetch_sub(1);
    return r;
}
template <class C> static uint64_t doOp(C *c, int t, int kind, uint64_t key)
{
    uint32_t i = sh->n[t].load(std::memory_order_relaxed);
    if (i >= MAXE) return 0;
    Ev &e = sh->ev[t][i]; e.kind = kind; e.thread = t; e.key = key; e.ret = 0; e.res = 0;
    e.inv = sh->clock.fetch_add(1);
    std::atomic_signal_fence(std::memory_order_seq_cst);
    sh->n[t].store(i + 1, std::memory_order_release);
    uint64_t r = 0;
    switch (kind)
    {
    case INS: r = c->insert(key); break;
    case DEL: r = eraseOne(c, key); break;
    case HAS: r = c->contains(key); break;
    case GETV:
        r = c->get(key);
        if (r && r != key && !sh->error[0]) snprintf(sh->error, sizeof sh->error, "get(%llu) returned %llu", (unsigned long long)key, (unsigned long long)r);
        break;
    }
    e.res = r;
    e.ret = sh->clock.fetch_add(1);
    return r;
}
static void imgBefore(int k) { sh->t0[k] = sh->clock.fetch_add(1); }
static void imgAfter(int k) { sh->t1[k] = sh->clock.fetch_add(1); sh->images = k + 1; }

static void died(int sig)
{
    void *b[24]; int n = backtrace(b, 24); size_t at = 0;
    char *e = sh->error; const size_t N = sizeof sh->error;
    at += snprintf(e + at, N - at, "the program was ended by signal %d (%s) in", sig, strsignal(sig));
    for (int i = 2; i < n && at < N - 80; i++)
    {
        Dl_info d{}; dladdr(b[i], &d);
        int st = -1; char *name = d.dli_sname ? abi::__cxa_demangle(d.dli_sname, nullptr, nullptr, &st) : nullptr;
        std::string s = st == 0 ? name : d.dli_sname ? d.dli_sname : "?"; size_t c = s.find('('); if (c != std::string::npos) s.resize(c); if (s.size() > 60) s = "..." + s.substr(s.size() - 57);
        at += snprintf(e + at, N - at, " < %s+0x%lx", s.c_str(), (char *)b[i] - (char *)d.dli_fbase);
    }
    _exit(3);
}
// One process lifetime.
template <class C> static void era(const std::string &file, const Plan &p, bool create)
{
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    for (int g : {SIGSEGV, SIGBUS, SIGABRT, SIGFPE, SIGILL}) signal(g, died);
    { void *b[2]; backtrace(b, 2); }
    int nul = open("/dev/null", O_WRONLY); dup2(nul, 1);
    setenv("PMEM_IS_PMEM_FORCE", "1", 1);
    TestOptions o; o.filename = file; o.numthreads = MAXT; o.capacity = 3;
    pmUsleep = gate; gateEager = p.eagerGate; gateMask = p.mask | 8191; gateSeed = p.seed; gateStall = p.stall ? p.stall : 0; delayProgress = &sh->clock; stallScale = lev ? 10 : 6; delaySites = &sh->sites;
    static Rng r(p.seed, 77); static const Plan &plan = p; static const std::string &path = file;
    auto arm = [](void *pool) {
        const Plan &p = plan;
        struct stat st; stat(path.c_str(), &st);
        std::vector<uint64_t> at, bg;
        for (int i = 0; i < p.images; i++) if (lev && p.bulk && r.chance(0.5)) bg.push_back(r.below(p.keys.size() * 2)); else at.push_back(r.chance(0.15) ? r.below(30) : r.below(p.est));
        std::sort(at.begin(), at.end()); std::sort(bg.begin(), bg.end());
        pmArm(pool, st.st_size, path.c_str());
        pmPlan(at.data(), at.size(), bg.data(), bg.size(), p.image.c_str(), r.next(), imgBefore, imgAfter);
    };
    if (crash && p.images && !create) pmOpened = arm;
    C *c;
    try { c = new C(o, !create); }
    catch (std::exception &e) { snprintf(sh->error, sizeof sh->error, "opening the pool failed: %s (access %d)", e.what(), access(file.c_str(), R_OK)); _exit(0); }
    if (c->pop.handle() == nullptr) { snprintf(sh->error, sizeof sh->error, "the pool could not be opened"); _exit(0); }
    if (lev && create) while (!gates.load()) sched_yield();   // the expansion thread has reached its first wait: from here on it respects the gate
    sh->capacity0 = c->count();
    if (crash && p.images && create) arm(c->pop.handle());
    try
    {
        localThreadNum = 0;
        if (p.readFirst)
        {
            uint64_t n = 0;
            for (auto k : p.keys) n += doOp(c, 0, HAS, k);
            if (!lev && c->count() != n && !sh->error[0]) snprintf(sh->error, sizeof sh->error, "count() is %llu after reopening the pool, and %llu elements are present", (unsigned long long)c->count(), (unsigned long long)n);
        }
        if (!create)
        {
            // libpmemobj 1.13 scans the heap at the first allocation or free after opening, and other threads may not wait for that: one thread goes first.
            uint64_t k = p.keys[r.below(p.keys.size())]; bool was = doOp(c, 0, HAS, k);
            doOp(c, 0, INS, k); doOp(c, 0, DEL, k); if (was) doOp(c, 0, INS, k);
        }
        if (lev) localThreadNum = 1 % p.threads;
        std::atomic<uint64_t> nextBulk{0};
        if (!p.spread) for (uint64_t i = 0; i < p.bulk; i++) doOp(c, 0, INS, p.keys[p.keys.size() - 1 - i]);
        std::atomic<int> ready{0}; std::atomic<uint64_t> delays{0}, stalls{0};
        std::vector<std::thread> ts; std::atomic<bool> threw{false}; std::string what;
        for (int t = 0; t < p.threads; t++)
        {
            Rng tr(r.next(), t);
            ts.emplace_back([&, t, tr]() mutable {
                localThreadNum = t;
                ready.fetch_add(1); while (ready.load() < p.threads) sched_yield();
                delayState = tr.next() | 1; delayMask = p.mask; if (p.stall && p.site) delayPickSite(); else stallAt = p.stall ? 1 + tr.below(p.stall) : 0;
                static const int MIX[4][4] = {{4, 4, 3, 2}, {8, 2, 2, 1}, {3, 6, 2, 1}, {5, 5, 0, 0}};
                const int *m = MIX[p.mix]; int tw = m[0] + m[1] + m[2] + m[3];
                uint64_t bulkAt = t;
                try
                {
                    for (uint64_t i = 0; i < p.ops || (p.spread && (lev ? bulkAt : nextBulk.load()) < p.bulk); i++)
                    {
                        if (p.spread && tr.chance(0.8))
                        {
                            uint64_t b = lev ? bulkAt : nextBulk.fetch_add(1);   // clevel: each element is inserted by one thread
                            bulkAt += p.threads;
                            if (b < p.bulk) { doOp(c, t, INS, p.keys[lev ? b : p.keys.size() - 1 - b]); continue; }
                        }
                        int x = tr.below(tw), k = 0; while (x >= m[k]) x -= m[k++];
                        uint64_t ki = tr.below(p.keys.size());
                        if (tr.chance(0.5)) ki = tr.below(std::min<uint64_t>(p.keys.size(), 6));
                        if (lev && k <= DEL) { ki = ki / p.threads * p.threads + t; if (ki >= p.keys.size()) continue; }   // each element is inserted and erased by one thread
                        doOp(c, t, k, p.keys[ki]);
                        if (tr.chance(0.01)) { struct timespec z = {0, (long)tr.below(100000)}; nanosleep(&z, nullptr); }
                    }
                }
                catch (std::exception &e) { if (!threw.exchange(true)) snprintf(sh->error, sizeof sh->error, "an operation threw: %s", e.what()); }
                delays.fetch_add(delayCount); stalls.fetch_add(stallCount);
                delayMask = 0; stallAt = stallPc = 0;
            });
        }
        for (auto &t : ts) t.join();
        sh->delays = delays; sh->stalls = stalls;
        if (!sh->error[0])
        {
            uint64_t n = 0; for (auto k : p.keys) n += doOp(c, 0, r.chance(0.5) ? HAS : GETV, k) != 0;
            sh->count = c->count(); sh->countKnown = true; sh->capacity = sh->count;
            if (!lev && sh->count != n && !sh->error[0]) snprintf(sh->error, sizeof sh->error, "count() is %llu, and %llu elements are present, with no operation running", (unsigned long long)sh->count, (unsigned long long)n);
        }
    }
    catch (std::exception &e) { snprintf(sh->error, sizeof sh->error, "an operation threw: %s", e.what()); }
    pmDisarm();
    if (pmFreedTwice && !sh->error[0]) snprintf(sh->error, sizeof sh->error, "the object at offset 0x%llx was given back to the allocator twice", (unsigned long long)pmFreedTwice);
    sh->events = pmEvents(); sh->flushes = pmCounts.flushes; sh->drains = pmCounts.drains; sh->dirty = pmCounts.dirtyLines; sh->kept = pmCounts.keptLines; sh->gates = gates; sh->failed = pmCounts.failed;
    sh->finished = true;
    _exit(0);
}
static void collect(std::vector<Op> &h, int era, int image)
{
    for (int t = 0; t < MAXT; t++)
        for (uint32_t i = 0; i < sh->n[t]; i++)
        {
            const Ev &e = sh->ev[t][i];
            Op o{}; o.kind = e.kind; o.era = era; o.thread = t; o.key = e.key; o.res = e.res; o.inv = e.inv; o.ret = e.ret; o.done = 1;
            if (image >= 0)
            {
                if (e.inv > sh->t1[image]) continue;
                if (e.kind > DEL || (e.ret && !e.res)) continue;   // what a read saw may still be lost
                if (!e.ret || e.ret >= sh->t0[image]) { o.done = 0; o.ret = sh->t1[image]; }
            }
            h.push_back(o);
        }
}
static void judge(Worker &w, std::vector<Op> h, const std::string &what, bool crashed)
{
    std::map<uint64_t, std::vector<Op>> by;
    uint64_t ho = 0;
    std::sort(h.begin(), h.end(), [](const Op &a, const Op &b) { return a.inv < b.inv; });
    for (auto &o : h) { by[o.key].push_back(o); ho = mixh(ho, o.thread * 4 + o.kind + (o.res ? 64 : 0)); }
    for (auto &kv : by)
    {
        Lin l = check_key(kv.second, specApply, 0, 200000);
        w.add("keys_checked");
        bool overlap = false; uint64_t end = 0; for (auto &o : kv.second) { if (o.inv < end) overlap = true; end = std::max(end, o.ret); }
        if (overlap) w.add("keys_with_overlap");
        if (l == LIN_UNKNOWN) w.add("keys_undecided");
        if (l == LIN_BAD)
        {
            std::string d = what + "\n"; for (auto &o : kv.second) d += evText(o);
            throw Found{crashed ? fmt("the operations on element %llu, cut by a crash, do not fit its contents afterwards", (unsigned long long)kv.first) : fmt("the history of element %llu is not linearizable", (unsigned long long)kv.first), d};
        }
    }
    w.distinct(ho);
}
template <class C> static void process(Worker &w, const std::string &file, const Plan &p, bool create, const std::string &what)
{
    for (auto &x : sh->n) x = 0;
    sh->images = 0; sh->countKnown = sh->finished = false; sh->error[0] = 0;
    if (const char *keep = getenv("RT_KEEP")) { static int no; int x = system(("cp --sparse=always " + file + " " + keep + std::to_string(no++) + " 2>/dev/null").c_str()); (void)x; }
    pid_t pid = fork();
    if (pid == 0) era<C>(file, p, create);
    int st; waitpid(pid, &st, 0);
    if (sh->error[0]) throw Found{sh->error, what};
    if (!sh->finished) throw Found{WIFSIGNALED(st) ? fmt("the program was ended by signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st))) : fmt("the program exited with status %d", WEXITSTATUS(st)), what};
    for (auto &x : sh->n) { w.add("operations", x); }
    w.add("processes"); w.add("flushes", sh->flushes); w.add("drains", sh->drains); w.add("crash_images", sh->images); if (sh->failed) w.add("images_not_written", sh->failed); w.add("lines_unflushed", sh->dirty); w.add("lines_survived", sh->kept); w.add("injected_delays", sh->delays); w.add("injected_stalls", sh->stalls);
    if (lev) { w.add("rehash_gates", sh->gates); if (sh->capacity > sh->capacity0) w.add("processes_that_grew"); }
}
template <class C> static void one(Worker &w, uint64_t idx)
{
    Rng r(w.seed, idx, 14 + lev); const bool small = !std::is_same<C, Cont>::value;
    wipeDir(w.scratch);
    sh->clock = 1;
    std::vector<uint64_t> keys; std::map<uint64_t, bool> have;
    uint64_t nk = lev ? (r.chance(0.3) ? r.range(4, 40) : r.range(36, 80)) : r.loguniform(1, 30), shift = small ? r.below(8) : lev ? r.range(12, 14) : r.below(20), base = r.below(1 << 16);
    bool scattered = r.chance(0.2);
    for (uint64_t i = 0; i < nk; i++) { uint64_t k = scattered ? (r.next() >> 4) : base + (i << shift) + (r.chance(0.1) ? 1 : 0); if (k && !have[k]) { have[k] = true; keys.push_back(k); } }
    uint64_t bulk = !lev && r.chance(0.4) ? r.range(100, 700) : 0;
    const bool grow = lev && r.chance(0.6);
    for (uint64_t i = 0; i < bulk; i++) { uint64_t k = base + 100000 + i * (r.chance(0.1) ? 256 : 1); if (!have[k]) { have[k] = true; keys.push_back(k); } else { bulk--; i--; } }
    std::vector<Op> hist; std::string file = w.scratch + "/pool"; bool create = true;
    int eras = crash ? r.range(2, 4) : r.range(1, 2);
    bool first = true;
    for (int e = 0; e < eras; e++)
    {
        Plan p; p.seed = r.next(); p.threads = crash && lev ? 1 : e && r.chance(0.3) ? 1 : r.range(2, 6); p.ops = r.loguniform(4, lev ? 150 : 60); p.keys = keys; p.mask = r.chance(0.2) ? 0 : (1u << (lev ? r.range(7, 14) : r.range(4, 12))) - 1;
        p.mix = r.below(4); p.readFirst = !first; p.images = crash && e + 1 < eras ? r.range(1, MAXI) : 0; p.bulk = first ? (grow ? keys.size() : bulk) : 0; p.image = w.scratch + "/img" + std::to_string(e) + "-"; p.eagerGate = r.chance(0.5);
        p.stall = r.chance(0.6) ? r.loguniform(50, lev ? 600000 : 60000) : 0; p.site = r.chance(0.6); if (p.stall && !p.mask) p.mask = (1 << 20) - 1; p.spread = p.bulk && !(crash && lev) && r.chance(0.6);
        p.est = std::max<uint64_t>(p.ops * p.threads * (lev ? 10 : 25) + p.bulk * (lev ? 20 : 40), 20);
        std::string what = fmt("%s, era %d of %d: %d threads, %llu operations each on %zu elements (%llu inserted first), mix %d, %d crash images", small ? "clevel (small levels)" : lev ? "clevel" : "pm", e, eras, p.threads, (unsigned long long)p.ops, keys.size(), (unsigned long long)p.bulk, p.mix, p.images);
        w.note(what); w.sample(what);
        process<C>(w, file, p, create, what);
        create = false; first = false;
        std::vector<Op> all = hist; collect(all, e, -1); judge(w, all, what, e > 0);
        if (p.images && sh->images)
        {
            // Each image is what a crash might have left; one of them is also where the next era starts.
            int go = r.below(sh->images);
            std::vector<std::vector<Op>> hs(sh->images, hist); int n = sh->images;
            for (int k = 0; k < n; k++) collect(hs[k], e, k);
            for (int k = 0; k < n; k++) if (k != go && r.chance(0.6))
            {
                Plan q = p; q.threads = 1; q.ops = r.loguniform(2, 40); q.images = 0; q.readFirst = true; q.bulk = 0; q.seed = r.next();
                std::string wh = what + fmt("; reopened after crash %d", k);
                w.note(wh);
                process<C>(w, p.image + std::to_string(k), q, false, wh);
                collect(hs[k], e + 1, -1); judge(w, hs[k], wh, true);
            }
            hist = hs[go]; unlink(file.c_str()); file = p.image + std::to_string(go);
            for (int k = 0; k < n; k++) if (k != go) unlink((p.image + std::to_string(k)).c_str());
        }
        else { hist = all; if (lev && e + 1 < eras) { } }
    }
    wipeDir(w.scratch);
}
int main(int argc, char **argv)
{
    crash = strstr(argv[1], "crash") != nullptr;
    signal(SIGPIPE, SIG_IGN);
    return poolMain(argv[1], strtoull(argv[2], 0, 10), strtoull(argv[3], 0, 10), argv[4], 60,
                    [](Worker &w, uint64_t i) { if (lev && i / 8 % 3) one<Small>(w, i); else one<Cont>(w, i); },
                    [](Worker &) { sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); });
}
