// The common interface of the containers: sequences against an ordinary map, by one thread and by several with elements of their own
// (contract), and concurrent histories of the stl container (stllin).
// Built once for ucf and stl, once with -DPM for pm, once with -DLEVEL for clevel.
#include "pre.h"
#include <iostream>
#include <unordered_map>
#include <condition_variable>
#if defined(PM)
#include "containers/pmemMap.hpp"
#elif defined(LEVEL)
#include "containers/levelMap.hpp"
// The same container with small levels: they fill and are moved much faster.
namespace pmem { namespace obj { namespace experimental { template <typename K, typename T> using small_clevel_hash = clevel_hash<K, T, std::hash<K>, std::equal_to<K>, 3>; } } }
#undef CLEVEL_MAP_HPP
#define clevel clevel_small
#define clevel_hash small_clevel_hash
#include "containers/levelMap.hpp"
#undef clevel
#undef clevel_hash
#undef likely
#undef unlikely
#undef CAS
#else
#include "containers/ucfMap.hpp"
#include "containers/stlMap.hpp"
#include "redir.h"
#endif
#include "common.h"
#if defined(PM) || defined(LEVEL)
#include "pmhook.h"
#include <sys/prctl.h>
#endif
#include "../e1/history.h"
TestOptions::TestOptions() { numthreads = 1; numops = 0; numruns = 1; capacity = 3; recover = false; wipeFile = false; }
#include "delays.h"
static std::atomic<uint64_t> opsDone;
static void beginDelays(uint64_t seed, uint32_t mask, int stalls)
{
    delayState = seed | 1; stallAt = stallPc = stallCount = 0; delayCount = 0;
    if (stalls & 1) stallAt = 1 + (seed >> 7) % (1ull << (6 + (seed >> 20) % 10));
    if (stalls & 2) delayPickSite();
    delayMask = mask;
}
static void endDelays() { delayMask = 0; stallAt = stallPc = 0; }
static const uint64_t NONE = ~0ull;
struct Traits { const char *name; bool overwrites, increments, counts, getAbsentIsZero; };

// clevel: erases and the movement of elements to another level exclude each other (known_findings.txt)
static std::atomic<int> erasers{0}; static bool gateHeld; static std::atomic<int> gates{0};
static void gate()
{
    gates.fetch_add(1);
    if (gateHeld) { gateHeld = false; erasers.store(0); }
    for (;;)
    {
        struct timespec t = {0, 50000}; nanosleep(&t, nullptr);
        int z = 0; if (erasers.compare_exchange_strong(z, -1)) break;
    }
    gateHeld = true;
}
template <class C> static bool eraseOne(C *c, uint64_t k)
{
#ifdef LEVEL
    for (;;)
    {
        int e = erasers.load();
        if (e >= 0 && erasers.compare_exchange_weak(e, e + 1)) break;
        sched_yield();
    }
    bool r = c->erase(k);
    erasers.fetch_sub(1);
    return r;
#else
    return c->erase(k);
#endif
}
using Model = std::unordered_map<uint64_t, uint64_t>;
static uint64_t opCount;
// One operation on an element nobody else uses at this time; "" if it did what it should.
template <class C> static std::string step(C *c, const Traits &tr, Model &m, uint64_t k, int op)
{
    auto it = m.find(k); const bool was = it != m.end(); const uint64_t cur = was ? it->second : 0;
    uint64_t got = 0, want = 0; const char *name = "";
    if (op == 4 && (!tr.increments || cur > (1ull << 60))) op = 3;
    switch (op)
    {
    case 0: name = "insert"; got = c->insert(k); want = !was; if (!was || tr.overwrites) m[k] = k; break;
    case 1: name = "erase"; got = eraseOne(c, k); want = was; m.erase(k); break;
    case 2: name = "contains"; got = c->contains(k); want = was; break;
    case 3: if (!was) { c->get(k); return step(c, tr, m, k, 2); } name = "get"; got = c->get(k); want = cur; break;
    case 4: name = "increment"; c->increment(k); m[k] = was ? cur + 1 : 1; got = c->get(k); want = m[k]; name = "get after increment"; break;
    }
    if (got == want) return "";
    return fmt("%s: %s(%llu) returned %llu and should return %llu (the element %s)", tr.name, name, (unsigned long long)k, (unsigned long long)got, (unsigned long long)want, was ? fmt("was present with value %llu", (unsigned long long)cur).c_str() : "was absent");
}
struct Plan { uint64_t ops; int threads, mix, phases, stalls; uint32_t mask; std::vector<uint64_t> keys; std::string text; };
static std::atomic<uint64_t> stallsDone;
template <class C> static std::string drive(C *c, const Traits &tr, const Plan &p, Rng r)
{
    static const int MIX[4][5] = {{4, 3, 2, 2, 2}, {8, 1, 1, 1, 1}, {3, 6, 1, 1, 2}, {3, 3, 1, 1, 8}};
    Model all; std::string err;
    auto pick = [&](Rng &q) { const int *m = MIX[p.mix]; int x = q.below(m[0] + m[1] + m[2] + m[3] + m[4]), k = 0; while (x >= m[k]) x -= m[k++]; return k; };
    for (int ph = 0; ph < p.phases; ph++)
    {
        if (tr.counts && c->count() != all.size()) return fmt("%s: count() is %llu and should be %zu", tr.name, (unsigned long long)c->count(), all.size());
        if (p.threads == 1 || (ph == 0 && r.chance(0.5)))
        {
            localThreadNum = 0;
            for (uint64_t i = 0; i < p.ops; i++)
            {
                uint64_t k = p.keys[r.chance(0.3) ? r.below(std::min<uint64_t>(4, p.keys.size())) : r.below(p.keys.size())];
                err = step(c, tr, all, k, pick(r)); opCount++;
                if (!err.empty()) return err;
                if (tr.counts && r.chance(0.05) && c->count() != all.size()) return fmt("%s: count() is %llu and should be %zu", tr.name, (unsigned long long)c->count(), all.size());
            }
        }
        else
        {
            std::vector<Model> own(p.threads); std::vector<std::string> errs(p.threads); std::vector<std::thread> ts; std::atomic<int> ready{0};
            for (size_t i = 0; i < p.keys.size(); i++) { auto it = all.find(p.keys[i]); if (it != all.end()) own[i % p.threads][it->first] = it->second; }
            for (int t = 0; t < p.threads; t++)
            {
                Rng q(r.next(), t);
                ts.emplace_back([&, t, q]() mutable {
                    localThreadNum = t; ready.fetch_add(1); while (ready.load() < p.threads) sched_yield();
                    beginDelays(q.next(), p.mask, p.stalls);
                    uint64_t n = (p.keys.size() + p.threads - 1 - t) / p.threads;
                    for (uint64_t i = 0; n && i < p.ops && errs[t].empty(); i++)
                    {
                        if (tr.counts && q.chance(0.02)) c->count();
                        errs[t] = step(c, tr, own[t], p.keys[t + p.threads * (q.chance(0.3) ? 0 : q.below(n))], pick(q));
                        opsDone.fetch_add(1);
                    }
                    stallsDone.fetch_add(stallCount); endDelays();
                });
            }
            for (auto &t : ts) t.join();
            opCount += p.ops * p.threads;
            for (auto &e : errs) if (!e.empty()) return e + fmt(", while %d other threads used other elements", p.threads - 1);
            all.clear(); for (auto &m : own) for (auto &kv : m) all.insert(kv);
        }
        localThreadNum = 0;
        for (uint64_t k : p.keys)
        {
            err = step(c, tr, all, k, 2); if (!err.empty()) return err + ", at the end";
            if (all.count(k)) { err = step(c, tr, all, k, 3); if (!err.empty()) return err + ", at the end"; }
        }
        if (tr.counts && c->count() != all.size()) return fmt("%s: count() is %llu and should be %zu, at the end", tr.name, (unsigned long long)c->count(), all.size());
    }
    return "";
}
static Plan makePlan(Rng &r, bool level, bool small = false)
{
    Plan p; p.ops = r.loguniform(3, r.chance(0.1) ? 3000 : 300); p.threads = r.chance(0.4) ? 1 : r.range(2, 6); p.mix = r.below(4); p.phases = r.range(1, 3); p.mask = r.chance(0.2) ? 0 : (1u << r.range(4, 11)) - 1; p.stalls = r.chance(0.4) ? 0 : r.range(1, 3); if (p.stalls) p.mask |= 255;
    const uint64_t top = (1ull << 61) - 5; std::unordered_set<uint64_t> seen;
    uint64_t n = small ? r.loguniform(1, 300) : level ? r.loguniform(1, 80) : r.loguniform(1, 600); int kind = r.below(level ? 3 : 6); uint64_t base = r.below(top), sh = small ? r.range(0, 7) : level ? r.range(12, 14) : r.below(50);
    for (uint64_t i = 0; p.keys.size() < n && i < 4 * n + 8; i++)
    {
        uint64_t k;
        switch (kind)
        {
        case 0: k = base % 100000 + (i << sh); break;
        case 1: k = r.next() >> 3; break;
        case 2: k = i; if (level) k = i << sh; break;
        case 3: k = base + i; break;
        case 4: { uint64_t e = r.below(61); k = (1ull << e) + r.below(5) - 2; break; }
        default: k = top - i; break;
        }
        k &= (1ull << 61) - 1; if (k > top || (level && k == 0)) continue;
        if (seen.insert(k).second) p.keys.push_back(k);
    }
    if (p.keys.empty()) p.keys.push_back(7);
    p.text = fmt("%llu operations by %d threads, %d phases, %zu elements (kind %d), mix %d, stalls %d", (unsigned long long)p.ops, p.threads, p.phases, p.keys.size(), kind, p.mix, p.stalls);
    return p;
}
#if defined(PM) || defined(LEVEL)
#ifdef PM
using Cont = pm::container_type; using Small = Cont; static const Traits T = {"pm", false, false, true, true};
#else
using Cont = clevel::container_type; using Small = clevel_small::container_type; static const Traits T = {"clevel", false, false, false, true};
#endif
static char *shared;
template <class Map> static void oneOf(Worker &w, uint64_t idx)
{
    Rng r(w.seed, idx, 12);
#ifdef LEVEL
    Plan p = makePlan(r, true, std::is_same_v<Map, Small>); if (std::is_same_v<Map, Small>) { p.text += ", small levels"; w.add("small_levels"); }
#else
    Plan p = makePlan(r, false);
#endif
    w.note(p.text); w.sample(std::string(T.name) + ": " + p.text); wipeDir(w.scratch);
    std::string file = w.scratch + "/pool"; uint64_t seed = r.next();
    strcpy(shared, "the process ended early");
    pid_t pid = fork();
    if (pid == 0)
    {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        setenv("PMEM_IS_PMEM_FORCE", "1", 1); pmUsleep = gate;
        std::string e;
        try
        {
            TestOptions o; o.filename = file; o.numthreads = 8;
            Map *c = new Map(o, false);
#ifdef LEVEL
            while (!gates.load()) { timespec t{0, 50000}; nanosleep(&t, nullptr); }   // the expansion thread respects the gate only from here on
#endif
            e = drive(c, T, p, Rng(seed));
        }
        catch (std::exception &x) { e = std::string("an operation threw: ") + x.what(); }
        memcpy(shared + 2048, &opCount, 8); uint64_t sd = stallsDone; memcpy(shared + 2056, &sd, 8);
        strncpy(shared, e.c_str(), 2000); _exit(0);
    }
    int st; waitpid(pid, &st, 0);
    uint64_t n; memcpy(&n, shared + 2048, 8); w.add("operations", n); w.add(T.name);
    memcpy(&n, shared + 2056, 8); w.add("stalls", n);
    if (WIFSIGNALED(st)) throw Found{fmt("%s: the program was ended by signal %d (%s)", T.name, WTERMSIG(st), strsignal(WTERMSIG(st))), p.text};
    if (shared[0]) throw Found{shared, p.text};
    uint64_t h = seed; for (auto k : p.keys) h = mixh(h, k); w.distinct(h);
    wipeDir(w.scratch);
}
static void one(Worker &w, uint64_t idx) { if (idx / 8 % 3) oneOf<Small>(w, idx); else oneOf<Cont>(w, idx); }
#else
static void one(Worker &w, uint64_t idx)
{
    Rng r(w.seed, idx, 12);
    Plan p = makePlan(r, false);
    const bool ucf = r.chance(0.7);
    static const Traits U = {"ucf", true, true, true, false}, S = {"stl", false, true, true, true};
    const Traits &tr = ucf ? U : S; TestOptions o; o.capacity = 3 + r.below(r.chance(0.2) ? 8 : 3);
    w.note(tr.name + (": " + p.text)); w.sample(tr.name + (": " + p.text));
    redirStart(w.scratch.c_str()); fileNameCounter.store(0);
    opCount = 0; stallsDone = 0; std::string e;
    if (ucf) { o.filename = w.scratch + "/tables"; auto *c = new ucf::container_type(o); e = drive(c, tr, p, Rng(r.next())); delete c->c; delete c; }
    else { auto *c = new stl::container_type(o); e = drive(c, tr, p, Rng(r.next())); delete c->c; delete c; }
    redirEnd();
    w.add("operations", opCount); w.add("stalls", stallsDone); w.add(tr.name);
    if (!e.empty()) throw Found{e, p.text};
    uint64_t h = p.ops * 8 + p.threads; for (auto k : p.keys) h = mixh(h, k); w.distinct(h);
}
// ---------------------------------------------------------------- stl histories
enum { SINS, SDEL, SHAS, SGET, SCNT, SINC };
static const char *SN[] = {"insert", "erase", "contains", "get", "count", "increment"};
static int cnt(uint64_t s) { int n = 0; for (int i = 0; i < 4; i++) n += (s >> (16 * i) & 0xffff) != 0; return n; }
// The whole map in one word: 16 bits for each of the elements 1..4, 0 when absent, else its value + 1.
static bool stlApply(const Op &o, uint64_t s, uint64_t &n)
{
    n = s; const int sh = 16 * (o.key - 1); const uint64_t f = o.kind == SCNT ? 0 : s >> sh & 0xffff, clear = o.kind == SCNT ? 0 : s & ~(0xffffull << sh);
    switch (o.kind)
    {
    case SINS: if (!f) n = clear | (o.key + 1) << sh; return o.res == (f == 0);
    case SDEL: n = clear; return o.res == (f != 0);
    case SHAS: return o.res == (f != 0);
    case SGET: return o.res == (f ? f - 1 : 0);
    case SCNT: return (int)o.res == cnt(s);
    case SINC: n = clear | ((f ? f - 1 : 0) + 2) << sh; return o.res == (f ? f - 1 : 0) + 1;
    }
    return false;
}
static bool oneApply(const Op &o, uint64_t s, uint64_t &n)   // one element; the state is its value + 1
{
    n = s;
    switch (o.kind)
    {
    case SINS: if (!s) n = o.key + 1; return o.res == (s == 0);
    case SDEL: n = 0; return o.res == (s != 0);
    case SHAS: return o.res == (s != 0);
    case SGET: return o.res == (s ? s - 1 : 0);
    case SINC: n = (s ? s - 1 : 0) + 2; return o.res == (s ? s - 1 : 0) + 1;
    }
    return false;
}
static void stlOne(Worker &w, uint64_t idx)
{
    Rng r(w.seed, idx, 19);
    const bool small = r.chance(0.6); const int threads = r.range(2, 6); const uint64_t nk = small ? r.range(1, 4) : r.loguniform(5, 300), ops = r.loguniform(3, small ? 60 / threads : 300); const int mix = r.below(3); const int stalls = r.chance(0.4) ? 0 : r.range(1, 3); const uint32_t mask = (1u << r.range(1, 9)) - 1;
    std::string what = fmt("stl: %d threads, %llu operations each on %llu elements, mix %d", threads, (unsigned long long)ops, (unsigned long long)nk, mix);
    w.note(what); w.sample(what);
    TestOptions o; auto *c = new stl::container_type(o); stallsDone = 0;
    std::vector<std::vector<Op>> hs(threads); std::vector<std::thread> ts; std::atomic<int> ready{0}; std::atomic<uint64_t> clk{1}, delays{0};
    for (int t = 0; t < threads; t++)
    {
        Rng q(r.next(), t);
        ts.emplace_back([&, t, q]() mutable {
            auto &h = hs[t]; h.reserve(ops);
            ready.fetch_add(1); while (ready.load() < threads) sched_yield();
            beginDelays(q.next(), mask, stalls);
            for (uint64_t i = 0; i < ops; i++)
            {
                static const int MIX[3][6] = {{3, 3, 1, 1, 2, 3}, {1, 1, 1, 2, 1, 6}, {4, 4, 2, 1, 2, 0}};
                int x = q.below(13), k = 0; const int *m = MIX[mix]; int tw = 0; for (int j = 0; j < 6; j++) tw += m[j]; x = q.below(tw); while (x >= m[k]) x -= m[k++];
                if (!small && k == SCNT) k = SGET;
                Op e{}; e.kind = k; e.thread = t; e.done = 1; e.key = k == SCNT ? 1 : 1 + q.below(q.chance(0.5) ? std::min<uint64_t>(nk, 3) : nk);
                if (!small && e.key > 3) e.key <<= 8;
                e.inv = clk.fetch_add(1);
                switch (k)
                {
                case SINS: e.res = c->insert(e.key); break;
                case SDEL: e.res = c->erase(e.key); break;
                case SHAS: e.res = c->contains(e.key); break;
                case SGET: e.res = c->get(e.key); break;
                case SCNT: e.res = c->count(); break;
                case SINC: e.res = c->increment(e.key); break;
                }
                e.ret = clk.fetch_add(1); opsDone.fetch_add(1);
                h.push_back(e);
                if (q.chance(0.1)) sched_yield();
            }
            delays.fetch_add(delayCount); stallsDone.fetch_add(stallCount); endDelays();
        });
    }
    for (auto &t : ts) t.join();
    std::vector<Op> all; for (auto &h : hs) for (auto &e : h) all.push_back(e);
    std::sort(all.begin(), all.end(), [](const Op &a, const Op &b) { return a.inv < b.inv; });
    std::vector<uint64_t> keys; for (uint64_t i = 1; i <= nk; i++) keys.push_back(!small && i > 3 ? i << 8 : i);
    auto last = [&](int kind, uint64_t key, uint64_t res) { Op e{}; e.kind = kind; e.done = 1; e.key = key; e.res = res; e.inv = clk++; e.ret = clk++; all.push_back(e); };
    uint64_t n = 0; for (auto k : keys) { bool in = c->contains(k); n += in; last(SHAS, k, in); last(SGET, k, c->get(k)); }
    if (small) last(SCNT, 1, c->count());
    else if (c->count() != n) throw Found{fmt("stl: count() is %zu, and %llu elements are present, with no operation running", c->count(), (unsigned long long)n), what};
    delete c->c; delete c;
    auto text = [&](const std::vector<Op> &h) { std::string d = what + "\n"; for (auto &o : h) d += fmt("[%llu,%llu] thread %d %s(%llu) = %llu\n", (unsigned long long)o.inv, (unsigned long long)o.ret, o.thread, SN[o.kind], (unsigned long long)o.key, (unsigned long long)o.res); return d; };
    bool overlap = false; uint64_t end = 0, ho = 0; for (auto &o : all) { if (o.inv < end) overlap = true; end = std::max(end, o.ret); ho = mixh(ho, o.thread * 8 + o.kind + o.res * 64); }
    w.add("operations", all.size()); w.add("injected_delays", delays); w.add("stalls", stallsDone);
    if (overlap) w.add("cases_with_overlap");
    if (overlap) w.distinct(ho);
    if (small)
    {
        Lin l = check_key(all, stlApply, 0, 400000);
        w.add("histories_checked"); if (l == LIN_UNKNOWN) w.add("histories_undecided");
        if (l == LIN_BAD) throw Found{"stl: the history of the whole container is not linearizable", text(all)};
    }
    else
    {
        std::map<uint64_t, std::vector<Op>> by; for (auto &o : all) by[o.key].push_back(o);
        for (auto &kv : by)
        {
            Lin l = check_key(kv.second, oneApply, 0, 400000);
            w.add("histories_checked"); if (l == LIN_UNKNOWN) w.add("histories_undecided");
            if (l == LIN_BAD) throw Found{fmt("stl: the history of element %llu is not linearizable", (unsigned long long)kv.first), text(kv.second)};
        }
    }
}
#endif
int main(int argc, char **argv)
{
    delayProgress = &opsDone; delaySites = (Sites *)mmap(nullptr, sizeof(Sites), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    auto f = [&](Worker &w, uint64_t i) {
#if !defined(PM) && !defined(LEVEL)
        if (!strcmp(argv[1], "stllin")) { stlOne(w, i); return; }
#endif
        one(w, i);
    };
    return poolMain(argv[1], strtoull(argv[2], 0, 10), strtoull(argv[3], 0, 10), argv[4], 60, f, [](Worker &) {
#if defined(PM) || defined(LEVEL)
        shared = (char *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
#endif
    });
}
