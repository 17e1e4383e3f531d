// Real threads on the ucf and stl containers and on PMap itself, with random delays. Watched by a sanitizer, or (soak) by its own checks.
#include "pre.h"
#include "containers/ucfMap.hpp"
#include "containers/stlMap.hpp"
#include "hash.hpp"
#include "common.h"
#include "redir.h"
#include <unordered_map>
TestOptions::TestOptions() { numthreads = 1; numops = 0; numruns = 1; capacity = 3; recover = false; wipeFile = false; }
#include "delays.h"
struct ClusterHash { size_t operator()(const size_t &k) const { return ((k >> 3) & 3) * 5 + (((k >> 5) * 64)); } };
static bool soak, soakInc, soakSize, tsan, asan;
static std::atomic<uint64_t> opsDone, stallsDone;

struct Bar   // starts the threads together without ordering anything that matters
{
    std::atomic<int> n{0};
    void wait(int t) { n.fetch_add(1); while (n.load() < t) sched_yield(); }
};
struct Plan { int threads; uint64_t ops, shared, own; uint32_t mask; int mix; bool counters; int stalls; };
static std::string planText(const Plan &p) { return fmt("%d threads, %llu operations each on %llu shared and %llu own keys, mix %d, stalls %d", p.threads, (unsigned long long)p.ops, (unsigned long long)p.shared, (unsigned long long)p.own, p.mix, p.stalls); }
static const uint64_t NONE = ~0ull;

// One thread's work. Own keys must always behave as in an ordinary map; shared keys are only used (or counted, when incremented only).
template <class Op> static void worker(const Plan &p, int t, Rng r, Op &op, std::unordered_map<uint64_t, uint64_t> &model, std::vector<uint64_t> &incs, std::string &err)
{
    delayState = r.next() | 1; if (p.stalls & 1) stallAt = 1 + r.below(1ull << r.range(6, 15)); if (p.stalls & 2) delayPickSite(); delayMask = p.mask;
    static const int MIX[4][7] = {{5, 4, 3, 1, 1, 5, 4}, {10, 10, 0, 0, 0, 1, 1}, {2, 2, 5, 1, 1, 1, 1}, {1, 1, 1, 0, 0, 3, 12}};
    int tw = 0; for (int i = 0; i < 7; i++) tw += MIX[p.mix][i];
    for (uint64_t i = 0; i < p.ops; i++)
    {
        if (p.stalls) opsDone.fetch_add(1, std::memory_order_relaxed);
        int x = r.below(tw), k = 0;
        while (x >= MIX[p.mix][k]) x -= MIX[p.mix][k++];
        bool own = p.own && r.chance(0.5);
        if (r.chance(0.02)) { op.count(); continue; }
        if (!own && p.counters)
        {
            uint64_t key = r.below(p.shared);
            if (k == 5 || k < 3) op.get(key); else { op.inc(key); incs[key]++; }
            continue;
        }
        uint64_t key = own ? p.shared + 1 + t + (uint64_t)p.threads * r.below(p.own) : r.below(p.shared);
        uint64_t a = r.below(5) + 1, cur = NONE, got = 0, want = 0; bool known = own;
        if (own) { auto it = model.find(key); if (it != model.end()) cur = it->second; }
        switch (k)
        {
        case 0: got = op.put(key, a); want = cur; if (own) model[key] = op.valueOf(key, a); break;
        case 1: got = op.putIfAbsent(key, a); want = cur; if (own && cur == NONE) model[key] = op.valueOf(key, a); break;
        case 2: got = op.remove(key); want = cur != NONE; if (own) model.erase(key); break;
        case 3: got = op.removeIf(key, a); want = cur == a; known = own && op.full; if (known && want) model.erase(key); break;
        case 4: got = op.replace(key, a, a + 1); want = cur == a; known = own && op.full; if (known && want) model[key] = a + 1; break;
        case 5: got = op.get(key); want = cur; break;
        case 6:
            if (own && !op.full && cur != NONE && cur != 0 && cur != key) { got = want = 0; break; }
            got = op.inc(key); want = cur; if (own) model[key] = cur == NONE ? 1 : cur + 1; known = own && op.full; break;
        }
        if (soak && !soakSize && !soakInc && known && got != want && err.empty())
            err = fmt("thread %d operation %llu (kind %d, key %llu, argument %llu) returned %lld and should return %lld: nobody else uses this key", t, (unsigned long long)i, k, (unsigned long long)key, (unsigned long long)a, (long long)got, (long long)want);
    }
}
template <class H> struct Direct   // PMap itself
{
    using M = ConcurrentHashMap<KeyT, ValT, H>; static constexpr size_t S = M::BITS_MARKED; static constexpr bool full = true;
    M *m;
    static uint64_t val(ValT v) { return M::isValueReserved(v) ? NONE : v >> S; }
    static uint64_t valueOf(uint64_t, uint64_t a) { return a; }
    uint64_t put(uint64_t k, uint64_t a) { return val(m->put(k << S, a << S)); }
    uint64_t putIfAbsent(uint64_t k, uint64_t a) { return val(m->putIfAbsent(k << S, a << S)); }
    uint64_t remove(uint64_t k) { return m->remove(k << S); }
    uint64_t removeIf(uint64_t k, uint64_t a) { return m->remove(k << S, a << S); }
    uint64_t replace(uint64_t k, uint64_t a, uint64_t b) { return m->replace(k << S, a << S, b << S); }
    uint64_t get(uint64_t k) { return val(m->get(k << S)); }
    uint64_t inc(uint64_t k) { return val(m->update(k << S, (((size_t)1 << 61) - 3) << S, M::Table::increment)); }
    uint64_t count() { return m->size() + m->isEmpty(); }
    uint64_t size() { return m->size(); }
    void open(const std::string &dir, uint64_t cap, bool rec) { m = new M(dir.c_str(), cap, rec); }
    void close() { delete m; m = nullptr; }
};
template <class C, bool UCF> struct Adapter   // the common interface
{
    static constexpr bool full = false;
    C *c;
    static uint64_t valueOf(uint64_t k, uint64_t) { return k; }
    uint64_t put(uint64_t k, uint64_t) { bool r = c->insert(k); return r ? NONE : k; }
    uint64_t putIfAbsent(uint64_t k, uint64_t a) { return put(k, a); }
    uint64_t remove(uint64_t k) { return c->erase(k); }
    uint64_t removeIf(uint64_t k, uint64_t) { return c->contains(k); }
    uint64_t replace(uint64_t k, uint64_t, uint64_t) { return c->contains(k); }
    uint64_t get(uint64_t k) { return c->contains(k) ? (uint64_t)c->get(k) : NONE; }
    uint64_t inc(uint64_t k) { return c->increment(k); }
    uint64_t count() { return c->count(); }
    uint64_t size() { return c->count(); }
    void open(const std::string &dir, uint64_t cap, bool rec)
    {
        TestOptions o; o.capacity = 63 - __builtin_clzll(cap); o.filename = dir;
        c = new C(o, UCF && rec);
    }
    void close() { }   // the adapters have no destructor of their own
};
template <class Op, bool REC> static void go(Worker &w, Rng &r, Op op, uint64_t cap, const std::string &kind)
{
    const std::string tables = w.scratch + "/tables"; const bool large = soak && r.chance(0.15); if (large) cap = 512 << r.below(3);
    op.open(tables, cap, false);
    int eras = REC && r.chance(soakInc ? 0 : 0.3) ? 2 + r.below(2) : 1;
    std::unordered_map<uint64_t, uint64_t> total[8];
    std::vector<uint64_t> incTotal;
    bool adapter = !Op::full; uint64_t caseHash = w.seed;
    for (int era = 0; era < eras; era++)
    {
        Plan p; p.threads = era && r.chance(0.3) ? 1 : r.range(2, 6); p.ops = r.loguniform(10, 600); p.shared = r.loguniform(1, 60); p.own = r.chance(0.2) ? 0 : r.loguniform(1, 300);
        p.mix = r.below(4); p.mask = r.chance(0.15) ? 0 : (1u << r.range(4, 11)) - 1; p.stalls = r.chance(0.5) ? 0 : r.range(1, 3); if (p.stalls) p.mask |= 255; p.counters = soak && !adapter && eras == 1 && r.chance(soakInc ? 0.9 : 0.5); if (soakInc && p.counters && r.chance(0.5)) p.mix = 3;
        if (large) { p.own = r.loguniform(200, 700); p.ops = r.loguniform(600, 2500); p.mix = r.below(2); }
        std::string what = kind + fmt(", capacity %llu, era %d: ", (unsigned long long)cap, era) + planText(p);
        w.note(what);
        std::vector<std::thread> ts; Bar bar; std::vector<std::string> errs(p.threads); std::vector<std::vector<uint64_t>> incs(p.threads, std::vector<uint64_t>(p.shared));
        if (eras > 1) { p.shared = 60; p.threads = std::max(p.threads, 1); }
        std::vector<std::unordered_map<uint64_t, uint64_t>> model(p.threads);
        for (auto &i : incs) i.resize(p.shared);
        if (soak && era) { p.own = 0; }   // own keys of an earlier era may have had another owner
        std::atomic<uint64_t> delays{0};
        for (int t = 0; t < p.threads; t++)
        {
            Rng tr(r.next(), t);
            ts.emplace_back([&, t, tr] { bar.wait(p.threads); worker(p, t, tr, op, model[t], incs[t], errs[t]); delays.fetch_add(delayCount, std::memory_order_relaxed); stallsDone.fetch_add(stallCount, std::memory_order_relaxed); });
        }
        for (auto &t : ts) t.join();
        w.add("operations", p.ops * p.threads); w.add("eras"); w.add("threads", p.threads); w.add("injected_delays", delays.load()); w.add("stalls", stallsDone.exchange(0));
        if (asan && redirStats.error) throw Found{fmt(redirStats.error, redirStats.errA, redirStats.errB), what};
        for (auto &e : errs) if (!e.empty()) throw Found{e, what};
        if (soak)
        {
            uint64_t n = 0;
            for (auto &m : model) for (auto &kv : m)
            {
                uint64_t g = op.get(kv.first);
                if (g != kv.second && !soakSize && !soakInc) throw Found{fmt("key %llu, used by one thread only, has value %lld and should have %llu", (unsigned long long)kv.first, (long long)g, (unsigned long long)kv.second), what};
            }
            for (uint64_t k = 0; k < p.shared + 1 + p.threads * (p.own + 1); k++) n += op.get(k) != NONE;
            if (era == 0 && soakSize && n != op.size()) throw Found{fmt("size() is %llu but %llu keys are present, after all threads ended", (unsigned long long)op.size(), (unsigned long long)n), what};
            if (p.counters && !soakSize) for (uint64_t k = 0; k < p.shared; k++)
            {
                uint64_t s = 0, g = op.get(k); for (auto &i : incs) s += i[k];
                w.add("increments", s);
                if (s ? g != s : g != NONE) throw Found{fmt("%llu increments of key %llu left the value %lld", (unsigned long long)s, (unsigned long long)k, (long long)g), what};
            }
        }
        caseHash = mixh(mixh(caseHash, p.ops * 64 + p.threads), r.next());
        w.sample(what);
        if (era + 1 < eras)
        {
            // The process ends here; the next one recovers the tables.
            if (r.chance(0.3)) op.close();
            redirForgetMaps();
            if (r.chance(0.3)) { int fd = ::open((tables + "/77777.dat.tmp").c_str(), O_CREAT | O_WRONLY, 0644); if (fd >= 0) ::close(fd); }
            fileNameCounter.store(0);
            op.open(tables, cap, true);
            w.add("recoveries");
        }
    }
    w.distinct(caseHash);
    w.add("tables_mapped", redirStats.mapped); w.add("tables_unmapped", redirStats.unmapped);
    op.close();
    if (asan && redirStats.error) throw Found{fmt(redirStats.error, redirStats.errA, redirStats.errB), kind};
}
static void run(Worker &w, uint64_t idx)
{
    Rng r(w.seed, idx, 9);
    redirStart(w.scratch.c_str()); redirStats.strict = !tsan; redirStats.guard = !tsan && !soak; redirStats.keepAddresses = tsan;
    fileNameCounter.store(0);
    uint64_t cap = 8ull << r.below(r.chance(0.1) ? 10 : 4);
    switch (soak ? r.below(3) : r.below(5))
    {
    case 0: go<Direct<std::hash<KeyT>>, true>(w, r, {}, cap, "PMap"); break;
    case 1: go<Direct<xxhash<KeyT>>, true>(w, r, {}, cap, "PMap with xxhash"); break;
    case 2: go<Direct<ClusterHash>, true>(w, r, {}, cap, "PMap with colliding keys"); break;
    case 3: go<Adapter<ucf::container_type, true>, true>(w, r, {}, cap, "ucf"); break;
    case 4: go<Adapter<stl::container_type, false>, false>(w, r, {}, cap, "stl"); break;
    }
    redirEnd();
}
int main(int argc, char **argv)
{
    delayProgress = &opsDone; delaySites = (Sites *)mmap(nullptr, sizeof(Sites), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    soakInc = strcmp(argv[1], "soakinc") == 0; soakSize = strcmp(argv[1], "soaksize") == 0; soak = soakInc || soakSize || strcmp(argv[1], "soak") == 0; tsan = strcmp(argv[1], "tsan") == 0; asan = strcmp(argv[1], "asan") == 0;
    auto rel = [](int st, const std::string &text) {
        if (tsan) return text.find("data race") != std::string::npos || text.find("(race") != std::string::npos;
        return memoryViolation(st, text);
    };
    return poolMain(argv[1], strtoull(argv[2], 0, 10), strtoull(argv[3], 0, 10), argv[4], 60, run, nullptr, soak ? nullptr : +rel);
}
