// Single-threaded operation sequences against an ordinary map.
#include "pre.h"
#include <unordered_map>
#include "containers/ucfMap.hpp"
#include "hash.hpp"
#include "common.h"
#include "redir.h"
TestOptions::TestOptions() { numthreads = 1; numops = 0; numruns = 1; capacity = 3; recover = false; wipeFile = false; }

static size_t gConst;
static bool asan;   // only memory errors and undefined behaviour count
struct Skip { };
struct ConstHash { size_t operator()(const size_t &) const { return gConst; } };
struct FewHash { size_t operator()(const size_t &k) const { return ((k >> 3) % 5) * 0x1000003ull + gConst; } };
struct HighHash { size_t operator()(const size_t &k) const { return (k >> 3) << 40 | gConst; } };
struct NegHash { size_t operator()(const size_t &k) const { return ~(k >> 3); } };
struct MulHash { size_t operator()(const size_t &k) const { return (k >> 3) * 0x9E3779B97F4A7C15ull; } };
struct DenseHash { size_t operator()(const size_t &k) const { return k >> 3; } };

static const uint64_t KMAX = (1ull << 61) - 3, VMAX = (1ull << 61) - 5, NONE = ~0ull;
static const char *OPN[] = {"put", "putIfAbsent", "remove", "removeIf", "replace", "get", "containsKey", "increment", "size"};
static uint64_t claims; static uint64_t cap0;
static uint64_t memLimit(void *) { return 16 * std::max<uint64_t>(cap0 * 2, 256 + 24 * claims); }

template <class H> struct Run
{
    using M = ConcurrentHashMap<KeyT, ValT, H>;
    static constexpr size_t S = M::BITS_MARKED;
    static uint64_t val(ValT v) { return M::isValueReserved(v) ? NONE : (v & 7) ? NONE - 1 : v >> S; }
    static std::string sv(uint64_t v) { return v == NONE ? "absent" : v == NONE - 1 ? "a marked word" : std::to_string(v); }
    static void go(Worker &w, uint64_t idx, Rng &r, const std::vector<uint64_t> &keys, uint64_t nops, const std::string &what)
    {
        M *m = new M("unused", cap0, false);
        std::unordered_map<uint64_t, uint64_t> ref;
        std::vector<std::string> log; log.reserve(nops);
        uint64_t h = mixh(cap0, keys.size());
        auto fail = [&](const std::string &s, bool memory = false) {
            if (asan && !memory) { redirEnd(); throw Skip(); }
            std::string d = what + "\n";
            size_t from = log.size() > 400 ? log.size() - 400 : 0;
            if (from) d += fmt("... %zu earlier operations\n", from);
            for (size_t i = from; i < log.size(); i++) d += log[i] + "\n";
            throw Found{s, d};
        };
        // A short list of values, so that the value-matching operations often match.
        std::vector<uint64_t> vals = {0, 1, 2, VMAX, VMAX - 1, 1ull << 60, 3};
        for (int i = 0; i < 4; i++) vals.push_back(r.next() % (VMAX + 1));
        int weights[9]; int phase = 0; uint64_t phaseEnd = 0; int tw = 0;
        uint64_t window = 0;
        for (uint64_t i = 0; i < nops; i++)
        {
            if (i >= phaseEnd)
            {
                phase = r.below(5); phaseEnd = i + r.loguniform(8, nops / 2 + 8);
                static const int P[5][9] = {{10, 6, 0, 0, 0, 2, 1, 2, 1}, {2, 1, 10, 4, 1, 3, 1, 0, 1}, {4, 4, 4, 2, 3, 4, 2, 3, 1}, {1, 0, 1, 0, 0, 10, 5, 1, 1}, {3, 6, 8, 3, 3, 2, 1, 4, 1}};
                tw = 0; for (int k = 0; k < 9; k++) tw += weights[k] = P[phase][k];
                window = r.chance(0.4) ? r.loguniform(1, keys.size()) : keys.size();
            }
            int x = r.below(tw), op = 0;
            while (x >= weights[op]) x -= weights[op++];
            uint64_t ki = r.chance(0.15) ? i % keys.size() : r.below(window);
            uint64_t k = keys[ki], a = vals[r.below(vals.size())], b = vals[r.below(vals.size())];
            auto it = ref.find(k); uint64_t cur = it == ref.end() ? NONE : it->second;
            if ((op == 3 || op == 4) && cur != NONE && r.chance(0.6)) a = cur;
            if (op == 7 && cur != NONE && cur >= VMAX - 4) op = 5;
            if (op != 5 && op != 6 && op != 8) claims++;
            uint64_t got = 0, want = 0;
            KeyT K = k << S;
            switch (op)
            {
            case 0: got = val(m->put(K, a << S)); want = cur; ref[k] = a; break;
            case 1: got = val(m->putIfAbsent(K, a << S)); want = cur; if (cur == NONE) ref[k] = a; break;
            case 2: got = m->remove(K); want = cur != NONE; ref.erase(k); break;
            case 3: got = m->remove(K, a << S); want = cur == a; if (want) ref.erase(k); break;
            case 4: got = m->replace(K, a << S, b << S); want = cur == a; if (want) ref[k] = b; break;
            case 5: got = val(m->get(K)); want = cur; break;
            case 6: got = m->containsKey(K); want = cur != NONE; break;
            case 7: got = val(m->update(K, ((((size_t)1 << 61) - 3) << S), M::Table::increment)); want = cur; ref[k] = cur == NONE ? 1 : cur + 1; break;
            case 8: got = m->size() * 2 + m->isEmpty(); want = ref.size() * 2 + ref.empty(); break;
            }
            if (op < 5 || op == 7) h = mixh(h, op * 1000003 + k);
            log.push_back(op == 8 ? fmt("size() = %llu, isEmpty() = %llu", (unsigned long long)(got / 2), (unsigned long long)(got & 1))
                                  : fmt("%s(%llu%s%s) = %s", OPN[op], (unsigned long long)k, (op <= 1 || op == 3 || op == 4) ? ("," + std::to_string(a)).c_str() : "", op == 4 ? ("," + std::to_string(b)).c_str() : "", sv(got).c_str()));
            if (got != want) fail(op == 8 ? fmt("size/isEmpty differ from an ordinary map's %zu", ref.size()) : fmt("%s should be %s", log.back().c_str(), sv(want).c_str()));
            if (redirStats.overLimit) fail(fmt("a table of %llu bytes after %llu insertions", (unsigned long long)redirStats.overLimit, (unsigned long long)claims));
            if (asan && redirStats.error) fail(fmt(redirStats.error, redirStats.errA, redirStats.errB), true);
        }
        for (uint64_t k : keys)
        {
            auto it = ref.find(k); uint64_t want = it == ref.end() ? NONE : it->second, got = val(m->get(k << S));
            if (got != want) fail(fmt("at the end, get(%llu) is %s and should be %s", (unsigned long long)k, sv(got).c_str(), sv(want).c_str()));
        }
        if (m->size() != ref.size()) fail(fmt("at the end, size() is %zu and should be %zu", m->size(), ref.size()));
        w.add("operations", nops); w.add("keys_read_back", keys.size()); w.add("tables", redirStats.mapped); w.maxi("keys_in_map", ref.size()); w.maxi("table_bytes", redirStats.largest);
        if (redirStats.mapped > 1) w.add("cases_with_growth");
        w.distinct(h);
        if (idx % 4001 < 8) { std::string s = what + ": "; for (size_t i = 0; i < log.size() && i < 12; i++) s += log[i] + "; "; w.sample(s); }
        delete m;
        if (asan && redirStats.error) fail(fmt(redirStats.error, redirStats.errA, redirStats.errB), true);
    }
};

static void run(Worker &w, uint64_t idx)
{
    Rng r(w.seed, idx, 3);
    int hk = r.below(9), kc = r.below(8);
    uint64_t n = r.loguniform(1, 4000), ops = r.loguniform(20, r.chance(0.1) ? 40000 : 4000);
    cap0 = 8ull << r.below(r.chance(0.1) ? 14 : 6); claims = 0;
    if (idx % 1500 == 9) { n = 60000 + r.below(200000); ops = 4 * n; if (hk < 3) hk = 5 + r.below(4); }
    if (hk == 0) n = std::min<uint64_t>(n, 400);
    if (hk == 1 || hk == 2) n = std::min<uint64_t>(n, 1500);
    static const size_t C[] = {0, ~0ull, 7, 0x7fffffff, 0x80000000ull, 0xffffffffull, 0x100000000ull, 1ull << 63, 1023, 12345678901ull};
    gConst = r.chance(0.3) ? r.next() : C[r.below(10)];
    std::vector<uint64_t> keys; std::unordered_set<uint64_t> seen;
    uint64_t base = r.chance(0.3) ? 0 : r.chance(0.3) ? KMAX - n : r.below(KMAX), sh = r.below(58), odd = r.next() | 1;
    for (uint64_t i = 0; keys.size() < n && i < 4 * n + 16; i++)
    {
        uint64_t k;
        switch (kc)
        {
        case 0: k = i; break;
        case 1: k = base + i; break;
        case 2: k = (i << sh) + (base & ((1ull << sh) - 1)); break;
        case 3: k = r.next() >> 3; break;
        case 4: { uint64_t e = r.below(62); k = (1ull << e) + r.below(5) - 2; break; }
        case 5: k = KMAX - (i << (sh / 4)); break;
        case 6: k = (i / 16) * odd + i % 16; break;
        default: k = i * ((cap0 >> r.below(3)) | 1) + r.below(2); break;
        }
        k &= (1ull << 61) - 1;
        if (k > KMAX) continue;
        if (seen.insert(k).second) keys.push_back(k);
    }
    if (keys.empty()) keys.push_back(0);
    for (size_t i = keys.size(); i > 1; i--) if (r.chance(0.5)) std::swap(keys[i - 1], keys[r.below(i)]);
    static const char *HN[] = {"constant", "few", "high bits", "complement", "multiplicative", "std::hash", "xxhash", "naive", "key itself"};
    static const char *KN[] = {"dense", "dense at an offset", "strided", "random", "near powers of two", "from the top", "runs", "near-multiples of the capacity"};
    std::string what = fmt("case: hash %s (constant %llx), %s keys (%zu), capacity %llu, %llu operations", HN[hk], (unsigned long long)gConst, KN[kc], keys.size(), (unsigned long long)cap0, (unsigned long long)ops);
    w.note(what);
    redirStart(w.scratch.c_str()); redirStats.limit = memLimit; redirStats.strict = true; redirStats.guard = asan;
    fileNameCounter.store(0);
    switch (hk)
    {
    case 0: Run<ConstHash>::go(w, idx, r, keys, ops, what); break;
    case 1: Run<FewHash>::go(w, idx, r, keys, ops, what); break;
    case 2: Run<HighHash>::go(w, idx, r, keys, ops, what); break;
    case 3: Run<NegHash>::go(w, idx, r, keys, ops, what); break;
    case 4: Run<MulHash>::go(w, idx, r, keys, ops, what); break;
    case 5: Run<std::hash<KeyT>>::go(w, idx, r, keys, ops, what); break;
    case 6: Run<xxhash<KeyT>>::go(w, idx, r, keys, ops, what); break;
    case 7: Run<NaiveHash<KeyT>>::go(w, idx, r, keys, ops, what); break;
    case 8: Run<DenseHash>::go(w, idx, r, keys, ops, what); break;
    }
    redirEnd();
}
int main(int argc, char **argv)
{
    uint64_t n = strtoull(argv[3], 0, 10);
    asan = !strcmp(argv[1], "seqasan");
    return poolMain(argv[1], strtoull(argv[2], 0, 10), n, argv[4], 60, [](Worker &w, uint64_t i) { try { run(w, i); } catch (Skip &) { w.add("skipped"); } }, nullptr, asan ? memoryViolation : nullptr);
}
