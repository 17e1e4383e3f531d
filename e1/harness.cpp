// E1: PMap under the deterministic scheduler and the persistence model.
#include "engine.h"
#include "history.h"
#include <algorithm>
#include <atomic>
#include <cmath>
#include <csignal>
#include <cstdlib>
#include <ctime>
#include <dirent.h>
#include <fcntl.h>
#include <fstream>
#include <set>
#include <sstream>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/personality.h>
#include <sys/wait.h>
#include <unistd.h>

using namespace std;
enum Mode { M_LIN, M_RMW, M_GROW, M_SIZE, M_CRASH, M_OBSERVE, M_RECOVER, M_PROGRESS, M_BIG, M_N };
static const char *MODE_NAME[] = {"lin", "rmw", "grow", "size", "crash", "observe", "recover", "progress", "big"};

// ------------------------------------------------------------------ shared memory
static const size_t MAXOPS = 32768, IMG = 8 << 20, SEEN = 1 << 25;
enum CaseStatus { CS_NONE, CS_RUNNING, CS_OK, CS_VIOLATION, CS_INCONCLUSIVE, CS_CRASHED, CS_DONE };
struct Counters {
    atomic<uint64_t> cases, nontrivial, overlapping, steps, switches, casfail, resizes, nested, hung, inconclusive, crashes, recoveries, crash_in_recovery, dirty, pending, evicted, eras, ops, keys_checked, solo_ops, max_op_steps, stalls, frozen, flushes, fences, interrupted, distinct, interrupted_seen, tables_recovered, deep_chain, schedules, big, churned, known, known_bad;
};
struct Shared {               // one per worker
    Op hist[MAXOPS]; uint32_t n;
    uint64_t clock;
    int status; uint64_t case_idx; uint64_t beat;
    char msg[4096]; char detail[32768];
    char sample[6000]; int nontrivial; uint64_t aba;
    uint64_t sched_hash; uint32_t tables; uint64_t fnmax;
    size_t img_len; char img[IMG];
};
struct Global { Counters c; atomic<uint64_t> seen[SEEN]; atomic<int> violations; };
static Global *G;
static bool note_distinct(uint64_t h)
{
    if (!h) h = 1;
    for (size_t i = h % SEEN, k = 0; k < 64; i = (i + 1) % SEEN, k++) {
        uint64_t z = 0;
        if (G->seen[i].load() == h) return false;
        if (G->seen[i].compare_exchange_strong(z, h)) return true;
        if (z == h) return false;
    }
    return false;
}
static uint64_t VSEED = 1;
static bool verbose = false;
static string SCRATCH;       // per worker

// ------------------------------------------------------------------ case description
struct POp { uint8_t kind; uint64_t key, a, b; uint32_t pause = 0; };
struct Case {
    int mode; uint64_t seed;
    int hash; size_t cap;
    vector<POp> prefill;
    vector<vector<POp>> threads;           // era 0
    vector<uint64_t> universe;
    bool unique_values, big = false;
    eng::Strategy strat;
    int eras = 1;
};
static uint64_t logu(Rng &r, double lo, double hi) { return (uint64_t)exp(log(lo) + (log(hi) - log(lo)) * ((r.next() >> 11) * (1.0 / 9007199254740992.0))); }

struct Gen {
    Rng r; Case &c;
    vector<uint64_t> focus, fresh; size_t fresh_i = 0;
    uint64_t next_val = 1;
    double w[OP_NKINDS]; double p_fresh, p_incval;
    Gen(Case &cc) : r(mix(cc.seed, 77)), c(cc) {}
    uint64_t value(uint64_t)
    {
        if (c.unique_values) return next_val++;
        return r.below(3);
    }
    int kind()
    {
        double t = 0; for (double x : w) t += x;
        double v = t * ((r.next() >> 11) * (1.0 / 9007199254740992.0));
        for (int i = 0; i < OP_NKINDS; i++) { if (v < w[i]) return i; v -= w[i]; }
        return OP_GET;
    }
    POp make(int k, uint64_t key)
    {
        POp o{(uint8_t)k, key, 0, 0};
        switch (k) {
        case OP_PUT: case OP_PUTIFABSENT: o.a = value(key); break;
        case OP_REMOVEIF: o.a = guess(); break;
        case OP_REPLACE: o.a = guess(); o.b = value(key); break;
        case OP_INC: o.a = r.chance(p_incval) ? 1 + r.below(3) : 0; break;
        }
        return o;
    }
    uint64_t guess() { return c.unique_values ? (next_val > 1 ? next_val - 1 - r.below(min<uint64_t>(next_val - 1, 6)) : 1) : r.below(3); }
    uint64_t key() { if (fresh_i < fresh.size() && r.chance(p_fresh)) return fresh[fresh_i++]; return r.pick(focus); }
    POp any() { return make(kind(), key()); }
};
static void weights(Gen &g, initializer_list<double> x) { int i = 0; for (double v : x) g.w[i++] = v; }

static Case make_case(int mode, uint64_t idx)
{
    Case c; c.mode = mode; c.seed = mix(mix(VSEED, 1000 + mode), idx);
    Rng r(c.seed);
    Gen g(c);
    bool crashy = mode == M_CRASH || mode == M_OBSERVE || mode == M_RECOVER;
    c.hash = r.chance(0.6) ? H_IDENT : r.chance(0.5) ? H_XX : H_CLUSTER;
    c.cap = r.chance(0.6) ? 8 : r.chance(0.7) ? 16 : 32;
    c.unique_values = r.chance(mode == M_RMW ? 0.5 : 0.7);
    // Keys: several shapes, so that probe sequences overlap, wrap, or spread.
    uint64_t stride = vector<uint64_t>{1, 1, 2, 8, 64, 1ull << 20}[r.below(6)], base = r.chance(0.3) ? 0 : r.below(50);
    auto K = [&](uint64_t i) { return base + i * stride; };
    size_t nfocus = 1 + r.below(3);
    if (mode == M_GROW) nfocus = 2 + r.below(4);
    for (size_t i = 0; i < nfocus; i++) g.focus.push_back(K(i));
    // How close to a resize the prefill brings the table.
    size_t brink = c.cap == 8 ? 8 : c.cap == 16 ? 14 : 18;
    bool resize_case = mode == M_OBSERVE ? r.chance(0.4) : mode == M_SIZE ? r.chance(0.85) : r.chance(0.8);
    size_t fill = resize_case ? brink - min<size_t>(brink, r.below(4)) : r.below(brink / 2);
    if (r.chance(0.1)) fill = r.below(brink + 1);
    if (!c.unique_values) g.next_val = 1;
    weights(g, {1, 0, 0, 0, 0, 0, 0, 0}); g.p_incval = 0;
    size_t k = 0;
    vector<uint64_t> filler;
    // Some of the focus keys are present beforehand, the rest of the table is filler.
    for (uint64_t f : g.focus) if (k < fill && r.chance(0.65)) { c.prefill.push_back(g.make(OP_PUT, f)); k++; }
    for (size_t i = 0; k < fill; i++, k++) { filler.push_back(K(10 + i)); c.prefill.push_back(g.make(OP_PUT, K(10 + i))); }
    for (auto &o : vector<POp>(c.prefill)) if (r.chance(0.12)) c.prefill.push_back(g.make(OP_REMOVE, o.key));
    // Churn: many tables have come and gone before the interesting part.
    if (r.chance(crashy ? 0.12 : 0.03)) {
        size_t rounds = logu(r, 20, 400);
        for (size_t i = 0; i < rounds; i++) { c.prefill.push_back(g.make(OP_PUT, K(1000 + i))); c.prefill.push_back(g.make(OP_REMOVE, K(1000 + i))); }
    }
    // Big: the table is large enough for several threads to share its migration. Keys that all share one home slot bring it about.
    c.big = mode == M_BIG || r.chance(crashy ? 0.002 : 0.003);
    if (c.big) {
        c.hash = H_IDENT; c.cap = 2048 << r.below(2); resize_case = true; c.prefill.clear(); g.focus.clear();
        uint64_t n = c.cap / 4 + 10 + r.below(30), home = c.cap / 8;
        size_t d = 4 + r.below(7);
        const uint64_t at = mode == M_BIG ? r.below(c.cap) : 0;   // where the filled part begins
        if (mode == M_BIG) for (size_t i = 0; i < d; i++) c.prefill.push_back(g.make(OP_PUT, at + home * (10 + i)));
        for (uint64_t i = 0; i < n; i++) c.prefill.push_back(g.make(OP_PUT, at + i));
        if (mode != M_BIG) for (size_t i = 0; i < d; i++) c.prefill.push_back(g.make(OP_PUT, home * (10 + i)));
        for (int i = 0; i < (mode == M_BIG ? 8 : 4); i++) g.focus.push_back(at + (r.chance(0.5) ? r.below(n) : home * (10 + r.below(d))));
        base = at; stride = home;
    }
    bool nested = resize_case && r.chance(mode == M_GROW ? 0.6 : 0.3);
    size_t nth = r.chance(0.06) ? 5 + r.below(4) : 2 + r.below(3);
    if (mode == M_OBSERVE) nth = 2 + r.below(2);
    if (mode == M_BIG) nth = 3 + r.below(3);
    size_t per = 1 + r.below(mode == M_BIG ? 30 : nested ? 9 : 5);
    size_t nfresh = resize_case ? (nested ? nth * per : 1 + r.below(4)) : r.below(3);
    for (size_t i = 0; i < nfresh; i++) g.fresh.push_back(K(100 + i));
    g.p_fresh = resize_case ? (nested ? 0.7 : 0.3) : 0.1;
    g.p_incval = 0.3;
    for (uint64_t f : filler) if (r.chance(0.1)) g.focus.push_back(f);

    int profile = (int)r.below(4);
    switch (mode) {
    case M_RMW: if (profile == 0) weights(g, {1, 0.5, 1, 0.3, 0.5, 1, 0, 6}); else if (profile == 1) weights(g, {0, 0, 0, 0, 0, 0, 0, 1}); else if (profile == 2) weights(g, {0, 0, 2, 0, 0, 1, 0, 4}); else weights(g, {1, 0, 0, 0, 0, 1, 0, 4}); break;
    case M_OBSERVE: weights(g, {2, 1.5, 1, 0.5, 0.7, 4, 1.5, 0.5}); break;
    case M_BIG: weights(g, {1, 1, 1, 0.3, 0.5, profile < 2 ? 8.0 : 2.0, 0.5, 1}); g.p_fresh = 0.1; break;
    default:
        if (profile == 0) weights(g, {2, 1, 1.5, 0.7, 1, 2, 0.5, 0.3});
        else if (profile == 1) weights(g, {3, 0, 2, 0, 0, 2, 0, 0});
        else if (profile == 2) weights(g, {1, 2, 1.5, 1, 1.5, 1, 0.5, 0});
        else weights(g, {1, 1, 1, 1, 1, 1, 1, 1});
    }
    c.threads.resize(nth);
    for (size_t t = 0; t < nth; t++) {
        size_t n = per;
        if (mode == M_OBSERVE) n = 1 + r.below(4);
        for (size_t i = 0; i < n; i++) c.threads[t].push_back(g.any());
    }
    if (resize_case && r.chance(0.7)) {   // make sure somebody triggers it
        auto &th = c.threads[r.below(nth)];
        for (auto &o : th) if (g.fresh_i < g.fresh.size() && r.chance(nested ? 0.9 : 0.5)) { o = g.make(mode == M_RMW ? OP_INC : OP_PUT, g.fresh[g.fresh_i++]); }
    }
    {   // Threads that pause between operations, so that these fall anywhere in the course of a migration.
        Rng q(mix(c.seed, 21));
        if (q.chance(mode == M_BIG ? 0.9 : 0.3)) for (auto &t : c.threads) for (auto &o : t) if (q.chance(0.4)) o.pause = logu(q, 1, c.big ? 40000 : 500);
    }
    set<uint64_t> u(g.focus.begin(), g.focus.end());
    for (auto &o : c.prefill) u.insert(o.key);
    for (auto &t : c.threads) for (auto &o : t) u.insert(o.key);
    if (getenv("E1_ABA")) {   // one key, few values: to show the known finding of C13
        c.unique_values = false; c.prefill.clear(); c.cap = 32; c.big = false; c.threads.assign(4, {}); u = {g.focus[0]}; c.prefill.push_back(g.make(OP_PUT, g.focus[0]));
        for (auto &t : c.threads) for (int i = 0; i < 3; i++) { POp o = g.make(r.chance(0.6) ? OP_PUT : OP_GET, g.focus[0]); o.a = r.below(2); t.push_back(o); }
    }
    c.universe.assign(u.begin(), u.end());

    // Schedule.
    eng::Strategy &s = c.strat; s.seed = mix(c.seed, 3);
    double z = (r.next() >> 11) * (1.0 / 9007199254740992.0);
    if (z < 0.45) { s.kind = eng::RANDOM; s.p = vector<double>{1, 0.5, 0.2, 0.05, 0.02}[r.below(5)]; }
    else if (z < 0.75) { s.kind = eng::PCT; s.depth = 1 + r.below(6); s.horizon = logu(r, 100, 4000); }
    else { s.kind = eng::RR; s.p = 1.0 / (1 + r.below(40)); }
    if (r.chance(0.6)) {
        int n = 1 + r.below(3);
        for (int i = 0; i < n; i++) {
            eng::StallRule ru{}; ru.seed = r.next(); ru.mod = vector<uint32_t>{4, 10, 25}[r.below(3)]; ru.occurrence = 1 + (uint32_t)r.below(vector<uint64_t>{2, 8, 40}[r.below(3)]);
            ru.threads = r.chance(0.5) ? ~0u : 1u << r.below(nth);
            ru.duration = r.chance(0.6) ? -1 : (int)logu(r, 20, 3000);
            s.rules.push_back(ru);
        }
    }
    if (crashy) {
        s.evict_p = r.chance(0.5) ? 0 : r.chance(0.5) ? 0.02 : 0.3;
        c.eras = mode == M_RECOVER ? 2 + (int)r.below(3) : mode == M_CRASH ? 1 + (int)r.below(2) : 1;
    }
    if (mode == M_PROGRESS) {
        s.freeze_at = logu(r, 5, 3000);
        s.keep_mask = r.chance(0.7) ? 1u << r.below(nth) : (uint32_t)(1 + r.below((1u << nth) - 1));
        s.frozen_limit = 60000 + (c.big ? 600 * c.cap : 0);
        for (auto &ru : s.rules) if (ru.duration < 0) ru.duration = 3000;
    }
    if (c.big) { s.unfair_limit = 600000; s.total_limit = 4000000; for (auto &ru : s.rules) if (ru.duration > 0) ru.duration *= 10; if (s.freeze_at != ~0ull) s.freeze_at = logu(r, 50, 120000); s.horizon = logu(r, 1000, 150000); if (s.kind == eng::RANDOM) s.p *= 0.3; }
    return c;
}

// ------------------------------------------------------------------ running a case (in a child process)
static Shared *SH;
static const MapApi *A;
static void *MAP;
static int ERA;

static Op &begin_op(const POp &p)
{
    if (SH->n >= MAXOPS) abort();
    Op &o = SH->hist[SH->n++];
    o = Op{p.kind, (uint8_t)ERA, 0, (int8_t)eng::current(), p.key, p.a, p.b, 0, 0, 0};
    o.inv = eng::now();
    return o;
}
static uint64_t exec(const POp &p)
{
    uint32_t at = SH->n;
    begin_op(p);
    uint64_t r = A->op(MAP, p.kind, p.key, p.a, p.b);
    Op &o = SH->hist[at];
    o.res = r; o.ret = eng::now(); o.done = 1;
    SH->clock = o.ret;
    return r;
}
static void put_str(char *dst, size_t n, const string &s) { size_t k = min(n - 1, s.size()); memcpy(dst, s.data(), k); dst[k] = 0; }
static void violate(const string &m, const string &detail = "")
{
    put_str(SH->msg, sizeof SH->msg, m); put_str(SH->detail, sizeof SH->detail, detail); SH->status = CS_VIOLATION;
}
static void clean_dir(const string &d)
{
    if (DIR *x = opendir(d.c_str())) {
        while (dirent *e = readdir(x)) { string n = e->d_name; if (n == "." || n == "..") continue; string p = d + "/" + n; struct stat st; if (lstat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) { clean_dir(p); rmdir(p.c_str()); } else unlink(p.c_str()); }
        closedir(x);
    }
}
static void save_image(Rng &r)
{
    vector<pair<string, string>> files;
    int style = (int)r.below(4); if (style == 3) style = 1;
    eng::pm_crash_image(r, style, files);
    size_t o = 0;
    auto put = [&](const void *p, size_t n) { if (o + n > IMG) abort(); memcpy(SH->img + o, p, n); o += n; };
    uint32_t nf = files.size(); put(&nf, 4);
    for (auto &f : files) { uint32_t a = f.first.size(); uint64_t b = f.second.size(); put(&a, 4); put(&b, 8); put(f.first.data(), a); put(f.second.data(), b); }
    SH->img_len = o;
    if (eng::last_crash.dirty_lines || eng::last_crash.pending_lines) SH->nontrivial = 1;
    G->c.dirty += eng::last_crash.dirty_lines; G->c.pending += eng::last_crash.pending_lines; G->c.evicted += eng::last_crash.evicted + eng::stats.evictions;
    uint64_t t = eng::now();
    for (uint32_t i = 0; i < SH->n; i++) if (!SH->hist[i].done && SH->hist[i].era == ERA) { SH->hist[i].ret = t; G->c.interrupted++; }
    SH->clock = t;
}
static void load_image()
{
    clean_dir(SCRATCH);
    size_t o = 4; uint32_t nf; memcpy(&nf, SH->img, 4);
    uint32_t tables = 0;
    for (uint32_t i = 0; i < nf; i++) {
        uint32_t a; uint64_t b; memcpy(&a, SH->img + o, 4); memcpy(&b, SH->img + o + 4, 8); o += 12;
        string n(SH->img + o, a); o += a; const char *d = SH->img + o; o += b;
        string p = SCRATCH + "/" + n;
        if (n.back() == '/') { mkdir(p.c_str(), 0755); continue; }
        int fd = open(p.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
        if (fd < 0 || write(fd, d, b) != (ssize_t)b) { fprintf(stderr, "harness: cannot write %s\n", p.c_str()); _exit(77); }
        close(fd); tables++;
    }
    G->c.tables_recovered += tables;
}
static void fresh_dirs() { clean_dir(SCRATCH); mkdir((SCRATCH + "/tables").c_str(), 0755); }

static string dump_history(const Case &c, const vector<Op> &h, const string &title)
{
    ostringstream o;
    o << title << "\n";
    o << "case: mode " << MODE_NAME[c.mode] << " hash " << c.hash << " capacity " << c.cap << " threads " << c.threads.size() << " schedule kind " << c.strat.kind << " p " << c.strat.p << " stall rules " << c.strat.rules.size() << "\n";
    for (auto &x : h) o << op_str(x) << "\n";
    return o.str();
}
// Checks SH->hist; returns false on a violation.
static bool check_history(const Case &c)
{
    map<uint64_t, vector<Op>> by;
    for (uint32_t i = 0; i < SH->n; i++) { Op o = SH->hist[i]; if (!o.done && !o.ret) o.ret = ~0ull >> 1; by[o.key].push_back(o); }
    bool overlap = false;
    for (auto &kv : by) {
        auto &h = kv.second;
        stable_sort(h.begin(), h.end(), [](const Op &a, const Op &b) { return a.inv < b.inv; });
        for (size_t i = 0; i + 1 < h.size(); i++) if (h[i + 1].inv < h[i].ret) overlap = true;
        for (auto &o : h) if (o.done && o.res == WEIRD) { violate("an operation returned a marked or otherwise invalid value", dump_history(c, h, "key " + to_string(kv.first))); return false; }
        Lin l = check_key(h, map_apply);
        G->c.keys_checked++;
        if (l == LIN_UNKNOWN) G->c.inconclusive++;
        if (l == LIN_BAD) {
            bool dur = false; for (auto &o : h) if (o.era) dur = true;
            violate(string(dur ? "history is not durably linearizable" : "history is not linearizable") + " for key " + to_string(kv.first), dump_history(c, h, "operations on key " + to_string(kv.first) + ":"));
            return false;
        }
    }
    if (overlap) G->c.overlapping++;
    if (overlap && !SH->sample[0] && SH->n < 200) {
        string t = "case mode " + string(MODE_NAME[c.mode]) + ", hash " + to_string(c.hash) + ", capacity " + to_string(c.cap) + ":";
        for (auto &kv : by) { bool ov = false; auto &h = kv.second; for (size_t i = 0; i + 1 < h.size(); i++) if (h[i + 1].inv < h[i].ret) ov = true; if (ov) for (auto &o : h) t += " " + op_str(o) + ";"; }
        put_str(SH->sample, sizeof SH->sample, t);
    }
    if (overlap) SH->nontrivial = 1;
    return true;
}
static void count_stats()
{
    auto &s = eng::stats;
    G->c.steps += s.steps; G->c.switches += s.switches; G->c.casfail += s.cas_fail; G->c.stalls += s.stalls; G->c.flushes += s.flushes; G->c.fences += s.fences;
    G->c.eras++;
}
// Runs body as the only fiber. Returns DONE, CRASHED or HANG.
static eng::Result run_single(function<void()> body, uint64_t crash_at, const Case &c, uint64_t salt)
{
    eng::Strategy s; s.kind = eng::RANDOM; s.p = 0; s.seed = mix(c.seed, salt); s.crash_at = crash_at; s.evict_p = c.strat.evict_p; s.unfair_limit = s.total_limit = 1500000 + (c.big ? 4000000 : 0);
    auto r = eng::run({body}, s);
    count_stats();
    return r;
}
// Sequential reads and further use of the map, recorded like any other operation.
static void epilogue(const Case &c, Rng &r, bool deep)
{
    for (uint64_t k : c.universe) exec({OP_GET, k, 0, 0});
    if (!deep) return;
    uint64_t v = 1000000;
    for (uint64_t k : c.universe) if (r.chance(0.3)) exec({OP_CONTAINS, k, 0, 0});
    for (uint64_t k : c.universe) if (r.chance(0.4)) exec({OP_REMOVE, k, 0, 0});
    if (r.chance(0.5)) { size_t n = r.below(24); for (size_t i = 0; i < n; i++) exec({OP_PUT, 500 + i, v++, 0}); }
    for (uint64_t k : c.universe) { if (r.chance(0.3)) exec({OP_PUTIFABSENT, k, v++, 0}); exec({OP_GET, k, 0, 0}); }
}
static size_t present()
{
    // By replaying sequential reads: the last get of each key, in this era.
    map<uint64_t, bool> last;
    for (uint32_t i = 0; i < SH->n; i++) { const Op &o = SH->hist[i]; if (o.era == ERA && o.done && o.kind == OP_GET && o.thread <= 0) last[o.key] = o.res != ABSENT; }
    size_t n = 0; for (auto &x : last) n += x.second;
    return n;
}
static bool check_size(const Case &c, const char *when)
{
    // All keys ever used.
    set<uint64_t> keys; for (uint32_t i = 0; i < SH->n; i++) keys.insert(SH->hist[i].key);
    size_t n = 0; string who;
    for (uint64_t k : keys) if (A->op(MAP, OP_GET, k, 0, 0) != ABSENT) { n++; who += " " + to_string(k); }
    uint64_t sz = A->size(MAP); bool e = A->empty(MAP);
    if (sz != n || e != (n == 0)) {
        vector<Op> h(SH->hist, SH->hist + SH->n);
        violate(string("size() is ") + to_string((long long)sz) + (e ? " (isEmpty)" : "") + " but " + to_string(n) + " keys are present, " + when, dump_history(c, h, "keys present:" + who));
        return false;
    }
    return true;
}

static bool run_concurrent(const Case &c, const vector<vector<POp>> &th, eng::Strategy s, eng::Result &res)
{
    vector<function<void()>> bodies;
    vector<uint64_t> worst(th.size(), 0);
    for (size_t t = 0; t < th.size(); t++)
        bodies.push_back([&, t] {
            for (auto &p : th[t]) {
                if (p.pause) eng::sleep(p.pause);
                bool was = eng::stats.frozen; uint64_t b = eng::fiber_steps(t);
                exec(p);
                if (was) { G->c.solo_ops++; uint64_t d = eng::fiber_steps(t) - b; if (d > worst[t]) worst[t] = d; }
            }
        });
    res = eng::run(bodies, s);
    count_stats();
    if (eng::stats.frozen) G->c.frozen++;
    if (note_distinct(mix(eng::stats.sched_hash, 99))) G->c.schedules++;
    if (c.big) G->c.big++;
    if (c.mode == M_SIZE && eng::stats.switches) SH->nontrivial = 1;
    if (c.mode == M_PROGRESS) SH->nontrivial = eng::stats.frozen && eng::stats.unfinished;
    uint64_t w = 0; for (uint64_t x : worst) w = max(w, x);
    uint64_t old = G->c.max_op_steps; while (w > old && !G->c.max_op_steps.compare_exchange_weak(old, w)) {}
    return res == eng::DONE;
}
static void tables_stat(size_t base)
{
    size_t t = eng::mapped_tables();
    if (t > base) G->c.resizes += t - base;
    if (t > base + 1) G->c.nested++;
    if (t > base + 3) G->c.deep_chain++;
}

// One case without crashes. The map lives in this process.
static void run_plain(const Case &c)
{
    Rng r(mix(c.seed, 5));
    fresh_dirs();
    eng::reset_maps();
    eng::pm_enable(true);
    SH->n = 0; eng::set_clock(0); ERA = 0;
    A = map_api(c.hash);
    MAP = A->create("/mnt/pmem/pm1/tables", c.cap, false);
    for (auto &p : c.prefill) exec(p);
    size_t base = eng::mapped_tables();
    eng::Result res;
    run_concurrent(c, c.threads, c.strat, res);
    tables_stat(base);
    SH->sched_hash = mix(eng::stats.sched_hash, c.seed);
    bool frozen = eng::stats.frozen && eng::stats.unfinished > 0;
    if (res == eng::HANG) {
        G->c.hung++;
        vector<Op> h(SH->hist, SH->hist + SH->n);
        if (c.mode == M_PROGRESS && eng::stats.frozen) violate("with the other threads stopped, an operation did not finish within " + to_string(c.strat.frozen_limit) + " steps", dump_history(c, h, "history so far:"));
        else violate("operations did not finish under a fair schedule (" + to_string(c.strat.total_limit) + " steps)", dump_history(c, h, "history so far:"));
        return;
    }
    if (c.mode == M_PROGRESS && frozen) {
        // A newcomer must be able to work as well, whatever the stopped threads left behind.
        auto rs = run_single([&] { epilogue(c, r, true); }, ~0ull, c, 9);
        if (rs == eng::HANG) { vector<Op> h(SH->hist, SH->hist + SH->n); violate("a newly started thread is blocked by stopped threads", dump_history(c, h, "history so far:")); return; }
        if (!check_history(c)) return;
        SH->status = CS_OK;
        return;
    }
    bool deep = r.chance(c.mode == M_GROW ? 0.8 : 0.35);
    if (c.mode == M_SIZE && r.chance(0.5)) { if (!check_size(c, "after all operations returned")) return; }
    auto rs = run_single([&] { epilogue(c, r, deep); }, ~0ull, c, 9);
    if (rs == eng::HANG) { violate("an operation did not finish although no other thread was running"); return; }
    if (c.mode == M_SIZE) { if (!check_size(c, "after all operations returned")) return; }
    else if (!check_history(c)) return;
    if (!eng::map_complaint().empty()) { violate(eng::map_complaint()); return; }
    if (SH->nontrivial && !SH->sample[0]) put_str(SH->sample, 3000, [&] { string t = dump_history(c, vector<Op>(SH->hist, SH->hist + SH->n), "a whole case;"); for (char &x : t) if (x == '\n') x = ';'; return t; }());
    SH->status = CS_OK;
}

// ------------------------------------------------------------------ crash cases: one process per era
static vector<vector<POp>> era_threads(const Case &c, int era)
{
    if (era == 0) return c.threads;
    Rng r(mix(c.seed, 500 + era));
    vector<vector<POp>> t(1 + r.below(2));
    static const int kinds[] = {OP_PUT, OP_PUT, OP_GET, OP_GET, OP_REMOVE, OP_PUTIFABSENT, OP_REPLACE, OP_REMOVEIF, OP_CONTAINS, OP_INC};
    bool many = r.chance(0.4);
    uint64_t v = 10000 * (era + 1);
    for (auto &th : t) {
        size_t n = many ? 4 + r.below(12) : 1 + r.below(5);
        for (size_t i = 0; i < n; i++) {
            POp o{(uint8_t)kinds[r.below(10)], 0, 0, 0};
            if (many && r.chance(0.6)) { o.kind = OP_PUT; o.key = 300 + era * 40 + r.below(30); }
            else o.key = c.universe[r.below(c.universe.size())];
            o.a = o.kind == OP_INC ? 0 : c.unique_values ? v++ : r.below(3); o.b = v++;
            t[&th - &t[0]].push_back(o);
        }
    }
    return t;
}
static void run_era(const Case &c, int era)
{
    Rng r(mix(c.seed, 9000 + era));
    ERA = era;
    bool last = era == c.eras;
    A = map_api(c.hash);
    eng::reset_maps();
    eng::aba_sink = &SH->aba;
    SH->status = CS_NONE;
    if (era == 0) { fresh_dirs(); SH->n = 0; SH->clock = 0; SH->sched_hash = c.seed; }
    else load_image();
    eng::set_clock(SH->clock + 10);
    eng::pm_enable(true);
    bool crash_here = !last;
    // Crash while the map is being made or recovered?
    bool early = crash_here && r.chance(era == 0 ? 0.08 : c.mode == M_RECOVER ? 0.35 : 0.1);
    uint64_t early_at = early ? logu(r, 1, era == 0 ? 120 : 1500) : ~0ull;
    bool made = false;
    size_t cap = era == 0 || r.chance(0.5) ? c.cap : 8;
    auto res = run_single([&] { MAP = A->create("/mnt/pmem/pm1/tables", cap, era != 0); made = true; }, early_at, c, 100 + era);
    if (res == eng::HANG) { violate(era ? "recovery did not finish" : "creating a map did not finish"); return; }
    if (res == eng::CRASHED) { G->c.crashes++; if (era) G->c.crash_in_recovery++; save_image(r); SH->status = CS_CRASHED; return; }
    if (era) G->c.recoveries++;
    size_t base = eng::mapped_tables();
    if (era == 0) {
        uint64_t at = crash_here && r.chance(0.05) ? logu(r, 1, 800) : ~0ull;
        auto p = run_single([&] { for (auto &o : c.prefill) exec(o); }, at, c, 200);
        if (p == eng::CRASHED) { G->c.crashes++; save_image(r); SH->status = CS_CRASHED; return; }
        base = eng::mapped_tables();
    }
    if (c.mode == M_RECOVER && era) {
        if (!check_size(c, "right after recovery")) return;
    }
    if (last) {
        bool deep = r.chance(c.mode == M_RECOVER ? 0.9 : 0.3);
        auto rs = run_single([&] { epilogue(c, r, deep); }, ~0ull, c, 300);
        if (rs == eng::HANG) { violate("an operation on the recovered map did not finish"); return; }
        if (c.mode == M_RECOVER && !check_size(c, "after using the recovered map")) return;
        SH->status = CS_DONE;
        return;
    }
    auto th = era_threads(c, era);
    eng::Strategy s = c.strat;
    s.seed = mix(c.strat.seed, era);
    s.crash_at = r.chance(0.05) ? ~0ull : logu(r, 3, c.mode == M_OBSERVE ? 600 : 2500);
    eng::Result rr;
    run_concurrent(c, th, s, rr);
    SH->sched_hash = mix(SH->sched_hash, eng::stats.sched_hash ^ s.crash_at);
    tables_stat(base);
    if (rr == eng::HANG) { G->c.hung++; vector<Op> h(SH->hist, SH->hist + SH->n); violate("operations did not finish under a fair schedule", dump_history(c, h, "history so far:")); return; }
    if (!eng::map_complaint().empty()) { violate(eng::map_complaint()); return; }
    G->c.crashes++;
    save_image(r);
    SH->status = CS_CRASHED;
}

// ------------------------------------------------------------------ supervising worker
static string errfile;
static string read_file(const string &p, size_t maxn = 4000) { ifstream f(p); stringstream s; s << f.rdbuf(); string t = s.str(); return t.size() > maxn ? t.substr(0, maxn) : t; }
static void child_setup()
{
    int fd = open(errfile.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
    dup2(fd, 2); close(fd);
    eng::set_root(SCRATCH);
    signal(SIGABRT, SIG_DFL);
}
// Waits for a child that reports progress in SH->beat. Returns status, or -1 if it made no progress.
static int supervise(pid_t pid)
{
    uint64_t last = SH->beat; time_t since = time(nullptr); int st; int us = 20;
    while (true) {
        pid_t r = waitpid(pid, &st, WNOHANG);
        if (r == pid) return st;
        usleep(us); if (us < 2000) us += us / 2;
        if (SH->beat != last) { last = SH->beat; since = time(nullptr); }
        else if (time(nullptr) - since > 60) { kill(pid, SIGKILL); waitpid(pid, &st, 0); return -1; }
    }
}
static string sig_msg(int st)
{
    string e = read_file(errfile);
    if (WIFSIGNALED(st)) return string("the process died with signal ") + to_string(WTERMSIG(st)) + " (" + strsignal(WTERMSIG(st)) + ")" + (e.empty() ? "" : ": " + e);
    return "the process exited with status " + to_string(WEXITSTATUS(st)) + (e.empty() ? "" : ": " + e);
}
// Did the execution show the known finding of C13 (a flag cleared on a rewritten word)? Then it is judged no further.
static bool known_case() { if (!SH->aba || getenv("E1_KEEP_KNOWN")) return false; G->c.known_bad++; return true; }
struct Found { bool yes = false; int mode; uint64_t idx; string msg, detail; };

// Runs cases [lo, hi) of a mode by stride; stops at the first violation.
static Found run_range(int mode, const vector<uint64_t> &idxs)
{
    bool crashy = mode == M_CRASH || mode == M_OBSERVE || mode == M_RECOVER;
    Found f; f.mode = mode;
    size_t i = 0; int stuck = 0;
    while (i < idxs.size()) {
        if (!crashy) {
            size_t batch = min<size_t>(64, idxs.size() - i);
            SH->status = CS_NONE; SH->case_idx = i;
            pid_t pid = fork();
            if (pid == 0) {
                child_setup();
                for (size_t j = 0; j < batch; j++) {
                    SH->case_idx = i + j; SH->beat++; SH->status = CS_RUNNING; SH->nontrivial = 0;
                    Case c = make_case(mode, idxs[i + j]);
                    run_plain(c);
                    G->c.cases++; G->c.ops += SH->n;
                                        if (SH->status == CS_VIOLATION) _exit(0);
                    if (SH->nontrivial && note_distinct(SH->sched_hash)) G->c.nontrivial++;
                }
                _exit(0);
            }
            int st = supervise(pid);
            size_t at = SH->case_idx;
            if (st == 0 && SH->status == CS_OK) { i += batch; continue; }
            if (st == -1) {
                if (++stuck < 2) { i = at; continue; }        // once more, before believing it
                f = {true, mode, idxs[at], "an operation makes no progress (it loops without touching shared memory)", ""}; return f;
            }
            if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) { if (++stuck < 3) { i = at; continue; } fprintf(stderr, "killed\n"); _exit(3); }
            f.yes = true; f.idx = idxs[at];
            if (st == 0 && SH->status == CS_VIOLATION) { f.msg = SH->msg; f.detail = SH->detail; }
            else {
                f.msg = sig_msg(st);
                Case c = make_case(mode, idxs[at]);
                f.detail = dump_history(c, vector<Op>(SH->hist, SH->hist + SH->n), "history so far:");
                if (WIFEXITED(st) && WEXITSTATUS(st) == 77) { fprintf(stderr, "%s\n", f.msg.c_str()); _exit(3); }
            }
            return f;
        }
        Case c = make_case(mode, idxs[i]);
        SH->nontrivial = 0; SH->aba = 0;
        bool skip = false;
        for (int era = 0; era <= c.eras; era++) {
            SH->beat++;
            SH->status = CS_RUNNING;
            pid_t pid = fork();
            if (pid == 0) { child_setup(); run_era(c, era); _exit(0); }
            int st = supervise(pid);
            if (st == -1) {
                if (++stuck < 2) { era = c.eras + 1; goto again; }
                f = {true, mode, idxs[i], era ? "recovery or an operation after it makes no progress" : "an operation makes no progress", ""}; return f;
            }
            if (st != 0) {
                if ((WIFEXITED(st) && WEXITSTATUS(st) == 77) || (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL)) { fprintf(stderr, "%s\n", sig_msg(st).c_str()); _exit(3); }
                f = {true, mode, idxs[i], (era ? "after a crash and recovery, " : "") + sig_msg(st), dump_history(c, vector<Op>(SH->hist, SH->hist + SH->n), "history so far:")}; return f;
            }
            if (SH->status == CS_VIOLATION) {
                if (known_case()) { skip = true; break; }
                f = {true, mode, idxs[i], SH->msg, SH->detail}; return f;
            }
        }
        if (SH->aba) G->c.known++;
        if (skip) { i++; continue; }
        ERA = c.eras;
        G->c.cases++; G->c.ops += SH->n;
        if (!check_history(c)) { if (known_case()) { i++; continue; } f = {true, mode, idxs[i], SH->msg, SH->detail}; return f; }
        for (uint32_t j = 0; j < SH->n; j++) if (!SH->hist[j].done) SH->nontrivial = 1;
        if (SH->nontrivial && note_distinct(SH->sched_hash)) G->c.nontrivial++;
        i++;
    again:;
    }
    return f;
}

int main(int argc, char **argv)
{
    // e1 <mode> <seed> <cases> <scratch> <out.json> [first] -- replay: e1 replay <mode> <seed> <idx> <scratch>
    if (argc < 5) { fprintf(stderr, "usage\n"); return 2; }
    // Fixed addresses, so that a run repeats exactly.
    if (!getenv("E1_NO_ASLR_TRIED")) { setenv("E1_NO_ASLR_TRIED", "1", 1); if (personality(0xffffffff) != -1 && personality(ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv); }
    bool replay = string(argv[1]) == "replay";
    int a = replay ? 2 : 1;
    int mode = -1; for (int i = 0; i < M_N; i++) if (string(argv[a]) == MODE_NAME[i]) mode = i;
    if (mode < 0) { fprintf(stderr, "unknown mode\n"); return 2; }
    VSEED = strtoull(argv[a + 1], nullptr, 10);
    uint64_t ncases = strtoull(argv[a + 2], nullptr, 10);
    string scratch = argv[a + 3];
    G = (Global *)mmap(nullptr, sizeof(Global), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    int W = replay ? 1 : 8;
    if (getenv("E1_WORKERS")) W = atoi(getenv("E1_WORKERS"));
    vector<Shared *> sh;
    for (int w = 0; w < W; w++) sh.push_back((Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    mkdir(scratch.c_str(), 0755);
    struct timespec t0; clock_gettime(CLOCK_MONOTONIC, &t0);
    double budget = getenv("E1_BUDGET") ? atof(getenv("E1_BUDGET")) : 600;
    auto work = [&](int w) -> Found {
        SH = sh[w]; SCRATCH = scratch + "/w" + to_string(w); mkdir(SCRATCH.c_str(), 0755); errfile = scratch + "/err" + to_string(w);
        Found f;
        if (replay) return run_range(mode, {ncases});
        for (uint64_t lo = w; lo < ncases; lo += 512 * W) {
            vector<uint64_t> idx; for (uint64_t i = lo; i < ncases && idx.size() < 512; i += W) idx.push_back(i);
            f = run_range(mode, idx);
            if (f.yes) return f;
            if (G->violations.load()) return f;
            struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t);
            if (t.tv_sec - t0.tv_sec > budget) return f;
        }
        return f;
    };
    struct Res { char msg[4096], detail[32768]; uint64_t idx; int yes; };
    Res *res = (Res *)mmap(nullptr, sizeof(Res) * W, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    vector<pid_t> pids;
    for (int w = 0; w < W; w++) {
        pid_t p = fork();
        if (p == 0) {
            Found f = work(w);
            res[w].yes = f.yes; res[w].idx = f.idx; put_str(res[w].msg, sizeof res[w].msg, f.msg); put_str(res[w].detail, sizeof res[w].detail, f.detail);
            if (f.yes) G->violations++;
            _exit(0);
        }
        pids.push_back(p);
    }
    bool harness_error = false;
    for (pid_t p : pids) { int st; waitpid(p, &st, 0); if (st != 0) harness_error = true; }
    for (int w = 0; w < W; w++) { SCRATCH = scratch + "/w" + to_string(w); clean_dir(SCRATCH); rmdir(SCRATCH.c_str()); unlink((scratch + "/err" + to_string(w)).c_str()); }
    rmdir(scratch.c_str());
    auto &c = G->c;
    printf("{\"mode\":\"%s\",\"seed\":%llu,\"cases\":%llu,\"distinct\":%llu,\"overlapping\":%llu,\"ops\":%llu,\"keys_checked\":%llu,\"steps\":%llu,\"switches\":%llu,\"cas_failures\":%llu,\"stalls\":%llu,\"tables_added\":%llu,\"cases_with_nested_migration\":%llu,\"cases_with_4_more_tables\":%llu,\"hung\":%llu,\"inconclusive_keys\":%llu,\"crashes\":%llu,\"recoveries\":%llu,\"crashes_during_recovery\":%llu,\"files_recovered\":%llu,\"interrupted_ops\":%llu,\"dirty_lines_at_crash\":%llu,\"unfenced_lines_at_crash\":%llu,\"lines_evicted\":%llu,\"flushes\":%llu,\"fences\":%llu,\"frozen_runs\":%llu,\"ops_run_while_others_stopped\":%llu,\"max_steps_of_such_an_op\":%llu,\"distinct_schedules\":%llu,\"cases_with_large_tables\":%llu,\"executions_with_known_finding_C13\":%llu,\"of_these_not_judged\":%llu}\n",
           MODE_NAME[mode], (unsigned long long)VSEED, (unsigned long long)c.cases, (unsigned long long)c.nontrivial, (unsigned long long)c.overlapping, (unsigned long long)c.ops, (unsigned long long)c.keys_checked, (unsigned long long)c.steps, (unsigned long long)c.switches, (unsigned long long)c.casfail, (unsigned long long)c.stalls, (unsigned long long)c.resizes, (unsigned long long)c.nested, (unsigned long long)c.deep_chain, (unsigned long long)c.hung, (unsigned long long)c.inconclusive, (unsigned long long)c.crashes, (unsigned long long)c.recoveries, (unsigned long long)c.crash_in_recovery, (unsigned long long)c.tables_recovered, (unsigned long long)c.interrupted, (unsigned long long)c.dirty, (unsigned long long)c.pending, (unsigned long long)c.evicted, (unsigned long long)c.flushes, (unsigned long long)c.fences, (unsigned long long)c.frozen, (unsigned long long)c.solo_ops, (unsigned long long)c.max_op_steps, (unsigned long long)c.schedules, (unsigned long long)c.big, (unsigned long long)c.known, (unsigned long long)c.known_bad);
    for (int w = 0; w < W; w++) if (sh[w]->sample[0]) { printf("SAMPLE %s\n", sh[w]->sample); break; }
    if (harness_error) { fprintf(stderr, "a worker failed\n"); return 3; }
    int best = -1;
    for (int w = 0; w < W; w++) if (res[w].yes && (best < 0 || res[w].idx < res[best].idx)) best = w;
    if (best >= 0) {
        printf("FOUND mode=%s seed=%llu idx=%llu: %s\n%s\n", MODE_NAME[mode], (unsigned long long)VSEED, (unsigned long long)res[best].idx, res[best].msg, res[best].detail);
        return 1;
    }
    return 0;
}
