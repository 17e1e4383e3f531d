// The persistence primitives: flushes and fences issued for random ranges; pcas, pcas_read and persist under the scheduler.
#define Rng RtRng
#define mix rt_mix
#include "../rt/common.h"
#undef Rng
#undef mix
#include "engine.h"
#include "history.h"
#include "prim.h"
using namespace std;

// ------------------------------------------------------------------ ranges
static uintptr_t LO, HI, FIRST, LAST; static size_t PAGES_OUT; static uintptr_t OUT;
static vector<uint8_t> fl; static bool big; static uint64_t flushes, fences, since_fence; static bool gap;
static uintptr_t expect_next;
static void flush_seen(uintptr_t a)
{
    flushes++; since_fence++;
    uintptr_t l = a & ~63ull;
    if (l < LO || l >= HI) { if ((l >> 12) < (LO >> 12) || (l >> 12) > ((HI - 1) >> 12)) { PAGES_OUT++; OUT = a; } return; }
    fl[(l - LO) / 64] = 1;
}
static void fence_seen() { fences++; since_fence = 0; }
static char *arena; static const size_t ARENA = 10ull << 30;
static void range_case(Worker &w, uint64_t idx)
{
    RtRng r(w.seed, idx, 13);
    for (int k = 0; k < 400; k++)
    {
        size_t len = r.chance(0.02) ? 0 : r.chance(0.6) ? r.range(1, 300) : r.chance(0.9) ? r.loguniform(1, 20000) : r.loguniform(1, 4 << 20);
        if (k == 0 && idx % 400 == 7) len = (5ull << 30) + r.below(1000);            // beyond 32 bits
        if (k == 1 && idx % 40 == 7) len = (1ull << 31) - 40 + r.below(80);
        size_t off = 1 << 20 | r.below(8192);
        if (r.chance(0.3)) off = (off & ~63ull) + (r.chance(0.5) ? 0 : r.chance(0.5) ? 63 : 64 - len % 64);
        if (r.chance(0.2)) off = (off | 4095) + 1 - len % 4096;                       // ends where a page ends
        const char *a = arena + off;
        LO = (uintptr_t)a & ~63ull; HI = len ? ((uintptr_t)a + len + 63) & ~63ull : LO + 64;
        fl.assign((HI - LO) / 64, 0); flushes = fences = since_fence = 0; PAGES_OUT = 0;
        bool only = r.chance(0.3);
        w.note(fmt("%s(%p, %zu)", only ? "PERSIST_FLUSH_ONLY" : "PERSIST", a, len));
        eng::on_flush = flush_seen; eng::on_fence = fence_seen;
        if (only) prim_flush_only(a, len); else prim_persist(a, len);
        string what = fmt("%s(%p, %zu)", only ? "PERSIST_FLUSH_ONLY" : "PERSIST", a, len);
        auto bad = [&](const string &m) { eng::on_flush = nullptr; eng::on_fence = nullptr; throw Found{what + ": " + m, fmt("flushes seen: %llu, fences: %llu", (unsigned long long)flushes, (unsigned long long)fences)}; };
        if (len) for (size_t i = 0; i < fl.size(); i++) if (!fl[i]) bad(fmt("the line of byte %lld of the range is never flushed", (long long)(LO + i * 64) - (long long)(uintptr_t)a));
        if (PAGES_OUT) bad(fmt("flushes %p, on a page that the range does not touch", (void *)OUT));
        if (!only && since_fence) bad("no fence follows the last flush");
        if (only) { prim_barrier(); if (since_fence) bad("PERSIST_BARRIER_ONLY after it does not fence"); }
        if (!only && len == 0 && !fences) bad("no fence");
        w.add("ranges"); w.add("lines_flushed", flushes); w.add("fences", fences); w.maxi("range_length", len);
        w.distinct(mixh(mixh(len, (uintptr_t)a & 4095), only));
    }
    // The same against the persistence model: what the primitive promises is in the image.
    eng::on_flush = nullptr; eng::on_fence = nullptr;
    static char *reg = (char *)aligned_alloc(4096, 16384);
    for (int k = 0; k < 4; k++)
    {
        for (int i = 0; i < 16384; i++) reg[i] = 0;
        eng::reset_maps(); eng::pm_enable(true); eng::track_region(reg, 16384, "r");
        for (int i = 0; i < 16384; i++) reg[i] = 1 + r.below(255);
        size_t len = r.loguniform(1, 8000), off = r.below(16384 - len + 1);
        int how = r.below(2);
        if (how == 0) prim_persist(reg + off, len); else { prim_flush_only(reg + off, len); prim_barrier(); }
        if (!eng::is_durable(reg + off, len)) throw Found{fmt("%s of %zu bytes at offset %zu of a line: part of the range is not persistent afterwards", how ? "PERSIST_FLUSH_ONLY and PERSIST_BARRIER_ONLY" : "PERSIST", len, off % 64), ""};
        w.add("ranges_read_back");
    }
    eng::pm_enable(false); eng::reset_maps();
}

// ------------------------------------------------------------------ words
enum { W_READ, W_CAS, W_HAND };
static bool word_apply(const Op &o, uint64_t s, uint64_t &n)
{
    n = s;
    switch (o.kind)
    {
    case W_READ: return !o.done || o.res == s;
    case W_HAND: if (o.done && !o.res) return true;         // may fail for the flag's sake
        if (s != o.a) return false; n = o.b; return true;
    case W_CAS:
        if (s == o.a) { n = o.b; return !o.done || o.res == ~0ull; }
        return !o.done || o.res == s;
    }
    return false;
}
static const char *WN[] = {"pcas_read", "pcas", "CAS by hand and persist"};
static string wop(const Op &o)
{
    string s = fmt("[%5llu,%5llu] thread %d word %llu %s", (unsigned long long)o.inv, (unsigned long long)o.ret, o.thread, (unsigned long long)o.key, WN[o.kind]);
    if (o.kind != W_READ) s += fmt("(%llu -> %llu)", (unsigned long long)o.a, (unsigned long long)o.b);
    return s + (!o.done ? " (interrupted)" : o.kind == W_READ ? fmt(" = %llu", (unsigned long long)o.res) : o.kind == W_HAND ? (o.res ? " = true" : " = false") : o.res == ~0ull ? " = true" : fmt(" = false, found %llu", (unsigned long long)o.res));
}
static uint64_t *words[4]; static int NW;
struct Wr { int word; uint64_t val; };
static vector<Wr> wlog;
static void write_seen(uintptr_t a) { for (int i = 0; i < NW; i++) if ((uintptr_t)words[i] == a) wlog.push_back({i, *words[i]}); }
static void word_case(Worker &w, uint64_t idx)
{
    Rng r(mix(w.seed * 7919 + 13, idx));
    static uint64_t *mem = (uint64_t *)aligned_alloc(64, 256);
    const PrimApi *api = prim_api(r.below(3));
    const uint64_t F = prim_flag();
    NW = r.chance(0.6) ? 1 : r.chance(0.5) ? 2 : 3;
    bool same_line = r.chance(0.5), unique = r.chance(0.65);
    for (int i = 0; i < NW; i++) words[i] = mem + (same_line ? i : i * 8) + (same_line ? 0 : r.below(8));
    vector<Op> h; wlog.clear();
    for (int i = 0; i < 32; i++) mem[i] = 0;
    auto enc = [](uint64_t v) { return v << 2; }; auto dec = [](uint64_t x) { return x >> 2; };
    uint64_t next = 1;
    auto fresh = [&] { return unique ? next++ : r.below(3); };
    // The words begin clean and persistent, flagged and persistent, or flagged by a write that is not persistent yet.
    vector<int> start(NW);
    for (int i = 0; i < NW; i++) { start[i] = r.below(3); if (start[i] == 1) *words[i] = F; }
    eng::reset_maps(); eng::pm_enable(true); eng::track_region(mem, 256, "w"); eng::set_clock(0);
    for (int i = 0; i < NW; i++)
    {
        wlog.push_back({i, *words[i]});
        if (start[i] == 2) { uint64_t v = fresh(); *words[i] = enc(v) | F; wlog.push_back({i, *words[i]}); Op o{}; o.kind = W_HAND; o.thread = -1; o.key = i; o.a = 0; o.b = v; o.inv = 0; h.push_back(o); }
    }
    size_t NT = 2 + r.below(3);
    struct PO { int kind; int word; uint64_t a, b; bool last; };
    vector<vector<PO>> prog(NT);
    for (auto &p : prog) for (size_t n = 1 + r.below(NT > 2 ? 4 : 6); n; n--)
    {
        PO o; o.kind = r.chance(0.35) ? W_READ : r.chance(0.8) ? W_CAS : W_HAND; o.word = r.below(NW);
        o.last = r.chance(0.75);                                // expect what this thread saw last
        o.a = unique ? r.below(next + 1) : r.below(3); o.b = fresh(); p.push_back(o);
    }
    string err, prog_s; uint64_t overl = 0; int running = 0;
    auto pos = [&](int word, uint64_t val) { for (size_t i = wlog.size(); i--;) if (wlog[i].word == word && dec(wlog[i].val) == val) return (long)i; return -1l; };
    auto reported = [&](const Op &o, uint64_t val)
    {
        // What is reported, or something later, must be persistent by now.
        if (!unique || !err.empty()) return;
        uint64_t img = dec(eng::durable_word(words[o.key]));
        long pi = pos(o.key, img), pv = pos(o.key, val);
        w.add("reports_checked"); if (pi > pv) w.add("reports_overtaken");
        if (pv >= 0 && pi >= 0 && pi < pv) err = "an operation returned before the word it reports was persistent: " + wop(o) + fmt(", persistent is %llu", (unsigned long long)img);
    };
    h.reserve(64);
    vector<function<void()>> bodies;
    for (size_t t = 0; t < NT; t++) bodies.push_back([&, t] {
        vector<uint64_t> last(NW, 0);
        for (auto &po : prog[t])
        {
            Op o{}; o.kind = po.kind; o.thread = t; o.key = po.word; o.b = po.b; o.a = po.last ? last[po.word] : po.a;
            if (running) overl++; running++;
            o.inv = eng::now(); size_t at = h.size(); h.push_back(o);
            void *wd = words[po.word]; uint64_t raw = 0;
            switch (po.kind)
            {
            case W_READ: raw = api->read(wd); o.res = dec(raw); last[po.word] = o.res; break;
            case W_CAS: { uint64_t old = enc(o.a); bool ok = api->cas(wd, &old, enc(o.b)); raw = old; o.res = ok ? ~0ull : dec(old); last[po.word] = ok ? o.b : dec(old); if (ok) w.add("pcas_succeeded"); else w.add("pcas_failed"); break; }
            case W_HAND: o.res = api->hand(wd, enc(o.a), enc(o.b)); if (o.res) last[po.word] = o.b; break;
            }
            o.ret = eng::now(); o.done = 1; running--;
            if ((raw & 3) && err.empty()) err = "a dirty flag is exposed: " + wop(o) + fmt(", raw word %llx", (unsigned long long)raw);
            h[at] = o;
            if (o.kind == W_READ) reported(o, o.res);
            else if (o.kind == W_CAS) reported(o, o.res == ~0ull ? o.b : o.res);
            else if (o.res) reported(o, o.b);
        }
    });
    eng::Strategy st; st.seed = mix(r.next(), 5);
    double k = r.below(10); st.kind = k < 5 ? eng::RANDOM : k < 9 ? eng::PCT : eng::RR;
    st.p = r.chance(0.3) ? 0.6 : r.chance(0.5) ? 0.3 : 0.1; st.depth = 1 + r.below(5); st.horizon = 30 + r.below(150);
    bool crash = r.chance(0.5);
    if (crash) st.crash_at = 1 + r.below(r.chance(0.5) ? 40 : 160);
    st.evict_p = r.chance(0.25) ? 0.1 : 0; st.unfair_limit = 5000; st.total_limit = 30000;
    if (r.chance(0.5)) { eng::StallRule ru{}; ru.seed = r.next(); ru.mod = 2 + r.below(6); ru.occurrence = 1 + r.below(3); ru.threads = r.below(1 << NT); ru.duration = r.chance(0.5) ? -1 : 10 + r.below(60); st.rules.push_back(ru); }
    eng::on_write = write_seen;
    eng::Result res = eng::run(bodies, st);
    eng::on_write = nullptr;
    auto hist = [&] { string s; auto q = h; stable_sort(q.begin(), q.end(), [](const Op &a, const Op &b) { return a.inv < b.inv; }); for (auto &o : q) s += wop(o) + "\n"; return s; };
    bool known = eng::stats.aba > 0;      // the known finding (see engine.cpp); judged no further
    if (known) { w.add("executions_with_the_known_finding"); err.clear(); eng::pm_enable(false); eng::reset_maps(); return; }
    if (!err.empty()) throw Found{err, hist()};
    if (res == eng::HANG) throw Found{"pcas, pcas_read or persist makes no progress although every thread runs", hist()};
    uint64_t end = eng::now();
    for (auto &o : h) if (!o.done) o.ret = end;
    vector<uint64_t> fin(NW);
    if (res == eng::CRASHED)
    {
        vector<pair<string, string>> files; eng::pm_crash_image(r, r.below(3), files);
        for (auto &f : files) if (f.first == "region:w") for (int i = 0; i < NW; i++) memcpy(&fin[i], &f.second[(char *)words[i] - (char *)mem], 8);
        w.add("crashes"); w.add("lines_dirty_at_crash", eng::last_crash.dirty_lines);
    }
    else for (int i = 0; i < NW; i++) fin[i] = *words[i];
    uint64_t hh = eng::stats.sched_hash;
    for (int i = 0; i < NW; i++)
    {
        Op o{}; o.kind = W_READ; o.thread = -2; o.key = i; o.res = dec(fin[i]); o.inv = eng::now(); o.ret = eng::now(); o.done = 1; h.push_back(o);
        vector<Op> kh; for (auto &x : h) if ((int)x.key == i) kh.push_back(x);
        stable_sort(kh.begin(), kh.end(), [](const Op &a, const Op &b) { return a.inv < b.inv; });
        for (auto &x : kh) hh = mixh(mixh(hh, x.kind + x.done * 8), mixh(x.res, x.b));
        if (check_key(kh, word_apply, 0) == LIN_BAD) throw Found{res == eng::CRASHED ? "what a crash leaves of a word does not fit the operations on it" : "the operations on a word fit no order", hist()};
    }
    eng::pm_enable(false); eng::reset_maps();
    w.add("operations", h.size()); w.add("steps", eng::stats.steps); w.add("flushes", eng::stats.flushes); w.add("fences", eng::stats.fences); w.add("cas_failures", eng::stats.cas_fail);
    if (overl) { w.add("cases_with_overlap"); w.distinct(hh); }
    if (idx < 8) w.sample(hist());
}
int main(int argc, char **argv)
{
    if (argc < 5) return 2;
    string mode = argv[1]; uint64_t seed = strtoull(argv[2], 0, 10), n = strtoull(argv[3], 0, 10);
    eng::reclaim_stacks = true; eng::set_root("/nonexistent");
    arena = (char *)mmap(nullptr, ARENA, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    return poolMain(argv[1], seed, n, argv[4], 60, mode == "ranges" ? range_case : word_case);
}
