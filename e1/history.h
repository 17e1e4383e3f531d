// Histories and the (durable) linearizability checker.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <map>
#include <set>
#include <string>
#include <unordered_set>
#include <vector>
#include "api.h"

struct Op {
    uint8_t kind, era, done; int8_t thread;
    uint64_t key, a, b, res, inv, ret;
};
// Sequential specification of one key. Returns false if the result does not fit.
inline bool map_apply(const Op &o, uint64_t s, uint64_t &n)
{
    bool chk = o.done;
    n = s;
    switch (o.kind) {
    case OP_PUT: n = o.a; return !chk || o.res == s;
    case OP_PUTIFABSENT: if (s == ABSENT) n = o.a; return !chk || o.res == s;
    case OP_REMOVE: n = ABSENT; return !chk || o.res == (uint64_t)(s != ABSENT);
    case OP_REMOVEIF: if (s == o.a) n = ABSENT; return !chk || o.res == (uint64_t)(s == o.a);
    case OP_REPLACE: if (s == o.a) n = o.b; return !chk || o.res == (uint64_t)(s == o.a);
    case OP_GET: return !chk || o.res == s;
    case OP_CONTAINS: return !chk || o.res == (uint64_t)(s != ABSENT);
    case OP_INC: n = (s == ABSENT ? 0 : s) + 1; return !chk || o.res == s;
    }
    return false;
}
inline std::string val_str(uint64_t v) { return v == ABSENT ? "-" : v == WEIRD ? "INVALID" : std::to_string(v); }
inline std::string op_str(const Op &o)
{
    static const char *n[] = {"put", "putIfAbsent", "remove", "removeIf", "replace", "get", "contains", "increment"};
    char b[256];
    std::string args = std::to_string(o.key);
    if (o.kind == OP_PUT || o.kind == OP_PUTIFABSENT || o.kind == OP_REMOVEIF) args += "," + std::to_string(o.a);
    if (o.kind == OP_REPLACE) args += "," + std::to_string(o.a) + "," + std::to_string(o.b);
    snprintf(b, sizeof b, "[%6llu,%6llu] era %d thread %2d  %s(%s) = %s", (unsigned long long)o.inv, (unsigned long long)(o.ret), o.era, o.thread, n[o.kind], args.c_str(),
             !o.done ? "(interrupted)" : (o.kind == OP_REMOVE || o.kind == OP_REMOVEIF || o.kind == OP_REPLACE || o.kind == OP_CONTAINS) ? (o.res ? "true" : "false") : val_str(o.res).c_str());
    return b;
}

enum Lin { LIN_OK, LIN_BAD, LIN_UNKNOWN };
// Wing & Gong search with memoisation, for one key. Interrupted operations (done == 0) may take
// effect between inv and ret (the crash) or not at all.
template <class Apply> struct LinSearch {
    const std::vector<Op> &h; Apply apply; uint64_t nodes = 0, limit;
    struct KeyHash { size_t operator()(const std::pair<uint64_t, uint64_t> &p) const { return p.first * 0x9E3779B97F4A7C15ull ^ (p.second + 0x7F4A7C15ull) * 0xD6E8FEB86659FD93ull; } };
    std::unordered_set<std::pair<uint64_t, uint64_t>, KeyHash> seen;
    uint64_t required = 0;
    LinSearch(const std::vector<Op> &hh, Apply ap, uint64_t lim) : h(hh), apply(ap), limit(lim) { for (size_t i = 0; i < h.size(); i++) if (h[i].done) required |= 1ull << i; }
    int go(uint64_t mask, uint64_t st)
    {
        if ((mask & required) == required) return 1;
        if (++nodes > limit) return -1;
        if (!seen.insert({mask, st}).second) return 0;
        uint64_t minret = ~0ull, maxinv = 0;
        for (size_t i = 0; i < h.size(); i++) {
            if (mask >> i & 1) { if (h[i].inv > maxinv) maxinv = h[i].inv; }
            else if (h[i].done && h[i].ret < minret) minret = h[i].ret;
        }
        bool unknown = false;
        for (size_t i = 0; i < h.size(); i++) {
            if (mask >> i & 1) continue;
            if (h[i].inv > minret) continue;
            if (!h[i].done && maxinv > h[i].ret) continue;      // its crash is already in the past
            uint64_t n;
            if (!apply(h[i], st, n)) continue;
            int r = go(mask | 1ull << i, n);
            if (r == 1) return 1;
            if (r < 0) unknown = true;
        }
        return unknown ? -1 : 0;
    }
};
// All states a segment can end in, from one initial state.
template <class Apply> bool segment_finals(const std::vector<Op> &h, Apply ap, uint64_t init, uint64_t limit, std::set<uint64_t> &out)
{
    struct F {
        LinSearch<Apply> s; std::set<uint64_t> &out; bool ok = true;
        void go(uint64_t mask, uint64_t st)
        {
            if (!ok) return;
            if (++s.nodes > s.limit) { ok = false; return; }
            if (!s.seen.insert({mask, st}).second) return;
            if ((mask & s.required) == s.required) out.insert(st);
            uint64_t minret = ~0ull, maxinv = 0;
            for (size_t i = 0; i < s.h.size(); i++) {
                if (mask >> i & 1) { if (s.h[i].inv > maxinv) maxinv = s.h[i].inv; }
                else if (s.h[i].done && s.h[i].ret < minret) minret = s.h[i].ret;
            }
            for (size_t i = 0; i < s.h.size(); i++) {
                if (mask >> i & 1) continue;
                if (s.h[i].inv > minret) continue;
                if (!s.h[i].done && maxinv > s.h[i].ret) continue;
                uint64_t n;
                if (s.apply(s.h[i], st, n)) go(mask | 1ull << i, n);
            }
        }
    } f{LinSearch<Apply>(h, ap, limit), out};
    f.go(0, init);
    return f.ok;
}
template <class Apply> Lin check_key(const std::vector<Op> &h, Apply ap, uint64_t init = ABSENT, uint64_t limit = 400000)
{
    if (h.size() <= 40) {
        LinSearch<Apply> s(h, ap, limit);
        int r = s.go(0, init);
        return r == 1 ? LIN_OK : r == 0 ? LIN_BAD : LIN_UNKNOWN;
    }
    // Long histories: cut where no operation is running (h is sorted by invocation).
    std::set<uint64_t> states{init};
    for (size_t i = 0; i < h.size();) {
        std::vector<Op> seg; uint64_t end = 0;
        while (i < h.size() && (seg.empty() || h[i].inv < end)) { if (h[i].ret > end) end = h[i].ret; seg.push_back(h[i++]); }
        if (seg.size() > 64) return LIN_UNKNOWN;
        std::set<uint64_t> next;
        for (uint64_t s : states) if (!segment_finals(seg, ap, s, limit, next)) return LIN_UNKNOWN;
        if (next.empty()) return LIN_BAD;
        states = next;
    }
    return LIN_OK;
}
