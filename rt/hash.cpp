// The hash functions against independent implementations of XXH32 and XXH64 (written from the specification) and, when present, libxxhash.
#include "pre.h"
#include "hash.hpp"
#include "common.h"
#include <dlfcn.h>
#include <deque>
static bool asan;

// ---- reference, from doc/xxhash_spec.md: lanes, then the tail, then the avalanche
namespace ref
{
template <class T> static T rd(const uint8_t *p, int n) { T v = 0; for (int i = n - 1; i >= 0; i--) v = v << 8 | p[i]; return v; }
template <class T> static T rol(T x, int r) { return x << r | x >> (sizeof(T) * 8 - r); }
static const uint32_t P1 = 0x9E3779B1u, P2 = 0x85EBCA77u, P3 = 0xC2B2AE3Du, P4 = 0x27D4EB2Fu, P5 = 0x165667B1u;
static const uint64_t Q1 = 0x9E3779B185EBCA87ull, Q2 = 0xC2B2AE3D27D4EB4Full, Q3 = 0x165667B19E3779F9ull, Q4 = 0x85EBCA77C2B2AE63ull, Q5 = 0x27D4EB2F165667C5ull;
// Takes the input as consecutive pieces of one long input, so that inputs of any size need little memory.
struct H32
{
    uint32_t seed, a[4]; uint64_t len = 0; uint8_t buf[16]; int n = 0;
    explicit H32(uint32_t s) : seed(s), a{s + P1 + P2, s + P2, s, s - P1} { }
    void add(const uint8_t *p, size_t l)
    {
        len += l;
        while (l)
        {
            if (n == 0 && l >= 16) { blk(p); p += 16; l -= 16; continue; }
            buf[n++] = *p++; l--; if (n == 16) { blk(buf); n = 0; }
        }
    }
    void blk(const uint8_t *p) { for (int i = 0; i < 4; i++) { uint32_t w; memcpy(&w, p + 4 * i, 4); a[i] = rol<uint32_t>(a[i] + w * P2, 13) * P1; } }
    uint32_t get() const
    {
        uint32_t h = len >= 16 ? rol(a[0], 1) + rol(a[1], 7) + rol(a[2], 12) + rol(a[3], 18) : seed + P5;
        h += (uint32_t)len; int i = 0;
        for (; i + 4 <= n; i += 4) h = rol<uint32_t>(h + rd<uint32_t>(buf + i, 4) * P3, 17) * P4;
        for (; i < n; i++) h = rol<uint32_t>(h + buf[i] * P5, 11) * P1;
        h ^= h >> 15; h *= P2; h ^= h >> 13; h *= P3; return h ^ h >> 16;
    }
};
struct H64
{
    uint64_t seed, a[4], len = 0; uint8_t buf[32]; int n = 0;
    static uint64_t rnd(uint64_t acc, uint64_t x) { return rol<uint64_t>(acc + x * Q2, 31) * Q1; }
    explicit H64(uint64_t s) : seed(s), a{s + Q1 + Q2, s + Q2, s, s - Q1} { }
    void add(const uint8_t *p, size_t l)
    {
        len += l;
        while (l)
        {
            if (n == 0 && l >= 32) { blk(p); p += 32; l -= 32; continue; }
            buf[n++] = *p++; l--; if (n == 32) { blk(buf); n = 0; }
        }
    }
    void blk(const uint8_t *p) { for (int i = 0; i < 4; i++) { uint64_t w; memcpy(&w, p + 8 * i, 8); a[i] = rnd(a[i], w); } }
    uint64_t get() const
    {
        uint64_t h;
        if (len >= 32)
        {
            h = rol(a[0], 1) + rol(a[1], 7) + rol(a[2], 12) + rol(a[3], 18);
            for (uint64_t v : a) h = (h ^ rnd(0, v)) * Q1 + Q4;
        }
        else h = seed + Q5;
        h += len; int i = 0;
        for (; i + 8 <= n; i += 8) h = rol(h ^ rnd(0, rd<uint64_t>(buf + i, 8)), 27) * Q1 + Q4;
        if (i + 4 <= n) { h = rol(h ^ rd<uint64_t>(buf + i, 4) * Q1, 23) * Q2 + Q3; i += 4; }
        for (; i < n; i++) h = rol(h ^ buf[i] * Q5, 11) * Q1;
        h ^= h >> 33; h *= Q2; h ^= h >> 29; h *= Q3; return h ^ h >> 32;
    }
};
static uint64_t h(int bits, const void *p, size_t n, uint64_t seed)
{
    if (bits == 32) { H32 x(seed); x.add((const uint8_t *)p, n); return x.get(); }
    H64 x(seed); x.add((const uint8_t *)p, n); return x.get();
}
}
static uint32_t (*lib32)(const void *, size_t, uint32_t); static uint64_t (*lib64)(const void *, size_t, uint64_t);

static std::string hex(const uint8_t *p, size_t n)
{
    std::string s; for (size_t i = 0; i < n && i < 400; i++) s += fmt("%02x", p[i]);
    return n > 400 ? s + "..." : s;
}
static void eq(Worker &w, uint64_t got, uint64_t want, const std::string &what, const uint8_t *p, size_t n, uint64_t seed)
{
    w.add("comparisons");
    if (got != want && !asan)
        throw Found{fmt("%s returned %llx and should return %llx for %zu bytes, seed %llx", what.c_str(), (unsigned long long)got, (unsigned long long)want, n, (unsigned long long)seed), "input: " + hex(p, n)};
}
static size_t pickLen(Rng &r)
{
    switch (r.below(6))
    {
    case 0: return r.below(70);
    case 1: return 32 * r.below(40) + r.below(5);
    case 2: { int64_t v = (int64_t)(16 * r.range(1, 40)) + (int64_t)r.below(5) - 2; return v; }
    case 3: return r.below(300);
    case 4: return r.loguniform(1, 5000);
    default: return r.chance(0.1) ? r.loguniform(5000, 200000) : r.below(34);
    }
}
static uint64_t pickSeed(Rng &r) { switch (r.below(5)) { case 0: return 0; case 1: return r.below(4); case 2: return ~r.below(4); case 3: return r.next() >> 32; default: return r.next(); } }
template <int B, class T> static void typed(Worker &w, Rng &r, const uint8_t *p, size_t n, uint64_t seed, const char *tn)
{
    using U = xxh::uint_t<B>; U sd = (U)seed;
    size_t k = n / sizeof(T); if (!k) return;
    std::vector<T> v(k); memcpy(v.data(), p, k * sizeof(T));
    uint64_t want = ref::h(B, p, k * sizeof(T), sd);
    auto e = [&](uint64_t g, const char *ov) { eq(w, g, want, fmt("xxhash<%d>(%s of %s)", B, ov, tn), p, k * sizeof(T), sd); };
    e(xxh::xxhash<B>(v, sd), "vector");
    e(xxh::xxhash<B>(v.data(), v.data() + k, sd), "pointers");
    auto st = [&](const char *ov, auto f) { xxh::hash_state_t<B> s(sd); f(s); e(s.digest(), ov); };
    st("updated with a vector", [&](auto &s) { s.update(v); });
    if (!asan || k) { e(xxh::xxhash<B>(v.begin(), v.begin() + k, sd), "iterators"); st("updated with iterators", [&](auto &s) { s.update(v.begin(), v.begin() + k); }); }
    if (k >= 3)
    {
        std::array<T, 3> a3{v[0], v[1], v[2]}; std::initializer_list<T> il{v[0], v[1], v[2]};
        want = ref::h(B, p, 3 * sizeof(T), sd);
        auto e3 = [&](uint64_t g, const char *ov) { eq(w, g, want, fmt("xxhash<%d>(%s of 3 %s)", B, ov, tn), p, 3 * sizeof(T), sd); };
        e3(xxh::xxhash<B>(a3, sd), "array"); e3(xxh::xxhash<B>(il, sd), "initializer_list");
        { xxh::hash_state_t<B> s(sd); s.update(a3); e3(s.digest(), "state updated with an array"); }
        { xxh::hash_state_t<B> s(sd); s.update(il); e3(s.digest(), "state updated with an initializer_list"); }
    }
}
template <int B, class C> static void str(Worker &w, const uint8_t *p, size_t n, uint64_t seed, const char *tn)
{
    using U = xxh::uint_t<B>; U sd = (U)seed;
    size_t k = n / sizeof(C); std::basic_string<C> s(k, C()); memcpy(s.data(), p, k * sizeof(C));
    uint64_t want = ref::h(B, p, k * sizeof(C), sd);
    eq(w, xxh::xxhash<B>(s, sd), want, fmt("xxhash<%d>(basic_string<%s>)", B, tn), p, k * sizeof(C), sd);
    xxh::hash_state_t<B> t(sd); t.update(s);
    eq(w, t.digest(), want, fmt("state<%d> updated with a basic_string<%s>", B, tn), p, k * sizeof(C), sd);
}
template <int B> static void one(Worker &w, Rng &r, const uint8_t *p, size_t n, uint64_t seed)
{
    using U = xxh::uint_t<B>; U sd = (U)seed;
    uint64_t want = ref::h(B, p, n, sd);
    if (B == 32 ? lib32 != nullptr : lib64 != nullptr)
    {
        uint64_t l = B == 32 ? lib32(p, n, (uint32_t)sd) : lib64(p, n, sd);
        if (l != want) throw Found{"the two references disagree", ""};
        w.add("references_agree");
    }
    eq(w, xxh::xxhash<B>((const void *)p, n, sd), want, fmt("xxhash<%d>(pointer, length)", B), p, n, sd);
    if (!sd) eq(w, xxh::xxhash<B>((const void *)p, n), want, fmt("xxhash<%d>(pointer, length) without a seed", B), p, n, sd);
    // Streaming: any split, digests in between, copies, assignment and reuse.
    xxh::hash_state_t<B> s(r.chance(0.5) ? sd : (U)r.next());
    if (r.chance(0.3)) { s.update(p, n ? r.below(n) : 0); s.reset(sd); }
    else { s = *new (alloca(sizeof s)) xxh::hash_state_t<B>(sd); }
    size_t at = 0; uint64_t pieces = 0; std::string split;
    int style = r.below(4);
    auto check = [&](xxh::hash_state_t<B> &x, const char *what) { eq(w, x.digest(), ref::h(B, p, at, sd), fmt("state<%d> %s after updates of%s", B, what, split.size() > 600 ? (" " + std::to_string(pieces) + " pieces, last" + split.substr(split.size() - 300)).c_str() : split.c_str()), p, at, sd); };
    while (at < n)
    {
        size_t m = style == 0 ? r.below(5) : style == 1 ? r.below(80) : style == 2 ? r.range(1, 3) * (B / 2) - r.below(3) + 1 : r.loguniform(1, n - at);
        m = std::min(m, n - at);
        if (m) { uint8_t *q = (uint8_t *)malloc(m); memcpy(q, p + at, m); s.update(q, m); memset(q, 0xEE, m); free(q); }   // nothing may depend on the piece staying there
        else s.update(p, 0);
        at += m; pieces++; split += " " + std::to_string(m);
        if (r.chance(0.1)) check(s, "in between");
        if (r.chance(0.05)) { xxh::hash_state_t<B> c(s); c.update(p, std::min<size_t>(n, 7)); xxh::hash_state_t<B> d(1); d = s; check(d, "assigned"); s.update(p, 0); }
    }
    check(s, "at the end"); check(s, "asked again");
    w.add("pieces", pieces);
    // The canonical form is the big-endian one.
    xxh::canonical_t<B> c((xxh::hash_t<B>)want);
    uint64_t be = 0; for (auto b : c.digest) be = be << 8 | b;
    eq(w, be, want, fmt("canonical_t<%d> digest", B), p, n, sd); eq(w, c.get_hash(), want, fmt("canonical_t<%d>::get_hash", B), p, n, sd);
}
template <class T> static void functors(Worker &w, uint64_t bits)
{
    T k; memcpy(&k, &bits, sizeof k);
    uint8_t b[sizeof k]; memcpy(b, &k, sizeof k);
    const T k2 = k;
    eq(w, ::xxhash<T>()(k), ref::h(64, b, sizeof k, 0), fmt("the xxhash functor for a %zu-byte key", sizeof k), b, sizeof k, 0);
    eq(w, ::xxhash<T>()(k2), ::xxhash<T>()(k), "the xxhash functor for an equal key", b, sizeof k, 0);
    eq(w, NaiveHash<T>()(k), (size_t)k, fmt("NaiveHash for a %zu-byte key", sizeof k), b, sizeof k, 0);
}
// XXH3 has no independent reference here (this is a version before its final form): streaming against one call, and the overloads against each other.
static bool same(uint64_t a, uint64_t b) { return a == b; }
static bool same(const xxh::hash_t<128> &a, const xxh::hash_t<128> &b) { return a.low64 == b.low64 && a.high64 == b.high64; }
template <int B> static void three(Worker &w, Rng &r, const uint8_t *p, size_t n, uint64_t seed)
{
    std::vector<uint8_t> secret(136 + r.below(200)); for (auto &x : secret) x = r.next();
    const bool cs = r.chance(0.3);
    auto ask = [&](const void *q, size_t m) { return cs ? xxh::xxhash3<B>(q, m, secret.data(), secret.size()) : xxh::xxhash3<B>(q, m, seed); };
    auto e = [&](const xxh::hash_t<B> &got, const xxh::hash_t<B> &want, const std::string &what, size_t m) {
        w.add("xxh3_comparisons");
        if (!same(got, want) && !asan) throw Found{fmt("xxhash3<%d>: %s and one call over the same %zu bytes differ (%s)", B, what.c_str(), m, cs ? "with a secret" : fmt("seed %llx", (unsigned long long)seed).c_str()), "input: " + hex(p, m)};
    };
    xxh::hash_t<B> whole = ask(p, n);
    {
        uint8_t *q = (uint8_t *)malloc(n + 1) ; memcpy(q + 1, p, n); e(ask(q + 1, n), whole, "another place in memory", n); free(q);
        std::vector<uint8_t> v(p, p + n); std::basic_string<char> st((const char *)p, n);
        if (n) e(cs ? xxh::xxhash3<B>(v, secret.data(), secret.size()) : xxh::xxhash3<B>(v, seed), whole, "a vector", n);
        if (n) e(cs ? xxh::xxhash3<B>(v.begin(), v.end(), secret.data(), secret.size()) : xxh::xxhash3<B>(v.begin(), v.end(), seed), whole, "iterators", n);
        e(cs ? xxh::xxhash3<B>(st, secret.data(), secret.size()) : xxh::xxhash3<B>(st, seed), whole, "a string", n);
    }
    xxh::hash3_state_t<B> s(seed + 1);
    if (r.chance(0.3)) s.update(p, n ? r.below(n) : 0);
    if (cs) s.reset(secret.data(), secret.size()); else s.reset(seed);
    size_t at = 0; std::string split; int style = r.below(4);
    while (at < n)
    {
        size_t m = style == 0 ? r.below(9) : style == 1 ? r.below(300) : style == 2 ? 64 * r.below(12) + r.below(3) : r.loguniform(1, n - at);
        m = std::min(m, n - at); s.update(p + at, m); at += m; split += " " + std::to_string(m); if (split.size() > 400) split = "..." + split.substr(200);
        if (r.chance(0.1)) e(s.digest(), ask(p, at), "a digest after updates of" + split, at);
    }
    e(s.digest(), whole, "a digest after updates of" + split, n); e(s.digest(), whole, "a second digest after updates of" + split, n);
}
// More than 4 GiB, from 1 MiB mapped over and over.
static void huge(Worker &w, Rng &r)
{
    const size_t U = 1 << 20, N = 4 * 1024 + 2;
    int fd = memfd_create("x", 0); if (fd < 0 || ftruncate(fd, U)) return;
    uint8_t *base = (uint8_t *)mmap(nullptr, U * N, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (base == MAP_FAILED) { close(fd); return; }
    for (size_t i = 0; i < N; i++) if (mmap(base + i * U, U, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) { munmap(base, U * N); close(fd); return; }
    for (size_t i = 0; i < U; i += 8) { uint64_t x = r.next(); memcpy(base + i, &x, 8); }
    size_t off = r.below(64), n = (1ull << 32) + r.below(100); uint64_t seed = pickSeed(r);
    if (r.chance(0.3)) n = (1ull << 31) + r.below(100);
    w.note(fmt("%zu bytes", n));
    const uint8_t *p = base + off;
    uint64_t w32 = ref::h(32, p, n, (uint32_t)seed), w64 = ref::h(64, p, n, seed);
    eq(w, xxh::xxhash<32>((const void *)p, n, (uint32_t)seed), w32, "xxhash<32>", p, n, (uint32_t)seed);
    eq(w, xxh::xxhash<64>((const void *)p, n, seed), w64, "xxhash<64>", p, n, seed);
    xxh::hash_state_t<32> a((uint32_t)seed); xxh::hash_state_t<64> b(seed);
    size_t at = 0; while (at < n) { size_t m = std::min<size_t>(n - at, r.loguniform(1 << 20, 1ull << 32)); a.update(p + at, m); b.update(p + at, m); at += m; }
    eq(w, a.digest(), w32, "state<32>", p, n, (uint32_t)seed); eq(w, b.digest(), w64, "state<64>", p, n, seed);
    w.add("inputs_over_2GiB"); w.distinct(n);
    munmap(base, U * N); close(fd);
}
static void run(Worker &w, uint64_t idx)
{
    Rng r(w.seed, idx, 18);
    if (!asan && (idx == 0 || idx == 1)) { huge(w, r); return; }
    for (int i = 0; i < 40; i++)
    {
        size_t n = pickLen(r), off = r.below(16); uint64_t seed = pickSeed(r);
        uint8_t *area = (uint8_t *)malloc(n + off + (asan ? 0 : 64)), *p = area + off;
        if (!asan) for (size_t j = 0; j < n + off + 64; j++) area[j] = j * 37 + i;
        int style = r.below(4);
        for (size_t j = 0; j < n; j++) p[j] = style == 0 ? 0 : style == 1 ? 0xFF : style == 2 ? (r.below(8) == 0) << r.below(8) : r.next();
        w.note(fmt("%zu bytes at offset %zu, seed %llx", n, off, (unsigned long long)seed));
        one<32>(w, r, p, n, seed); one<64>(w, r, p, n, seed);
        if (r.chance(0.5)) three<64>(w, r, p, n, seed); else three<128>(w, r, p, n, seed);
        switch (r.below(5))
        {
        case 0: typed<32, uint8_t>(w, r, p, n, seed, "uint8_t"); typed<64, uint8_t>(w, r, p, n, seed, "uint8_t"); str<32, char>(w, p, n, seed, "char"); str<64, char>(w, p, n, seed, "char"); break;
        case 1: typed<32, uint16_t>(w, r, p, n, seed, "uint16_t"); typed<64, uint16_t>(w, r, p, n, seed, "uint16_t"); str<32, char16_t>(w, p, n, seed, "char16_t"); str<64, char16_t>(w, p, n, seed, "char16_t"); break;
        case 2: typed<32, uint32_t>(w, r, p, n, seed, "uint32_t"); typed<64, uint32_t>(w, r, p, n, seed, "uint32_t"); str<32, char32_t>(w, p, n, seed, "char32_t"); str<64, wchar_t>(w, p, n, seed, "wchar_t"); break;
        case 3: typed<32, uint64_t>(w, r, p, n, seed, "uint64_t"); typed<64, uint64_t>(w, r, p, n, seed, "uint64_t"); break;
        default: typed<64, unsigned __int128>(w, r, p, n, seed, "16-byte items"); break;
        }
        uint64_t k = r.chance(0.5) ? r.next() : r.chance(0.5) ? r.below(1000) : 1ull << r.below(64);
        functors<uint64_t>(w, k); functors<size_t>(w, k << 3); functors<uint32_t>(w, k); functors<uint16_t>(w, k); functors<uint8_t>(w, k); functors<int64_t>(w, k); functors<int>(w, k);
        w.distinct(mixh(mixh(n, seed), off)); w.add("inputs"); w.maxi("input_bytes", n);
        free(area);
    }
    w.sample(fmt("case %llu: 40 inputs, last %s", (unsigned long long)idx, w.slot->note));
}
int main(int argc, char **argv)
{
    asan = !strcmp(argv[1], "hashasan");
    void *l = asan ? nullptr : dlopen("libxxhash.so.0", RTLD_NOW);
    if (l) { lib32 = (decltype(lib32))dlsym(l, "XXH32"); lib64 = (decltype(lib64))dlsym(l, "XXH64"); }
    return poolMain(argv[1], strtoull(argv[2], 0, 10), strtoull(argv[3], 0, 10), argv[4], 120, run, nullptr, asan ? memoryViolation : nullptr);
}
