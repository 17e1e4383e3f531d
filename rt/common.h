// Worker pool for monitored runs: forks workers, watches them for crashes and hangs, merges what they measured.
#pragma once
#include <algorithm>
#include <cassert>
#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dirent.h>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <map>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>

struct Rng
{
    uint64_t s;
    explicit Rng(uint64_t a, uint64_t b = 0, uint64_t c = 0)
    {
        s = a * 0x9E3779B97F4A7C15ull ^ (b + 0x1234567) * 0xBF58476D1CE4E5B9ull ^ (c + 77) * 0x94D049BB133111EBull;
        next(); next();
    }
    uint64_t next()
    {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    uint64_t range(uint64_t a, uint64_t b) { return a + below(b - a + 1); }
    bool chance(double p) { return (next() >> 11) * (1.0 / 9007199254740992.0) < p; }
    // Small numbers about as often as large ones.
    uint64_t loguniform(uint64_t a, uint64_t b)
    {
        unsigned lo = 63 - __builtin_clzll(a | 1), hi = 63 - __builtin_clzll(b | 1);
        uint64_t e = range(lo, hi), v = (1ull << e) + below(1ull << e);
        return std::min(b, std::max(a, v));
    }
};
static inline uint64_t mixh(uint64_t h, uint64_t v)
{
    h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2);
    return h * 0xff51afd7ed558ccdull ^ (h >> 29);
}
static inline double nowS()
{
    timespec t; clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec + t.tv_nsec * 1e-9;
}
static inline std::string fmt(const char *f, ...)
{
    char b[4096]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a);
    return b;
}
struct Found { std::string msg, detail; };

struct Slot { volatile uint64_t idx; volatile double since; volatile bool busy; volatile bool done; char note[512]; };
struct Worker
{
    int id; uint64_t seed; std::string scratch; Slot *slot;
    std::map<std::string, uint64_t> cnt, mx;
    std::unordered_set<uint64_t> hashes;
    std::vector<std::string> samples;
    void add(const char *k, uint64_t n = 1) { cnt[k] += n; }
    void maxi(const char *k, uint64_t n) { auto &x = mx[k]; x = std::max(x, n); }
    void note(const std::string &s) { strncpy(slot->note, s.c_str(), sizeof slot->note - 1); }
    void distinct(uint64_t h) { hashes.insert(h); }
    void sample(const std::string &s) { if (samples.size() < 3) samples.push_back(s); }
};
static inline void wipeDir(const std::string &d)
{
    if (DIR *p = opendir(d.c_str()))
    {
        while (dirent *e = readdir(p))
            if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) unlink((d + "/" + e->d_name).c_str());
        closedir(p);
    }
}
static inline double budgetS() { const char *b = getenv("RT_BUDGET"); return b ? atof(b) : 1e9; }
static inline int nWorkers() { const char *b = getenv("RT_WORKERS"); return b ? atoi(b) : 8; }

static inline bool memoryViolation(int st, const std::string &text)
{
    if (st == -1) return false;
    if (text.find("Sanitizer") != std::string::npos || text.find("runtime error:") != std::string::npos) return true;
    return WIFSIGNALED(st) && (WTERMSIG(st) == SIGSEGV || WTERMSIG(st) == SIGBUS || WTERMSIG(st) == SIGILL || WTERMSIG(st) == SIGFPE);
}
// Runs cases 0..n-1. run(worker, idx) throws Found on a violation.
static int poolMain(const char *mode, uint64_t seed, uint64_t n, const std::string &scratch, double hangS,
                    const std::function<void(Worker &, uint64_t)> &run, const std::function<void(Worker &)> &init = nullptr,
                    bool (*relevant)(int st, const std::string &text) = nullptr)   // is this ending (st, or a hang: -1) a violation of what is being checked?
{
    const double t0 = nowS(), budget = budgetS();
    const int W = nWorkers();
    mkdir(scratch.c_str(), 0755);
    Slot *slots = (Slot *)mmap(nullptr, sizeof(Slot) * W, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    fflush(stdout);
    std::vector<pid_t> pid(W);
    for (int w = 0; w < W; w++)
    {
        pid[w] = fork();
        if (pid[w] == 0)
        {
            Worker wk; wk.id = w; wk.seed = seed; wk.slot = &slots[w];
            wk.scratch = scratch + "/w" + std::to_string(w);
            mkdir(wk.scratch.c_str(), 0755);
            // Output of the code under test is of no interest.
            int e = open((scratch + "/err" + std::to_string(w)).c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
            dup2(e, 1); dup2(e, 2);
            std::string found; uint64_t fidx = 0;
            try
            {
                if (init) init(wk);
                const char *only = getenv("RT_ONLY");   // repeat one case
                for (uint64_t i = w; i < n; i += W)
                {
                    if (only && strtoull(only, 0, 10) != i) continue;
                    wk.slot->idx = i; wk.slot->since = nowS(); wk.slot->busy = true; fidx = i;
                    run(wk, i);
                    wk.slot->busy = false;
                    wk.cnt["cases"]++;
                    if (nowS() - t0 > budget) break;
                }
            }
            catch (Found &f) { found = f.msg + "\n" + f.detail; }
            wk.slot->busy = false;
            {
                std::ofstream o(scratch + "/r" + std::to_string(w));
                for (auto &c : wk.cnt) o << "C " << c.first << " " << c.second << "\n";
                for (auto &c : wk.mx) o << "M " << c.first << " " << c.second << "\n";
                for (auto &s : wk.samples) { std::string t = s; std::replace(t.begin(), t.end(), '\n', ';'); o << "S " << t << "\n"; }
                std::ofstream h(scratch + "/h" + std::to_string(w), std::ios::binary);
                for (auto x : wk.hashes) h.write((char *)&x, 8);
                if (!found.empty()) o << "F " << fidx << "\n" << found;
            }
            slots[w].done = true;
            fflush(nullptr);
            _exit(0);
        }
    }
    int left = W, other = 0;
    std::vector<std::string> bad(W); std::vector<bool> alive(W, true);
    while (left)
    {
        bool any = false;
        for (int w = 0; w < W; w++) if (alive[w])
        {
            int st;
            if (waitpid(pid[w], &st, WNOHANG) == pid[w])
            {
                alive[w] = false; left--; any = true;
                if (!slots[w].done)
                {
                    std::ifstream e(scratch + "/err" + std::to_string(w)); std::stringstream ss; ss << e.rdbuf();
                    std::string t = ss.str(); if (t.size() > 12000) t.resize(12000);
                    if (relevant && !relevant(st, t)) { other++; continue; }
                    bad[w] = (WIFSIGNALED(st) ? fmt("the program was ended by signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st))) : fmt("the program exited with status %d", WEXITSTATUS(st)))
                        + fmt(" in case %llu: %s\n", (unsigned long long)slots[w].idx, slots[w].note) + t;
                }
            }
            else if (slots[w].busy && nowS() - slots[w].since > hangS)
            {
                kill(pid[w], SIGKILL); waitpid(pid[w], &st, 0); alive[w] = false; left--; any = true;
                if (relevant && !relevant(-1, "")) { other++; continue; }
                bad[w] = fmt("no progress for %.0f s in case %llu: %s\n", hangS, (unsigned long long)slots[w].idx, slots[w].note);
            }
        }
        if (!any) usleep(20000);
    }
    std::map<std::string, uint64_t> cnt, mx; std::vector<std::string> samples; std::unordered_set<uint64_t> hs;
    std::string found; uint64_t fidx = ~0ull;
    for (int w = 0; w < W; w++)
    {
        if (!bad[w].empty()) { if (slots[w].idx < fidx) { fidx = slots[w].idx; found = bad[w]; } }
        std::ifstream r(scratch + "/r" + std::to_string(w)); std::string l;
        while (std::getline(r, l))
        {
            std::stringstream ss(l); std::string t, k; uint64_t v; ss >> t;
            if (t == "C") { ss >> k >> v; cnt[k] += v; }
            else if (t == "M") { ss >> k >> v; mx[k] = std::max(mx[k], v); }
            else if (t == "S") samples.push_back(l.substr(2));
            else if (t == "F")
            {
                uint64_t i; ss >> i; std::stringstream rest; rest << r.rdbuf();
                if (i < fidx) { fidx = i; found = rest.str(); }
                break;
            }
        }
        std::ifstream h(scratch + "/h" + std::to_string(w), std::ios::binary); uint64_t x;
        while (h.read((char *)&x, 8)) hs.insert(x);
    }
    printf("{\"mode\":\"%s\",\"seed\":%llu,\"distinct\":%zu", mode, (unsigned long long)seed, hs.size());
    for (auto &c : cnt) printf(",\"%s\":%llu", c.first.c_str(), (unsigned long long)c.second);
    for (auto &c : mx) printf(",\"max_%s\":%llu", c.first.c_str(), (unsigned long long)c.second);
    if (other) printf(",\"runs_ended_otherwise\":%d", other);
    printf(",\"seconds\":%.1f}\n", nowS() - t0);
    for (size_t i = 0; i < samples.size() && i < 4; i++) printf("SAMPLE %s\n", samples[i].c_str());
    if (!found.empty()) printf("FOUND mode=%s seed=%llu idx=%llu: %s\n", mode, (unsigned long long)seed, (unsigned long long)fidx, found.c_str());
    fflush(stdout);
    return found.empty() ? 0 : 1;
}
