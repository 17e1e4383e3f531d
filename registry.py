# How each property is decided: which monitors are built, and which workloads they watch.
import os
from check import ROOT, REPO, SEED, THOROUGH, CheckError
CHECKS = {}
ASSUMPTIONS = {}
INC = ["-I.", "-Iinclude", "-Icontainers", "-Itests", "-Ihashing"]

def check(prop, level="exploration", assumptions=()):
    def deco(fn):
        CHECKS[prop] = (fn, level); ASSUMPTIONS[prop] = list(assumptions)
        return fn
    return deco
def tot(ctx, *keys):
    return sum(s.get(k, 0) for s in ctx.stats for k in keys)

# ------------------------------------------------------------------ E1
E1_NOTE = ["sequentially consistent memory (x86-TSO reorderings are not explored; ThreadSanitizer runs cover missing synchronisation)",
           "scheduling points at atomic operations, flushes, fences, mapped-memory accesses, locks and file operations"]
PM_NOTE = ["persistence model: 64-byte lines, CLWB/CLFLUSH + SFENCE semantics, arbitrary spontaneous write-back of whole lines, file-system metadata durable in order"]
def build_e1(ctx):
    b, v = ctx.build, ROOT + "/e1"
    ctx.compile([
        ["g++", "-std=c++2a", "-O1", "-g", "-w", "-fsanitize=thread", "-fno-pie", "-pthread", "-include", v + "/shim.h", "-I" + v] + INC + ["-c", v + "/map_tu.cpp", "-o", b + "/map_tu.o"],
        ["g++", "-std=c++20", "-O2", "-g", "-w", "-fno-pie", "-c", v + "/engine.cpp", "-o", b + "/engine.o"],
        ["g++", "-std=c++20", "-O2", "-g", "-w", "-fno-pie", "-c", v + "/harness.cpp", "-o", b + "/harness.o"]])
    ctx.compile([["g++", "-no-pie", "-rdynamic", b + "/map_tu.o", b + "/engine.o", b + "/harness.o", "-ldl", "-lpthread", "-o", b + "/e1"]])
    return b + "/e1"
def run_e1(ctx, exe, mode, quick, thorough):
    n = thorough if THOROUGH else quick
    rc, out, err = ctx.run([exe, mode, str(SEED), str(n), ctx.scratch + "/" + mode], env={"E1_BUDGET": "700" if THOROUGH else "150"}, timeout=860)
    if rc not in (0, 1): raise CheckError("monitor %s ended with %s: %s" % (mode, rc, err[-1500:]))
    return rc
E1_RULES = {
 "lin": "a case is non-trivial if operations of different threads overlapped on one key; distinct by (program, schedule) hash",
 "size": "a case is non-trivial if the scheduler switched threads during the concurrent phase; distinct by (program, schedule) hash",
 "progress": "a case is non-trivial if threads were stopped for good in the middle of unfinished operations; distinct by (program, schedule) hash",
 "crash": "a case is non-trivial if the crash left an operation unfinished or lines unflushed, or operations overlapped; distinct by (program, schedule, crash step) hash",
}
def e1(prop, runs, rule, extra="", level="exploration", assumptions=E1_NOTE, soak=None):
    @check(prop, level, assumptions)
    def fn(ctx):
        exe = build_e1(ctx)
        for mode, q, t in runs:
            if run_e1(ctx, exe, mode, q, t): break
        else:
            if soak:
                st, = build_rt(ctx, [("stress", "", True, [])])
                run_rt(ctx, st, soak[0], "", soak[1], soak[2], (60, 250))
        return dict(evaluations=tot(ctx, "cases"), distinct_nontrivial=tot(ctx, "distinct"),
                    rule="PMap is compiled as it is, its atomic and mapped-memory accesses, flushes, fences, locks and file operations call into a seeded scheduler (random, priority-based and round-robin schedules with stalls at chosen code sites); each case is a random program of 2-8 threads over a few contended keys on a small table near its resize threshold (some large tables). " + extra + E1_RULES[rule])
    return fn
SOAK = "Further cases run 2-6 real threads with random delays and long stalls at basic blocks: keys of one thread's own must behave as in an ordinary map, increments of shared counters must add up, size() must match the contents. "
LIN = "Each key's history, with the contents read back at the end, is checked for linearizability. "
DUR = "The run is cut at a random step; of the unflushed cache lines none, some or all survive; the map is recovered in a fresh process from the surviving files, used again, possibly crashed again, and the whole history is checked for durable linearizability. "
e1("C01", [("lin", 600000, 9000000), ("big", 8000, 100000)], "lin", LIN + SOAK, soak=("soak", 6000, 60000))
e1("C02", [("rmw", 500000, 8000000)], "lin", LIN + "Increments dominate; the expected old value of each is part of its specification. " + SOAK, soak=("soakinc", 10000, 100000))
e1("C04", [("grow", 400000, 6000000), ("big", 25000, 500000)], "lin", LIN + "Nearly every case grows the table, often several times at once; in others several threads share the migration of a large table. " + SOAK, soak=("soak", 12000, 150000))
e1("C05", [("size", 500000, 6000000), ("recover", 20000, 300000)], "size", "size() and isEmpty() are compared with the keys actually found once all threads are done and after recoveries. " + SOAK, soak=("soaksize", 7000, 80000))
e1("C06", [("crash", 100000, 1500000)], "crash", DUR, "fault_enumeration", E1_NOTE + PM_NOTE)
e1("C07", [("observe", 130000, 2000000)], "crash", DUR + "Reads dominate, and updates are often interrupted right after another thread has seen them. ", "fault_enumeration", E1_NOTE + PM_NOTE)
e1("C08", [("recover", 60000, 900000)], "crash", DUR + "Three to five eras, with crashes during creation and recovery, more growth after each recovery, and size() compared after each. ", "fault_enumeration", E1_NOTE + PM_NOTE)
e1("C09", [("progress", 600000, 8000000)], "progress", "At a random step all threads but one (or a few) stop for good; the rest, and a newcomer, must finish every operation within a bound on their own steps. ")

# ------------------------------------------------------------------ real threads, sanitizers, model comparison
RT = ["-include", ROOT + "/rt/pre.h", "-I" + ROOT + "/rt"] + INC
SAN = {"": ["-O2"], "asan": ["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"], "tsan": ["-O1", "-fsanitize=thread"]}
ENV = {"": {}, "asan": {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:allocator_may_return_null=1", "UBSAN_OPTIONS": "print_stacktrace=1"}, "tsan": {"TSAN_OPTIONS": "halt_on_error=1"}}
def build_rt(ctx, wants):
    """wants: list of (source, sanitizer, uses random delays, extra link flags). Returns the executables."""
    b, v = ctx.build, ROOT + "/rt"
    plain = ["g++", "-std=c++2a", "-O1", "-fno-tree-loop-distribute-patterns", "-g", "-w", "-c"]
    jobs = [plain + [v + "/redir.cpp", "-o", b + "/redir.o"], plain + [v + "/delays.cpp", "-o", b + "/delays.o"]]
    for src, san, delays, _ in wants:
        jobs.append(["g++", "-std=c++2a", "-g", "-w"] + SAN[san] + (["-fsanitize-coverage=trace-pc"] if delays else []) + RT + ["-c", v + "/%s.cpp" % src, "-o", "%s/%s-%s.o" % (b, src, san)])
    ctx.compile(jobs)
    exes = ["%s/%s-%s" % (b, src, san) for src, san, _, _ in wants]
    ctx.compile([["g++"] + [f for f in SAN[san] if "sanitize=" in f] + ["%s.o" % e, b + "/redir.o"] + ([b + "/delays.o"] if delays else []) + ["-o", e, "-lpthread"] + list(link)
                 for e, (src, san, delays, link) in zip(exes, wants)])
    return exes
def run_rt(ctx, exe, mode, san, quick, thorough, budget=(200, 700)):
    n = thorough if THOROUGH else quick
    rc, out, err = ctx.run([exe, mode, str(SEED), str(n), ctx.scratch + "/" + mode], env=dict(ENV[san], RT_BUDGET=str(budget[1 if THOROUGH else 0])), timeout=860)
    if rc not in (0, 1): raise CheckError("monitor %s ended with %s: %s" % (mode, rc, err[-1500:]))
    return rc
def build_pool(ctx, level):
    b, v = ctx.build, ROOT + "/rt"; src = ["-DLEVEL", "-O0"] if level else ["-O2"]
    ctx.compile([["g++", "-std=c++2a", "-O1", "-g", "-w", "-c", v + "/delays.cpp", "-o", b + "/delays.o"],
                 ["g++", "-std=c++2a", "-O2", "-g", "-w", "-c", v + "/pmhook.cpp", "-o", b + "/pmhook.o"],
                 ["g++", "-std=c++2a", "-g", "-w", "-fsanitize-coverage=trace-pc"] + src + RT + ["-c", v + "/pool.cpp", "-o", b + "/pool.o"]])
    ctx.compile([["g++", "-rdynamic", b + "/pool.o", b + "/pmhook.o", b + "/delays.o", "-o", b + "/pool", "-Wl,--no-as-needed", "-lpmemobj", "-lpthread", "-ldl"]])
    return b + "/pool"
def cov(ctx, rule):
    return dict(evaluations=tot(ctx, "cases", "inputs"), distinct_nontrivial=tot(ctx, "distinct"), rule=rule)

@check("C03")
def c03(ctx):
    exe, = build_rt(ctx, [("seq", "", False, [])])
    run_rt(ctx, exe, "seq", "", 24000, 400000)
    return cov(ctx, "a case is one single-threaded run of up to some thousand operations on a fresh map, every result, every size and the final contents compared with std::unordered_map, and the size of every table with a bound on the keys inserted; hash functions, key patterns, capacities, values and operation mixes are random; distinct by hash of capacity and updating operations")
@check("C10", assumptions=["operations are issued through the public interface with non-reserved keys and values", "AddressSanitizer, UndefinedBehaviorSanitizer and the mapping monitor define what is detected"])
def c10(ctx):
    seq, st, hs = build_rt(ctx, [("seq", "asan", False, []), ("stress", "asan", True, []), ("hash", "asan", False, ["-ldl"])])
    if run_rt(ctx, st, "asan", "asan", 6000, 120000, (60, 300)): pass
    elif run_rt(ctx, seq, "seqasan", "asan", 2500, 60000, (60, 250)): pass
    else: run_rt(ctx, hs, "hashasan", "asan", 64, 2000, (60, 100))
    return cov(ctx, "AddressSanitizer and UndefinedBehaviorSanitizer watch multi-threaded runs with random delays, recoveries and destruction, and single-threaded runs over all hash functions and key patterns; tables lie between inaccessible pages with poisoned slack, unmapped tables stay inaccessible, and every mmap/munmap is checked against the mappings that exist; distinct by plan or sequence")
@check("C18")
def c18(ctx):
    b = ctx.build; base = ["g++", "-std=c++2a", "-O2", "-g", "-w"] + RT + [ROOT + "/rt/hash.cpp", "-ldl", "-o"]
    ctx.compile([base + [b + "/hash"], base[:4] + ["-DXXH_VECTOR=0"] + base[4:] + [b + "/hash0"]])
    if not run_rt(ctx, b + "/hash", "hash", "", 2000, 60000): run_rt(ctx, b + "/hash0", "hash", "", 300, 6000)
    return cov(ctx, "a case is 40 inputs of random length (0 to 200000 bytes, also over 4 GiB), content, alignment and seed, each hashed through the one-call overloads and through streaming states with random splits, copies, assignments and resets, and compared with independent implementations of XXH32 and XXH64 (checked against libxxhash when it is installed); XXH3 streaming is compared with one call; distinct by (length, seed, alignment)")
@check("C11", assumptions=["ThreadSanitizer's happens-before race detection on the executions that ran"])
def c11(ctx):
    st, = build_rt(ctx, [("stress", "tsan", True, [])])
    run_rt(ctx, st, "tsan", "tsan", 12000, 200000)
    return cov(ctx, "ThreadSanitizer watches 2-6 real threads with random delays on the ucf and stl containers and on PMap itself, through resizes, counting and recoveries; the shared mappings never reuse an address; distinct by plan")

POOL = "each case is one or more lifetimes of a pool, each in a process of its own, with 1-6 real threads and random delays at basic blocks; every element's history, with the contents read back at the end, is checked for linearizability. "
PMN = ["persistence model in rt/pmhook.cpp: what libpmemobj flushes reaches persistent memory at the next fence of the same thread; of the unflushed lines none, some or all survive", "libpmemobj itself is the installed library"]
def pool(prop, level, mode, quick, thorough, extra, lvl="exploration", assumptions=()):
    @check(prop, lvl, list(assumptions))
    def fn(ctx):
        run_rt(ctx, build_pool(ctx, level), mode, "", quick, thorough, (150, 700))
        return cov(ctx, POOL + extra + "distinct by history")
pool("C14", False, "pmlin", 12000, 150000, "count() is compared with the elements found whenever no operation runs. ")
pool("C15", False, "pmcrash", 4000, 40000, "Crash images are taken at random flushes and fences; each is reopened, read, counted, used and possibly crashed again. ", "fault_enumeration", PMN)
ONE = ["no two threads insert or erase one element at the same time", "erases and the movement of elements to a new level exclude each other (known finding)"]
pool("C16", True, "levlin", 7000, 60000, "Elements collide so that the table expands in the background; an entry given back to the allocator twice is a violation. ", assumptions=ONE)
pool("C17", True, "levcrash", 5000, 40000, "One thread uses the table while the expansion thread works; crash images are taken at random flushes and fences of either, half of those while elements are moved at the moves themselves; each is reopened, read, used and possibly crashed again. ", "fault_enumeration", PMN + ONE)

@check("C13", assumptions=E1_NOTE[:1] + PM_NOTE[:1])
def c13(ctx):
    b, v = ctx.build, ROOT + "/e1"
    ctx.compile([["g++", "-std=c++2a", "-O1", "-g", "-w", "-fsanitize=thread", "-fno-pie", "-pthread", "-include", v + "/shim.h", "-I" + v] + INC + ["-c", v + "/prim_tu.cpp", "-o", b + "/prim_tu.o"],
                 ["g++", "-std=c++20", "-O2", "-g", "-w", "-fno-pie", "-c", v + "/engine.cpp", "-o", b + "/engine.o"],
                 ["g++", "-std=c++20", "-O2", "-g", "-w", "-fno-pie", "-I" + v, "-c", v + "/prim.cpp", "-o", b + "/prim.o"]])
    ctx.compile([["g++", "-no-pie", "-rdynamic", b + "/prim_tu.o", b + "/engine.o", b + "/prim.o", "-ldl", "-lpthread", "-o", b + "/prim"]])
    if not run_rt(ctx, b + "/prim", "ranges", "", 2400, 30000, (60, 200)): run_rt(ctx, b + "/prim", "words", "", 3000000, 25000000, (120, 500))
    return cov(ctx, "ranges: the flushes and fences issued for 400 random addresses and lengths (0 to over 4 GiB, biased to the edges of lines and pages) are recorded and compared with the lines of the range; words: 2-4 threads under the seeded scheduler run pcas, pcas_read and hand-flagged writes on 1-3 words, integers and pointers; at each return the value reported is compared with the persistent image, and the history of each word, half of the time cut by a crash, is checked for (durable) linearizability; non-trivial are ranges distinct by (length, offset in page) and cases whose operations overlapped, distinct by (history, schedule)")

def build_contract(ctx, which):
    b, v = ctx.build, ROOT + "/rt"; plain = ["g++", "-std=c++2a", "-g", "-w", "-c"]
    jobs = [plain + ["-O1", v + "/delays.cpp", "-o", b + "/delays.o"], plain + ["-O2", v + "/pmhook.cpp", "-o", b + "/pmhook.o"], plain + ["-O1", "-fno-tree-loop-distribute-patterns", v + "/redir.cpp", "-o", b + "/redir.o"]]
    for x in which: jobs.append(plain + ["-O1", "-fsanitize-coverage=trace-pc"] + (["-D" + x] if x else []) + RT + [v + "/contract.cpp", "-o", "%s/contract%s.o" % (b, x)])
    ctx.compile(jobs)
    ctx.compile([["g++", "-rdynamic", "%s/contract%s.o" % (b, x), b + ("/pmhook.o" if x else "/redir.o"), b + "/delays.o", "-o", "%s/contract%s" % (b, x), "-Wl,--no-as-needed"] + (["-lpmemobj", "-ldl"] if x else []) + ["-lpthread"] for x in which])
    return ["%s/contract%s" % (b, x) for x in which]
@check("C12", assumptions=["no two operations on one element at the same time", "in clevel, erases and the movement of elements to a new level exclude each other (known finding of C16)"])
def c12(ctx):
    u, p, l = build_contract(ctx, ["", "PM", "LEVEL"])
    if run_rt(ctx, u, "contract", "", 20000, 300000, (60, 300)): pass
    elif run_rt(ctx, p, "contract", "", 5000, 40000, (50, 200)): pass
    else: run_rt(ctx, l, "contract", "", 5000, 30000, (50, 200))
    return cov(ctx, "a case is a random sequence of interface operations on a fresh container (ucf, stl, pm, clevel), by one thread or by 2-6 threads with random delays that use elements of their own, each result compared with an ordinary map, the contents and the count read back at the end of each phase; distinct by plan and elements")
@check("C19")
def c19(ctx):
    u, = build_contract(ctx, [""])
    run_rt(ctx, u, "stllin", "", 24000, 500000)
    return cov(ctx, "a case is a history of 2-6 real threads with random delays at basic blocks, ending with all contents read back; with up to 4 elements the history of the whole map including count() is checked for linearizability, with more each element's history, and count() at the end; distinct by history, of those in which operations overlapped")

# ------------------------------------------------------------------ descriptions for MANIFEST.json
NOT_APPLICABLE = {}
_SCHED = "runtime monitoring: instrumented real code under a seeded adversarial scheduler, "
_E1N = "Exploration: hundreds of thousands of distinct monitored executions per run of the real code; no claim beyond the schedules, programs and crash points executed. Trusts the scheduler and persistence model in e1/engine.cpp and the checker in e1/history.h."
DESCR = {
 "C01": (_SCHED + "online linearizability checker per key", _E1N),
 "C02": (_SCHED + "linearizability checker with increments in the specification", _E1N),
 "C04": (_SCHED + "linearizability checker over growth-heavy histories", _E1N),
 "C05": (_SCHED + "size/contents monitor at quiescence and after recovery", _E1N),
 "C06": (_SCHED + "monitored persistence model with injected crashes, durable linearizability checker", _E1N),
 "C07": (_SCHED + "monitored persistence model with injected crashes, durable linearizability checker", _E1N),
 "C08": (_SCHED + "repeated injected crashes (also in recovery), durable linearizability and usability monitors", _E1N),
 "C03": ("runtime monitoring: comparison with a reference map after every operation, on generated sequences", "Exploration: tens of millions of operations per run compared one by one; no claim beyond the sequences executed."),
 "C18": ("runtime monitoring: every hash compared with an independent reference implementation on generated inputs", "Exploration: millions of comparisons; the reference is written from the specification and cross-checked with libxxhash where present. XXH3 is checked for self-consistency only."),
 "C10": ("AddressSanitizer + UndefinedBehaviorSanitizer + mapping monitor under stress with injected delays", "Exploration: what the sanitizers see in the executions that ran."),
 "C11": ("ThreadSanitizer under stress with injected delays", "Exploration: happens-before races in the executions that ran."),
 "C14": ("runtime monitoring: real threads with injected delays, linearizability checker per element, count monitor", "Exploration: the executions that ran."),
 "C15": ("runtime monitoring: interposed persistence model, injected crash images reopened in fresh processes, durable linearizability checker", "Exploration of crash points and of which unflushed lines survive; trusts the persistence model and libpmemobj."),
 "C16": ("runtime monitoring: real threads with injected delays, linearizability checker per element, double-free monitor", "Exploration: the executions that ran; erases do not overlap the movement of elements (known finding)."),
 "C17": ("runtime monitoring: interposed persistence model, injected crash images reopened in fresh processes, durable linearizability checker, double-free monitor", "Exploration of crash points and of which unflushed lines survive; trusts the persistence model and libpmemobj."),
 "C12": ("runtime monitoring: every result compared with a reference map, one thread and threads with elements of their own under injected delays", "Exploration: the sequences executed."),
 "C19": ("runtime monitoring: real threads with injected delays, linearizability checker over the whole map including count()", "Exploration: the executions that ran."),
 "C13": (_SCHED + "recorded flushes and fences compared with the ranges, monitored persistence model, linearizability checker per word", "Exploration: millions of ranges and of monitored executions; trusts the scheduler and persistence model in e1/engine.cpp."),
 "C09": (_SCHED + "injected thread stops and a step-bound monitor per operation", _E1N),
}
