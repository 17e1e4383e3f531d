#!/usr/bin/env python3
"""check.py <property> : builds the monitors for one property from /repo's working tree, runs them, writes evidence."""
import json, os, re, shutil, signal, subprocess, sys, tempfile, time
ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"
T0 = time.time()
sys.path.insert(0, ROOT)

class BuildError(Exception): pass
class CheckError(Exception): pass

class Ctx:
    """Scratch space and helpers of one run."""
    def __init__(self, prop):
        self.prop = prop
        os.makedirs(ROOT + "/.build", exist_ok=True)
        self.build = tempfile.mkdtemp(prefix=prop + "-", dir=ROOT + "/.build")
        shm = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else ROOT + "/.build"
        self.scratch = tempfile.mkdtemp(prefix="verif-" + prop + "-", dir=shm)
        self.stats = []       # one dict per monitored run
        self.samples = []
        self.found = []       # (where, message, detail)
        self.extra = {}
    def close(self):
        for d in (self.build, self.scratch):
            shutil.rmtree(d, ignore_errors=True)
    def compile(self, jobs):
        """jobs: list of argv; run in parallel, in REPO."""
        ps = []
        for j in jobs:
            log = tempfile.TemporaryFile(dir=self.build)
            ps.append((j, log, subprocess.Popen(j, cwd=REPO, stdout=log, stderr=subprocess.STDOUT)))
        bad = None
        for j, log, p in ps:
            if p.wait() != 0 and not bad:
                log.seek(0)
                bad = "%s\n%s" % (" ".join(j), log.read().decode(errors="replace")[-4000:])
        if bad: raise BuildError(bad)
    def run(self, argv, env=None, timeout=800, name=None, ok_codes=(0, 1), crash_is_violation=False):
        """Runs a monitor. Its stdout has one JSON line of measured counts, SAMPLE lines, and FOUND blocks."""
        e = dict(os.environ); e.update(env or {})
        out = tempfile.TemporaryFile(dir=self.build); err = tempfile.TemporaryFile(dir=self.build)
        p = subprocess.Popen(argv, stdout=out, stderr=err, env=e, cwd=self.scratch, start_new_session=True)
        hung = False
        try: p.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            hung = True
            os.killpg(p.pid, signal.SIGKILL); p.wait()
        try: os.killpg(p.pid, signal.SIGKILL)
        except OSError: pass
        out.seek(0); err.seek(0)
        o = out.read().decode(errors="replace"); er = err.read().decode(errors="replace")
        self.parse(o, name or os.path.basename(argv[0]), argv)
        return (-99 if hung else p.returncode), o, er
    def parse(self, o, name, argv):
        lines = o.split("\n"); i = 0
        while i < len(lines):
            l = lines[i]
            if l.startswith("{"):
                try: self.stats.append(json.loads(l))
                except ValueError: pass
            elif l.startswith("SAMPLE "): self.samples.append(l[7:])
            elif l.startswith("FOUND "):
                self.found.append((" ".join(argv), l[6:], "\n".join(lines[i + 1:])[:40000])); return
            i += 1

def known_findings(prop):
    out = []
    p = ROOT + "/known_findings.txt"
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) match=/(.*)/ (.*)", l.strip())
            if m and m.group(1) == prop: out.append((re.compile(m.group(2)), m.group(3)))
    return out

def main():
    prop = sys.argv[1]
    import registry
    fn, level = registry.CHECKS[prop]
    ctx = Ctx(prop)
    code = 0
    try:
        try:
            cov = fn(ctx)
        except BuildError as e:
            print("cannot build the monitors from %s:\n%s" % (REPO, e)); return 2
        except CheckError as e:
            print("check error: %s" % e); return 2
        known = known_findings(prop)
        real = []
        for f in ctx.found:
            if any(rx.search(f[1]) for rx, _ in known): continue
            real.append(f)
        for rx, what in known: print("KNOWN-FINDING: property=%s %s" % (prop, what))
        if real:
            os.makedirs(ROOT + "/out", exist_ok=True)
            path = "%s/out/%s-seed%d.txt" % (ROOT, prop, SEED)
            with open(path, "w") as f:
                for cmd, msg, detail in real:
                    f.write("property %s, seed %d, tier %s\nmonitor: %s\n%s\n%s\n\n" % (prop, SEED, TIER, cmd, msg, detail))
                f.write("To repeat: cd %s && VERIF_SEED=%d VERIF_TIER=%s python3 check.py %s\n" % (ROOT, SEED, TIER, prop))
            print(real[0][1][:600])
            print("VIOLATION property=%s replay=%s" % (prop, path))
            code = 1
        cov.setdefault("samples", ctx.samples[:6] or ["none"])
        cov.setdefault("runs", ctx.stats)
        ev = dict(property=prop, tier="thorough" if THOROUGH else "quick", seed=SEED, level=level, coverage=cov,
                  assumptions=registry.ASSUMPTIONS.get(prop, []), wall_s=round(time.time() - T0, 1), violations=len(real))
        os.makedirs(ROOT + "/evidence", exist_ok=True)
        with open("%s/evidence/%s.json" % (ROOT, prop), "w") as f: json.dump(ev, f, indent=1)
        if code == 0:
            print("%s: held on %d evaluations (%d distinct non-trivial) in %.1f s" % (prop, cov["evaluations"], cov["distinct_nontrivial"], time.time() - T0))
        return code
    finally:
        ctx.close()

if __name__ == "__main__":
    sys.exit(main())
