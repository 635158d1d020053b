"""Common machinery of the checks: recording real calls, TLC runs, verdicts.

A check generates calls (op, a, s) - op names an entry of ops.OPS, a is a tuple
of integers, s a tuple of strings -, makes each against the code of /repo, and
records one event per call: arguments, whether it returned or raised, and the
observed result projected to integers and strings.  TLC then decides each event
with the operator Verdict of spec/Conform.tla; a verdict is a set of names of
violated clauses and a set of names of recognised deviations.
"""
import json, os, re, shutil, subprocess, sys, tempfile, time, random, hashlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
REPO = "/repo"
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
NPROC = 8
BADINT = -2000000001
LIM = 2**31 - 1


class MachineryError(Exception):
    pass


def I(x):
    """Project to a TLC integer; anything that is not a whole number in range
    becomes a value no specification term ever has."""
    if x is True:
        return 1
    if x is False:
        return 0
    if isinstance(x, int):
        return x if -2000000000 <= x <= LIM else BADINT
    if isinstance(x, float):
        return int(x) if x == x and abs(x) < 2e9 and x == int(x) else BADINT
    return BADINT


def E(x):
    """Project text: printable ASCII stays, everything else becomes {hex}."""
    if not isinstance(x, str):
        return "{%s}" % type(x).__name__
    return "".join(c if " " <= c <= "~" and c not in '{}\\"' else "{%x}" % ord(c) for c in x)


def call(fn, a, s):
    """Make one real call and record it."""
    try:
        out = fn(a, s)
        r, t = out if isinstance(out, tuple) and len(out) == 2 and isinstance(out[1], list) else (out, [])
        return dict(ok=1, ex="", r=[I(v) for v in r], t=[E(v) for v in t])
    except RecursionError:
        return dict(ok=0, ex="RecursionError", r=[], t=[])
    except Exception as e:          # noqa - every error is an observation
        return dict(ok=0, ex=type(e).__name__, r=[], t=[])


def java_env():
    env = dict(os.environ)
    env.pop("JAVA_TOOL_OPTIONS", None)
    return env


def tlc(module, cfg, scratch, workers=2, heap="2g", extra=(), env=None, timeout=800):
    """Run TLC on spec/<module>.tla with spec/<cfg>.cfg; return its output."""
    meta = tempfile.mkdtemp(prefix="tlc", dir=scratch)
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss16m", "-XX:ParallelGCThreads=2", "-cp", JARS, "tlc2.TLC",
           "-workers", str(workers), "-metadir", meta, "-config", os.path.join(SPEC, cfg + ".cfg"),
           "-noTE", *extra, os.path.join(SPEC, module + ".tla")]
    e = java_env()
    e.update(env or {})
    p = subprocess.run(cmd, cwd=scratch, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True, timeout=timeout)
    return p.returncode, p.stdout


def tlc_stats(out):
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
    if not m:
        return 0, 0
    return int(m.group(2)), int(m.group(1))


def model_check(module, cfg, scratch, workers=8, heap="4g", timeout=800):
    """Exhaustive check of a specification model: must succeed on its own."""
    rc, out = tlc(module, cfg, scratch, workers, heap, timeout=timeout)
    if rc != 0 or "No error has been found" not in out:
        tail = "\n".join(l for l in out.splitlines() if "Error" in l or "violated" in l)[:2000]
        raise MachineryError("model %s/%s does not check: rc=%s\n%s\n%s" % (module, cfg, rc, tail, out[-1500:]))
    d, g = tlc_stats(out)
    return dict(model="%s/%s" % (module, cfg), states=d, transitions=g)


def model_refutes(module, cfg, scratch):
    """A model of a known mistake: its invariants must be able to see it."""
    rc, out = tlc(module, cfg, scratch, 4, "3g")
    if "is violated" not in out:
        raise MachineryError("model %s/%s should be refuted: rc=%s\n%s" % (module, cfg, rc, out[-800:]))
    return dict(model="%s/%s" % (module, cfg), refuted=re.search(r"Invariant (\w+) is violated", out).group(1))


FAIL = re.compile(r'<<\s*"FAIL",\s*(\d+),\s*(\{.*?\}),\s*(\{.*?\})\s*>>', re.S)


def validate(files, scratch, module="Conform", cfg="Conform", jvms=4, heap="3g", env=None):
    """Let TLC decide the events of the given trace files. Returns a list of
    (file, index from 0, clauses, deviations)."""
    procs = []
    fails = []
    states = 0
    from concurrent.futures import ThreadPoolExecutor

    def one(f):
        n = sum(1 for _ in open(f))
        if n == 0:
            return f, 0, 0, ""
        rc, out = tlc(module, cfg, scratch, workers=2, heap=heap, env={"TRACE": f, **(env or {}).get(f, {})})
        return f, n, rc, out
    with ThreadPoolExecutor(jvms) as ex:
        for f, n, rc, out in ex.map(one, files):
            if n == 0:
                continue
            if rc != 0 or "No error has been found" not in out:
                i = out.find("Error")
                raise MachineryError("TLC could not decide %s (rc %s):\n%s" % (f, rc, out[max(0, i-200):i+500]))
            d, g = tlc_stats(out)
            if d != n:
                raise MachineryError("TLC decided %d of %d events of %s" % (d, n, f))
            states += d
            strs = lambda x: sorted(re.findall(r'"([^"]*)"', re.sub(r"\s+", " ", x)))
            found = FAIL.findall(out)
            if len(found) != out.count('"FAIL"'):
                raise MachineryError("unreadable verdicts on %s" % f)
            for i, c, d in found:
                fails.append((f, int(i) - 1, strs(c), strs(d)))
    return fails, states


def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    try:
        return json.load(open(p))
    except FileNotFoundError:
        return {"findings": [], "fixed": []}


class Report:
    """Collects violations and deviations of one check and ends it."""
    def __init__(self, pid, tier, level):
        self.pid, self.tier, self.level = pid, tier, level
        self.t0 = time.time()
        self.violations = []          # dicts
        self.deviations = {}          # name -> example
        self.coverage = {}
        self.assumptions = []
        self.notes = []

    def violation(self, what, data):
        self.violations.append(dict(what=what, data=data))

    def finish(self):
        known = {k["id"]: k for k in load_known()["findings"] if k["property"] == self.pid}
        outdir = os.path.join(VERIF, "out", self.pid)
        shutil.rmtree(outdir, ignore_errors=True)
        os.makedirs(outdir, exist_ok=True)
        for name, ex in sorted(self.deviations.items()):
            if name in known:
                print("KNOWN-FINDING: property=%s %s: %s" % (self.pid, name, known[name]["what"]))
            else:
                self.violation("deviation " + name + " is not listed", ex)
        ev = dict(property=self.pid, tier=self.tier, seed=SEED, level=self.level, coverage=self.coverage,
                  wall_s=round(time.time() - self.t0, 2), violations=len(self.violations),
                  assumptions=self.assumptions)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        if not self.violations:
            print("OK property=%s tier=%s %s wall=%.1fs" % (self.pid, self.tier, json.dumps(
                {k: v for k, v in self.coverage.items() if isinstance(v, int)}), time.time() - self.t0))
            return 0
        for i, v in enumerate(self.violations[:5]):
            p = os.path.join(outdir, "replay-%d.json" % (i + 1))
            with open(p, "w") as f:
                json.dump(dict(property=self.pid, **v), f, indent=1)
            print("  %s" % v["what"])
            print("VIOLATION property=%s replay=%s" % (self.pid, p))
        if len(self.violations) > 5:
            print("  ... and %d more" % (len(self.violations) - 5))
        return 1
