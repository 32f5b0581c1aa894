"""Running the code under test, running TLC, and reporting."""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
SPEC = os.path.join(ROOT, "spec")
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python"
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CORES = min(8, os.cpu_count() or 8)


class MachineryError(Exception):
    pass


class Enough(Exception):
    """A violation is established; the remaining stages need not run."""


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.scratch = tempfile.mkdtemp(prefix="vgmv-")
        self.states = self.transitions = self.traces = self.events = 0
        self.violations = []          # (description, payload)
        self.skipped = self.hangs = 0
        self.keep_going = bool(os.environ.get("VERIF_KEEP_GOING"))
        self.notes = []
        self.samples = []
        self.known = []
        self.other = {}
        self.parts = {}
        self.models = []
        self.t0 = time.time()

    def close(self):
        shutil.rmtree(self.scratch, ignore_errors=True)


# ------------------------------------------------------------ code under test --
def execute(ctx, jobs, procs=CORES):
    """Run jobs through driver.py in parallel; results in job order."""
    if not jobs:
        return []
    n = min(procs, len(jobs))
    d = tempfile.mkdtemp(dir=ctx.scratch)
    groups = [list(range(i, len(jobs), n)) for i in range(n)]
    env = {k: v for k, v in os.environ.items() if k not in ("PYTHONPATH", "PYTHONHOME")}
    env.update(PYTHONDONTWRITEBYTECODE="1", PYTHONNOUSERSITE="1",
               VERIF_SRC=os.path.join(REPO, "src"), VERIF_SCRATCH=d,
               PYTHONHASHSEED="0", VERIF_HANGS=str(ctx.hangs))
    ps = []
    for g, idx in enumerate(groups):
        jf, of = os.path.join(d, "j%d" % g), os.path.join(d, "o%d" % g)
        with open(jf, "w") as f:
            json.dump([jobs[i] for i in idx], f)
        ps.append((subprocess.Popen([PY, os.path.join(HERE, "driver.py"), jf, of], env=env,
                                    stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL,
                                    stderr=subprocess.PIPE), of, idx))
    t0 = time.time()
    res = [None] * len(jobs)
    for p, of, idx in ps:
        _, err = p.communicate()
        if p.returncode != 0:
            raise MachineryError("driver failed: " + err.decode()[-500:])
        with open(of) as f:
            lines = f.read().splitlines()
        if len(lines) != len(idx):
            raise MachineryError("driver lost results")
        for i, ln in zip(idx, lines):
            res[i] = json.loads(ln)
    shutil.rmtree(d, ignore_errors=True)
    if os.environ.get("VERIF_TIMES"):
        print("    execute %s: %d jobs, %.1f s" % (jobs[0]["job"], len(jobs), time.time() - t0))
    return res


# ------------------------------------------------------------------------ TLC --
def java(ctx, args, env=None, timeout=3000, heap="3g"):
    meta = tempfile.mkdtemp(dir=ctx.scratch)
    cmd = ["java", "-Xmx" + heap, "-Xss16m", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2",
           "-Djava.io.tmpdir=" + meta, "-cp", JARS, "tlc2.TLC", "-noGenerateSpecTE",
           "-metadir", meta] + args
    e = dict(os.environ)
    e.update(env or {})
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=timeout)
        return r.returncode, r.stdout.decode("utf-8", "replace")
    except subprocess.TimeoutExpired as x:
        return 99, (x.stdout or b"").decode("utf-8", "replace") + "\nTIMEOUT"
    finally:
        shutil.rmtree(meta, ignore_errors=True)


BADRE = re.compile(r'^"BAD (\d+) (\d+) (.*)"\s*$', re.M)
FINRE = re.compile(r'^"FIN (\d+)"\s*$', re.M)
GENRE = re.compile(r"([\d,]+) states generated, ([\d,]+) distinct states found")
SIMRE = re.compile(r"The number of states generated: ([\d,]+)")


def counts(out):
    m = None
    for m in GENRE.finditer(out):
        pass
    if m:
        return int(m.group(1).replace(",", "")), int(m.group(2).replace(",", ""))
    m = SIMRE.search(out)
    if m:
        n = int(m.group(1).replace(",", ""))
        return n, n
    return 0, 0


def validate(ctx, spec, cases, weight=None):
    """Check recorded cases against a trace specification with TLC.
    Returns {case id: {event index: set(clauses)}}."""
    if not cases:
        return {}
    t0 = time.time()
    for i, c in enumerate(cases):
        c["id"] = i + 1
    w = [weight(c) if weight else 1 + len(c.get("ev", [])) for c in cases]
    nsh = max(1, min(CORES, len(cases), 1 + sum(w) // 200))
    order = sorted(range(len(cases)), key=lambda i: -w[i])
    shards, load = [[] for _ in range(nsh)], [0] * nsh
    for i in order:
        k = load.index(min(load))
        shards[k].append(i)
        load[k] += w[i]
    d = tempfile.mkdtemp(dir=ctx.scratch)

    def one(k):
        path = os.path.join(d, "t%d.json" % k)
        with open(path, "w") as f:
            json.dump([cases[i] for i in shards[k]], f, separators=(",", ":"))
        return java(ctx, ["-workers", "1", "-config", spec + ".cfg", spec + ".tla"],
                    env={"TRACE_FILE": path})

    with ThreadPoolExecutor(nsh) as ex:
        outs = list(ex.map(one, range(nsh)))
    if os.environ.get("VERIF_TIMES"):
        print("    validate %s: %d cases, %.1f s" % (spec, len(cases), time.time() - t0))
    bad, fin = {}, set()
    for k, (rc, out) in enumerate(outs):
        if rc != 0 or "Model checking completed. No error" not in out:
            keep = os.path.join(tempfile.gettempdir(), "vgmv-tlc-failure.txt")
            with open(keep, "w") as f:
                f.write(out)
            raise MachineryError("TLC failed on %s (rc %d), output in %s: %s"
                                 % (spec, rc, keep, out[-1500:]))
        g, s = counts(out)
        ctx.transitions += g
        ctx.states += s
        for m in BADRE.finditer(out):
            cl = set(re.findall(r'\\?"([A-Za-z0-9]+)\\?"', m.group(3)))
            bad.setdefault(int(m.group(1)), {}).setdefault(int(m.group(2)), set()).update(cl)
        fin |= {int(m.group(1)) for m in FINRE.finditer(out)}
    if fin != set(range(1, len(cases) + 1)):
        miss = sorted(set(range(1, len(cases) + 1)) - fin)[:5]
        raise MachineryError("%s did not finish cases %s" % (spec, miss))
    shutil.rmtree(d, ignore_errors=True)
    ctx.traces += len(cases)
    return bad


def model(ctx, module, cfg=None, workers=None, args=(), env=None, heap="6g", timeout=2400):
    """Model-check a design specification; it must hold (it does not depend on
    /repo).  Returns TLC's output."""
    cfg = cfg or module
    t0 = time.time()
    rc, out = java(ctx, ["-workers", str(workers or CORES), "-config", cfg + ".cfg",
                         *args, module + ".tla"], env=env, heap=heap, timeout=timeout)
    if os.environ.get("VERIF_TIMES"):
        print("    model %s: %.1f s" % (module, time.time() - t0))
    ok = rc == 0 and ("No error has been found" in out or "-simulate" in args)
    if not ok:
        raise MachineryError("design check of %s (%s) failed rc %d: %s"
                             % (module, cfg, rc, out[-2500:]))
    g, s = counts(out)
    ctx.transitions += g
    ctx.states += s
    ctx.models.append({"module": module, "config": cfg, "generated": g, "distinct": s})
    return out


def make_params(ctx, doc):
    """A parameter file for a model."""
    fd, path = tempfile.mkstemp(suffix=".json", dir=ctx.scratch)
    with os.fdopen(fd, "w") as f:
        json.dump(doc, f)
    return path


def generate(ctx, module, cfg=None, params=None, num=None, depth=None, seed=None, workers=1):
    """Behaviours of a specification, printed by TLC as  "GEN <json>"  lines."""
    args = []
    if num:
        args = ["-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(seed)]
    out = model(ctx, module, cfg, workers=workers, args=args,
                env={"GEN_FILE": make_params(ctx, params or {})})
    res = []
    for ln in out.splitlines():
        if ln.startswith('"GEN '):
            res.append(json.loads(json.loads(ln)[4:]))
    return res


# ------------------------------------------------------------------- reporting --
def report_violation(ctx, what, payload):
    ctx.violations.append((what, payload))


def known_findings(prop):
    """{id: text} of the findings KNOWN_FINDINGS lists for this property."""
    out = {}
    with open(os.path.join(ROOT, "KNOWN_FINDINGS")) as f:
        for ln in f:
            m = re.match(r"known: property=(\S+) id=(\S+) (.*)", ln)
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3).strip()
    return out


def replay_path(ctx, n):
    d = os.path.join(ROOT, "replays")
    os.makedirs(d, exist_ok=True)
    return os.path.join(d, "%s-%d.json" % (ctx.prop, n))


def finish(ctx, level="model_checking", rule=""):
    """Evidence file, verdict lines, exit status."""
    cov = {"states": ctx.states, "transitions": ctx.transitions,
           "traces_validated_against_impl": ctx.traces,
           "samples": ctx.samples[:6], "recorded_events": ctx.events,
           "stages": ctx.parts, "design_models": ctx.models}
    if rule:
        cov["rule"] = rule
    if ctx.skipped:
        cov["cases_skipped_after_repeated_hangs"] = ctx.skipped
    if ctx.other:
        cov["clauses_of_other_properties_seen"] = ctx.other
    ev = {"property": ctx.prop, "tier": ctx.tier, "seed": ctx.seed, "level": level,
          "coverage": cov, "wall_s": round(time.time() - ctx.t0, 2),
          "violations": len(ctx.violations),
          "assumptions": [
              "TLC and the CommunityModules evaluate the specification correctly",
              "harness/project.py reads the public attributes and output files faithfully",
              "implementation behaviour between two observations is not compared"]}
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", ctx.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k in ctx.known:
        print("KNOWN-FINDING: property=%s %s" % (ctx.prop, k))
    for n, (what, payload) in enumerate(ctx.violations[:5]):
        p = replay_path(ctx, n)
        with open(p, "w") as f:
            json.dump({"property": ctx.prop, "what": what, **payload}, f)
        print("  " + what)
        print("VIOLATION property=%s replay=%s" % (ctx.prop, p))
    if len(ctx.violations) > 5:
        print("  ... %d further violations" % (len(ctx.violations) - 5))
    print("%s %s: %d traces, %d states, %.1f s, %d violations"
          % (ctx.prop, ctx.tier, ctx.traces, ctx.states, time.time() - ctx.t0,
             len(ctx.violations)))
    sys.stdout.flush()
    return 1 if ctx.violations else 0
