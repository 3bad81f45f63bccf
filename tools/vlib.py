"""Common machinery of the checks: building the harness, running TLC, evidence, findings."""
import concurrent.futures as cf
import glob, hashlib, json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
TARGET = os.path.join(VERIF, "target")
WORK = os.path.join(VERIF, "work")
SPEC = os.path.join(VERIF, "spec")
BIN = os.path.join(TARGET, "debug", "rgbverif")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CORES = os.cpu_count() or 4


class ToolError(Exception):
    pass


class HarnessPanic(Exception):
    """The harness was brought down: it never is on the unchanged tree."""


# ---------------------------------------------------------------- build

def _tree_hash():
    h = hashlib.sha256()
    roots = [os.path.join(REPO, d) for d in ("src", "invoice", "stl")] + [os.path.join(VERIF, "harness")]
    files = [os.path.join(REPO, f) for f in ("Cargo.toml", "Cargo.lock")]
    for r in roots:
        for d, ds, fs in os.walk(r):
            ds[:] = sorted(x for x in ds if x not in ("target", ".git"))
            files += [os.path.join(d, f) for f in sorted(fs)]
    for f in files:
        if os.path.isfile(f):
            h.update(f.encode() + b"\0")
            with open(f, "rb") as fd:
                h.update(fd.read())
            h.update(b"\0")
    return h.hexdigest()


def build():
    """Builds the harness from the current working tree of the repository.

    Cargo decides by modification times; the decision is made here by the content instead.
    """
    stamp = os.path.join(TARGET, "rgbverif.stamp")
    want = _tree_hash()
    have = open(stamp).read().strip() if os.path.exists(stamp) else ""
    if have == want and os.path.exists(BIN):
        return
    for pat in ("rgb-std-*", "rgb-invoice-*", "rgbverif-*"):
        for p in glob.glob(os.path.join(TARGET, "debug", ".fingerprint", pat)):
            shutil.rmtree(p, ignore_errors=True)
    if os.path.exists(stamp):
        os.remove(stamp)
    env = dict(os.environ, CARGO_TARGET_DIR=TARGET, CARGO_NET_OFFLINE="true")
    r = subprocess.run(["cargo", "build", "--offline", "--quiet"], cwd=os.path.join(VERIF, "harness"),
                       env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise ToolError("building the harness failed:\n" + r.stdout[-6000:])
    with open(stamp, "w") as f:
        f.write(want)


def harness(*args, timeout=800, env=None):
    r = subprocess.run([BIN, *map(str, args)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                       timeout=timeout, env=dict(os.environ, **(env or {})))
    if r.returncode != 0:
        if "harness error" in r.stderr or r.returncode < 0:
            raise HarnessPanic("%s: exit %s %s" % (args[0], r.returncode, r.stderr[-500:].strip()))
        raise ToolError("harness %s failed (%d): %s" % (args[0], r.returncode, r.stderr[-2000:]))
    return r.stdout


# ---------------------------------------------------------------- TLC

class TlcResult:
    states = 0
    transitions = 0
    output = ""
    violated = None
    lines = 0


def tlc(module, cfg, work, env=None, workers=1, simulate=None, depth=None, seed=None, out=None,
        timeout=800, heap="3g", coverage=False):
    """Runs TLC; printed JSON lines stay in the file `out`."""
    meta = os.path.join(work, "meta-%d-%d" % (os.getpid(), time.time_ns()))
    os.makedirs(meta, exist_ok=True)
    cmd = ["java", "-Djava.io.tmpdir=" + meta, "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xss32m", "-Xmx" + heap, "-cp", CP,
           "tlc2.TLC", "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE", "-config", cfg]
    if simulate:
        cmd += ["-simulate", "num=%d" % simulate, "-depth", str(depth), "-seed", str(seed or 1)]
    if coverage:
        cmd += ["-coverage", "1"]
    cmd.append(os.path.join(SPEC, module + ".tla"))
    out = out or os.path.join(work, "tlc-%d.out" % time.time_ns())
    try:
        with open(out, "w") as fd:
            r = subprocess.run(cmd, stdout=fd, stderr=subprocess.STDOUT, timeout=timeout,
                               env=dict(os.environ, **{k: str(v) for k, v in (env or {}).items()}))
    except subprocess.TimeoutExpired:
        raise ToolError("TLC timed out on %s" % module)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    res = TlcResult()
    res.out = out
    rest = []
    with open(out) as fd:
        for line in fd:
            if line.startswith('"{') or line.startswith('"['):
                res.lines += 1
            else:
                rest.append(line)
    res.output = "".join(rest)
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", res.output)
    if m:
        res.transitions, res.states = int(m.group(1)), int(m.group(2))
    m = re.search(r"The number of states generated: (\d+)", res.output)
    if m:
        res.transitions = res.states = int(m.group(1))
    m = re.search(r"(?:Invariant|Action property|Temporal property|Property) (\S+) (?:is|of|was) ?violated", res.output)
    if m or "is violated" in res.output:
        res.violated = m.group(1) if m else "property"
    elif r.returncode != 0:
        raise ToolError("TLC failed on %s (%d):\n%s" % (module, r.returncode, res.output[-3000:]))
    return res


def cfg_file(work, name, text):
    p = os.path.join(work, name + ".cfg")
    with open(p, "w") as f:
        f.write(text)
    return p


def parallel(jobs, workers=None):
    """Runs thunks, returns their results in order."""
    with cf.ThreadPoolExecutor(max_workers=workers or CORES) as ex:
        fs = [ex.submit(j) for j in jobs]
        return [f.result() for f in fs]


# ---------------------------------------------------------------- results

class Report:
    """What a check has covered and found."""

    def __init__(self):
        self.states = 0
        self.transitions = 0
        self.traces = 0          # transitions/behaviours of the specification replayed into the code
        self.steps = 0
        self.samples = []
        self.violations = []     # dicts: sig, what, replay
        self.extra = {}
        self.assumptions = []

    def add_tlc(self, r):
        self.states += r.states
        self.transitions += r.transitions

    def violation(self, sig, what, replay):
        self.violations.append(dict(sig=sig, what=what, replay=replay))

    def count(self, key, n=1):
        self.extra[key] = self.extra.get(key, 0) + n


def load_findings():
    """known-findings.txt: lines `known: property=<id> sig=<regular expression> :: <what fails>`."""
    res = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) sig=(.*?) :: (.*)", line.strip())
            if m:
                res.append((m.group(1), re.compile(m.group(2)), m.group(3)))
    return res


def finish(prop, tier, seed, level, rep, t0):
    findings = [f for f in load_findings() if f[0] == prop]
    fresh, hit = [], {}
    for v in rep.violations:
        for f in findings:
            if f[1].fullmatch(v["sig"]):
                hit.setdefault(f[2], 0)
                hit[f[2]] += 1
                break
        else:
            fresh.append(v)
    cov = dict(states=rep.states, transitions=rep.transitions, traces_validated_against_impl=rep.traces,
               implementation_steps=rep.steps, samples=rep.samples[:5])
    cov.update(rep.extra)
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov,
              wall_s=round(time.time() - t0, 2), violations=[v["what"][:300] for v in fresh[:20]])
    if rep.assumptions:
        ev["assumptions"] = rep.assumptions
    if hit:
        ev["coverage"]["known_findings_met"] = hit
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for what, n in hit.items():
        print("KNOWN-FINDING: property=%s %s" % (prop, what))
    if not fresh:
        print("OK property=%s states=%d transitions=%d replayed=%d wall=%.1fs" %
              (prop, rep.states, rep.transitions, rep.traces, time.time() - t0))
        return 0
    d = os.path.join(WORK, "replay")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s.json" % (prop, tier))
    with open(path, "w") as f:
        json.dump([dict(sig=v["sig"], what=v["what"], replay=v["replay"]) for v in fresh[:50]], f, indent=1)
    for v in fresh[:5]:
        print("  " + v["what"][:600])
    print("VIOLATION property=%s replay=%s" % (prop, path))
    return 1
