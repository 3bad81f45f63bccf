"""Checks of the stock specification (spec/Stock.tla) against the code."""
import json, os, random, shutil
import vlib, worlds

# properties of the specification itself, per property
SPEC_PROPS = dict(
    S01=(["VisibleOnlyLive", "OwnedSubset", "Referential"], []),
    S02=(["Idempotent", "Commute"], []),
    S03=([], ["Monotone"]),
    S04=(["VisibleOnlyLive", "Referential"], []),
    S05=(["GlobalsOrdered"], []),
    S06=(["OwnedIndexed", "EverythingIndexed"], []),
    S07=(["ExportComplete"], []),
    S08=(["ExportComplete"], []),
    S09=(["ExportComplete"], []),
    S10=([], ["FailNoChange"]),
    C03=(["Referential"], []),
)
# (world, depth for model properties in quick, in thorough)
MC_WORLDS = [("basic", 2, 4), ("rbf", 2, 4), ("multi", 2, 3), ("partial", 2, 4), ("globals", 2, 3),
             ("ext", 3, 6), ("levels", 2, 4)]


def labels(d, minimal):
    """Which properties a divergence speaks against: maps (step, differing components) to ids."""
    res = set()
    act = d["act"].split()[0]
    acts = [a.split()[0] for a in d["path"]]
    entry = ("accept", "acceptf", "fascia")
    for path, _ in d["diffs"]:
        p = path.split("/")
        if "panic" in path:
            res |= dict(accept={"S01", "S02", "S03", "S10", "C03"}, acceptf={"S10"},
                        fascia={"S01", "S02", "S03", "P04"}, refresh={"S04", "S01"}, export={"S07", "S08"},
                        secret={"S09", "S03"}).get(act, set())
            if p[0] == "obs":
                res |= {"S01", "S04", "S05"}
        if p[0] == "ret":
            if act == "export":
                res |= {"S07"}
                if "term" in p or "terms" in p:
                    res |= {"S08"}
                if "fresh" in p and ("own" in p or "out" in p):
                    res |= {"S09"}
                if p[1:2] in (["ok"], ["panic"]):
                    res |= {"S08", "S06"}
            elif act == "refresh":
                res |= {"S04"}
            elif act == "secret":
                res |= {"S09", "S03"}
            elif act in entry:
                res |= {"S02"}
                if p[-1] == "valid":
                    res |= {"C03"}
                if act == "acceptf":
                    res |= {"S10"}
                if minimal:
                    res |= {"S10"}
            p = p[2:] if "fresh" in p else []
        else:
            p = p[1:]
        if not p:
            continue
        k = p[0]
        if k in ("c", "valid"):
            if k == "c" and ("g" in p or len(p) <= 2):
                res |= {"S05"}
            if "g" not in p:
                res |= {"S01"}
                if act == "refresh" or "refresh" in acts:
                    res |= {"S04"}
                if any(a == "secret" for a in acts):
                    res |= {"S09"}
        if k in ("gen", "ext", "bun", "lev", "wit", "sec", "reg"):
            res |= {"S03"}
        if k == "sec":
            res |= {"S09"}
        if k in ("outs", "assigning", "assigningAll", "terms", "opb", "bw"):
            res |= {"S06"}
        if k in ("terms",):
            res |= {"S08", "S09"}
        if k in ("opb", "bw"):
            res |= {"S03"}
        if minimal and act in entry:
            res |= {"S02"}
            if d.get("failed"):
                res |= {"S10"}
        if minimal and act == "refresh":
            res |= {"S04"}
    return res


def explore(name, world, depth, work, simulate=None, seed=1, threads=2):
    """World -> TLC behaviours -> code; returns (TlcResult, replay result)."""
    base = os.path.join(work, name + ("-sim" if simulate else ""))
    wf = base + ".json"
    with open(wf, "w") as f:
        json.dump(world, f)
    vlib.harness("prepare", wf, base + ".p.json")
    r = vlib.tlc("MCStock", os.path.join(vlib.SPEC, "EmitStock.cfg"), work,
                 env=dict(WORLD=base + ".p.json", DEPTH=depth, EMIT=1), simulate=simulate, depth=depth,
                 seed=seed, out=base + ".edges")
    vlib.harness("replay", wf, base + ".edges", base + ".div.json", env=dict(THREADS=str(threads)))
    d = json.load(open(base + ".div.json"))
    sample = None
    with open(base + ".edges") as f:
        lines = [l for l in f if l.startswith('"{')]
    if lines:
        e = json.loads(json.loads(lines[len(lines) // 2]))
        sample = dict(world=name, init=e["i"], path=e["p"], act=e["a"],
                      ret={k: v for k, v in (e["r"] or {}).items() if k not in ("fresh", "k")})
        nf = sum(1 for l in lines if '\\"ok\\":false' in l)
    os.remove(base + ".edges")
    return r, d, sample, (len(lines), nf if lines else 0)


def run(prop, tier, seed, rep):
    quick = tier == "quick"
    work = os.path.join(vlib.WORK, "stock-%s-%s" % (prop, tier))
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    jobs = []
    for name, (ctor, q, t) in worlds.WORLDS.items():
        w = ctor().d
        jobs.append((name, w, q if quick else t, None))
        jobs.append((name, w, 14 if quick else 30, 8 if quick else 120))
    for i in range(8 if quick else 150):
        s = seed * 1000 + i
        jobs.append(("rand%d" % s, worlds.rand_world(s).d, 3 if quick else 4, None))
        if not quick:
            jobs.append(("rand%d" % s, worlds.rand_world(s).d, 25, 25))

    def job(name, w, depth, sim):
        try:
            return name, w, explore(name, w, depth, work, simulate=sim, seed=seed)
        except vlib.HarnessPanic as e:
            return name, w, e

    # the longest first
    order = sorted(jobs, key=lambda j: (j[3] is not None, j[0].startswith("rand")))
    results = vlib.parallel([lambda j=j: job(*j) for j in order])
    for name, w, r in results:
        if isinstance(r, vlib.HarnessPanic):
            rep.violation("panic:%s" % name, "world %s: the code panics: %s" % (name, r), dict(world=w))
            continue
        t, d, sample, (lines, failed) = r
        rep.add_tlc(t)
        rep.traces += d["edges"]
        rep.steps += d["steps"]
        rep.count("failing_calls_replayed", failed)
        if sample:
            rep.samples.append(sample)
        bad = {(x["init"], tuple(x["path"]), x["act"]) for x in d["divergences"]}
        for x in sorted(d["divergences"], key=lambda x: len(x["path"])):
            minimal = not any((x["init"], tuple(x["path"][:i]), x["path"][i]) in bad
                              for i in range(len(x["path"])))
            if prop in labels(x, minimal):
                rep.violation("%s:%s" % (name, x["diffs"][0][0]),
                              "world %s: after %s, `%s` differs from the specification: %s" %
                              (name, [x["init"]] + x["path"], x["act"],
                               "; ".join("%s: %s" % tuple(y) for y in x["diffs"][:3])),
                              dict(world=w, init=x["init"], path=x["path"], act=x["act"], diffs=x["diffs"]))
    # properties of the specification
    invs, props = SPEC_PROPS.get(prop, ([], []))
    if invs or props:
        cfg = vlib.cfg_file(work, "mc", "SPECIFICATION Spec\nVIEW View\nCONSTRAINT Bounded\nCHECK_DEADLOCK FALSE\n" +
                            "".join("INVARIANT %s\n" % i for i in invs) +
                            "".join("PROPERTY %s\n" % i for i in props))
        mc = [(n, q if quick else t) for n, q, t in MC_WORLDS]

        def mcjob(n, depth):
            return n, vlib.tlc("MCStock", cfg, work, workers=2 if quick else 4,
                               env=dict(WORLD=os.path.join(work, n + ".p.json"), DEPTH=depth, EMIT=0))
        for n, r in vlib.parallel([lambda j=j: mcjob(*j) for j in mc], 4 if quick else 2):
            rep.add_tlc(r)
            if r.violated:
                raise vlib.ToolError("the specification violates %s on the world %s:\n%s" %
                                     (r.violated, n, r.output[-3000:]))
    rep.extra["worlds"] = len({j[0] for j in jobs})
    shutil.rmtree(work, ignore_errors=True)
