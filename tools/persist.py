"""Checks of the storage specification (spec/Persist.tla) against the code."""
import json, os, shutil
import vlib, worlds

SPEC_PROPS = dict(S11=(["AutoCurrent"], ["Recoverable"]), S12=([], ["Keeps", "Recoverable"]))


def restrict(w, cons=(), fascias=(), chains=(), secrets=1, afters=(0,), cuts=range(7)):
    d = json.loads(json.dumps(w.d))
    d["cons"] = {k: d["cons"][k] for k in cons}
    d["fascias"] = {k: d["fascias"][k] for k in fascias}
    d["chains"] = {k: d["chains"][k] for k in chains}
    d["inits"] = [chains[0]]
    d["secretActs"] = d["secretActs"][:secrets]
    d["afters"] = list(afters)
    d["faults"], d["exports"] = [], {}
    d["cuts"] = list(cuts)
    return d


def worlds_for(tier):
    W = worlds
    quick = tier == "quick"
    res = [
        ("basic", restrict(W.basic(), ["k0", "k1"], ["f1"], ["n1", "n4"], cuts=[0, 1, 2, 3, 4, 5, 6]), 3 if quick else 4),
        ("rbf", restrict(W.rbf(), ["k1", "k1r"], [], ["n1", "n3"], cuts=[4]), 3 if quick else 4),
        ("levels", restrict(W.levels(), ["kR"], ["f1", "f1b"], ["n1"], cuts=[2]), 3 if quick else 4),
        ("multi", restrict(W.multi(), list(W.multi().d["cons"])[:2], list(W.multi().d["fascias"])[:1],
                           list(W.multi().d["chains"])[:1], cuts=[5]), 3 if quick else 4),
        ("ext", restrict(W.ext(), list(W.ext().d["cons"])[:2], [], list(W.ext().d["chains"])[:1], cuts=[5]),
         3 if quick else 4),
    ]
    return res


def explore(name, world, depth, work, simulate=None, seed=1, threads=3):
    base = os.path.join(work, name + ("-sim" if simulate else ""))
    wf = base + ".json"
    with open(wf, "w") as f:
        json.dump(world, f)
    vlib.harness("prepare", wf, base + ".p.json")
    r = vlib.tlc("Persist", os.path.join(vlib.SPEC, "EmitPersist.cfg"), work,
                 env=dict(WORLD=base + ".p.json", DEPTH=depth), simulate=simulate, depth=depth, seed=seed,
                 out=base + ".edges")
    scratch = base + ".dev"
    os.makedirs(scratch, exist_ok=True)
    vlib.harness("persist", wf, base + ".edges", base + ".div.json", scratch, env=dict(THREADS=str(threads)))
    shutil.rmtree(scratch, ignore_errors=True)
    d = json.load(open(base + ".div.json"))
    sample = None
    for i, l in enumerate(open(base + ".edges")):
        if l.startswith('"{') and i % 97 == 60:
            e = json.loads(json.loads(l))
            sample = dict(world=name, init=e["i"], path=e["p"], act=e["a"], ret=e["r"])
    os.remove(base + ".edges")
    return r, d, sample


def labels(x):
    res = set()
    acts = [a.split() for a in x["path"] + [x["act"]]]
    names = [a[0] for a in acts]
    faulty = "cut" in names or any(a[0] == "down" and len(a) > 1 for a in acts)
    for p, _ in x["diffs"]:
        if faulty:
            res.add("S12")
        if not faulty or p.startswith("disk"):
            res.add("S11")
    return res


def run(prop, tier, seed, rep):
    quick = tier == "quick"
    work = os.path.join(vlib.WORK, "persist-%s-%s" % (prop, tier))
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    jobs = []
    for name, w, depth in worlds_for(tier):
        jobs.append((name, w, depth, None))
        jobs.append((name, w, 14 if quick else 30, 15 if quick else 150))

    def job(name, w, depth, sim):
        try:
            return name, w, explore(name, w, depth, work, simulate=sim, seed=seed)
        except vlib.HarnessPanic as e:
            return name, w, e
    for name, w, r in vlib.parallel([lambda j=j: job(*j) for j in jobs], 4):
        if isinstance(r, vlib.HarnessPanic):
            rep.violation("panic:%s" % name, "world %s: the code panics: %s" % (name, r), dict(world=w))
            continue
        t, d, sample = r
        rep.add_tlc(t)
        rep.traces += d["edges"]
        rep.steps += d["steps"]
        if sample:
            rep.samples.append(sample)
        for x in sorted(d["divergences"], key=lambda x: len(x["path"])):
            if prop in labels(x):
                rep.violation("%s:%s" % (name, x["diffs"][0][0]),
                              "world %s: after %s, `%s` differs from the specification: %s" %
                              (name, [x["init"]] + x["path"], x["act"],
                               "; ".join("%s: %s" % tuple(y) for y in x["diffs"][:3])),
                              dict(world=w, init=x["init"], path=x["path"], act=x["act"], diffs=x["diffs"]))
    invs, props = SPEC_PROPS[prop]
    cfg = vlib.cfg_file(work, "mc", "SPECIFICATION Spec\nVIEW View\nCONSTRAINT Bounded\nCHECK_DEADLOCK FALSE\n" +
                        "".join("INVARIANT %s\n" % i for i in invs) + "".join("PROPERTY %s\n" % i for i in props))
    for name, w, depth in worlds_for(tier)[:2]:
        r = vlib.tlc("Persist", cfg, work, workers=4,
                     env=dict(WORLD=os.path.join(work, name + ".p.json"), DEPTH=depth))
        rep.add_tlc(r)
        if r.violated:
            raise vlib.ToolError("the specification violates %s on the world %s:\n%s" %
                                 (r.violated, name, r.output[-3000:]))
    shutil.rmtree(work, ignore_errors=True)
