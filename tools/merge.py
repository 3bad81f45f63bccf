"""Checks of the merging specification (spec/Merge.tla) against the code."""
import json, os, shutil
import vlib, worlds

KINDS = ["op", "bundle", "anchor", "witness"]


def run(prop, tier, seed, rep):
    work = os.path.join(vlib.WORK, "merge-%s-%s" % (prop, tier))
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    w = worlds.merging().d
    wf, wp = os.path.join(work, "w.json"), os.path.join(work, "w.p.json")
    with open(wf, "w") as f:
        json.dump(w, f)
    vlib.harness("prepare", wf, wp)
    laws = vlib.cfg_file(work, "laws", "SPECIFICATION Spec\nVIEW View\nCONSTRAINT Bounded\nCHECK_DEADLOCK FALSE\n"
                         "INVARIANT JoinLaws\n" + ("INVARIANT Least\n" if tier != "quick" else ""))

    def job(kind):
        base = os.path.join(work, kind)
        r = vlib.tlc("Merge", os.path.join(vlib.SPEC, "EmitMerge.cfg"), work, env=dict(WORLD=wp, KIND=kind),
                     out=base + ".edges")
        try:
            vlib.harness("merge", wf, base + ".edges", base + ".div.json")
        except vlib.HarnessPanic as e:
            return kind, r, e, None, None
        sample = None
        for i, l in enumerate(open(base + ".edges")):
            if l.startswith('"{') and i % 31 == 20:
                sample = json.loads(json.loads(l))
                break
        m = vlib.tlc("Merge", laws, work, workers=2, env=dict(WORLD=wp, KIND=kind))
        if m.violated:
            raise vlib.ToolError("the specification violates %s:\n%s" % (m.violated, m.output[-3000:]))
        return kind, r, json.load(open(base + ".div.json")), sample, m
    for kind, r, d, sample, m in vlib.parallel([lambda k=k: job(k) for k in KINDS], 4):
        rep.add_tlc(r)
        if isinstance(d, Exception):
            rep.violation("panic:" + kind, "%s: the code panics: %s" % (kind, d), dict(world=w))
            continue
        rep.add_tlc(m)
        rep.traces += d["edges"]
        rep.steps += d["steps"]
        if sample:
            rep.samples.append(sample)
        for x in d["divergences"]:
            rep.violation("%s:%s" % (kind, x["what"]), "merging %s into %s: %s" %
                          (json.dumps(x["case"]["c"]), json.dumps(x["case"]["p"]), x["what"]),
                          dict(world=w, case=x["case"]))
    shutil.rmtree(work, ignore_errors=True)
