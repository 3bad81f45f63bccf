"""Checks of pure functions: the specification enumerates inputs with the results it allows, the code is called with each."""
import json, os, shutil
import vlib

# runs of TLC for each of the properties: module, configuration
RUNS = {
    "B01": [("Builder", "EmitBuilder")],
    "B02": [("Builder", "EmitBuilder")],
    "B03": [("Builder", "EmitBuilder")],
    "I01": [("Iface", "EmitIface")],
    "I02": [("Impl", "EmitImpl")],
    "I03": [("Impl", "EmitImpl")],
    "I04": [("View", "EmitView")],
    "I05": [("View", "EmitView")],
    "K01": [("Kit", "EmitKit")],
    "K02": [("Kit", "EmitKit")],
    "K03": [("Note", "EmitNote")],
    "I06": [("Iface", "EmitIface")],
    "I07": [("Root", "EmitRoot")],
    "P01": [("Compose", "EmitCompose")],
    "P02": [("Compose", "EmitCompose")],
    "P03": [("Compose", "EmitCompose")],
    "P04": [("Compose", "EmitCompose")],
    "C01": [("Container", "EmitContainer")],
    "C02": [("Container", "EmitContainer")],
    "C04": [("Container", "EmitContainer")],
    "V01": [("Invoice", "EmitInvoice")],
    "V02": [("Invoice", "EmitInvoice")],
    "V03": [("Amount", "EmitCases"), ("Amount", "EmitArith")],
    "V04": [("Amount", "EmitCases")],
    "V05": [("Amount", "EmitCases"), ("Amount", "EmitArith")],
    "V06": [("Descr", "EmitDescr")],
}


def run(prop, tier, seed, rep):
    work = os.path.join(vlib.WORK, "cases-%s-%s" % (prop, tier))
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)

    def job(module, cfg):
        base = os.path.join(work, cfg)
        r = vlib.tlc(module, os.path.join(vlib.SPEC, cfg + ".cfg"), work, env=dict(SUITE=prop, TIER=tier),
                     out=base + ".cases")
        if r.violated:
            raise vlib.ToolError("the specification violates %s:\n%s" % (r.violated, r.output[-3000:]))
        samples = []
        for i, l in enumerate(open(base + ".cases")):
            if l.startswith('"{') and i % 997 == 40 and len(samples) < 3:
                samples.append(json.loads(json.loads(l)))
        try:
            vlib.harness("cases", base + ".cases", base + ".div.json", env=dict(SCRATCH=work))
        except vlib.HarnessPanic as e:
            return r, e, samples
        return r, json.load(open(base + ".div.json")), samples
    for r, d, samples in vlib.parallel([lambda j=j: job(*j) for j in RUNS[prop]], 2):
        rep.add_tlc(r)
        if isinstance(d, Exception):
            rep.violation("panic", "the code brings the process down: %s" % d, {})
            continue
        if not d["cases"]:
            raise vlib.ToolError("no cases")
        rep.traces += d["cases"]
        rep.steps += d["cases"]
        rep.samples += samples
        known = [f[1] for f in vlib.load_findings() if f[0] == prop]
        seen = {}
        for x in d["divergences"]:
            c = x["case"]
            what = {k: v for k, v in c.items() if k not in ("out", "f", "exact")}
            sig = "%s:%s" % (c["f"], json.dumps(what, sort_keys=True))
            kind = (c["f"], json.dumps(c.get("d")))
            if not any(k.fullmatch(sig) for k in known):
                seen[kind] = seen.get(kind, 0) + 1
            if seen.get(kind, 0) <= 5:
                rep.violation(sig,
                              "%s of %s gives %s" % (c["f"], json.dumps(what), json.dumps(x["got"])),
                              dict(case=c, got=x["got"]))
    shutil.rmtree(work, ignore_errors=True)
