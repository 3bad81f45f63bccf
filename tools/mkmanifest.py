"""Writes MANIFEST.json: claimed properties and reasons for the rest."""
import json, os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STOCK = ("TLA+ specification spec/Stock.tla explored by TLC (exhaustively to a depth and by random simulation over "
         "fixed and seeded random operation graphs); every generated step is replayed into the real Stock and the "
         "return value and the complete observable state are compared")
NOTE = ("Exhaustive within the bounds of a world (a finite operation graph and alphabet of calls) and the depth; "
        "worlds beyond the fixed ones are sampled by seed. Model invariants are checked by TLC, conformance by replay.")
CLAIMED = {p: (STOCK, NOTE) for p in ("S01", "S02", "S03", "S04", "S05", "S06", "S07", "S08", "S09", "S10", "C03")}

try:
    from claims import CLAIMS
    CLAIMED.update(CLAIMS)
except ImportError:
    pass


def main():
    props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
    checks = []
    for p in props:
        if p not in CLAIMED:
            continue
        tech, note = CLAIMED[p]
        checks.append(dict(property=p, quick_cmd="python3 run.py check %s quick" % p,
                           thorough_cmd="python3 run.py check %s thorough" % p,
                           evidence_file="evidence/%s.json" % p, technique=tech, level="model_checking",
                           level_note=note))
    na = [dict(property=p, reason="specification module for this property is not written yet")
          for p in props if p not in CLAIMED]
    m = dict(version=1, setup_cmd="python3 run.py setup",
             hooks=dict(guard="none", enable="none", source_commits=[]),
             checks=checks, not_applicable=na,
             notes="TLA+ (TLC) specification in spec/, conformance harness in harness/, see DESIGN.md")
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
