#!/usr/bin/env python3
"""Entry point of the checks.

  run.py setup                      builds the harness
  run.py check ID [quick|thorough]  decides one property
"""
import os, sys, time, traceback

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "tools"))
sys.dont_write_bytecode = True
import vlib


def suites(prop):
    if prop in ("S01", "S02", "S03", "S04", "S05", "S06", "S07", "S08", "S09", "S10", "C03"):
        import stock
        yield stock.run
    if prop in ("S11", "S12"):
        import persist
        yield persist.run
    if prop == "M01":
        import merge
        yield merge.run
    import cases
    if prop in cases.RUNS:
        yield cases.run


def main():
    cmd = sys.argv[1] if len(sys.argv) > 1 else ""
    if cmd == "setup":
        vlib.build()
        return 0
    if cmd == "check":
        prop = sys.argv[2]
        tier = sys.argv[3] if len(sys.argv) > 3 else "quick"
        seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        t0 = time.time()
        os.makedirs(vlib.WORK, exist_ok=True)
        vlib.build()
        rep = vlib.Report()
        for s in suites(prop):
            s(prop, tier, seed, rep)
        return vlib.finish(prop, tier, seed, "model_checking", rep, t0)
    print(__doc__)
    return 2


if __name__ == "__main__":
    try:
        sys.exit(main())
    except vlib.ToolError as e:
        print("ERROR " + str(e))
        sys.exit(2)
    except Exception:
        traceback.print_exc()
        sys.exit(2)
