"""Development aid: makes /verif/seeded/<id> out of the uncommitted change in /repo.

Usage: mkseed.py ID PROPERTY NEEDS BREAKS stock WORLD INIT 'ACT; ACT; ..' PYEXPR
   the demonstration replays the calls and evaluates PYEXPR over `rets` and `obs`
or:    mkseed.py ID PROPERTY NEEDS BREAKS rust FILE.rs
   the demonstration is a program which panics or exits with non-zero code if the property is broken
"""
import json, os, shutil, subprocess, sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
sys.dont_write_bytecode = True

DEMO = '''#!/bin/bash
# exits 0 if the property holds, non-zero otherwise; runs with cwd /repo after the build
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d) || exit 1
trap 'rm -rf "$work"' EXIT
cp -r "$here/crate" "$work/crate"
export CARGO_TARGET_DIR=${CARGO_TARGET_DIR:-/repo/target} CARGO_NET_OFFLINE=true
(cd "$work/crate" && cargo build --offline --quiet 2>"$work/log") || { tail -20 "$work/log"; exit 1; }
%s
'''


def main():
    sid, prop, needs, breaks, kind = sys.argv[1:6]
    d = os.path.join(V, "seeded", sid)
    patch = subprocess.run(["git", "-C", "/repo", "diff"], stdout=subprocess.PIPE, text=True, check=True).stdout
    os.makedirs(d, exist_ok=True)
    if patch.strip():
        open(os.path.join(d, "patch.diff"), "w").write(patch)
    elif not os.path.exists(os.path.join(d, "patch.diff")):
        sys.exit("no change")
    crate = os.path.join(d, "crate")
    shutil.rmtree(crate, ignore_errors=True)
    os.makedirs(crate + "/src")
    toml = open(os.path.join(V, "harness", "Cargo.toml")).read()
    name = "demo_" + sid.lower().replace("-", "_")
    toml = toml[: toml.index("[profile.dev]")].replace("rgbverif", name)
    open(crate + "/Cargo.toml", "w").write(toml)
    lock = open(os.path.join(V, "harness", "Cargo.lock")).read().replace('name = "rgbverif"', 'name = "%s"' % name)
    open(crate + "/Cargo.lock", "w").write(lock)
    if kind == "stock":
        import worlds
        for f in ("main.rs", "world.rs", "proj.rs", "replay.rs"):
            src = os.path.join(V, "harness", "src", f)
            if f == "main.rs":
                src = os.path.join(V, "tools", "demo_main.rs")
            shutil.copy(src, crate + "/src/" + f)
        wname, init, acts, expr = sys.argv[6:10]
        w = worlds.rand_world(int(wname[4:])) if wname.startswith("rand") else worlds.WORLDS[wname][0]()
        json.dump(w.d, open(os.path.join(d, "world.json"), "w"), indent=1)
        open(os.path.join(d, "check.py"), "w").write(
            "import json, sys\n\nx = json.load(sys.stdin)\nrets, obs = x['rets'], x['obs']\n"
            "ok = " + expr + "\nprint('holds' if ok else 'BROKEN: %s' % json.dumps(x)[:3000])\nsys.exit(0 if ok else 1)\n")
        args = " ".join('"%s"' % a.strip() for a in acts.split(";"))
        run = '"$CARGO_TARGET_DIR/debug/%s" run "$here/world.json" %s %s > "$work/out" || exit 1\npython3 "$here/check.py" < "$work/out"' % (name, init, args)
    else:
        shutil.copy(sys.argv[6], crate + "/src/main.rs")
        for f in sys.argv[7:]:
            shutil.copy(f, crate + "/src/")
        run = 'exec "$CARGO_TARGET_DIR/debug/%s"' % name if False else '"$CARGO_TARGET_DIR/debug/%s"' % name
    open(os.path.join(d, "demo.sh"), "w").write(DEMO % run)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(os.path.join(d, "meta.json"), "w"), indent=1)


main()
