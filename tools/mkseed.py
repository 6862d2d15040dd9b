#!/usr/bin/env python3
"""Makes seeded/<id>/ from tools/seeds/<id>.py-like definitions and confirms them.
   mkseed.py ID... : patch, build, tests, demo with and without the patch, check(s).
   Works on /repo and restores it afterwards."""
import json, os, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
S = {}
def seed(id, prop, needs, breaks, edits, demo, kind="plain", deps=""):
    """kind: plain (a crate), gpl (a crate using the feature gpl), cli (bash, with the programs in $bin)"""
    S[id] = dict(prop=prop, needs=needs, breaks=breaks, edits=edits, demo=demo, kind=kind, deps=deps)
exec(open(os.path.join(ROOT, "tools", "seeds_data.py")).read())

DEMO_SH = r'''#!/bin/bash
# run with cwd /repo; exit 0: the demonstrated property holds, nonzero: it is broken
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
. /opt/vp/env.sh
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
export CARGO_TARGET_DIR=$tmp/target
mkdir -p "$tmp/src"
cp "$here/demo.rs" "$tmp/src/main.rs"
cp "$repo/Cargo.lock" "$tmp/Cargo.lock"
cat >"$tmp/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2018"
[workspace]
[dependencies]
osmgraphing = { path = "$repo" }
kissunits = "2"
serde = { version = "1", features = ["derive"] }
serde_yaml = "0.8"
smallvec = "1"
T
cd "$tmp" && $CARGO build --offline >"$tmp/log" 2>&1 || { tail -20 "$tmp/log"; exit 3; }
mkdir "$tmp/work" && cd "$tmp/work" && timeout 60 "$tmp/target/debug/demo"
'''
HEAD, REST = DEMO_SH.split('cp "$here/demo.rs"')
GPL_SH = DEMO_SH.replace('osmgraphing = { path = "$repo" }', 'osmgraphing = { path = "$repo", features = ["gpl"] }').replace('T\ncd "$tmp"', '[patch.crates-io]\nnd-triangulation = { path = "$here/nd-triangulation" }\nT\ncd "$tmp"')
CLI_SH = HEAD + r'''
cp "$repo/Cargo.lock" "$tmp/Cargo.lock"
cat >"$tmp/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2018"
[workspace]
[features]
gpl = ["osmgraphing/gpl"]
[[bin]]
name = "osmgraphing"
path = "$repo/src/bin/osmgraphing/mod.rs"
[[bin]]
name = "multi-ch-constructor"
path = "$repo/src/bin/multi-ch-constructor.rs"
[dependencies]
osmgraphing = { path = "$repo" }
chrono = "0.4"
clap = "2.33"
log = "0.4"
progressing = "3"
rand = "0.7"
rand_pcg = "0.2"
serde = { version = "1", features = ["derive"] }
[patch.crates-io]
nd-triangulation = { path = "$here/nd-triangulation" }
T
cd "$tmp" && $CARGO build --offline --features gpl >"$tmp/log" 2>&1 || { tail -20 "$tmp/log"; exit 3; }
mkdir "$tmp/work" && cd "$tmp/work" && bin=$tmp/target/debug timeout 60 bash "$here/run.sh"
'''
PY_SH = r'''#!/bin/bash
# run with cwd /repo; exit 0: the demonstrated property holds, nonzero: it is broken
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
cd "$tmp" && PYTHONPATH=$here/stub timeout 60 /opt/veriftools/pyvenv/bin/python3 -B "$here/demo.py" "$repo/scripts/balancing/visualizer" "$tmp"
'''
def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
def tests():
    b = sh("bash /opt/vp/build.sh")
    if b.returncode: return "build fails\n" + b.stdout[-3000:]
    sh("bash /opt/vp/test.sh /tmp/seed-tests.json")
    got = set(json.load(open("/tmp/seed-tests.json"))["passed"])
    base = json.load(open("/opt/vp/BASELINE.json"))
    want = set(base["stable"])
    return sorted(want - got) or None
def make(id):
    s = S[id]; d = os.path.join(ROOT, "seeded", id); os.makedirs(d, exist_ok=True)
    assert not sh("git -C /repo status --porcelain").stdout.strip(), "repo not clean"
    try:
        for f, old, new in s["edits"]:
            p = os.path.join(REPO, f); t = open(p).read()
            assert t.count(old) == 1, (id, f, t.count(old), old)
            open(p, "w").write(t.replace(old, new))
        diff = sh("git -C /repo diff").stdout
    finally:
        sh("git -C /repo checkout -- .")
    open(d + "/patch.diff", "w").write(diff)
    if s["demo"].startswith("#!"):
        open(d + "/demo.sh", "w").write(s["demo"])
    elif s["kind"] == "py":
        open(d + "/demo.sh", "w").write(PY_SH)
        open(d + "/demo.py", "w").write(s["demo"])
        sh("rm -rf %s/stub; cp -r %s/viz/stub %s/; rm -rf %s/stub/matplotlib/__pycache__" % (d, ROOT, d, d))
    else:
        k = s["kind"]
        text = {"plain": DEMO_SH, "gpl": GPL_SH, "cli": CLI_SH}[k]
        assert text.count("smallvec = \"1\"\n") == (k != "cli")
        if "mt.rs" in s["demo"]:
            text = text.replace('cp "$here/demo.rs"', 'cp "$repo/src/bin/osmgraphing/balancing/multithreading.rs" "$tmp/mt.rs"\ncp "$here/demo.rs"')
        open(d + "/demo.sh", "w").write(text.replace('smallvec = "1"\n', 'smallvec = "1"\n' + s["deps"]))
        open(d + ("/run.sh" if k == "cli" else "/demo.rs"), "w").write(s["demo"])
        if k != "plain":
            sh("cp -r %s/nd-triangulation %s/; chmod -R u+w %s" % (ROOT, d, d))
    json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
def confirm(id, checks):
    d = os.path.join(ROOT, "seeded", id); p = S[id]["prop"]
    r = sh("cd /repo && bash %s/demo.sh" % d); ok = r.returncode == 0
    print(id, p, "demo unchanged:", r.returncode, "" if ok else r.stdout[-800:], flush=True)
    try:
        a = sh("git -C /repo apply %s/patch.diff" % d); assert a.returncode == 0, a.stdout
        t = tests()
        print("  tests:", "ok" if t is None else t, flush=True)
        r = sh("cd /repo && bash %s/demo.sh" % d)
        print("  demo patched:", r.returncode, r.stdout.strip()[-300:], flush=True)
        caught = []
        for c in checks or [p]:
            r = sh("bash %s/check.sh %s quick" % (ROOT, c))
            if r.returncode == 1 and "VIOLATION property=%s " % c in r.stdout: caught.append(c)
            print("  check", c, r.returncode, [l for l in r.stdout.splitlines() if "VIOL" in l][:2], flush=True)
        f = os.path.join(ROOT, "tools", "seed_results.json")
        res = json.load(open(f)) if os.path.exists(f) else {}
        res[id] = {"property": p, "caught": caught}
        json.dump(res, open(f, "w"), indent=1, sort_keys=True)
    finally:
        sh("git -C /repo checkout -- .")
if __name__ == "__main__":
    ids = [a for a in sys.argv[1:] if a in S]; checks = [a[1:] for a in sys.argv[1:] if a.startswith("+")]
    for id in ids or list(S):
        make(id)
        if "--make" not in sys.argv: confirm(id, checks)
