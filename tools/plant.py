#!/usr/bin/env python3
"""Making, confirming and trying planted bugs (a development tool; no check uses it).

  plant.py make FILE.py      writes seeded/<id>/ from the BUGS list of FILE.py and confirms each
  plant.py confirm [ID..]    builds, runs the stable tests and the demonstration, with and without
  plant.py try [ID..]        applies each to /repo, runs the check of its property (or --all), undoes it
"""
import json
import os
import re
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(HERE, "seeded")
SCRATCH = "/tmp/plant-scratch"
DEMO = '''#!/bin/bash
# Run with cwd /repo (or a copy of it): exit 0 if the property holds on main.rs's case.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
. /opt/vp/env.sh 2>/dev/null
export PATH="/root/.cargo/bin:$PATH" CARGO_NET_OFFLINE=true
d=$(mktemp -d /tmp/demo.XXXXXX) || exit 3
trap 'rm -r -- "$d"' EXIT
mkdir "$d/src"
cp "$here/main.rs" "$d/src/main.rs"
cp "$repo/Cargo.lock" "$d/Cargo.lock"
cat > "$d/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
stylish = { path = "$repo", default-features = false, features = [@FEATURES@] }
EOF
CARGO_TARGET_DIR="$d/target" CARGO_INCREMENTAL=0 cargo run -q --offline --manifest-path "$d/Cargo.toml"
rc=$?
if [ $rc -eq 0 ]; then echo "demo: as it should be"; else echo "demo: BROKEN ($rc)"; fi
exit $rc
'''

FAIL = '''export CARGO_TARGET_DIR="$d/target" CARGO_INCREMENTAL=0
cp "$here/good.rs" "$d/src/main.rs"
cargo build -q --offline --manifest-path "$d/Cargo.toml" || exit 3
cp "$here/main.rs" "$d/src/main.rs"
touch "$d/src/main.rs"
if cargo build -q --offline --manifest-path "$d/Cargo.toml" 2>/dev/null; then rc=1; else rc=0; fi
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                          errors="replace", **kw)


def scratch():
    if os.path.exists(SCRATCH):
        shutil.rmtree(SCRATCH)
    sh(f"cp -a /repo {SCRATCH}")


def tests(dir):
    """Names of stable tests that fail in dir, or None when it does not build."""
    env = dict(os.environ, CARGO_TARGET_DIR=dir + "/target")
    cmd = (". /opt/vp/env.sh; export CARGO_TARGET_DIR=%s/target; cd %s; "
           "cargo test --workspace --all-features --locked --offline --no-run 2>&1 | tail -30; "
           "test ${PIPESTATUS[0]} = 0") % (dir, dir)
    p = subprocess.run(["bash", "-c", cmd], stdout=subprocess.PIPE, text=True, env=env)
    if p.returncode:
        return None, p.stdout
    warn = "warning" in p.stdout
    t = "/opt/vp/test.sh"
    s = open(t).read().replace("cd /repo", f"cd {dir}").replace("/opt/vp/work", "/tmp/plant-work")
    s = s.replace(". /opt/vp/env.sh", f". /opt/vp/env.sh; export CARGO_TARGET_DIR={dir}/target")
    open("/tmp/plant-label.py", "w").write(open("/opt/vp/label.py").read().replace("/repo", dir))
    s = s.replace("/opt/vp/label.py", "/tmp/plant-label.py")
    open("/tmp/plant-test.sh", "w").write(s)
    sh("bash /tmp/plant-test.sh /tmp/plant-out.json")
    out = json.load(open("/tmp/plant-out.json"))
    base = json.load(open("/opt/vp/BASELINE.json"))
    return (out, base), warn


def stable_failures(res):
    out, base = res
    want = set(base["stable"])
    got = set(out.get("passed", []))
    return sorted(want - got)


def make(bugs):
    done = []
    for b in bugs:
        d = os.path.join(SEEDED, b["id"])
        os.makedirs(d, exist_ok=True)
        scratch()
        for f, old, new in b["edits"]:
            p = os.path.join(SCRATCH, f)
            s = open(p).read()
            assert s.count(old) == 1, (b["id"], f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = sh(f"git -C {SCRATCH} diff").stdout
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        open(os.path.join(d, "demo.sh"), "w").write(
            DEMO.replace("@FEATURES@", ", ".join('"%s"' % x for x in b.get("features", ["std", "macros", "ansi", "html", "plain"]))))
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        open(os.path.join(d, "main.rs"), "w").write(b["main"])
        if "good" in b:
            open(os.path.join(d, "good.rs"), "w").write(b["good"])
            p = os.path.join(d, "demo.sh")
            t = open(p).read()
            i, j = t.index("CARGO_TARGET_DIR="), t.index("if [ $rc")
            t = t[:i] + FAIL + t[j:]
            open(p, "w").write(t.replace("holds on main.rs's case", "holds: good.rs compiles and main.rs does not"))
        if b.get("release"):
            p = os.path.join(d, "demo.sh")
            t = open(p).read()
            open(p, "w").write(t.replace("cargo run -q", "cargo run --release -q").replace("cargo build -q", "cargo build --release -q"))
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
                  open(os.path.join(d, "meta.json"), "w"), indent=1)
        if not confirm(b["id"]):
            print("  NOT KEPT", b["id"])
            shutil.rmtree(d)
        else:
            done.append(b["id"])
    shutil.rmtree(SCRATCH, ignore_errors=True)
    print("kept:", *done)


def confirm(i):
    d = os.path.join(SEEDED, i)
    scratch()
    a = sh(f"git -C {SCRATCH} apply {d}/patch.diff")
    if a.returncode:
        print(i, "does not apply", a.stdout)
        return False
    r, warn = tests(SCRATCH)
    if r is None:
        print(i, "does not build", warn)
        return False
    bad = stable_failures(r)
    if bad:
        print(i, "fails existing tests", bad[:6], len(bad))
        return False
    p1 = sh(f"bash {d}/demo.sh", cwd=SCRATCH)
    p0 = sh(f"bash {d}/demo.sh", cwd="/repo")
    ok = p0.returncode == 0 and p1.returncode != 0
    print(i, "confirmed" if ok else f"DEMO unchanged={p0.returncode} patched={p1.returncode}\n{p0.stdout[-1500:]}\n{p1.stdout[-800:]}",
          "(warnings)" if warn else "", flush=True)
    return ok


def attempt(i, all_checks):
    d = os.path.join(SEEDED, i)
    meta = json.load(open(os.path.join(d, "meta.json")))
    assert not sh("git -C /repo status --porcelain").stdout.strip(), "/repo not clean"
    man = json.load(open(os.path.join(HERE, "MANIFEST.json")))
    props = [c["property"] for c in man["checks"]] if all_checks else [meta["property"]]
    a = sh(f"git -C /repo apply {d}/patch.diff")
    assert a.returncode == 0, a.stdout
    res = {}
    try:
        for p in props:
            r = sh(f"VERIF_TIER=quick VERIF_SEED=1 python3 run.py {p}", cwd=HERE)
            line = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            res[p] = (r.returncode, line[:1], r.stdout[-300:] if r.returncode not in (0, 1) else "")
    finally:
        sh("git -C /repo checkout -- .")
    caught = [p for p, v in res.items() if v[0] == 1]
    own = meta["property"] in caught
    print(f"{i}: {'CAUGHT' if own else 'MISSED'} by {meta['property']}; exit 1: {' '.join(caught)}"
          + "".join(f"; {p} exit {v[0]} {v[2]}" for p, v in res.items() if v[0] not in (0, 1)), flush=True)
    return own


if __name__ == "__main__":
    mode, args = sys.argv[1], sys.argv[2:]
    if mode == "make":
        ns = {}
        exec(open(args[0]).read(), ns)
        make([b for b in ns["BUGS"] if len(args) == 1 or b["id"] in args[1:]])
    else:
        allc = "--all" in args
        ids = [a for a in args if a != "--all"] or sorted(os.listdir(SEEDED))
        bad = [i for i in ids if not (confirm(i) if mode == "confirm" else attempt(i, allc))]
        shutil.rmtree(SCRATCH, ignore_errors=True)
        print("not ok:", *bad) if bad else print("all ok")
