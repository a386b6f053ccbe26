"""Building from /repo's working tree, and reporting."""
import hashlib
import json
import os
import shutil
import subprocess
import sys
import glob

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
BUILD = os.path.join(VERIF, "build")
OUT = os.path.join(VERIF, "out")
TARGET = os.path.join(BUILD, "target")
TIER = "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"
SEED = int(os.environ.get("VERIF_SEED", "0") or 0)
JOBS = min(8, os.cpu_count() or 1)
# Every check makes two passes: "release" has debug assertions and overflow
# checks on, "shipped" has neither, as a user's release build, and runs in an
# environment that asks programs for plain, uncoloured output.
PROFILE = "shipped" if os.environ.get("MC_PROFILE") == "shipped" else "release"

ENV = {k: v for k, v in os.environ.items()
       if not (k.startswith("CARGO") or k.startswith("RUST")) or k in ("CARGO_HOME", "RUSTUP_HOME")}
ENV.update({
    "HOME": "/root",
    "PATH": "/root/.cargo/bin:" + os.environ.get("PATH", "/usr/local/bin:/usr/bin:/bin"),
    "RUSTUP_TOOLCHAIN": "stable-x86_64-unknown-linux-gnu",
    "CARGO_NET_OFFLINE": "true",
    "CARGO_TERM_COLOR": "never",
    "CARGO_TARGET_DIR": TARGET,
    "CARGO_INCREMENTAL": "0",
    "VERIF_TIER": TIER,
    "VERIF_SEED": str(SEED),
    "LANG": "C.UTF-8",
    "MC_PROFILE": PROFILE,
})
for name in ("NO_COLOR", "CLICOLOR", "CLICOLOR_FORCE", "FORCE_COLOR", "COLORTERM", "TERM", "COLUMNS", "CI"):
    ENV.pop(name, None)
if PROFILE == "shipped":
    ENV.update({"NO_COLOR": "1", "CLICOLOR": "0", "FORCE_COLOR": "0", "TERM": "dumb", "COLUMNS": "1", "CI": "true", "LANG": "C", "LC_ALL": "C"})


def die(msg):
    print("ERROR " + msg, flush=True)
    sys.exit(3)


def _files(root, skip):
    for d, dirs, files in os.walk(root):
        dirs[:] = sorted(x for x in dirs if x not in skip)
        for f in sorted(files):
            if f.endswith((".rs", ".toml", ".lock", ".md")):
                yield os.path.join(d, f)


def repo_hash():
    h = hashlib.sha256()
    for f in list(_files(REPO, {"target", ".git"})) + list(_files(os.path.join(VERIF, "mc"), {"target"})):
        h.update(f.encode() + b"\0" + open(f, "rb").read() + b"\0")
    return h.hexdigest()


def freshen(target=None):
    """Cargo decides by modification times, which a checkout need not respect:
    when the contents differ from the last build, forget the old one."""
    target = target or TARGET
    stamp = os.path.join(target, "verif-stamp")
    want = repo_hash()
    have = open(stamp).read() if os.path.exists(stamp) else ""
    if want != have:
        for pat in ("*/.fingerprint/stylish*", "*/.fingerprint/mc-*", "*/.fingerprint/probe*"):
            for d in glob.glob(os.path.join(target, pat)):
                shutil.rmtree(d)
        os.makedirs(target, exist_ok=True)
    return stamp, want


def cargo(args, cwd, env=None, timeout=800, target=None):
    stamp, want = freshen(target)
    e = dict(env or ENV)
    if target:
        e["CARGO_TARGET_DIR"] = target
    p = subprocess.run(["cargo"] + args, cwd=cwd, env=e, timeout=timeout,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, errors="replace")
    if p.returncode == 0:
        with open(stamp, "w") as f:
            f.write(want)
    return p


def build_bin(name, fail=True):
    """Returns (path, None), or (None, what the compiler says) with `fail` off."""
    p = cargo(["build", "--profile", PROFILE, "--offline", "--locked", "--bin", name], os.path.join(VERIF, "mc"))
    if p.returncode and fail:
        die(f"building {name} failed:\n{p.stderr[-4000:]}")
    return os.path.join(TARGET, PROFILE, name), (p.stderr if p.returncode else None)


def setup_lib():
    p = cargo(["build", "--profile", PROFILE, "--offline", "--locked", "--lib"], os.path.join(VERIF, "mc"))
    if p.returncode:
        die(f"building failed:\n{p.stderr[-4000:]}")


def setup():
    for profile in ("release", "shipped"):
        for more in (["--lib", "--no-default-features"], []):
            p = cargo(["build", "--profile", profile, "--offline", "--locked"] + more, os.path.join(VERIF, "mc"))
            if p.returncode:
                die(f"building failed:\n{p.stderr[-4000:]}")


def merge(a, b):
    """Adds the evidence of a second part of a check."""
    ca, cb = a["coverage"], b["coverage"]
    for k in ("evaluations", "distinct_nontrivial", "states", "transitions", "traces_validated_against_impl"):
        if k in ca and k in cb:
            ca[k] += cb[k]
    ca["samples"] = ca.get("samples", []) + cb.get("samples", [])
    ca["rule"] = "; ".join(x for x in (ca.get("rule"), cb.get("rule")) if x)
    ca.setdefault("sections", {}).update(cb.get("sections", {}))
    a["assumptions"] = a.get("assumptions", []) + b.get("assumptions", [])
    a["violation"] = a.get("violation") or b.get("violation")
    return a


def known(pid):
    """Open findings of a property: {signature: description}. `fixed:` lines
    are a record and suppress nothing."""
    res = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            if line.startswith(f"known: property={pid} "):
                sig, _, text = line.split(" ", 2)[2].partition(" :: ")
                res[sig] = text.strip()
    return res


def conclude(pid, res, wall):
    v = res.pop("violation", None)
    res["wall_s"] = round(wall, 2)
    res["violations"] = 1 if v else 0
    res["property"], res["tier"], res["seed"] = pid, TIER, SEED
    text = json.dumps(res, indent=1, ensure_ascii=False)
    while len(text.encode()) > 60000 and res["coverage"].get("samples"):
        res["coverage"]["samples"].pop()
        text = json.dumps(res, indent=1, ensure_ascii=False)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w", errors="replace") as f:
        f.write(text + "\n")
    cov = res["coverage"]
    summary = ", ".join(f"{k}={cov[k]}" for k in ("states", "transitions", "traces_validated_against_impl",
                                                  "evaluations", "distinct_nontrivial", "exhaustive") if k in cov)
    print(f"{pid} {TIER}: {summary}, {wall:.1f} s")
    for text in known(pid).values():
        print(f"KNOWN-FINDING: property={pid} {text}")
    if not v:
        return 0
    path = os.path.join(OUT, pid, "violation.txt")
    with open(path, "w", errors="replace") as f:
        f.write(f"property {pid}\n{v['what']}\n\n{v['case']}\n\n{v['repro']}\n")
    print("  " + v["what"][:2000])
    print("  " + v["case"][:2000].replace("\n", "\n  "))
    print(f"VIOLATION property={pid} replay={path}")
    return 1
