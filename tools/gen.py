"""Generated programs: compiled with rustc against the libraries built from
/repo's working tree, run, and their answers collected.

A case is (key, code): one line of Rust run as a statement with a `c: &mut
mc::mac::Ctx` in scope. Every case sits on a line of its own, so that compiler
diagnostics can be traced back to it."""
import concurrent.futures
import hashlib
import json
import os
import shutil
import subprocess
import time

import common

WORK = os.path.join(common.BUILD, "gen")
# generated programs are built as the libraries they use
DEBUG = "-Cdebug-assertions=" + ("off" if common.PROFILE == "shipped" else "on")
_libs = None
FULL = False


def libs():
    """rustc flags to use the freshly built libraries."""
    global _libs
    if _libs is None:
        p = common.cargo(["build", "--profile", common.PROFILE, "--offline", "--locked", "--lib", "--message-format=json"]
                         + ([] if FULL else ["--no-default-features"]), os.path.join(common.VERIF, "mc"))
        if p.returncode:
            common.die("building the libraries failed:\n" + p.stderr[-4000:])
        ext = {}
        for line in p.stdout.splitlines():
            m = json.loads(line)
            if m.get("reason") == "compiler-artifact":
                for f in m["filenames"]:
                    if f.endswith((".rlib", ".so")):
                        ext[m["target"]["name"]] = f
        deps = os.path.join(common.TARGET, common.PROFILE, "deps")
        _libs = ["-L", "dependency=" + deps]
        for name in ("mc", "stylish"):
            _libs += ["--extern", f"{name}={ext[name]}"]
    return _libs


def rustc(src, out, emit="link", edition="2021", extra=()):
    """Compiles one file. Returns (ok, [diagnostic])."""
    args = ["rustc", "--edition", edition, "--crate-type", "bin", "--crate-name", "gen", "--error-format=json",
            "-Copt-level=0", "-Cdebuginfo=0", "-Ccodegen-units=4", DEBUG, "--cap-lints", "allow", "--emit", emit,
            "-o", out, src] + libs() + list(extra)
    try:
        p = subprocess.run(args, env=common.ENV, timeout=600, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           errors="replace")
    except subprocess.TimeoutExpired:
        common.die(f"compiling {src} takes too long")
    ds = []
    for line in p.stderr.splitlines():
        if line.startswith("{"):
            d = json.loads(line)
            if d.get("level") == "error" or d.get("level", "").startswith("error: internal"):
                ds.append(d)
    if p.returncode not in (0, 1) and not ds:
        common.die(f"rustc ended with {p.returncode} on {src}: {p.stderr[-2000:]}")
    return p.returncode == 0, ds


def lines_of(diag, src):
    """The lines of `src` a diagnostic points at, following macro expansions
    to the outermost call."""
    res = []
    spans = diag.get("spans", [])
    for s in [s for s in spans if s.get("is_primary")] + [s for s in spans if not s.get("is_primary")]:
        while s.get("expansion"):
            s = s["expansion"]["span"]
        if s["file_name"] == src:
            res.append(s["line_start"])
    return res


def _write(path, prelude, cases, group):
    """Returns {line: case index}."""
    lines = ["#![allow(warnings)]"] + prelude.strip("\n").split("\n")
    at, groups, i = {}, [], 0
    while i < len(cases):
        groups.append((len(groups), i))
        lines.append(f"fn g{len(groups) - 1}(c: &mut mc::mac::Ctx) {{")
        for j in range(i, min(i + group, len(cases))):
            assert "\n" not in cases[j][1], cases[j]
            lines.append(f"c.at({j}); {cases[j][1]}")
            at[len(lines)] = j
        lines.append("}")
        i += group
    lines.append("fn main() { mc::mac::main(&[" + ", ".join(f"g{g}" for g, _ in groups) + "]) }")
    with open(path, "w") as f:
        f.write("\n".join(lines) + "\n")
    return at


def _shard(args):
    d, k, prelude, cases, group, timeout = args
    src, exe = os.path.join(d, f"s{k}.rs"), os.path.join(d, f"s{k}")
    at = _write(src, prelude, cases, group)
    ok, ds = rustc(src, exe)
    if not ok:
        for diag in ds:
            for line in lines_of(diag, src):
                if line in at:
                    return {"fail": (cases[at[line]], "does not compile: " + diag["message"])}
        common.die(f"{src} does not compile: " + "; ".join(x["message"] for x in ds)[:3000])
    try:
        p = subprocess.run([exe], env=common.ENV, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout,
                           errors="replace")
        rc = p.returncode
    except subprocess.TimeoutExpired:
        rc = None
    res = None
    if rc == 0:
        for line in p.stdout.splitlines():
            if line.startswith("RESULT "):
                res = json.loads(line[7:])
        if res is None:
            common.die(f"{exe}: no result: {p.stdout[-500:]}")
        if res["fails"]:
            i, what = res["fails"][0]
            return {"fail": (cases[i], what)}
        return res
    if rc is not None and rc > 0:
        common.die(f"{exe} ended with {rc}: {p.stderr[-2000:]}")
    # a crash or a hang: find the case
    log = os.path.join(d, f"s{k}.log")
    try:
        subprocess.run([exe], env=dict(common.ENV, MC_TRACE=log), stdout=subprocess.DEVNULL,
                       stderr=subprocess.DEVNULL, timeout=timeout)
    except subprocess.TimeoutExpired:
        pass
    last = open(log).read().split()
    if not last:
        common.die(f"{exe} ended with {rc} outside the cases")
    return {"fail": (cases[int(last[-1])], "hangs" if rc is None else f"crashes with signal {-rc}")}


def run(pid, name, prelude, cases, group=40, timeout=120, shards=None):
    """Compiles and runs all cases. Returns (totals, violation or None)."""
    d = os.path.join(WORK, pid + "-" + name)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    libs()
    n = shards or max(1, min(common.JOBS, (len(cases) + 39) // 40))
    n = max(n, (len(cases) + 999) // 1000)
    parts = [cases[k::n] for k in range(n)]
    tot = {"cases": len(cases), "evaluations": 0, "distinct": 0, "samples": []}
    fails = []
    with concurrent.futures.ThreadPoolExecutor(common.JOBS) as ex:
        for k, r in enumerate(ex.map(_shard, [(d, k, prelude, parts[k], group, timeout) for k in range(n)])):
            if "fail" in r:
                fails.append(r["fail"])
            else:
                tot["evaluations"] += r["evaluations"]
                tot["distinct"] += r["distinct"]
    for key, code in [cases[len(cases) * i // 4] for i in range(4)] if cases else []:
        tot["samples"].append(f"[{name}] {key}: {code}"[:400])
    v = None
    if fails:
        order = {id(c): i for i, c in enumerate(cases)}
        (key, code), what = min(fails, key=lambda f: order[id(f[0])])
        full = prelude.strip("\n") + "\nfn main() { let c = &mut mc::mac::Ctx::new(); " + code + " mc::mac::done(c) }\n"
        v = {"what": f"{key}: {what}"[:3000], "case": code, "repro": full}
    shutil.rmtree(d, ignore_errors=True)
    return tot, v


def s(text):
    """A Rust string literal."""
    o = '"'
    for ch in text:
        if ch in '"\\':
            o += "\\" + ch
        elif ch == "\n":
            o += "\\n"
        elif ord(ch) < 32 or ord(ch) == 127:
            o += "\\u{%x}" % ord(ch)
        else:
            o += ch
    return o + '"'


class Result:
    """Collects the sections of one check."""

    def __init__(self, pid, rule, assumptions):
        self.res = {"level": "model_checking", "coverage": {
            "states": 0, "transitions": 0, "traces_validated_against_impl": 0, "rule": rule,
            "exhaustive": True, "samples": [], "sections": {}}, "assumptions": assumptions, "violation": None}
        self.pid = pid

    def failed(self):
        return self.res["violation"] is not None

    def add(self, name, states, transitions, traces, samples=(), violation=None, **more):
        c = self.res["coverage"]
        c["states"] += states
        c["transitions"] += transitions
        c["traces_validated_against_impl"] += traces
        c["samples"] += list(samples)
        c["sections"][name] = dict(states=states, transitions=transitions, traces=traces, **more)
        if violation and not self.failed():
            self.res["violation"] = violation

    def run(self, name, prelude, cases, **kw):
        """cases on the real code; states: distinct cases, transitions:
        renderings compared"""
        if self.failed():
            return
        t0 = time.time()
        tot, v = run(self.pid, name, prelude, cases, **kw)
        self.add(name, len(set(x[1] for x in cases)), tot["evaluations"], tot["evaluations"], tot["samples"], v,
                 distinct_outcomes=tot["distinct"], wall_s=round(time.time() - t0, 1))
