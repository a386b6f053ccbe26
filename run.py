#!/usr/bin/env python3
"""Runs the check of one property: run.py <property id> | --setup

Exit 0: held on everything explored. Exit 1 with a VIOLATION line: broken.
Anything else: the check itself failed.
"""
import importlib
import json
import os
import re
import signal
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "tools"))
import common  # noqa: E402

RUST = {"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C17", "C18",
        "C19", "C20", "C21", "C24", "C25", "C26", "C27", "C28", "C29", "C30"}
PYTHON = {"C12", "C13", "C14", "C15", "C16", "C22", "C23"}
# properties with a part of each kind
BOTH = {"C11"}
# properties about the ways in which the interface can be called
API = {"C11", "C21", "C25", "C27", "C29"}


def broken_api(pid, err):
    """The harness of a property that is about how the public interface can be
    called no longer compiles, although the libraries and the rest of the
    machinery do: the call that the compiler rejects, as a violation."""
    common.setup_lib()
    blocks = [b for b in re.split(r"\n(?=error|warning)", "\n" + err) if re.match(r"\n?error\[E\d+\]", b)]
    here = [b for b in blocks if f"src/bin/{pid.lower()}.rs" in b]
    if not here:
        common.die(f"building {pid.lower()} failed:\n{err[-4000:]}")
    return {"property": pid, "tier": common.TIER, "seed": common.SEED, "level": "exploration",
            "coverage": {"evaluations": 1, "distinct_nontrivial": 1, "rule": "calls that no longer compile", "samples": [here[0].strip()[:500]]},
            "assumptions": [], "violation": {"what": "a call of the public interface is rejected by the compiler: " + here[0].strip().split("\n")[0],
                                             "case": here[0].strip()[:3000], "repro": ""}}


def run_bin(pid):
    exe, err = common.build_bin(pid.lower(), fail=pid not in API)
    if err:
        return broken_api(pid, err)
    result = os.path.join(common.OUT, pid, "result.json")
    env = dict(common.ENV, MC_RESULT=result)
    if os.path.exists(result):
        os.unlink(result)
    limit = 1500 if common.TIER == "thorough" else 200
    try:
        p = subprocess.run([exe], env=env, timeout=limit, stdout=subprocess.DEVNULL,
                           stderr=subprocess.PIPE, errors="replace")
        rc, err = p.returncode, p.stderr
    except subprocess.TimeoutExpired:
        rc, err = None, "timeout"
    if rc in (0, 1) and os.path.exists(result):
        return json.load(open(result))
    if rc == 101:
        # a panic between the explorations: the code under test does not even
        # do what the explorer needs it for
        return {"property": pid, "tier": common.TIER, "seed": common.SEED, "level": "exploration",
                "coverage": {"evaluations": 1, "distinct_nontrivial": 1, "rule": "run ended early by a panic", "samples": [err[-500:]]},
                "assumptions": [], "violation": {"what": "panic while preparing the exploration", "case": err[-2000:], "repro": ""}}
    if rc is not None and rc > 0:
        common.die(f"{pid}: harness failed with code {rc}: {err[-2000:]}")
    # killed by a signal, or hanging: find the case that does it
    print(f"{pid}: run ended with {'a hang' if rc is None else f'signal {-rc}'}; looking for the case", flush=True)
    return isolate(pid, exe, env, result)


def isolate(pid, exe, env, result):
    journal = os.path.join(common.OUT, pid, "journal")
    seen = []
    for attempt in range(2):
        if os.path.exists(journal):
            os.unlink(journal)
        p = subprocess.Popen([exe], env=dict(env, MC_JOURNAL=journal, MC_CAP_S="500"),
                             stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        t0, last, since = time.time(), None, time.time()
        how = None
        while True:
            rc = p.poll()
            if rc is not None:
                if rc < 0:
                    how = f"the process dies with signal {-rc} ({signal.Signals(-rc).name})"
                break
            time.sleep(0.2)
            try:
                cur = open(journal, "rb").read()
            except OSError:
                cur = b""
            if cur != last or not cur:
                last, since = cur, time.time()
            elif time.time() - since > 15:
                how = "does not terminate"
                p.kill()
                p.wait()
                break
            if time.time() - t0 > 300:
                p.kill()
                p.wait()
                break
        if how is None:
            common.die(f"{pid}: the failure of the run could not be traced to a case")
        case = open(journal, errors="replace").read()
        if not case.strip():
            common.die(f"{pid}: the run fails outside the code under test")
        seen.append((how, case))
    if seen[0] != seen[1]:
        common.die(f"{pid}: the failure is not deterministic: {seen}")
    how, case = seen[0]
    return {"property": pid, "tier": common.TIER, "seed": common.SEED, "level": "exploration",
            "coverage": {"evaluations": 1, "distinct_nontrivial": 1,
                         "rule": "run ended early by a crash or hang of the code under test", "samples": [case[:500]]},
            "assumptions": [], "violation": {"what": how, "case": case, "repro": ""}}


def shipped(pid):
    """The second pass: the same exploration, at the quick depth, on code built
    without debug assertions and in another environment."""
    result = os.path.join(common.OUT, pid, "shipped.json")
    if os.path.exists(result):
        os.unlink(result)
    p = subprocess.run([sys.executable, os.path.join(HERE, "run.py"), pid], cwd=HERE, stdout=subprocess.PIPE, text=True, errors="replace",
                       env=dict(os.environ, MC_PROFILE="shipped", VERIF_TIER="quick"))
    if p.returncode not in (0, 1) or not os.path.exists(result):
        common.die(f"{pid}: second pass: {p.stdout[-2000:]}")
    res = json.load(open(result))
    cov = res["coverage"]
    cov["sections"] = {"as shipped: " + k: v for k, v in cov.get("sections", {}).items()}
    cov["samples"], cov["rule"] = [], ""
    if res.get("violation"):
        res["violation"]["what"] = "without debug assertions, or in an environment that asks for no colours: " + res["violation"]["what"]
    res["assumptions"] = []
    return res


def main():
    if sys.argv[1:] == ["--setup"]:
        common.setup()
        return 0
    pid = sys.argv[1]
    t0 = time.time()
    os.makedirs(os.path.join(common.OUT, pid), exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    results = []
    if pid in RUST:
        results.append(run_bin(pid))
    if (pid in PYTHON or pid in BOTH) and not (results and results[0]["violation"]):
        results.append(importlib.import_module("check_" + pid.lower()).run())
    res = results[0]
    for extra in results[1:]:
        res = common.merge(res, extra)
    if common.PROFILE == "shipped":
        with open(os.path.join(common.OUT, pid, "shipped.json"), "w", errors="replace") as f:
            json.dump(res, f)
        return 1 if res["violation"] else 0
    if not res["violation"]:
        res = common.merge(res, shipped(pid))
    return common.conclude(pid, res, time.time() - t0)


if __name__ == "__main__":
    sys.exit(main())
