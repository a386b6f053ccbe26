#!/usr/bin/env python3
"""Systematic mutants of the library (a development tool; no check uses it).

  mutate.py list                      counts of mutants per file
  mutate.py run DIR WORKERS [FILTER]  builds and tests every mutant in copies of /repo and /verif bound over
                                      the real paths in a mount namespace of its own, and runs the checks that
                                      concern the file on those that the existing tests do not notice; DIR/results.jsonl has the outcomes
  mutate.py one DIR K DIFF [PROP..]   runs the checks (all, or those given) with a patch applied

Survivors of both are either equivalent to the original or show what the checks miss.
"""
import glob
import json
import os
import queue
import re
import shutil
import subprocess
import sys
import threading

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FILES = sorted(f[len("/repo/"):] for pat in ("*/src/*.rs", "src/*.rs") for f in glob.glob("/repo/" + pat))
ALL = [f"C{i:02}" for i in range(1, 31)]
ORDER = {
    "ansi/src/ansi.rs": "C01 C30 C06 C19 C25 C27 C05 C11 C26", "ansi/src/io.rs": "C01 C30 C18 C20 C19 C28 C21 C25",
    "ansi/src/util.rs": "C01 C30", "html/src/html.rs": "C02 C03 C30 C06 C19 C25 C27", "html/src/util.rs": "C02 C30",
    "plain/src/plain.rs": "C04 C21 C19 C25", "plain/src/io.rs": "C04 C18 C20 C19 C28 C21", "style/src/lib.rs": "C07 C08 C29",
    "core/src/string.rs": "C09 C25 C27 C05", "core/src/formatter.rs": "C10 C12 C17 C21", "core/src/arguments.rs": "C12 C10",
    "core/src/std_compat.rs": "C12 C10", "core/src/io.rs": "C18 C19 C20 C21", "core/src/write.rs": "C11 C21 C10",
    "core/src/display.rs": "C10", "core/src/format.rs": "C26 C11 C23", "core/src/to_string.rs": "C11 C22", "core/src/lib.rs": "C22 C14 C23",
    "macros/src/lib.rs": "C14 C15 C16 C23", "macros/src/format.rs": "C15 C13 C12 C14", "macros/src/to_tokens.rs": "C13 C12 C23 C16",
}


def code_lines(text):
    res = []
    for i, l in enumerate(text.split("\n")):
        s = l.strip()
        if s and not s.startswith(("//", "#[", "#!", "use ", "pub use", "extern ", "mod ", "pub mod")):
            res.append(i)
    return res


OPS = [
    (r" == ", [" != "]), (r" != ", [" == "]), (r" && ", [" || "]), (r" \|\| ", [" && "]), (r" < ", [" <= ", " > "]), (r" >= ", [" > ", " < "]), (r" \+ ", [" - "]),
    (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r"\bforeground\b", ["background"]), (r"\bbackground\b", ["foreground"]),
    (r"\bForeground\b", ["Background"]), (r"\bBackground\b", ["Foreground"]), (r"\bBold\b", ["Faint", "Normal"]), (r"\bFaint\b", ["Bold", "Normal"]), (r"\bNormal\b", ["Bold"]),
    (r"\bLeft\b", ["Right", "Center"]), (r"\bRight\b", ["Left", "Center"]), (r"\bCenter\b", ["Left"]), (r"\bPlus\b", ["Minus"]), (r"\bMinus\b", ["Plus"]),
    (r"\bLower\b", ["Upper"]), (r"\bUpper\b", ["Lower"]), (r"\bLowerHex\b", ["UpperHex"]), (r"\bLowerExp\b", ["UpperExp"]), (r"\bDebug\b", ["Display"]), (r"\bDisplay\b", ["Debug"]),
    (r"\bOctal\b", ["Binary"]), (r"\bBinary\b", ["Octal"]), (r"\bself\.current\b", ["Style::default()", "style"]), (r"\bself\.style\b", ["Style::default()"]),
    (r"\bself\.format\b", ["Default::default()"]), (r"\bStyle::default\(\)", ["self.current", "style"]), (r"\bis_empty\(\)", ["is_empty() == false", "len() == 1"]),
    (r"\bwrite_all\b", ["write"]), (r"\bwrite_str\b", ["write_char"]), (r"\bfirst\b", ["last"]), (r"\blast\(\)", ["first()"]), (r"\bnone_of\b", ["one_of"]),
    (r"\bcut\(", ["(", "opt("]), (r"\bmany0\b", ["many1"]), (r"\bmany1\b", ["many0"]), (r"\ball_consuming\(", ["("]), (r"\bopt\(", ["("]), (r"\bseparated_list1\b", ["separated_list0"]),
    (r"\bis_xid_start\b", ["is_xid_continue"]), (r"\bis_xid_continue\b", ["is_xid_start"]), (r"\bdigit1\b", ["alpha1"]), (r"\bu16\b", ["u8", "u32"]), (r"\busize\b", ["u8"]),
    (r"\bSome\((\w+)\)", ["None"]), (r"\bNone\b", ["Some(Default::default())"]), (r"\.with\(style\)", [""]), (r"\.with\(restyle\)", [""]), (r"&&?\*?self\.0\b", ["&self.1"]), (r"\bself\.1\b", ["self.0"]), (r"\bself\.2\b", ["self.1"]),
    (r"\bErr\(e\)", ["Ok(())"]), (r"\?;", [".ok();"]), (r"\?$", [""]), (r"\bInterrupted\b", ["WouldBlock"]), (r"\bOther\b", ["InvalidData"]), (r"\bWriteZero\b", ["UnexpectedEof"]),
    (r"\bbreak\b", ["continue"]), (r"\btake\(\)", ["as_ref().map(|e| e.kind().into())"]), (r"\binto_iter\(\)", ["into_iter().rev()"]), (r"\.enumerate\(\)", [".enumerate().skip(1)"]),
    (r"\.iter\(\)", [".iter().rev()", ".iter().skip(1)"]), (r"\bmove \|", ["|"]), (r"\b0\b", ["1"]), (r"\b4\b", ["3"]), (r"\b1\b", ["0", "2"]), (r"\.unraw\(\)", [""]), (r"\bnew_raw\b", ["new"]),
    (r"\bcall_site\b", ["mixed_site"]), (r"\.resolved_at\([^)]*\(\)\)", [""]), (r"\bfrom\b", ["to"]), (r"\bto\b", ["from"]), (r"\(_, ", ["(Intensity::Normal, "]), (r"#export::", ["::stylish::"]), (r"#\[cfg\(feature = \"alloc\"\)\]", ["#[cfg(feature = \"std\")]"]),
]


def mutants():
    seen = set()
    for f in FILES:
        text = open("/repo/" + f).read()
        lines = text.split("\n")
        lit = code_lines(text)

        def emit(what, new):
            key = (f, new)
            if new != text and key not in seen:
                seen.add(key)
                return [(f, what, new)]
            return []

        for i in lit:
            l = lines[i]
            code = l.split(" // ")[0]
            for pat, reps in OPS:
                for m in re.finditer(pat, code):
                    for r in reps:
                        yield from emit(f"{i + 1}: {pat} -> {r} in `{l.strip()}`",
                                        "\n".join(lines[:i] + [l[:m.start()] + r + l[m.end():]] + lines[i + 1:]))
            if re.search(r'expect\("|panic!\("|assert!\(', code):
                continue
            # text and numbers inside literals
            for m in re.finditer(r'"((?:[^"\\]|\\.)*)"', code):
                body = m.group(1)
                alts = {body[:-1] if not body.endswith("\\") else body, body[1:] if not body.startswith("\\") else body, body + body[-1:], ""}
                n = re.search(r"\d+", body)
                if n:
                    alts.add(body[:n.start()] + str(int(n.group()) + 1) + body[n.end():])
                if "util" in f:
                    alts = {a for a in alts if n and a.startswith(body[:n.start()] + str(int(n.group()) + 1)) or a == body[1:]}
                for a in sorted(alts - {body}):
                    yield from emit(f"{i + 1}: \"{body}\" -> \"{a}\" in `{l.strip()}`",
                                    "\n".join(lines[:i] + [l[:m.start()] + '"' + a + '"' + l[m.end():]] + lines[i + 1:]))
            # a statement or arm left out
            if l.rstrip().endswith((";", ",")) and not l.strip().startswith(("let ", "}", ")", "pub ", "type ")) and l.count("(") == l.count(")"):
                yield from emit(f"{i + 1}: without `{l.strip()}`", "\n".join(lines[:i] + lines[i + 1:]))
            m = re.match(r"^(\s*)(\}? ?(?:else )?if )(.*) \{$", l)
            if m and " let " not in l:
                for r in ("true", "false"):
                    yield from emit(f"{i + 1}: condition {r} in `{l.strip()}`",
                                    "\n".join(lines[:i] + [m.group(1) + m.group(2) + r + " {"] + lines[i + 1:]))
            # neighbours swapped
            if i + 1 in lit and re.search(r"[(=]", l) and lines[i + 1].strip() and lines[i].rstrip().endswith((";", ",")) and lines[i + 1].rstrip().endswith((";", ",")):
                yield from emit(f"{i + 1}: swapped with the next line: `{l.strip()}`", "\n".join(lines[:i] + [lines[i + 1], lines[i]] + lines[i + 2:]))
                # one arm with the body of the next
                a, b = lines[i].split(" => "), lines[i + 1].split(" => ")
                if len(a) == len(b) == 2:
                    yield from emit(f"{i + 1}: body of the next arm: `{l.strip()}`", "\n".join(lines[:i] + [a[0] + " => " + b[1]] + lines[i + 1:]))
        # methods of an impl that only forward, left to the trait's default
        for m in re.finditer(r"\n    (?:#\[inline\]\n    )?fn \w+[^{;]*\{\n(?:        .*\n|\n){1,3}    \}\n", text):
            yield from emit(f"{text[:m.start()].count(chr(10)) + 2}: without method {m.group().strip().splitlines()[0]}", text[:m.start()] + "\n" + text[m.end():])


WRAP = r"""
set -e
mount --bind {d}/repo /repo
mount --bind {d}/verif /verif
mount --bind {d}/work /opt/vp/work
mount --bind {d}/tmp /tmp
cd /verif
exec {cmd}
"""


def isolated(d, cmd, timeout=1500):
    p = subprocess.Popen(["nice", "-n", "15", "unshare", "-Urm", "bash", "-c", WRAP.format(d=d, cmd=cmd)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                         text=True, errors="replace", start_new_session=True, stdin=subprocess.DEVNULL)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        out, _ = p.communicate()
        return None, out


def worker_dir(root, k):
    d = os.path.join(root, f"w{k}")
    if not os.path.exists(d):
        os.makedirs(d + "/work")
        os.makedirs(d + "/tmp")
        subprocess.run(["cp", "-a", "/repo", d + "/repo"], check=True)
        subprocess.run(["cp", "-a", HERE, d + "/verif"], check=True)
    return d


def checks(d, props):
    """First check that exits with 1, and those that give no answer."""
    odd = []
    for p in props:
        rc, out = isolated(d, f"env VERIF_TIER=quick VERIF_SEED=1 python3 run.py {p}")
        if rc == 1:
            return p, odd, [l for l in out.splitlines() if l.startswith("  ")][:1]
        if rc != 0:
            odd.append((p, rc, out[-600:]))
    return None, odd, []


def run(root, n, pattern):
    os.makedirs(root, exist_ok=True)
    out = os.path.join(root, "results.jsonl")
    done = {(r["file"], r["what"]) for r in map(json.loads, open(out))} if os.path.exists(out) else set()
    todo = queue.Queue()
    for m in mutants():
        if (m[0], m[1]) not in done and re.search(pattern, m[0]):
            todo.put(m)
    base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    lock = threading.Lock()
    print("to do:", todo.qsize(), flush=True)

    def work(k):
        d = worker_dir(root, k)
        while True:
            try:
                f, what, new = todo.get_nowait()
            except queue.Empty:
                return
            p = os.path.join(d, "repo", f)
            old = open(p).read()
            res = {"file": f, "what": what}
            try:
                open(p, "w").write(new)
                rc, o = isolated(d, "bash /opt/vp/build.sh", 200)
                if rc != 0:
                    res["outcome"] = "does not build"
                else:
                    rc, o = isolated(d, "bash /opt/vp/test.sh /tmp/out.json", 200)
                    j = d + "/tmp/out.json"
                    passed = set(json.load(open(j)).get("passed", [])) if rc == 0 and os.path.exists(j) else set()
                    if base - passed:
                        res["outcome"] = "fails existing tests"
                    else:
                        c, odd, why = checks(d, ORDER.get(f, " ".join(ALL)).split())
                        res["outcome"] = "caught" if c else "SURVIVES"
                        res.update(by=c, odd=odd, why=why)
                    if os.path.exists(j):
                        os.unlink(j)
            finally:
                open(p, "w").write(old)
            with lock:
                open(out, "a").write(json.dumps(res) + "\n")

    ts = [threading.Thread(target=work, args=(k,)) for k in range(n)]
    [t.start() for t in ts]
    [t.join() for t in ts]


if __name__ == "__main__":
    mode = sys.argv[1]
    if mode == "list":
        c = {}
        for f, _, _ in mutants():
            c[f] = c.get(f, 0) + 1
        for f, k in c.items():
            print(k, f)
        print(sum(c.values()))
    elif mode == "run":
        run(sys.argv[2], int(sys.argv[3]), sys.argv[4] if len(sys.argv) > 4 else "")
    else:
        d = worker_dir(sys.argv[2], sys.argv[3])
        diff = os.path.abspath(sys.argv[4])
        assert subprocess.run(["git", "-C", d + "/repo", "apply", diff]).returncode == 0
        try:
            for p in sys.argv[5:] or ALL:
                rc, o = isolated(d, f"env VERIF_TIER=quick VERIF_SEED=1 python3 run.py {p}")
                print(p, rc, "" if rc == 0 else o[-1500:], flush=True)
        finally:
            subprocess.run(["git", "-C", d + "/repo", "checkout", "-q", "--", "."])
