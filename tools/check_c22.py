"""C22: every combination of features builds, offers what the feature table
says, and renders the same results."""
import concurrent.futures
import json
import os
import shutil
import subprocess

import common
import gen

FEATURES = ["std", "alloc", "macros", "ansi", "html", "plain"]
PROBE = os.path.join(common.VERIF, "probe")
TARGETS = os.path.join(common.BUILD, "c22")

# item -> features it is tied to
IMPL = "fn t<T: ?Sized + {b}>() {{}} t::<{t}>();"


def items():
    res = []

    def add(code, *needs):
        res.append((code, frozenset(needs)))

    def impl(t, b, *needs):
        add(IMPL.format(t=t, b=b), *needs)
    # always there
    for n in "Background Color Error Foreground Intensity Style StyleDiff Arguments<'static> Formatter<'static>".split():
        add(f"let _: Option<stylish::{n}> = None;")
    add("let _: stylish::Result = Ok(());")
    for n in "Display Restyle Write".split():
        add(f"fn t<T: stylish::{n} + ?Sized>() {{}}")
        add(f"let _: Option<&dyn stylish::{n}> = None;")
    for n in "() Style StyleDiff Foreground Background Intensity Option<Style> [Style] &Style (Style,Style) (Style,Style,Style)".split():
        impl(n.replace("Style,", "stylish::Style,").replace("Style)", "stylish::Style)").replace("Style]", "stylish::Style]").replace("Style>", "stylish::Style>")
             .replace("&Style", "&stylish::Style") if n[0] in "([&O(" else "stylish::" + n, "stylish::Restyle")
    add("fn f(x: &mut stylish::Formatter<'_>) -> stylish::Result { x.write_str(\"\")?; x.with(stylish::Style::default()).write_str(\"\") }")
    add("fn f(x: &mut dyn stylish::Write) -> stylish::Result { x.write_str(\"\", stylish::Style::default())?; x.write_char('x', stylish::Style::default()) }")
    add("let _ = stylish::Style::default().with(stylish::Foreground(stylish::Color::BrightWhite)).diff_from(stylish::Style::default());")
    impl("stylish::Arguments<'static>", "stylish::Display")
    impl("&str", "Sized")
    # macros
    add("let _ = stylish::format_args!(\"{}{:(bold)s}\", 1, stylish::format_args!(\"\"));", "macros")
    add("fn f(w: &mut impl stylish::Write) { let _ = stylish::write!(w, \"{}\", 1); }", "macros")
    add("fn f(w: &mut impl stylish::Write) { let _ = stylish::writeln!(w, \"{}\", 1); }", "macros")
    add("fn f(w: &mut impl stylish::Write) { let _ = stylish::writeln!(w); }", "macros")
    add("fn f(w: &mut impl stylish::Write) { let _ = stylish::writeln!(w, concat!(\"{\", \"}\"), 1); }", "macros")
    for n in "format_args write writeln".split():
        add(f"use stylish::{n};", "macros")
    # the attributed string
    add("let _: Option<stylish::String> = None;", "alloc")
    add("let _: fn(stylish::Arguments<'_>) -> stylish::String = stylish::format;", "alloc")
    for n in "stylish::Write stylish::Display Clone Default core::fmt::Debug Send Sync".split():
        impl("stylish::String", n, "alloc")
    add("extern crate alloc; " + IMPL.format(t="alloc::boxed::Box<dyn stylish::Restyle>", b="stylish::Restyle"), "alloc")
    add("extern crate alloc; " + IMPL.format(t="alloc::boxed::Box<stylish::Style>", b="stylish::Restyle"), "alloc")
    add("let _ = stylish::format!(\"{}\", 1);", "alloc", "macros")
    add("use stylish::ToStylishString; fn f(x: &impl stylish::Display) -> stylish::String { x.to_stylish_string() }", "alloc", "macros")
    # io
    for n in "Error ErrorKind Result<()>".split():
        add(f"let _: Option<stylish::io::{n}> = None;", "std")
    add("fn t<T: stylish::io::Write + ?Sized>() {}", "std")
    add("let _: Option<&dyn stylish::io::Write> = None;", "std")
    add("fn f(w: &mut dyn stylish::io::Write) -> stylish::io::Result<()> { let s = stylish::Style::default(); let _: usize = w.write(b\"\", s)?; w.write_all(b\"\", s)?; w.flush() }", "std")
    add("fn f<W: stylish::io::Write>(w: &mut W, a: stylish::Arguments<'_>) -> stylish::io::Result<()> { w.write_fmt(a) }", "std")
    add("fn f(w: &mut impl stylish::io::Write) { let _ = stylish::write!(w, \"{}\", 1); }", "std", "macros")
    add("fn f(w: &mut impl stylish::io::Write) { let _ = stylish::writeln!(w, \"{}\", 1); }", "std", "macros")
    # the outputs
    buf = "extern crate std; "
    for mod, ty in (("ansi", "Ansi"), ("html", "Html"), ("plain", "Plain")):
        end = "into_inner" if mod == "plain" else "finish"
        add(f"fn f(w: impl core::fmt::Write) {{ let _ = stylish::{mod}(w); }}", mod)
        add(f"fn f(w: impl core::fmt::Write) {{ let _ = stylish::{ty}::new(w).{end}(); }}", mod)
        add(f"fn f<W: core::fmt::Write>(w: stylish::{ty}<W>, a: stylish::Arguments<'_>) -> stylish::Result {{ {{w}}.write_fmt(a) }}", mod)
        add(f"use stylish::{mod}; ", mod)
        for n in "stylish::Write Clone Default core::fmt::Debug".split():
            impl(f"stylish::{ty}<Fixed>", n, mod)
        add(f"extern crate alloc; let _: fn(stylish::Arguments<'_>) -> alloc::string::String = stylish::{mod}::format;", mod, "alloc")
        add(f"extern crate alloc; let _: alloc::string::String = stylish::{mod}::format!(\"{{:(bold)}}\", 1);", mod, "alloc", "macros")
        add(f"use stylish::To{ty}String; extern crate alloc; fn f(x: &impl stylish::Display) -> alloc::string::String {{ x.to_{mod}_string() }}", mod, "alloc", "macros")
        if mod != "html":
            add(f"{buf}fn f(w: impl std::io::Write) {{ let _ = stylish::io::{mod}(w); }}", mod, "std")
            add(f"{buf}fn f(w: impl std::io::Write) {{ let _ = stylish::io::{ty}::new(w).{end}(); }}", mod, "std")
            add(f"{buf}fn f<W: std::io::Write>(w: stylish::io::{ty}<W>, a: stylish::Arguments<'_>) -> stylish::io::Result<()> {{ {{w}}.write_fmt(a) }}", mod, "std")
            for n in "stylish::io::Write Clone Default core::fmt::Debug".split():
                impl(f"stylish::io::{ty}<Fixed>", n, mod, "std")
    # both kinds of writers
    impl("&'static mut dyn stylish::Write", "stylish::Write")
    impl("&'static mut dyn stylish::io::Write", "stylish::io::Write", "std")
    return res


PRELUDE = """#![no_std]
#![allow(warnings)]
extern crate std as hidden_std;
use core::prelude::rust_2021::*;
#[derive(Clone, Debug, Default)] struct Fixed;
impl core::fmt::Write for Fixed { fn write_str(&mut self, _: &str) -> core::fmt::Result { Ok(()) } }
impl hidden_std::io::Write for Fixed { fn write(&mut self, b: &[u8]) -> hidden_std::io::Result<usize> { Ok(b.len()) } fn flush(&mut self) -> hidden_std::io::Result<()> { Ok(()) } }
"""


PROFILE, OUTPUT = ("shipped", "shipped") if common.PROFILE == "shipped" else ("dev", "debug")


def closure(fs):
    fs = set(fs)
    if "std" in fs:
        fs.add("alloc")
    return fs


def combos():
    for bits in range(64):
        yield [f for k, f in enumerate(FEATURES) if bits >> k & 1]


def build(args, target, cwd=PROBE):
    """Returns ({crate: rlib}, executable, error)."""
    env = dict(common.ENV, CARGO_TARGET_DIR=target)
    if common.TIER == "thorough":
        env["PROBE_ALL"] = "1"
    p = subprocess.run(["cargo", "build", "--profile", PROFILE, "--offline", "--locked", "--message-format=json"] + args, cwd=cwd, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, errors="replace", timeout=700)
    ext, exe, errs = {}, None, []
    for line in p.stdout.splitlines():
        if not line.startswith("{"):
            continue
        m = json.loads(line)
        if m.get("reason") == "compiler-artifact":
            if m.get("executable"):
                exe = m["executable"]
            for f in m["filenames"]:
                if f.endswith((".rlib", ".so")):
                    ext[m["target"]["name"]] = f
        elif m.get("reason") == "compiler-message" and m["message"]["level"] == "error":
            errs.append(m["message"].get("rendered") or m["message"]["message"])
    if p.returncode:
        return None, None, ("; ".join(errs) or p.stderr)[:1500]
    return ext, exe, None


def check_items(d, name, ext, deps, have, lines):
    """(items missing, items offered without their features)"""
    src = os.path.join(d, name + ".rs")

    def compile(codes):
        text = PRELUDE + "\n".join(f"fn i{k}() {{ {c} }}" for k, c in enumerate(codes)) + "\nfn main() {}\n"
        with open(src, "w") as f:
            f.write(text)
        p = subprocess.run(["rustc", "--edition", "2021", "--crate-type", "bin", "--crate-name", "gen", "--error-format=json",
                            "--cap-lints", "allow", "--emit", "metadata", "-o", src[:-2] + "rmeta", src, "-L", "dependency=" + deps,
                            "--extern", "stylish=" + ext["stylish"]],
                           env=common.ENV, stdout=subprocess.PIPE, stderr=subprocess.PIPE, errors="replace", timeout=300)
        if p.returncode not in (0, 1):
            common.die(f"rustc ended with {p.returncode}: {p.stderr[-1000:]}")
        bad, off = {}, PRELUDE.count("\n")
        for line in p.stderr.splitlines():
            if line.startswith("{"):
                x = json.loads(line)
                if x["level"] == "error":
                    for at in gen.lines_of(x, src):
                        if 0 <= at - 1 - off < len(codes):
                            bad.setdefault(at - 1 - off, x["message"])
        if p.returncode == 1 and not bad:
            common.die(f"{src}: {p.stderr[-2000:]}")
        return bad
    here = [c for c, n in lines if n <= have]
    gone = [(c, n) for c, n in lines if not n <= have]
    missing = [(here[k], m) for k, m in compile(here).items()]
    left, extra = gone, []
    while left:
        bad = compile([c for c, _ in left])
        if not bad:
            extra = left
            break
        left = [x for k, x in enumerate(left) if k not in bad]
    return missing, extra, len(here), len(gone)


def one(job):
    k, fs, target, d, lines = job
    name = "+".join(fs) or "none"
    ext, exe, err = build(["--no-default-features", "--features", ",".join(fs)], target)
    if err:
        return {"bad": f"features {name}: does not build: {err}", "n": 0}
    p = subprocess.run([exe], stdout=subprocess.PIPE, stderr=subprocess.PIPE, errors="replace", timeout=120, env=common.ENV)
    rows = p.stdout.splitlines()
    if p.returncode or not rows or rows[-1] != "done":
        return {"bad": f"features {name}: the rendering program ends with {p.returncode} after {rows[-1] if rows else 'nothing'}: {p.stderr[:500]}", "n": 0}
    res = {"rows": dict(r.split("\t", 1) for r in rows[:-1])}
    deps = os.path.join(target, OUTPUT, "deps")
    missing, extra, a, b = check_items(d, f"i{k}", ext, deps, closure(fs), lines)
    if missing:
        res["bad"] = f"features {name}: missing: {missing[0][0]}: {missing[0][1]}"
    elif extra:
        res["bad"] = f"features {name}: available without {'+'.join(sorted(extra[0][1] - closure(fs)))}: {extra[0][0]}"
    res["n"], res["a"], res["b"] = len(rows) - 1, a, b
    return res


# what the documentation says about the parts, and about no features at all
MEMBERS = {"style": ["std", "alloc"], "core": ["std", "alloc", "macros"], "ansi": ["std", "alloc", "macros"],
           "html": ["std", "alloc", "macros"], "plain": ["std", "alloc", "macros"], "macros": []}
BARE = """#![no_std]
#![no_main]
{alloc}
{uses}
#[panic_handler] fn panic(_: &core::panic::PanicInfo) -> ! {{ loop {{}} }}
#[no_mangle] pub extern "C" fn rust_eh_personality() {{}}
#[no_mangle] pub extern "C" fn main(_: i32, _: *const *const u8) -> i32 {{ 0 }}
#[link(name = "c")] #[link(name = "gcc_s")] extern "C" {{}}
"""
HEAP = """extern crate alloc;
struct Heap;
unsafe impl core::alloc::GlobalAlloc for Heap { unsafe fn alloc(&self, _: core::alloc::Layout) -> *mut u8 { core::ptr::null_mut() } unsafe fn dealloc(&self, _: *mut u8, _: core::alloc::Layout) {} }
#[global_allocator] static HEAP: Heap = Heap;"""


def member_uses(m, fs):
    """What a part offers with these features."""
    have, res = closure(fs), ["#[allow(unused_imports)] use lib as _;"]

    def add(code, *needs):
        if set(needs) <= have:
            res.append(f"#[allow(unused)] mod u{len(res)} {{ {code} }}")
    text = "extern crate alloc; use alloc::string::String;"
    if m == "style":
        add("pub use lib::{Background, Color, Foreground, Intensity, Restyle, Style, StyleDiff};")
        add("extern crate alloc; fn f(x: alloc::boxed::Box<dyn lib::Restyle>) -> lib::Style { lib::Style::default().with(x) }", "alloc")
    elif m == "core":
        add("pub use lib::{Arguments, Background, Color, Display, Error, Foreground, Formatter, Intensity, Restyle, Result, Style, StyleDiff, Write};")
        add("pub use lib::String; fn f(x: lib::Arguments<'_>) -> String { lib::format(x) }", "alloc")
        add("extern crate alloc; fn f(x: alloc::boxed::Box<dyn lib::Restyle>) -> lib::Style { lib::Style::default().with(x) }", "alloc")
        add("pub use lib::io::{Error, ErrorKind, Result, Write};", "std")
        add("fn f(w: &mut dyn lib::Write) { let _ = lib::write!(w, \"{:(bold)}\", 1); let _ = lib::writeln!(w, \"{:s}\", lib::format_args!(\"\")); }", "macros")
        add("use lib::ToStylishString; fn f() -> lib::String { lib::format!(\"{}\", 1).to_stylish_string() }", "alloc", "macros")
    elif m in ("ansi", "html", "plain"):
        ty = m.capitalize()
        add(f"pub use lib::{ty};")
        add(f"{text} const F: fn() -> Option<{ty}<String>> = || None; use lib::{ty}; fn f() -> lib::{ty}<String> {{ lib::{ty}::new(String::new()) }}", "alloc")
        add("fn f() { let _ = lib::format; }", "alloc")
        if m != "html":
            add(f"pub use lib::io::{ty};", "std")
        add(text + " fn f() -> String { lib::format!(\"{:(bold)}\", 1) }", "alloc", "macros")
        add(f"pub use lib::To{ty}String;", "alloc", "macros")
    return "\n".join(res)


def member(job):
    """A part of the library on its own, used by a program that has only what
    the part's features stand for."""
    m, fs, target, d = job
    name = f"stylish-{m} with " + ("+".join(fs) or "nothing")
    path = os.path.join(d, "m-" + m + "-" + "-".join(fs))
    os.makedirs(os.path.join(path, "src"))
    with open(os.path.join(path, "Cargo.toml"), "w") as f:
        f.write(f"""[package]
name = "probe"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
lib = {{ package = "stylish-{m}", path = "{common.REPO}/{m}", default-features = false, features = {json.dumps(fs)} }}
[profile.dev]
panic = "abort"
debug = false
incremental = false
[profile.shipped]
inherits = "dev"
debug-assertions = false
overflow-checks = false
""")
    with open(os.path.join(path, "src", "main.rs"), "w") as f:
        if m == "macros" or "std" in fs:
            f.write((member_uses(m, fs)) + "\nfn main() {}\n")
        else:
            f.write(BARE.format(alloc=HEAP if "alloc" in fs else "", uses=member_uses(m, fs)))
    shutil.copy(os.path.join(PROBE, "Cargo.lock"), path)
    env = dict(common.ENV, CARGO_TARGET_DIR=target)
    subprocess.run(["cargo", "generate-lockfile", "--offline"], cwd=path, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    _, _, err = build([], target, path)
    return f"{name}: does not build: {err}" if err else None


def run():
    quick = common.TIER == "quick"
    r = gen.Result("C22", "states: combinations of features; transitions: items whose availability was decided plus results "
                   "compared between combinations; traces: programs built and run",
                   ["one platform; the library's own dependencies are as locked"])
    lines = items()
    d = os.path.join(gen.WORK, "C22")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    todo = list(combos())
    n = common.JOBS
    targets = [os.path.join(TARGETS, f"t{k}") for k in range(n)]
    for t in targets:
        # file times decide nothing: always start from scratch
        shutil.rmtree(t, ignore_errors=True)

    def worker(k):
        return [(j, one((j, todo[j], targets[k], d, lines))) for j in range(k, len(todo), n)]
    out = {}
    with concurrent.futures.ThreadPoolExecutor(n) as ex:
        for res in ex.map(worker, range(n)):
            out.update(res)
    v, seen, compared, decided = None, {}, 0, 0
    for j in range(len(todo)):
        x = out[j]
        if x.get("bad"):
            v = v or {"what": x["bad"], "case": " ".join(todo[j]), "repro": f"cd {PROBE} && cargo run --no-default-features --features {','.join(todo[j]) or '\"\"'}"}
        decided += x.get("a", 0) + x.get("b", 0)
        for key, val in x.get("rows", {}).items():
            compared += 1
            if key in seen and seen[key][1] != val and not v:
                a, b = seen[key], val
                v = {"what": f"{key}: different results with features {'+'.join(todo[j]) or 'none'} and {'+'.join(todo[a[0]]) or 'none'}: {describe(b)} / {describe(a[1])}",
                     "case": " ".join(todo[j]), "repro": f"cd {PROBE} && cargo run --no-default-features --features ..."}
            seen.setdefault(key, (j, val))
    # features of the parts must give every combination the same set of experiments
    r.add("combinations", len(todo), decided + compared, len(todo),
          [f"[combinations] {'+'.join(fs) or 'none'}" for fs in todo[::16]], v, items_decided=decided, results_compared=compared, experiments=len(seen))
    if not v:
        jobs = []
        for m, fs in MEMBERS.items():
            for bits in range(1 << len(fs)):
                jobs.append((m, [f for k, f in enumerate(fs) if bits >> k & 1]))
        bad = []
        with concurrent.futures.ThreadPoolExecutor(n) as ex:
            for res in ex.map(lambda k: [member((*jobs[j], targets[k], d)) for j in range(k, len(jobs), n)], range(n)):
                bad += [x for x in res if x]
        vv = {"what": bad[0], "case": bad[0][:200], "repro": ""} if bad else None
        r.add("parts on their own", len(jobs), len(jobs), len(jobs), [f"[parts] stylish-{m} {'+'.join(fs)}" for m, fs in jobs[::12]], vv)
        # the default features, and all of them
        bad = None
        for what, args, want in (("default features", ["--no-default-features", "--features", "defaults"], {"std", "macros"}),):
            if bad:
                continue
            ext, exe, err = build(args, targets[0])
            if err:
                bad = f"{what}: does not build: {err}"
                continue
            p = subprocess.run([exe], stdout=subprocess.PIPE, env=common.ENV, errors="replace", timeout=120)
            rows = dict(x.split("\t", 1) for x in p.stdout.splitlines() if "\t" in x)
            ref = out[[j for j in range(64) if set(todo[j]) == want][0]]["rows"]
            if rows != ref:
                bad = f"{what}: not the same as std+macros"
            missing, extra, a, b = check_items(d, "default", ext, os.path.join(targets[0], OUTPUT, "deps"), closure(want), lines)
            if missing or extra:
                bad = f"{what}: " + (f"missing: {missing[0]}" if missing else f"available: {extra[0][0]}")
        r.add("default features", 1, len(lines) + len(ref) if not bad else 1, 1, ["[default features]"],
              {"what": bad, "case": "default features", "repro": ""} if bad else None)
    shutil.rmtree(d, ignore_errors=True)
    shutil.rmtree(TARGETS, ignore_errors=True)
    return r.res


def describe(row):
    n, h, head = (row.split("\t") + [""])[:3]
    return f"{n} bytes, hash {h}, starting {bytes.fromhex(head[:120])!r}"
