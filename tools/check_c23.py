"""C23: the formatting macros work whatever names are in scope at the call site."""
import concurrent.futures
import json
import os
import re
import shutil
import subprocess

import check_c15
import common
import gen

# every construct: (name, statements comparing with `c.eq`), using only absolute paths
CONS = [
    ("literal", 'c.eq(&::stylish::plain::format!("lit{{}}"), "lit{}");'),
    ("display", 'c.eq(&::stylish::plain::format!("a{}b{0}", 1), "a1b1");'),
    ("traits", 'c.eq(&::stylish::plain::format!("{:?}{:x?}{:X?}{:o}{:x}{:X}{:b}{:e}{:E}", 1, 10, 10, 8, 10, 10, 2, 10.0, 10.0), "1aA10aA101e11E1");'),
    ("pointer", 'c.eq(&::stylish::plain::format!("{:p}", 16usize as *const ()), "0x10");'),
    ("flags", 'c.eq(&::stylish::plain::format!("{:<3}|{:^3}|{:>3}|{:+}|{:-}|{:#x}|{:04}|{:.1}|{:^+#08.1?}", 1, 2, 3, 4, 5, 6, 7, 8.88, 9.0), "1  | 2 |  3|+4|5|0x6|0007|8.9|+00009.0");'),
    ("named", 'c.eq(&::stylish::plain::format!("{zz}{yy}{}", 1, yy = 2, zz = 3), "321");'),
    ("captured", 'let qq = 4; c.eq(&::stylish::plain::format!("{qq}{qq:?}"), "44");'),
    ("attributes", 'c.eq(&::stylish::html::format!("{:(fg=red)}{:(bg=blue)}{:(bold)}{:(faint,fg=default,bg=brightcyan)}{:()}{:(normal)}", 1, 2, 3, 4, 5, 6), '
     '&::mc::mac::site::attributes());'),
    ("ansi", 'c.eq(&::stylish::ansi::format!("{:(fg=red)}", 1), &::mc::mac::site::ansi());'),
    ("nested", 'c.eq(&::stylish::ansi::format!("{:(fg=red)s}", ::stylish::format_args!("{}x", 1)), &::mc::mac::site::nested());'),
    ("string", 'c.eq(&::stylish::html::format!("{:s}", ::stylish::format!("{:(bold)}", 1)), &::mc::mac::site::string());'),
    ("write", 'let mut w0 = ::stylish::Plain::new(::std::string::String::new()); ::stylish::write!(w0, "{}{n}", 1, n = 2).unwrap(); ::stylish::writeln!(w0, "{}", 3).unwrap(); ::stylish::writeln!(w0).unwrap(); '
     '::stylish::writeln!(&mut w0, "{:(bold)}", 4).unwrap(); c.eq(&w0.into_inner(), "123\\n\\n4\\n");'),
    ("io write", 'let mut w1 = ::stylish::io::Ansi::new(::std::vec::Vec::new()); ::stylish::write!(w1, "{:(bold)}", 1).unwrap(); ::stylish::writeln!(w1, "{}", 3).unwrap(); '
     'c.eq(::std::str::from_utf8(&w1.finish().unwrap()).unwrap(), &::mc::mac::site::io());'),
    ("by trait", 'use ::stylish::Write as _; let mut w2 = ::mc::mac::Rec::empty(); ::stylish::write!(w2, "{:?}", 1).unwrap(); ::stylish::writeln!(w2, "{:s}", ::stylish::format_args!("x")).unwrap(); c.eq(&w2.text(), "1x\\n");'),
    ("passed literal", 'macro_rules! pass0 { ($f:literal $($a:tt)*) => { ::stylish::plain::format!($f $($a)*) } } c.eq(&pass0!("{}{nn}", 1, nn = 2), "12");'),
    ("expanded", 'c.eq(&::stylish::plain::format!(concat!("{", "}"), 1), "1"); let mut w3 = ::stylish::Plain::new(::std::string::String::new()); ::stylish::writeln!(w3, concat!("{", "}"), 1).unwrap(); c.eq(&w3.into_inner(), "1\\n");'),
    ("stringified", 'c.eq(&::stylish::plain::format!(stringify!({}), 1), "1"); let mut w4 = ::stylish::Plain::new(::std::string::String::new()); ::stylish::writeln!(w4, stringify!({}), 1).unwrap(); c.eq(&w4.into_inner(), "1\\n");'),
]
TYPES = """Option Some None Result Ok Err String Vec Box Default Clone Copy Send Sync Sized Drop Fn FnMut FnOnce Iterator
IntoIterator Extend From Into TryFrom TryInto AsRef AsMut ToOwned ToString Eq Ord PartialEq PartialOrd Debug Hash
FromIterator DoubleEndedIterator ExactSizeIterator Unpin
Arguments Formatter FormatterArgs Display Write Style StyleDiff Color Foreground Background Intensity Restyle Error
Align Sign DebugHex StdFmt StdFmtDebug StdFmtOther Octal LowerHex UpperHex Pointer Binary LowerExp UpperExp Left Center Right
Plus Minus Lower Upper Red Blue Bold Faint Normal BrightCyan Ansi Html Plain ToAnsiString ToHtmlString ToPlainString
ToStylishString T F W S A E X Y Self0 Ordering Range Rc Arc Cow""".split()
PRIMS = "u8 u16 u32 u64 usize i32 isize f64 bool str char never".split()
LOWER = """std core alloc stylish stylish_core stylish_macros stylish_style stylish_ansi stylish_html stylish_plain with_builtin_macros
fmt io ansi html plain option default result string prelude format format_args format_args_nl write writeln with_builtin
drop res f w s a e x y arg args value inner output formatter style diff buf width precision
align sign alternate zero debug_hex foreground background intensity export krate _format_args macros macro_rules0 wrap item it this
i n v t out src dst lit fmt_lit spec text data self_ result0 concat stringify panic unreachable assert matches vec print println
todo include_str env line file dbg fmt_args f0 err ok some none""".split()
MACROS = """std core stylish format format_args format_args_nl write writeln with_builtin concat stringify panic unreachable
assert assert_eq debug_assert matches vec print println eprintln todo unimplemented include_str include_bytes env option_env line file column
module_path dbg cfg compile_error r#try _format_args __format_args std_write const_format_args quote fmt concat_idents thread_local
stylish_format_args ansi html plain Some None Ok Err Default""".split()
KEYWORDS = """as break const continue crate else enum extern false fn for if impl in let loop match mod move mut pub ref return static struct
trait true type unsafe use where while async await dyn abstract become box do final macro override priv typeof unsized virtual yield try gen""".split()
SELF_ONLY = {"concat": {"expanded"}, "stringify": {"stringified"}}


def expanded():
    """Names that the macros use at the call site now, found in what they
    expand to and in no list here: (types and the like, others)."""
    d = os.path.join(gen.WORK, "C23-expanded")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    text = "\n".join(c for _, c in CONS)
    with open(os.path.join(d, "x.rs"), "w") as f:
        f.write("fn go(c: &mut ::mc::mac::Ctx) {\n" + "\n".join("{ " + c + " }" for _, c in CONS) + "\n}\nfn main() {}\n")
    p = subprocess.run(["rustc", "--edition", "2021", "--crate-type", "bin", "--cap-lints", "allow", "-Zunpretty=expanded", os.path.join(d, "x.rs")] + list(gen.libs()),
                       env=dict(common.ENV, RUSTC_BOOTSTRAP="1"), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors="replace", timeout=120)
    shutil.rmtree(d, ignore_errors=True)
    if p.returncode:
        return [], []
    mine = set(re.findall(r"\w+", text)) | set(TYPES + PRIMS + LOWER + MACROS) | {"go", "main", "c", "mc", "mac", "Ctx", "prelude_import", "feature", "self", "Self", "m0", "super"}
    names = sorted(set(re.findall(r"\b(?<!')[A-Za-z_]\w*", re.sub(r'"(?:[^"\\]|\\.)*"', "", p.stdout))) - mine)
    names = [n for n in names if n not in KEYWORDS and not n.startswith("__stylish") and n != "_"][:60]
    return [n for n in names if n[0].isupper()], [n for n in names if not n[0].isupper()]


def shadows(quick):
    res = []
    for n in TYPES + PRIMS:
        res.append((f"struct {n} with fields", f"pub struct {n} {{ pub zzz: () }}"))
        if not quick:
            res.append((f"unit struct {n}", f"pub struct {n};"))
            res.append((f"type {n}", f"pub type {n} = ();"))
            res.append((f"enum {n}", f"pub enum {n} {{ Zzz }}"))
            res.append((f"function {n}", f"pub fn {n}() {{}}"))
        res.append((f"tuple struct {n}", f"pub struct {n}();"))
        res.append((f"trait {n}", f"pub trait {n} {{ fn zzz(&self) {{}} }}"))
        res.append((f"constant {n}", f"pub const {n}: () = ();"))
        res.append((f"module {n}", f"pub mod {n} {{ pub fn default() {{}} }}"))
    for n in LOWER + PRIMS:
        res.append((f"module {n}", f"pub mod {n} {{ pub struct Zzz; }}"))
        res.append((f"function {n}", f"pub fn {n}() {{}}"))
        res.append((f"struct {n} with fields", f"pub struct {n} {{ pub zzz: () }}"))
        res.append((f"constant {n}", f"pub const {n}: () = ();"))
        if not quick:
            res.append((f"static {n}", f"pub static {n}: () = ();"))
            res.append((f"trait {n}", f"pub trait {n} {{}}"))
            res.append((f"unit struct {n}", f"pub struct {n};"))
    for n in MACROS:
        res.append((f"macro {n}", f"macro_rules! {n} {{ ($($t:tt)*) => {{ ::std::compile_error!(\"shadowed\") }} }}"))
    return res


METHODS = """fmt write_str write_char write with with_args with_fmt as_str to_string into from clone default as_ref borrow
deref finish new format style unwrap expect map iter call as_bytes to_owned write_all flush get_mut inner add_to ok""".split()


def blanket():
    res = []
    for n in METHODS:
        for recv in ["&self", "&mut self", "self"]:
            if recv == "self" and n in ("unwrap", "expect", "finish", "into_inner", "as_str", "default", "new", "map", "clone", "text"):
                continue
            size = " where Self: ::std::marker::Sized" if recv == "self" else ""
            bound = "T" if recv == "self" else "T: ?::std::marker::Sized"
            res.append((f"blanket method {n}({recv})", f"pub trait Ext0 {{ fn {n}({recv}){size} {{ ::std::panic!(\"{n} called\") }} }} impl<{bound}> Ext0 for T {{}}"))
    return res


def case(key, item, cons, attrs=""):
    body = " ".join("{ " + c + " }" for _, c in cons)
    return (key, f"{{ {attrs} mod m0 {{ {item} pub fn go(c: &mut ::mc::mac::Ctx) {{ {body} }} }} m0::go(c); }}")


def local(name, cons):
    body = " ".join("{ " + c + " }" for _, c in cons)
    return (f"variable {name}", f"{{ fn go(c: &mut ::mc::mac::Ctx) {{ let {name} = (); let _ = &{name}; {body} }} go(c); }}")


def select(key, cons):
    name = key.split()[-1]
    if key.startswith("macro ") and name in SELF_ONLY:
        # these constructs name the shadowed macro themselves
        return [x for x in cons if x[0] not in SELF_ONLY[name]]
    return cons


def contexts(cons):
    """Other kinds of call sites."""
    body = " ".join("{ " + c + " }" for _, c in cons)
    res = []

    def add(key, code):
        res.append((key, code.replace("@", body)))
    # (a macro cannot define a macro with repetitions)
    simple = " ".join("{ " + c + " }" for n, c in cons if n != "passed literal")
    add("no implicit prelude", "{ #[no_implicit_prelude] mod m0 { pub fn go(c: &mut ::mc::mac::Ctx) { @ } } m0::go(c); }")
    add("no implicit prelude, everything shadowed", "{ #[no_implicit_prelude] mod m0 { %s pub fn go(c: &mut ::mc::mac::Ctx) { @ } } m0::go(c); }" %
        " ".join(f"pub struct {n} {{ pub zzz: () }}" for n in TYPES + PRIMS if n != "never"))
    add("all types shadowed", "{ mod m0 { %s pub fn go(c: &mut ::mc::mac::Ctx) { @ } } m0::go(c); }" % " ".join(f"pub struct {n} {{ pub zzz: () }}" for n in TYPES + PRIMS))
    add("all values shadowed", "{ mod m0 { %s pub fn go(c: &mut ::mc::mac::Ctx) { @ } } m0::go(c); }" % " ".join(f"pub fn {n}() {{}}" for n in TYPES + [x for x in LOWER]))
    add("all modules shadowed", "{ mod m0 { %s pub fn go(c: &mut ::mc::mac::Ctx) { @ } } m0::go(c); }" % " ".join(f"pub mod {n} {{}}" for n in LOWER))
    add("nested modules", "{ mod m0 { pub mod stylish { pub mod core { pub mod std { pub fn go(c: &mut ::mc::mac::Ctx) { @ } } } } } m0::stylish::core::std::go(c); }")
    add("glob imports of the library", "{ mod m0 { use ::stylish::*; pub fn go(c: &mut ::mc::mac::Ctx) { @ } } m0::go(c); }")
    add("glob imports of std::fmt", "{ mod m0 { use ::std::fmt::*; pub fn go(c: &mut ::mc::mac::Ctx) { @ } } m0::go(c); }")
    add("glob imports of std::io and of the library's io", "{ mod m0 { use ::std::io::*; use ::stylish::io::*; pub fn go(c: &mut ::mc::mac::Ctx) { @ } } m0::go(c); }")
    add("imports of competing traits", "{ mod m0 { use ::std::fmt::{Write, Display, Debug}; use ::std::io::Write as _; use ::stylish::Display as _; use ::stylish::Restyle as _; pub fn go(c: &mut ::mc::mac::Ctx) { @ } } m0::go(c); }")
    add("method of a trait implementation", "{ struct S0; trait Go { fn go(&self, c: &mut ::mc::mac::Ctx); } impl Go for S0 { fn go(&self, c: &mut ::mc::mac::Ctx) { @ } } S0.go(c); }")
    add("generic function", "{ fn go<T: ?Sized, F, W, S, E, Option, Result, Formatter, String>(c: &mut ::mc::mac::Ctx) { @ } go::<str, (), (), (), (), (), (), (), ()>(c); }")
    add("generic method with lifetimes", "{ struct S0<'a>(&'a ()); impl<'a> S0<'a> { fn go<'b, 'c>(&'b self, c: &'c mut ::mc::mac::Ctx) { @ } } S0(&()).go(c); }")
    add("closure", "{ let mut k = |c: &mut ::mc::mac::Ctx| { @ }; k(c); }")
    add("async function", "{ async fn go(c: &mut ::mc::mac::Ctx) { @ } let mut f = ::std::pin::pin!(go(c)); let w = ::std::task::Waker::noop(); assert!(::std::future::Future::poll(f.as_mut(), &mut ::std::task::Context::from_waker(w)).is_ready()); }")
    add("inside a loop with labels", "{ 'a: for _ in 0..1 { 'b: loop { @ break 'a; } } }")
    add("inside a macro", "{ macro_rules! m0 { ($c:ident) => {{ let c = &mut *$c; %s }} } m0!(c); }" % simple)
    add("inside unsafe", "unsafe { @ }")
    add("inside a match arm", "{ match 1 { 1 => { @ } _ => {} } }")
    add("inside a const block of a trait default method", "{ trait Go { fn go(c: &mut ::mc::mac::Ctx) { @ } } impl Go for () {} <() as Go>::go(c); }")
    return res


# whole programs: other editions, other names for the library, lints
PROGRAM = """{attrs}
{extern}
{items}
fn main() {{
    let mut ctx = mc::mac::Ctx::new();
    let c = &mut ctx;
    {body}
    mc::mac::done(c);
}}
"""


def programs(cons):
    res = []
    body = "\n    ".join("{ " + c + " }" for _, c in cons)
    for ed in ["2018", "2021", "2024"]:
        res.append((f"edition {ed}", ed, "", "", "", body, {}))
        res.append((f"edition {ed} with warnings denied", ed, "#![deny(warnings)] #![forbid(unsafe_code)]", "", "",
                    body, {"lints": True}))
        res.append((f"edition {ed} without the library's own name", ed, "", "extern crate other_name; ", "", body.replace("::stylish::", "::other_name::"), {"rename": "other_name"}))
    res.append(("edition 2015", "2015", "", "extern crate stylish; extern crate mc;", "", body, {}))
    res.append(("no_std", "2021", "#![no_std]", "extern crate std; ", "", body, {}))
    res.append(("no_std without a name for std", "2021", "#![no_std]", "", "", "c.eq(&::stylish::plain::format!(\"{:>3}{n:(fg=red,bold)?}\", 1, n = 2), \"  12\"); let mut w = ::stylish::io::Plain::new(::mc::mac::Bytes::empty()); ::stylish::write!(w, \"{}\", 1).unwrap(); ::stylish::writeln!(w, \"{:x?}\", 10).unwrap(); c.eq(&w.into_inner().text(), \"1a\\n\");", {}))
    for n in ["core", "alloc", "stylish_core", "stylish_macros", "stylish_ansi", "stylish_html", "stylish_plain", "stylish_style", "with_builtin_macros", "fmt", "io"]:
        res.append((f"another crate is called {n}", "2021", "", f"extern crate mc as {n};", "", body, {}))
    res.append(("another crate is called std", "2021", "#![no_std]", "extern crate mc as std;", "",
                "c.eq(&::stylish::plain::format!(\"{:>3}{n:(fg=red,bold)?}{:s}\", 1, ::stylish::format!(\"{:o}\", 8), n = 2), \"  1210\"); let mut w = ::stylish::io::Plain::new(::mc::mac::Bytes::empty()); ::stylish::write!(w, \"{}\", 1).unwrap(); ::stylish::writeln!(w, \"{:x?}\", 10).unwrap(); c.eq(&w.into_inner().text(), \"1a\\n\");", {}))
    res.append(("the library is called core", "2021", "", "extern crate stylish as core;", "", body, {}))
    res.append(("the library under a module", "2021", "", "", "mod deps { pub mod inner { pub use stylish as lib; } } use deps::inner::lib;", body.replace("::stylish::", "lib::"), {}))
    res.append(("macros imported by name", "2021", "", "", "use stylish::{format_args, write, writeln, plain, html, ansi}; use stylish::format as sformat;",
                "c.eq(&plain::format!(\"{}\", 1), \"1\"); c.eq(&html::format!(\"{:(bold)s}\", format_args!(\"{}\", 1)), &mc::mac::site::string()); c.eq(&ansi::format!(\"{:s}\", sformat!(\"{}\", 1)), \"1\"); "
                "let mut w = stylish::Plain::new(String::new()); write!(w, \"{}\", 1).unwrap(); writeln!(w, \"{}\", 2).unwrap(); writeln!(w, concat!(\"{\", \"}\"), 3).unwrap(); writeln!(w).unwrap(); c.eq(&w.into_inner(), \"12\\n3\\n\\n\");", {}))
    res.append(("macros renamed", "2021", "", "", "use stylish::{format_args as fa, write as wr, writeln as wl}; use stylish::plain::format as pf;",
                "c.eq(&pf!(\"{:s}\", fa!(\"{}\", 1)), \"1\"); let mut w = stylish::Plain::new(String::new()); wr!(w, \"{}\", 1).unwrap(); wl!(w, \"{}\", 2).unwrap(); wl!(w, stringify!({}), 3).unwrap(); c.eq(&w.into_inner(), \"12\\n3\\n\");", {}))
    res.append(("macros of the standard library imported by name and shadowing", "2021", "", "", "use stylish::{format, format_args, write, writeln}; use std::fmt::Write as _;",
                "let s = format!(\"{:(bold)}\", 1); c.eq(&stylish::plain::format!(\"{:s}\", s), \"1\"); let _ = (); c.eq(&std::format!(\"{}\", 1), \"1\");", {}))
    return res


def run_program(d, k, p):
    key, ed, attrs, ext, items, body, opts = p
    src, exe = os.path.join(d, f"p{k}.rs"), os.path.join(d, f"p{k}")
    text = PROGRAM.format(attrs=attrs, extern=ext, items=items, body=body)
    with open(src, "w") as f:
        f.write(text)
    libs = list(gen.libs())
    if "rename" in opts:
        libs = [x.replace("stylish=", opts["rename"] + "=", 1) if x.startswith("stylish=") else x for x in libs]
    args = ["rustc", "--edition", ed, "--crate-type", "bin", "--crate-name", "gen", "-Copt-level=0", "-Cdebuginfo=0", gen.DEBUG, "-o", exe, src] + libs
    if "lints" not in opts:
        args += ["--cap-lints", "allow"]
    p = subprocess.run(args, env=common.ENV, stdout=subprocess.PIPE, stderr=subprocess.PIPE, errors="replace", timeout=300)
    if p.returncode:
        if p.returncode < 0:
            common.die(f"rustc ended with {p.returncode}")
        return text, "does not compile: " + p.stderr[:1500]
    q = subprocess.run([exe], env=common.ENV, stdout=subprocess.PIPE, stderr=subprocess.PIPE, errors="replace", timeout=60)
    if q.returncode:
        return text, f"ends with {q.returncode}: " + q.stderr[:1000]
    res = [json.loads(x[7:]) for x in q.stdout.splitlines() if x.startswith("RESULT ")][0]
    if res["fails"]:
        return text, res["fails"][0][1]
    return res["evaluations"], None


def compiles(r, name, cases):
    if r.failed():
        return
    d = os.path.join(gen.WORK, "C23-compiles")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    gen.libs()
    n = common.JOBS
    parts = [cases[k::n] for k in range(n)]
    bad = []
    with concurrent.futures.ThreadPoolExecutor(common.JOBS) as ex:
        for part, (res, _) in zip(parts, ex.map(lambda k: check_c15.classify(
                d, f"c{k}", "", ["fn go0(c: &mut ::mc::mac::Ctx) " + c[1] for c in parts[k]], True), range(n))):
            bad += [(part[i], m) for i, m in res.items()]
    v = None
    if bad:
        c, m = min(bad, key=lambda b: cases.index(b[0]))
        v = {"what": f"{c[0]}: does not compile: {m}", "case": c[1], "repro": "fn go0(c: &mut ::mc::mac::Ctx) " + c[1] + "\nfn main() {}\n"}
    shutil.rmtree(d, ignore_errors=True)
    r.add(name, len(cases), len(cases), len(cases), [f"[{name}] {c[0]}" for c in cases[::len(cases) // 3]], v)


def run():
    gen.FULL = True
    quick = common.TIER == "quick"
    r = gen.Result("C23", "states: call sites with particular names in scope; transitions: renderings at those call sites; traces: "
                   "renderings compared with the result at an ordinary call site",
                   ["names starting with __stylish are reserved for the library"])
    # a name that is found in the wrong place has the wrong type, so compiling
    # is the test; the sections further down also run
    types, others = expanded()
    TYPES.extend(types)
    LOWER.extend(others)
    MACROS.extend(types + others)
    sh = shadows(quick)
    cases = [case(k, i, select(k, CONS)) for k, i in sh]
    if not quick:
        cases += [(k + ", no implicit prelude", case(k, i, select(k, CONS))[1].replace("mod m0", "#[no_implicit_prelude] mod m0", 1))
                  for k, i in sh if not k.startswith("macro ")]
    compiles(r, "every name in every namespace", cases)
    if not quick:
        r.run("every name in every namespace, run", "", cases[::3], group=5)
    r.run("local variables", "", [local(n, CONS) for n in LOWER + PRIMS + ["r#type", "c0"]][::6 if quick else 1], group=5)
    compiles(r, "all local variables", [local(n, CONS) for n in LOWER + PRIMS + ["r#type", "c0"]])
    r.run("blanket methods", "", [case(k, i, CONS) for k, i in blanket()], group=5)
    r.run("kinds of call sites", "", contexts(CONS), group=3)
    if r.failed():
        return r.res
    d = os.path.join(gen.WORK, "C23-programs")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    ps = programs(CONS)
    ev, v = 0, None
    with concurrent.futures.ThreadPoolExecutor(common.JOBS) as ex:
        for p, (a, bad) in zip(ps, ex.map(lambda x: run_program(d, x[0], x[1]), enumerate(ps))):
            if bad:
                v = v or {"what": f"{p[0]}: {bad}"[:3000], "case": a, "repro": ""}
            else:
                ev += a
    shutil.rmtree(d, ignore_errors=True)
    r.add("whole programs", len(ps), ev, ev, [f"[whole programs] {p[0]}" for p in ps[::6]], v)
    return r.res
