"""C14: literals, escapes and argument references of a format string resolve as in std."""
import itertools

import common
import gen
import grammar

PRE = """
use mc::mac::*;
use stylish::format_args as A;
use std::format_args as S;
use stylish::Style as St;
#[derive(Clone, Copy)] pub struct Me(&'static str);
impl std::fmt::Display for Me { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.pad(self.0) } }
fn d() -> St { St::default() }
"""
# pieces: literals with the text they stand for
LITS = [("a", "a"), ("é", "é"), ("{{", "{"), ("}}", "}")]
IMPLICIT, POS, NAME = "implicit", "pos", "name"
# variables in scope of every case; `n` is also used as an explicit name
SCOPE = {"g": "G", "n": "wrong", "m": "wrong", "k": "K"}
LETS = " ".join(f'let {k} = "{v}";' for k, v in SCOPE.items())


class Ref:
    def __init__(self, kind, name=None, spec=""):
        self.kind, self.name, self.spec = kind, name, spec

    def text(self):
        return "{" + ("" if self.name is None else str(self.name)) + (":" + self.spec if self.spec else "") + "}"


def resolve(pieces, npos, names):
    """The expected text, or None when the arguments do not match."""
    nxt, used, out = 0, set(), ""
    for p in pieces:
        if isinstance(p, tuple):
            out += p[1]
            continue
        if p.kind == IMPLICIT:
            k, nxt = nxt, nxt + 1
        else:
            k = p.name
        if isinstance(k, int):
            if k >= npos:
                return None
            used.add(k)
            v = f"p{k}"
        elif k in names:
            used.add(k)
            v = "N" + k
        elif k in SCOPE:
            v = SCOPE[k]
        else:
            return None
        if p.spec.startswith(">4"):
            v = v.rjust(4)
        elif p.spec.startswith("?"):
            v = '"' + v + '"'
        out += v
    return out if used == set(range(npos)) | set(names) else None


def fmt(pieces):
    return "".join(p[0] if isinstance(p, tuple) else p.text() for p in pieces)


def args(npos, order):
    return "".join(f', "p{i}"' for i in range(npos)) + "".join(f', {k} = "N{k}"' for k in order)


def cases(alphabet, size, maxpos=3):
    res = []
    for pieces in itertools.product(alphabet, repeat=size):
        f = fmt(pieces)
        refs = {p.name for p in pieces if not isinstance(p, tuple)}
        names = [n for n in ("n", "m") if n in refs]
        for npos in range(maxpos + 1):
            for k in range(len(names) + 1):
                for order in itertools.permutations(names, k):
                    want = resolve(pieces, npos, order)
                    if want is None:
                        continue
                    a = f'{gen.s(f)}{args(npos, order)}'
                    std = f'{gen.s(f)}{args(npos, order)}'
                    res.append((f"format!({a})", f'{{ {LETS} c.same(A!({a}), S!({gen.s("{}")}, {gen.s(want)}), d(), d()); '
                                + (f'c.eq(&std::format!({std}), {gen.s(want)}); ' if "(" not in f and ":s" not in f else "") + '}'))
    return res


R = Ref
ALPHA = [LITS[0], LITS[2], LITS[3], R(IMPLICIT), R(POS, 0), R(POS, 1), R(NAME, "n"), R(NAME, "m"), R(NAME, "g")]
WIDE = [LITS[1], LITS[2], LITS[3], R(IMPLICIT, None, ">4"), R(IMPLICIT, None, "(bold)"), R(POS, 0, "?"), R(POS, 1, "(fg=red)?"),
        R(POS, 2), R(NAME, "n", "?"), R(NAME, "m", ">4(bold,)"), R(NAME, "g", "()"), R(NAME, "k", "?")]
# attributed placeholders would change the style; text is compared in the style of each, so drop the styled letters there
DEEP = [LITS[2], R(IMPLICIT), R(POS, 0), R(NAME, "n")]
LITERAL = ["a", "{{", "}}", "\\n", "\\r", "\\t", "\\0", "\\\"", "%", ":", "\\\\", "(", "é", "日", " ", "\\u{2028}", "\\x1b", "$", "#", "'"]


def literal_cases(size):
    res = []
    for l in itertools.product(LITERAL, repeat=size):
        t = "".join(l)
        want = t.replace("{{", "{").replace("}}", "}") if "}}" not in t and "{{" not in t else None
        if want is None:
            want = "".join({"{{": "{", "}}": "}"}.get(x, x) for x in l)
        res.append((f'format!("{t}")', f'c.same(A!("{t}"), S!("{{}}", "{want}"), d(), d()); c.eq(&std::format!("{t}"), "{want}");'))
        res.append((f'format!("{t}{{}}{t}")', f'c.same(A!("{t}{{}}{t}", 1), S!("{{}}", "{want}1{want}"), d(), d()); c.eq(&std::format!("{t}{{}}{t}", 1), "{want}1{want}");'))
    return res


SPECIAL_PRE = PRE + r"""
macro_rules! pass { ($f:literal $($a:tt)*) => { A!($f $($a)*) }; }
macro_rules! pass_expr { ($f:expr $(, $($a:tt)*)?) => { A!($f $(, $($a)*)?) }; }
macro_rules! own_lit { ($($a:tt)*) => { A!("{} {}", $($a)*) }; }
macro_rules! hyg { ($c:ident, $v:ident, $e:expr) => {{ let x = "inner"; let $v = $e; $c.same(A!("{} {} {x}", x, $v), S!("inner outer inner"), d(), d()) }}; }
static G: &str = "glob"; const K0: &str = "const";
"""


def special():
    """Single cases, each against std::format! with the same arguments."""
    res = []

    def same(f, a="", lets="", std=None, lit=None):
        lit = lit or gen.s(f)
        res.append((f"format!({lit}{a})", f'{{ {lets} c.same(A!({lit}{a}), S!("{{}}", std::format!({std or lit}{a})), d(), d()); }}'))
    # spellings of the literal
    for lit in ['r"a{}\\"', 'r#"{}""#', '"\\x7b\\x7d"', '"\\u{7b}\\u{7d}"', '"\\x7b\\x7b{}\\x7d\\x7d"', '"a\\tb{}\\0\\r"', '"\\"{}\\\'"',
                '"{}\\u{1F600}"', 'r###"#"##{}"###', '"\\x7b0:\\x3e5}"']:
        same("", ', 5', lit=lit)
    for f in ["{:}", "{0:}", "{0}", "{00}", "{007}" if False else "{0:?}", "{:?}{0}", "{0}{}", "{:>1$}" if False else "{:>3}"]:
        same(f, ", 5")
    for n in (1, 2, 9, 10, 11, 25, 100, 128):
        a = "".join(f', "v{i}"' for i in range(n))
        same("{}" * n, a)
        same("".join("{%d}" % i for i in reversed(range(n))), a)
        same("".join("{%d}-{}" % (n - 1 - i) for i in range(n)), a)
        b = "".join(f', x{i} = "w{i}"' for i in range(n))
        same("".join("{x%d}" % i for i in reversed(range(n))), b)
        same("".join("{}{x%d}" % i for i in range(n)), a + b)
        same("".join("{x%d} " % (i * 7 % n) for i in range(n)) + "".join("{x%d}" % i for i in range(n)), b)
        same("".join("{y%d}" % i for i in range(n)), lets="".join(f'let y{i} = "s{i}";' for i in range(n)))
    # names of every length, as the only, first, middle and last of several
    for n in list(range(1, 41)) + [63, 64, 65, 127, 128, 255, 256, 257]:
        name = "n" * (n - 1) + "z"
        same("{%s}{%s:?}" % (name, name), f', {name} = "v"', lets=f'let {name} = "wrong";')
        same("{%s}" % name, lets=f'let {name} = "v";')
        for k in (2, 3, 4, 5, 6, 9):
            for at in {0, 1, 2, k - 2, k - 1}:
                if 0 <= at < k:
                    ns = [f"b{i}" for i in range(k)]
                    ns[at] = name
                    a = "".join(f', {x} = "v{i}"' for i, x in enumerate(ns))
                    lets = "".join(f'let {x} = "wrong";' for x in ns)
                    same("".join("{%s}" % x for x in ns), a, lets)
                    same("{}" + "".join("{%s}" % x for x in reversed(ns)) + "{%s}{0}" % name, ', "p"' + a, lets)
        for k in (3, 5):
            ns = [f"{name}{i}" for i in range(k)]
            a = "".join(f', {x} = "v{i}"' for i, x in enumerate(ns))
            same("".join("{%s}" % x for x in ns + ns[::-1]), a, "".join(f'let {x} = "wrong";' for x in ns))
    # identifiers
    for name in ["a", "_a", "a_", "__", "é", "日本", "a1", "A", "u8", "str", "String", "Some" + "x", "fmt", "f", "args",
                 "__stylish_formatter0", "stylish", "std", "core", "x_y_z", "s", "x", "e", "b", "bold", "fg", "o", "p", "X", "E", "union", "auto", "default", "macro_rules", "raw", "r"]:
        for spec in ["", ":?", ":>9", ":x>" if False else ":<6?"]:
            same("{%s%s}" % (name, spec), lets=f'let {name} = "v";')
            same("{%s%s}" % (name, spec), f', {name} = "v"')
            same("{%s%s}" % (name, spec), f', {name} = "v"', lets=f'let {name} = "wrong";')
    for name in ["__stylish_formatter", "__stylish_positional_args", "__stylish_named_args", "__stylish_implicit_named_args", "__stylish_arg", "__stylish_diff"]:
        for spec in ["", ":?"]:
            same("{}{%s%s}{0}" % (name, spec), f', {name}', lets=f'let {name} = "v";')
            same("{}{%s%s}{q}" % (name, spec), f', 1, q = {name}', lets=f'let {name} = "v";')
    for kw in ["type", "fn", "match", "async", "dyn", "loop", "impl", "struct", "if", "in", "as", "let", "try", "box", "gen", "yield", "static"]:
        same("{%s}{%s:?}" % (kw, kw), lets=f'let r#{kw} = "v";')
        same("{%s}{%s:>4}" % (kw, kw), f', r#{kw} = "v"')
        same("{%s}{%s:>4}" % (kw, kw), f', {kw} = "v"')
        same("{}{%s}{x:?}{%s:>4}" % (kw, kw), f', 1, x = "w", {kw} = "v" ,')
        same("{%s}" % kw, f', {kw} = "v"', lets=f'let r#{kw} = "wrong";')
    # keywords are names of arguments, also those that cannot be raw
    for kw in ["as", "break", "const", "continue", "crate", "else", "enum", "extern", "false", "for", "move", "mod", "mut", "pub", "ref", "return", "self", "Self",
               "super", "trait", "true", "unsafe", "use", "where", "while", "abstract", "become", "do", "final", "macro", "override", "priv", "typeof", "unsized", "virtual", "await", "union"]:
        same("{%s}{}{%s:?}" % (kw, kw), f', 1, {kw} = "v"')
        same("{%s}{a}{%s:?}{b}" % (kw, kw), f', b = 1 == 1, {kw} = "v", a = 2')
    same("{if}{a}{else}", ", if = if true { 1 } else { 2 }, a = {3}, else = match 1 { x => x }")
    same("{r}{r:?}", ", r#r = 1")
    same("{a}", ", r#a = 1")
    same("{a}", lets="let r#a = 1;")
    # names that are much like one another, captured, given, or one of each
    like = ["x", "_x", "x_", "__x", "_x_", "X", "xx", "x1", "x10", "x01", "x_1", "x_y", "xy", "y_x", "_1", "_", "é", "É", "e"]
    like = [n for n in like if n != "_"]
    for a, b in itertools.permutations(like, 2):
        lets = f'let {a} = "of {a}"; let {b} = "of {b}";'
        f = "{%s} {%s} {%s:?} {%s:>9}" % (a, b, a, b)
        same(f, "", lets)
        same(f, f', {a} = "given {a}"', lets)
        same(f, f', {a} = "given {a}", {b} = "given {b}"', lets)
        same("{}" + f, f', {b}', lets)
    for a, b, e in itertools.permutations(like[:6], 3):
        lets = "".join(f'let {n} = "of {n}";' for n in (a, b, e))
        same("{%s}{%s}{%s}{%s:?}" % (a, b, e, a), "", lets)
        same("{%s}{%s}{%s}{%s:?}" % (a, b, e, a), f', {b} = {e}', lets)
    for a in ["type", "match", "loop"]:
        for b in ["r_" + a, "_" + a, a + "_", "r", a.upper(), "x"]:
            lets = f'let r#{a} = "of {a}"; let {b} = "of {b}";'
            for x, y in [(a, b), (b, a)]:
                same("{%s} {%s} {%s:?}" % (x, y, x), "", lets)
                same("{%s} {%s} {%s:?}" % (x, y, x), f', {b} = "given"', lets)
                same("{%s} {%s} {%s:?}" % (x, y, x), f', r#{a} = "given"', lets)
    # captured items, parameters, shadowing, nesting
    same("{G}{K0}")
    same("{x}", lets='let x = "outer"; let x = "inner";')
    same("{x}{y}", ", y = x", lets='let x = "outer"; let y = 2;')
    same("{x}{y}", ", x = y, y = x", lets='let x = 1; let y = 2;')
    same("{0}{x}", ", x, x = 3", lets='let x = 1;')
    same("{}{x}{}", ", x, x + 1, x = 3", lets='let x = 1;')
    same("{x}", lets='let x = &&&1;')
    same("{x:p}", lets='let x = 16 as *const u8;')
    # a macro's own names against the caller's
    res.append(("literal passed through a macro", '{ let x = "v"; c.same(pass!("{x}{}{y}", 1, y = 2), S!("v12"), d(), d()); }'))
    res.append(("literal passed through two macros", '{ let x = "v"; c.same(pass_expr!("{x}{}{y}", 1, y = 2), S!("v12"), d(), d()); }'))
    res.append(("literal of a macro", '{ c.same(own_lit!(1, 2), S!("1 2"), d(), d()); }'))
    res.append(("hygiene of arguments", '{ let x = "outer"; hyg!(c, y, x); }'))
    # self
    res.append(("self captured", '{ struct T(u8); impl T { fn go(&self, c: &mut Ctx) { let s = Me("me"); s.go2(c); } } impl Me { fn go2(&self, c: &mut Ctx) { '
                'c.same(A!("{self}{self:>4}{}", 1), S!("{self}{self:>4}{}", 1), d(), d()); } fn go3(self, c: &mut Ctx) { c.same(A!("<{self}>"), S!("<{self}>"), d(), d()); '
                'c.same(A!("{0}{self}{x}", self, x = self), S!("{0}{self}{x}", self, x = self), d(), d()); '
                'let f = || c.same(A!("{self:?}", self = "n"), S!("{:?}", "n"), d(), d()); } } T(0).go(c); Me("mine").go3(c); }'.replace(
                    'let f = || c.same(A!("{self:?}", self = "n"), S!("{:?}", "n"), d(), d()); ', '')))
    res.append(("self in a method of &mut", '{ impl Me { fn gm(&mut self, c: &mut Ctx) { c.same(A!("{self}"), S!("{self}"), d(), d()); self.0 = "later"; } } let mut m = Me("m"); m.gm(c); m.gm(c); }'))
    # Self is a value too, in the items of a unit struct
    res.append(("Self captured", '{ struct U; impl std::fmt::Display for U { fn fmt(&self, f: &mut std::fmt::Formatter<\'_>) -> std::fmt::Result { f.pad("U!") } } '
                'impl U { fn go(&self, c: &mut Ctx) { c.same(A!("{Self}{Self:>4}{}{self:^6}", 1), S!("{Self}{Self:>4}{}{self:^6}", 1), d(), d()); '
                'c.same(A!("{Self}{x}", x = Self), S!("{Self}{x}", x = Self), d(), d()); c.same(A!("{Self}{0}", 1, Self = 2), S!("{Self}{0}", 1, Self = 2), d(), d()); } } U.go(c); }'))
    # captured items of every kind
    res.append(("captured items", '{ struct U; impl std::fmt::Display for U { fn fmt(&self, f: &mut std::fmt::Formatter<\'_>) -> std::fmt::Result { f.pad("U!") } } '
                '#[derive(Debug)] enum E { V } use E::V; static ST: [u8; 2] = [1, 2]; const fn g() -> u8 { 3 } const CO: u8 = g(); fn fun() {} let ptr = fun as *const u8; '
                'let _ = V; c.same(A!("{U}{U:>5}{V:?}{ST:?}{ST:x?}{CO:03}{ptr:p}"), S!("{U}{U:>5}{V:?}{ST:?}{ST:x?}{CO:03}{ptr:p}"), d(), d()); }'))
    # parameters of closures, patterns, loops
    res.append(("captured in closures and loops", '{ for (i, z) in ["a", "b"].iter().enumerate() { let g = |w: &str, c: &mut Ctx| c.same(A!("{i}{z}{w}{}", w), S!("{i}{z}{w}{}", w), d(), d()); g("w", c); } }'))
    res.append(("captured pattern bindings", '{ if let Some(ref q @ (a, b)) = Some((1, "x")) { c.same(A!("{q:?}{a}{b}"), S!("{q:?}{a}{b}"), d(), d()); } }'))
    res.append(("captured const generics", '{ fn g<const N: usize>(c: &mut Ctx) { c.same(A!("{N}"), S!("{N}"), d(), d()); } g::<7>(c); }'))
    # arguments of all kinds of expressions
    for e in ["1 + 2", "if true { 1 } else { 2 }", "match 3 { x => x }", "{ let y = 4; y }", "(|| 5)()", "&6", "-7", "!8", "[9][0]", "(10, 11).1",
              "\"a\".len()", "Some(12).unwrap()", "{ 13 }", "'c'", "b'c'", "1 == 1", "2 < 3", "1 as u8", "{ use std::fmt; let _ = fmt::Error; 14 }", "loop { break 15 }",
              "unsafe { 16 }", "std::mem::size_of::<u8>()", "stringify!(a = b)", "concat!(1, 2)", "line!() > 0", "(v = 1, 17).1", "{ v = 2; v }", "\"lit {}\"", "r\"raw\"", "*&18", "(19)", "1..2 == (1..2)" if False else "(1..3).len()",
              "std::format!(\"{}\", 20)", "b\"x\".len()", "1.5e1", "<u8>::MAX", "<u8 as Default>::default()"]:
        lets = "let mut v = 0;"
        same("{}|{0:?}", f", {e}", lets)
        same("{q}|{q:?}", f", q = {e}", lets)
        same("{1}{q}{0}", f", {e}, 99, q = 98,", lets)
    same("{}{}", ", 1, 2,")
    same("{a}", ", a = 1,")
    same("x", ",")
    same("")
    same("{}", ', a == b', lets="let a = 1; let b = 2;")
    return res


FORM_PRE = PRE + """
fn bt<W: stylish::Write>(w: &mut W, a: stylish::Arguments<'_>) { w.write_fmt(a).unwrap() }
"""


def large(top):
    """A great many arguments, and long names that have much in common."""
    res = []

    def same(what, f, a, lets=""):
        res.append((what, "{ %s c.same(A!(%s%s), S!(%s%s), d(), d()); }" % (lets, gen.s(f), a, gen.s(f), a)))
    counts = sorted({n for p in (16, 32, 64, 128, 256, 512, 1024) for n in (p - 1, p, p + 1, p + 2) if n <= top})
    for n in counts:
        pos = "".join(f", {i}" for i in range(n))
        named = "".join(f", n{i} = {i}" for i in range(n))
        lets = "".join(f"let n{i} = {i}; " for i in range(n))
        perm = [i * 7 % n if n % 7 else n - 1 - i for i in range(n)]
        same(f"{n} arguments in order", "{} " * n, pos)
        same(f"{n} arguments by number", "".join("{%d} " % i for i in perm), pos)
        same(f"{n} arguments by number, then in order", "".join("{%d} " % i for i in perm) + "{}" * n, pos)
        same(f"{n} arguments by name", "".join("{n%d} " % i for i in perm), named)
        same(f"{n} arguments by number and name", "".join("{%d}{n%d} " % (i, i) for i in perm), pos + named)
        same(f"{n} captured names", "".join("{n%d} " % i for i in perm), "", lets)
        same(f"{n} captured names, some given", "".join("{n%d} " % i for i in perm), "".join(f", n{i} = -{i}" for i in range(0, n, 3)), lets)
        same(f"one argument {n} times", "{0}" * n + "{x}" * n + "{y}" * n, ", 1, y = 2", "let x = 3;")
    for n in sorted({*range(1, 71), *(m for p in (128, 256, 512, 1024) for m in (p - 1, p, p + 1) if m <= 8 * top)}):
        # alike but for one place
        for at in sorted({0, 1, n // 2, n - 2, n - 1} & set(range(n))):
            body = ("name_of_some_length_" * (n // 20 + 1))[:n]
            x, y, z = (body[:at] + q + body[at + 1:] for q in "xyz")
            same(f"names of {n} characters that differ at {at}", "{%s} {%s} {%s} {%s}" % (x, y, x, z), f", {x} = 1, {z} = 3", f"let {y} = 2;")
            same(f"captured names of {n} characters that differ at {at}", "{%s} {%s} {%s} {%s:?}" % (x, y, x, z), "", f"let {y} = 2; let {x} = 1; let {z} = 3;")
        longer = body + "_"
        if body != "_":
            same(f"a name of {n} characters and a longer one", "{%s} {%s}" % (body, longer), f", {longer} = 1", f"let {body} = 2;")
            same(f"a name of {n} characters and a shorter one", "{%s} {%s}" % (body, longer), f", {body} = 1", f"let {longer} = 2;")
    return res


def forms():
    """The same references through every macro that takes a format string, and
    format strings built by builtin macros."""
    res = []
    for f, a in [("{}{n}{{", ', "A", n = "B"'), ("{0}{g}{0:?}", ', "A"'), ("lit}}", ""), ("{n}{m}{}", ', 1, m = 2, n = 3'), ("{g}", ""), ("", ""), ("{g:?}\\n", ",")]:
        b = f'"{f}"{a}'
        res.append((f"every macro with {b}", f'{{ {LETS} let w = std::format!({b}); c.eq(&stylish::plain::format!({b}), &w); c.eq(&stylish::ansi::format!({b}), &w); '
                    f'let h = stylish::html::format!("{{}}", w); c.eq(&stylish::html::format!({b}), &h); c.eq(&text(A!("{{:s}}", stylish::format!({b}))), &w); '
                    f'let mut r = Rec::default(); {{ use stylish::Write; stylish::write!(r, {b}).unwrap(); }} c.eq(&r.text(), &w); '
                    f'let mut r = Rec::default(); {{ use stylish::Write; stylish::writeln!(r, {b}).unwrap(); }} c.eq(&r.text(), &(w.clone() + "\\n")); '
                    f'let mut i = stylish::io::Plain::new(Vec::new()); {{ use stylish::io::Write; stylish::write!(i, {b}).unwrap(); stylish::writeln!(&mut i, {b}).unwrap(); }} '
                    f'c.eq(std::str::from_utf8(&i.into_inner()).unwrap(), &std::format!("{{w}}{{w}}\\n")); }}'))
        for lit in [f'concat!("{f}")', f'concat!("{f}", "{f}")', f'concat!("", "{f}", "x", "{{{{")', f'stringify!({{}})' if f == "{}" else f'concat!(concat!("{f}"), "y")']:
            if f in ("{}{n}{{", "{n}{m}{}") and lit.count(f) > 1:
                continue
            if f.endswith("{{{{") or "{g}" in f or "{g:" in f:
                continue    # std does not capture in expanded strings either
            res.append((f"format string {lit}", f'{{ {LETS} let w = std::format!({lit}{a}); c.same(A!({lit}{a}), S!("{{}}", w), d(), d()); c.eq(&stylish::plain::format!({lit}{a}), &w); '
                        f'let mut r = Rec::default(); {{ use stylish::Write; stylish::writeln!(r, {lit}{a}).unwrap(); }} c.eq(&r.text(), &(w + "\\n")); }}'))
    for lit in ["concat!(\"a\", \"{}\")", "stringify!({})", "concat!(stringify!(x y), \"{}\")", "concat!(concat!(\"{0}\", \"é\"), \"\\n\")"]:
        res.append((f"format string {lit}", f'{{ let w = std::format!({lit}, "v"); c.same(A!({lit}, "v"), S!("{{}}", w), d(), d()); }}'))
    return res


def strings(size):
    """Every valid string over an alphabet of special characters, against
    std::format! on the same arguments."""
    names = sorted({"".join(t) for n in range(1, size - 1) for t in itertools.product("a0n", repeat=n) if t[0] != "0"})
    pre = PRE + "".join(f'static {x}: &str = "<{x}>"; ' for x in names if x != "a")
    res = []
    for n in range(size + 1):
        for t in itertools.product(["{", "}", "a", ":", "0", "n", "?"], repeat=n):
            f = "".join(t)
            for npos, nm, a in [(0, [], ""), (1, [], ", 7"), (0, ["a"], ', a = "A"'), (2, [], ', 7, "x"'), (1, ["a"], ', 7, a = "A"')]:
                if grammar.call(f, npos, nm, names[1:]) is True and ("a" in nm or "{a" not in f.replace("{{", "") or "{a}" not in f and "{a:" not in f):
                    res.append((f"format!({gen.s(f)}{a})", f'c.same(A!({gen.s(f)}{a}), S!({gen.s(f)}{a}), d(), d());'))
    return pre, list(dict.fromkeys(res))


def strip_styles(alphabet):
    return [p for p in alphabet if isinstance(p, tuple) or "(bold" not in p.spec and "(fg" not in p.spec]


def run():
    quick = common.TIER == "quick"
    r = gen.Result("C14", "states: distinct format strings with argument lists; transitions: renderings; traces: renderings "
                   "compared with the reference resolution and, where the syntax is shared, with std::format! on the same arguments", [])
    c = []
    for n in range(0, 4):
        c += cases(ALPHA, n)
    r.run("all piece sequences to length 3", PRE, c)
    w = []
    for n in range(1, 3 if quick else 4):
        w += cases(strip_styles(WIDE), n)
    r.run("pieces with specifications", PRE, w)
    deep = []
    for n in range(4, 6 if quick else 8):
        deep += cases(DEEP, n, maxpos=4 if quick else 6)
    r.run("long sequences over few pieces", PRE, deep)
    if not quick:
        r.run("all piece sequences of length 4", PRE, cases(ALPHA, 4, maxpos=4))
    lit = []
    for n in range(0, 3 if quick else 5):
        lit += literal_cases(n)
    r.run("literal text and escapes", PRE, lit)
    pre, c = strings(5 if quick else 6)
    r.run("all valid strings over special characters", pre, c)
    r.run("spellings, identifiers, captures and expressions", SPECIAL_PRE, special())
    r.run("every macro and builtin format strings", FORM_PRE, forms())
    r.run("a great many arguments and long names", SPECIAL_PRE, large(258 if quick else 1026))
    return r.res
