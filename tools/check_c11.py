"""C11, second part: every macro that takes a format string treats it alike."""
import itertools

import common
import gen

PRE = r"""
use mc::mac::*;
use stylish::{ToAnsiString, ToHtmlString, ToPlainString, ToStylishString};
fn fw<W: stylish::Write>(mut w: W, f: impl FnOnce(&mut W) -> stylish::Result) -> W { f(&mut w).unwrap(); w }
fn iw<W: stylish::io::Write>(mut w: W, f: impl FnOnce(&mut W) -> std::io::Result<()>) -> W { f(&mut w).unwrap(); w }
fn utf8(b: Vec<u8>) -> String { String::from_utf8(b).unwrap() }
macro_rules! all { ($d:tt $c:ident, $lit:literal, $more:literal, $line:literal $(, $($a:tt)*)?) => {{
    // every kind of output, as the macro `$m` with what it is given writes it
    macro_rules! outs { ($m:ident ! ($d($x:tt)*)) => {{
        let a = { use stylish::Write; fw(stylish::Ansi::new(String::new()), |w| stylish::$m!(w, $d($x)*)).finish().unwrap() };
        let h = { use stylish::Write; fw(stylish::Html::new(String::new()), |w| stylish::$m!(w, $d($x)*)).finish().unwrap() };
        let p = { use stylish::Write; fw(stylish::Plain::new(String::new()), |w| stylish::$m!(w, $d($x)*)).into_inner() };
        let s = { use stylish::Write; fw(stylish::String::new(), |w| stylish::$m!(w, $d($x)*)) };
        let ia = { use stylish::io::Write; utf8(iw(stylish::io::Ansi::new(Vec::new()), |w| stylish::$m!(w, $d($x)*)).finish().unwrap()) };
        let ip = { use stylish::io::Write; utf8(iw(stylish::io::Plain::new(Vec::new()), |w| stylish::$m!(w, $d($x)*)).into_inner()) };
        let r = { use stylish::Write; fw(Rec::default(), |w| stylish::$m!(w, $d($x)*)) };
        let f = {
            struct V<F>(F);
            impl<F: Fn(&mut stylish::Formatter<'_>) -> stylish::Result> stylish::Display for V<F> { fn fmt(&self, f: &mut stylish::Formatter<'_>) -> stylish::Result { (self.0)(f) } }
            fn v<F: Fn(&mut stylish::Formatter<'_>) -> stylish::Result>(f: F) -> V<F> { V(f) }
            stylish::ansi::format!("{:s}", v(|w: &mut stylish::Formatter<'_>| stylish::$m!(w, $d($x)*)))
        };
        // attributed text is shown as HTML
        [a.clone(), h.clone(), p.clone(), stylish::html::format!("{:s}", s), ia, ip, r.to_string(), f]
    }} }
    let w = outs!(write!($lit $(, $($a)*)?));
    $c.eq(&w[3], &w[1]); $c.eq(&w[5], &w[2]); $c.eq(&w[4], &w[0]); $c.eq(&w[7], &w[0]);
    $c.eq(&stylish::ansi::format!($lit $(, $($a)*)?), &w[0]);
    $c.eq(&stylish::html::format!($lit $(, $($a)*)?), &w[1]);
    $c.eq(&stylish::plain::format!($lit $(, $($a)*)?), &w[2]);
    $c.eq(&stylish::format!($lit $(, $($a)*)?).to_html_string(), &w[1]);
    $c.eq(&stylish::ansi::format(stylish::format_args!($lit $(, $($a)*)?)), &w[0]);
    $c.eq(&stylish::html::format(stylish::format_args!($lit $(, $($a)*)?)), &w[1]);
    $c.eq(&stylish::plain::format(stylish::format_args!($lit $(, $($a)*)?)), &w[2]);
    $c.eq(&stylish::format(stylish::format_args!($lit $(, $($a)*)?)).to_ansi_string(), &w[0]);
    $c.eq(&stylish::format_args!($lit $(, $($a)*)?).to_plain_string(), &w[2]);
    $c.eq(&stylish::format_args!($lit $(, $($a)*)?).to_stylish_string().to_ansi_string(), &w[0]);
    // the literal with more around it, and in pieces
    let more = outs!(write!($more $(, $($a)*)?));
    for k in [2, 5] { $c.eq(&more[k], &std::format!("<{}>", w[k])); }
    // lines
    let line = outs!(write!($line $(, $($a)*)?));
    let ln = outs!(writeln!($lit $(, $($a)*)?));
    for k in 0..8 { $c.eq(&ln[k], &line[k]); }
    for k in [2, 5] { $c.eq(&ln[k], &(w[k].clone() + "\n")); }
    let ln = outs!(writeln!(concat!($lit) $(, $($a)*)?));
    for k in 0..8 { $c.eq(&ln[k], &line[k]); }
    let ln = outs!(writeln!("{:s}", stylish::format_args!($lit $(, $($a)*)?)));
    for k in 0..8 { $c.eq(&ln[k], &line[k]); }
    let both = { use stylish::Write; fw(fw(stylish::Ansi::new(String::new()), |w| stylish::write!(w, $lit $(, $($a)*)?)), |w| stylish::write!(w, "\n")).finish().unwrap() };
    $c.eq(&both, &line[0]);
    let both = { use stylish::io::Write; utf8(iw(iw(stylish::io::Ansi::new(Vec::new()), |w| stylish::write!(w, $lit $(, $($a)*)?)), |w| stylish::writeln!(w)).finish().unwrap()) };
    $c.eq(&both, &line[4]);
    let both = { use stylish::Write; fw(fw(stylish::Html::new(String::new()), |w| stylish::write!(w, $lit $(, $($a)*)?)), |w| stylish::writeln!(w,)).finish().unwrap() };
    $c.eq(&both, &line[1]);
    // twice
    let two = { use stylish::Write; fw(fw(stylish::Plain::new(String::new()), |w| stylish::writeln!(w, $lit $(, $($a)*)?)), |w| stylish::writeln!(w, $lit $(, $($a)*)?)).into_inner() };
    $c.eq(&two, &line[2].repeat(2));
}} }
"""
PIECES = ["a", "é", "\\n", "\\r", "{{", "}}", " ", "{}", "{:(fg=red)}", "{:(bold)s}", "{n:>3}"]


def cases(size, alphabet):
    res = []
    for t in itertools.product(alphabet, repeat=size):
        f = "".join(t)
        a, k = "", 0
        for x in t:
            if x == "{:(bold)s}":
                a += ', stylish::format_args!("s{:(bg=blue)}", 4)'
            elif x in ("{}", "{:(fg=red)}"):
                a += [', 7', ', "x\\n"', ', "<"'][k % 3]
                k += 1
        if "{n:>3}" in t:
            a += ', n = 5'
        res.append((f'every macro given "{f}"{a}', f'all!($ c, "{f}", "<{f}>", "{f}\\n"{a});'))
    return res


LEN_PRE = PRE + r"""
macro_rules! some { ($d:tt $c:ident, $lit:literal, $line:literal, $want:expr $(, $($a:tt)*)?) => {{
    let want: String = $want;
    let a = { use stylish::Write; fw(stylish::Ansi::new(String::new()), |w| stylish::write!(w, $lit $(, $($a)*)?)).finish().unwrap() };
    let l = { use stylish::Write; fw(stylish::Ansi::new(String::new()), |w| stylish::write!(w, $line $(, $($a)*)?)).finish().unwrap() };
    $c.eq(&stylish::plain::format!($lit $(, $($a)*)?), &want);
    $c.eq(&stylish::plain::format(stylish::format_args!($lit $(, $($a)*)?)), &want);
    $c.eq(&stylish::ansi::format!($lit $(, $($a)*)?), &a);
    $c.eq(&stylish::ansi::format!($line $(, $($a)*)?), &l);
    $c.eq(&stylish::format!($lit $(, $($a)*)?).to_ansi_string(), &a);
    let h = stylish::html::format!($lit $(, $($a)*)?);
    $c.eq(&{ use stylish::Write; fw(stylish::Html::new(String::new()), |w| stylish::write!(w, $lit $(, $($a)*)?)).finish().unwrap() }, &h);
    $c.eq(&{ use stylish::Write; fw(stylish::Ansi::new(String::new()), |w| stylish::writeln!(w, $lit $(, $($a)*)?)).finish().unwrap() }, &l);
    $c.eq(&{ use stylish::io::Write; utf8(iw(stylish::io::Ansi::new(Vec::new()), |w| stylish::writeln!(w, $lit $(, $($a)*)?)).finish().unwrap()) }, &l);
    $c.eq(&{ use stylish::Write; fw(stylish::Plain::new(String::new()), |w| stylish::writeln!(w, $lit $(, $($a)*)?)).into_inner() }, &(want.clone() + "\n"));
    $c.eq(&{ use stylish::io::Write; utf8(iw(stylish::io::Plain::new(Vec::new()), |w| stylish::writeln!(w, $lit $(, $($a)*)?)).into_inner()) }, &(want.clone() + "\n"));
    $c.eq(&{ use stylish::io::Write; utf8(iw(stylish::io::Plain::new(Vec::new()), |w| stylish::write!(w, $lit $(, $($a)*)?)).into_inner()) }, &want);
}} }
"""


def lengths(lens):
    """Format strings of every length, of every ending and beginning."""
    res = []
    ends = ["", "{}", "{:(fg=red)}", "}}", "{n:>3}", "\\n", "é"]
    texts = {"": "", "{}": "7", "{:(fg=red)}": "7", "}}": "}", "{n:>3}": "  5", "\\n": "\\n", "é": "é"}
    for n in lens:
        for i, e in enumerate(ends):
            b = ends[(n + i * 3) % len(ends)]
            body = ("lorem ipsum dolor " * (n // 18 + 1))[:n]
            f = b + body + e
            a = ", 7" * sum(x in ("{}", "{:(fg=red)}") for x in (b, e)) + (", n = 5" if "{n:>3}" in (b, e) else "")
            want = gen.s(texts[b] + body + texts[e]).replace("\\\\n", "\\n")
            res.append((f'"{f}"{a}', f'some!($ c, "{f}", "{f}\\n", {want}.into(){a});'))
    return res


def many(counts):
    """Format strings with any number of placeholders."""
    res = []
    kinds = [("{}", "7", ", 7"), ("{:(fg=red)}", "<", ', "<"'), ("{:>3}", "  x", ', "x"'), ("{{", "{", ""), ("{:(bold)s}", "s4", ', stylish::format_args!("s{:(bg=blue)}", 4)')]
    for n in counts:
        for j in range(len(kinds) + 1) if n < 14 else (0, len(kinds)):
            for sep in ["", " "] if j < 2 else [["é", ""][n % 2]]:
                l = [kinds[j] if j < len(kinds) else kinds[i % len(kinds)] for i in range(n)]
                f = sep.join(x[0] for x in l)
                a = "".join(x[2] for x in l)
                res.append((f'{n} placeholders "{f}"', f'some!($ c, "{f}", "{f}\\n", {gen.s(sep.join(x[1] for x in l))}.into(){a});'))
    return res


def run():
    quick = common.TIER == "quick"
    r = gen.Result("C11", "states: distinct format strings; transitions: renderings; traces: renderings through one macro or "
                   "function compared with those through another", [])
    c = [x for n in range(0, 3) for x in cases(n, PIECES)]
    r.run("format strings through every macro", PRE, c, group=10)
    if quick:
        r.run("longer format strings through every macro", PRE, cases(3, ["a", "\\n", "}}", "{:(fg=red)}"]), group=10)
    else:
        r.run("longer format strings through every macro", PRE, cases(3, PIECES), group=10)
    ls = list(range(0, 70)) + [79, 80, 81, 95, 96, 97, 99, 100, 101, 119, 120, 121, 127, 128, 129, 199, 200, 201, 254, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025]
    if not quick:
        ls = sorted(set(ls) | set(range(0, 300)) | {2047, 2048, 2049, 4095, 4096, 4097, 10000, 65535, 65536, 65537})
    r.run("format strings of every length", LEN_PRE, lengths(ls), group=10)
    ns = list(range(1, 14)) + [16, 17, 24, 32, 33] if quick else list(range(1, 66)) + [100, 127, 128, 129, 200]
    r.run("any number of placeholders", LEN_PRE, many(ns), group=5)
    return r.res
