"""C13: style attributes in a format string mean what is documented."""
import itertools

import common
import gen
from check_c12 import named

COLORS = ["black", "red", "green", "yellow", "blue", "magenta", "cyan", "white", "default", "brightblack", "brightred",
          "brightgreen", "brightyellow", "brightblue", "brightmagenta", "brightcyan", "brightwhite"]
INTENSITIES = ["normal", "bold", "faint"]
ATTRS = [("fg=" + c, 0, i) for i, c in enumerate(COLORS)] + [("bg=" + c, 1, i) for i, c in enumerate(COLORS)] + \
        [(n, 2, i) for i, n in enumerate(INTENSITIES)]
BASIS = [a for a in ATTRS if a[0] in ("fg=red", "fg=default", "fg=brightcyan", "bg=blue", "bg=default",
                                      "bg=brightblack", "normal", "bold", "faint")]
PRE = """
use mc::mac::*;
use stylish::format_args as A;
use std::format_args as S;
fn ctx() -> Vec<stylish::Style> { let mut v = Vec::new();
    for f in [8, 1, 15] { for b in [8, 4, 9] { for i in 0..3 { v.push(st(f, b, i)) } } } v }
fn lits(pre: &str, mid: Vec<(char, stylish::Style)>, post: &str, b: stylish::Style) -> Rec {
    let mut v = run_of(pre, b); v.extend(mid); v.extend(run_of(post, b)); Rec(v) }
struct Mixed;
impl stylish::Display for Mixed { fn fmt(&self, f: &mut stylish::Formatter<'_>) -> stylish::Result {
    stylish::Display::fmt(&Own, f)?; stylish::Display::fmt(&Own, &mut f.with(stylish::Intensity::Bold)) } }
fn mixed(s: stylish::Style) -> Vec<(char, stylish::Style)> { let mut v = own(s); v.extend(own(apply(s, (None, None, Some(1))))); v }
"""


def final(lst):
    n = [None, None, None]
    for _, k, i in lst:
        n[k] = i
    return tuple(n)


def text(lst, comma=False):
    return "(" + ",".join(a[0] for a in lst) + ("," if comma and lst else "") + ")"


def plain(at, n, ctx):
    a = "{:" + at + "}"
    return (f"`{a}`", f'for b in {ctx} {{ c.same(A!("{a}", "x"), S!("x"), b, apply(b, {named(n)})) }}')


def kinds(at, n):
    """The attribute list in every kind of placeholder, between literals."""
    w = named(n)
    res = []

    def add(fmt, args, mid):
        a = "l" + fmt.replace("@", at) + "r"
        res.append((f"`{a}`", f'for b in ctx() {{ let s = apply(b, {w}); c.rec(A!("{a}"{args}), b, &lits("l", {mid}, "r", b)) }}'))
    add("{:>3@}", ', "x"', 'run_of("  x", s)')
    add("{:+06.1@}", ', 1.25f32', 'run_of(&std::format!("{:+06.1}", 1.25f32), s)')
    add("{:@?}", ', Some("q")', 'run_of("Some(\\"q\\")", s)')
    add("{:#@?}", ', (1, "a")', 'run_of("(\\n    1,\\n    \\"a\\",\\n)", s)')
    add("{:#06@x}", ', 255', 'run_of("0x00ff", s)')
    add("{:02@X?}", ', [10u8, 5]', 'run_of("[0A, 05]", s)')
    add("{:@e}", ', 1500', 'run_of("1.5e3", s)')
    add("{:@s}", ', Own', 'own(s)')
    add("{0:@s}{0:s}", ', Mixed', '{ let mut v = mixed(s); v.extend(mixed(b)); v }')
    add("{v:@s}", ', v = &&Own', 'own(s)')
    add("{:@s}", ', stylish::format_args!("p{:s}q", Own)', '{ let mut v = run_of("p", s); v.extend(own(s)); v.extend(run_of("q", s)); v }')
    add("{:@}{:@}", ', 1, 2', 'run_of("12", s)')
    add("{:@}{}{:@}{{", ', 1, 2, 3', '{ let mut v = run_of("1", s); v.extend(run_of("2", b)); v.extend(run_of("3", s)); v.extend(run_of("{", b)); v }')
    return res


def nested(a1, a2):
    """One attributed placeholder inside another, and next to another."""
    at1, n1, at2, n2 = text([a1]), final([a1]), text([a2]), final([a2])
    return [(f"`{at2}` inside `{at1}`", f'for b in ctx() {{ let s = apply(b, {named(n1)}); let t = apply(s, {named(n2)}); '
             f'c.rec(A!("a{{:{at1}s}}b", A!("c{{:{at2}}}d", 7)), b, &lits("a", lits("c", run_of("7", t), "d", s).0, "b", b)) }}'),
            (f"`{at1}` before `{at2}`", f'for b in ctx() {{ c.rec(A!("{{:{at1}}}{{:{at2}}}", 1, 2), b, &lits("", {{ '
             f'let mut v = run_of("1", apply(b, {named(n1)})); v.extend(run_of("2", apply(b, {named(n2)}))); v }}, "", b)) }}')]


ENTRY_PRE = PRE + """
fn rebuild(v: Vec<(char, stylish::Style)>) -> stylish::String { let mut s = stylish::String::default();
    for (ch, st) in v { stylish::Write::write_char(&mut s, ch, st).unwrap() } s }
fn outs(s: &stylish::String) -> [String; 3] { [stylish::ansi::format!("{:s}", s), stylish::html::format!("{:s}", s), stylish::plain::format!("{:s}", s)] }
fn tap(s: &stylish::String) -> Rec { let mut r = Rec::default(); stylish::Write::write_fmt(&mut r, stylish::format_args!("{:s}", s)).unwrap(); r }
"""


def entries(at, n):
    """The same list through each macro that takes a format string."""
    want = f'let d = stylish::Style::default(); let w = rebuild(lits("l", run_of("x", apply(d, {named(n)})), "r", d).0); let o = outs(&w);'
    f = f'"l{{:{at}}}r", "x"'
    fs = f'"l{{:{at}}}r\\n", "x"'
    return [(f"`{at}` through every macro", "{ " + want +
             f' c.eq(&stylish::ansi::format!({f}), &o[0]); c.eq(&stylish::html::format!({f}), &o[1]); c.eq(&stylish::plain::format!({f}), &o[2]);'
             f' c.check(tap(&stylish::format!({f})) == tap(&w), || "format!".into());'
             f' let mut r = Rec::default(); {{ use stylish::Write; stylish::write!(r, {f}).unwrap(); }} c.check(r == tap(&w), || "write!".into());'
             f' let mut r = Rec::default(); {{ use stylish::Write; stylish::writeln!(r, {f}).unwrap(); }} let mut r2 = Rec::default(); {{ use stylish::Write; stylish::write!(r2, {fs}).unwrap(); }}'
             f' c.check(r == r2 && r.text() == "lxr\\n", || "writeln!".into());'
             ' }')]


def run():
    quick = common.TIER == "quick"
    r = gen.Result("C13", "states: distinct placeholders (attribute lists, in each kind of placeholder); transitions: "
                   "renderings in one inherited style each; traces: renderings compared character by character and style by style with the aspects the list names",
                   [])
    empty = [plain("", (None,) * 3, "all_styles()"), plain("()", (None,) * 3, "all_styles()")]
    one = [plain(text([a], cm), final([a]), "all_styles()") for a in ATTRS for cm in (False, True)]
    r.run("no and single attributes in all 867 contexts", PRE, empty + one)
    two = [plain(text(l, i % 2), final(l), "ctx()") for i, l in enumerate(itertools.product(ATTRS, repeat=2))]
    r.run("all pairs of attributes", PRE, two)
    basis = BASIS if quick else ATTRS
    if quick:
        three = [plain(text(l, i % 3 == 0), final(l), "ctx()") for i, l in enumerate(itertools.product(BASIS, repeat=3))]
    else:
        # complete over the colours: 17 x 17 x 3 in every order, and all triples over a larger basis
        three = [plain(text(p), final(p), "ctx()") for f in ATTRS[:17] for b in ATTRS[17:34] for i in ATTRS[34:]
                 for p in itertools.permutations((f, b, i))]
        three += [plain(text(l), final(l), "bases()") for l in itertools.product(ATTRS, repeat=3)]
        big = BASIS + [a for a in ATTRS if a[0] in ("fg=black", "bg=brightwhite", "fg=white")]
        three += [plain(text(l, True), final(l), "ctx()") for l in itertools.product(big, repeat=3)]
        three += [plain(text(l), final(l), "ctx()") for l in itertools.product(BASIS[::2] + BASIS[1:2], repeat=4)]
        three += [plain(text(l), final(l), "bases()") for l in itertools.product([BASIS[0], BASIS[4], BASIS[7]], repeat=7)]
    r.run("longer lists", PRE, three)
    # lists of every length, in which one attribute matters
    lens = list(range(2, 41)) + [63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257] if quick else list(range(2, 300)) + [511, 512, 513, 1023, 1024, 1025, 2000]
    A = {a[0]: a for a in ATTRS}
    ln = []
    for n in lens:
        fill = [[A["bold"]], [A["bg=blue"]], [A["fg=red"], A["bg=brightcyan"], A["normal"]], ATTRS]
        for j, f in enumerate(fill):
            base = [f[i % len(f)] for i in range(n)]
            for at in sorted({0, n // 2, n - 1}):
                for x in (A["fg=green"], A["faint"], A["bg=default"]):
                    l = base[:at] + [x] + base[at + 1:]
                    ln.append(plain(text(l, (n + j) % 2), final(l), "bases()"))
    r.run("lists of every length", PRE, ln)
    k = []
    for l in [[]] + [[a] for a in ATTRS] + [list(x) for x in itertools.product(basis[::1 if quick else 2], repeat=2)]:
        k += kinds(text(l), final(l))
    r.run("in every kind of placeholder", PRE, k, shards=None)
    nest = [c for a1, a2 in itertools.product(BASIS if quick else ATTRS, repeat=2) for c in nested(a1, a2)]
    r.run("nested and adjacent", PRE, nest)
    ent = [c for l in [[]] + [[a] for a in ATTRS] + [list(x) for x in itertools.product(BASIS, repeat=2)] for c in entries(text(l), final(l))]
    r.run("through every macro", ENTRY_PRE, ent)
    return r.res
