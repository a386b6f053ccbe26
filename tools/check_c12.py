"""C12: standard formatting options behave exactly as in std::fmt."""
import itertools

import common
import gen

PRE = """
use mc::mac::*;
use stylish::format_args as A;
use std::format_args as S;
"""
TRAITS = ["", "?", "x?", "X?", "o", "x", "X", "p", "b", "e", "E"]
ATTRS = [("()", (None, None, None)), ("(bold)", (None, None, 1)), ("(fg=red)", (1, None, None)),
         ("(bg=brightcyan,faint)", (None, 15, 2)), ("(fg=default,bg=blue,normal,)", (8, 4, 0))]


def opt(x):
    return "None" if x is None else f"Some({x})"


def named(n):
    return "(" + ",".join(opt(x) for x in n) + ")"


def specs(aligns, widths, precs):
    """Distinct texts of everything before the type."""
    seen = []
    for a, sg, alt, z, w, p in itertools.product(aligns, ["", "+", "-"], ["", "#"], ["", "0"], widths, precs):
        t = a + sg + alt + z + w + p
        if t not in seen[-40:]:
            seen.append(t)
    return list(dict.fromkeys(seen))


def cases(sp, traits, attrs, form="{:%s}"):
    res = []
    for i, (ty, t) in enumerate(itertools.product(traits, sp)):
        for k in range(attrs):
            # with and without attributes; which ones rotates over the specifications
            at, n = ("", (None, None, None)) if k == 0 else ATTRS[(i + k) % len(ATTRS)]
            a = "{:" + t + at + ty + "}"
            s = "{:" + t + ty + "}"
            res.append((f"`{a}`", f'for b in two() {{ let e = apply(b, {named(n)}); for v in values("{ty}") '
                        f'{{ c.same(A!("{a}", v), S!("{s}", v), b, e) }} }}'))
    return res


DIRECT = [
    # (value expression, types)
    ("5u8", ["", "?", "x", "b", "e"]), ("&&-5i64", ["", "?", "X", "o"]), ("*\"unsized\"", ["", "?"]),
    ("&mut 3u16", ["", "?", "x"]), ("String::from(\"s é\")", ["", "?"]), ("Box::new(7i32)", ["", "?"]),
    ("std::rc::Rc::new(\"rc\")", ["", "?"]), ("std::borrow::Cow::Borrowed(\"cow\")", ["", "?"]),
    ("[1u8, 2, 255]", ["?", "x?", "X?"]), ("[1u8, 2, 255][..]", ["?", "x?"]), ("(1, 2.5, \"t\", 'c')", ["?", "x?"]),
    ("Some(Some(255))", ["?", "X?"]), ("Result::<u8, ()>::Err(())", ["?"]), ("1.0f32/3.0", ["", "?", "e", "E"]),
    ("*(&1.5f64 as &dyn std::fmt::Display)", [""]), ("*(Box::new(2u8) as Box<dyn std::fmt::Debug>)", ["?", "x?"]),
    ("std::num::NonZeroU8::new(9).unwrap()", ["", "?", "x", "b"]), ("std::num::Wrapping(200u8)", ["", "?", "x", "o"]),
    ("std::format_args!(\"{:>4}|\", 1)", ["", "?"]), ("std::cell::Cell::new(3)", ["?"]), ("'\\u{301}'", ["", "?"]),
    ("std::time::Duration::from_millis(1500)", ["?"]), ("std::net::Ipv4Addr::new(1, 2, 3, 4)", ["", "?"]),
    ("0x10 as *mut i32", ["p", "?"]), ("\"a\" as *const str", ["p"]), ("Box::leak(Box::new(1))", ["p", ""]),
    ("main_like as fn()", ["p", "?"]), ("true", ["", "?"]), ("()", ["?"]), ("std::marker::PhantomData::<u8>", ["?"]),
    ("i128::MIN", ["", "?", "x", "X", "o", "b", "e"]), ("u128::MAX", ["", "?", "x", "X", "o", "b", "E"]),
    ("std::ops::RangeInclusive::new(-1, 4)", ["?", "x?"]), ("Own2", ["", "?"]), ("Pieces", ["", "?"]),
    ("std::path::Path::new(\"/p\").display()", ["", "?"]), ("std::ffi::OsStr::new(\"os\")", ["?"]),
]
DIRECT_PRE = PRE + """
fn main_like() {}
pub struct Own2;
impl std::fmt::Display for Own2 { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
    write!(f, "<{:>3}", 1)?; f.pad("pad")?; f.write_str(">") } }
impl std::fmt::Debug for Own2 { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
    f.debug_struct("Own2").field("x", &1.5).field("y", &Some("z")).finish_non_exhaustive() } }
pub struct Pieces;
impl std::fmt::Display for Pieces { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
    use std::fmt::Write; f.write_char('é')?; f.write_str("")?; f.write_fmt(S!("{:?}", 1))?; std::fmt::Display::fmt(&2.5, f)?; f.write_char('\\n') } }
impl std::fmt::Debug for Pieces { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
    f.debug_map().entry(&1, &"a").entry(&"k", &Own2).finish()?; f.debug_list().entries([1, 2]).finish() } }
"""
FLAGS = ["", "5", "<7", "^9", ">12.3", "+", "-", "#", "08", "+#012.2", ".0", ".4", "#012", "^+#014", ">-#05", " <6", " ^6.1"]


def direct(flags):
    res = []
    for (v, tys), fl in itertools.product(DIRECT, flags):
        for ty in tys:
            s = "{:" + fl + ty + "}"
            for at, n in [("", (None, None, None)), ATTRS[3]]:
                a = "{:" + fl + at + ty + "}"
                # the value lives in one place, so that pointers are the same for both
                if v.startswith("*") or v.endswith("[..]"):
                    code = f'match &({v}) {{ v => for b in two() {{ c.same(A!("{a}", *v), S!("{s}", v), b, apply(b, {named(n)})) }} }}'
                else:
                    code = f'match ({v}) {{ v => for b in two() {{ c.same(A!("{a}", v), S!("{s}", v), b, apply(b, {named(n)})) }} }}'
                res.append((f"`{a}` of `{v}`", code))
    return res


def run():
    quick = common.TIER == "quick"
    r = gen.Result("C12", "states: distinct format specifications (and, for `values of many types`, specification-value "
                   "pairs); transitions: renderings; traces: renderings whose text is compared with the standard "
                   "library's for the same specification and whose characters must all have the value's style",
                   ["the standard library of the installed toolchain is the reference"])
    if quick:
        sp = specs(["", "<", "^", ">", " >"], ["", "1", "9", "14"], ["", ".0", ".2"])
    else:
        sp = specs(["", "<", "^", ">", " <", " ^", " >"], ["", "0", "1", "2", "5", "9", "14", "33", "007"],
                   ["", ".0", ".1", ".2", ".3", ".5", ".17", ".02"])
    r.run("all flag combinations and traits", PRE, cases(sp, TRAITS, 1 if quick else 2))
    # attributes do not interfere: every combination of flags once more with an attribute list
    sq = specs(["", "<", "^", ">"], ["", "9"], ["", ".2"])
    if quick:
        r.run("with attributes", PRE, [c for c in cases(sq, TRAITS, 2) if "(" in c[0]])
    # values that write odd texts themselves, whatever was asked for
    sr = specs(["", "<", "^"], ["", "9"], ["", ".2"]) if quick else sp
    r.run("values writing odd texts", PRE, [(k, code.replace('values("', 'raws("')) for k, code in
                                            cases(sr, TRAITS, 1)])
    big = [a + z + w + p for a in ["", "^", ">"] for z in ["", "0"] for w in ["255", "256", "999", "4096", "65535"]
           for p in ["", ".255", ".256", ".65535"]]
    big += [a + p for a in ["", "<"] for p in [".255", ".256", ".1000", ".65535"]]
    r.run("large widths and precisions", PRE, [(k, code.replace('values("', 'few("')) for k, code in
                                                 cases(big, ["", "?", "x", "e"] if quick else TRAITS, 1)])
    if not quick:
        r.run("every width", PRE, [(k, code.replace('values("', 'few("')) for k, code in
                                   cases([str(i) for i in range(1, 300)] + ["." + str(i) for i in range(300)] +
                                         ["0%d.%d" % (i, j) for i in range(1, 20) for j in range(20)], ["", "x", "?"], 1)])
    r.run("values of many types", DIRECT_PRE, direct(FLAGS if not quick else FLAGS[::2] + FLAGS[5:6]))
    return r.res
