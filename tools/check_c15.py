"""C15: malformed format strings and mismatched arguments are rejected at compile time."""
import concurrent.futures
import itertools
import os
import shutil

import common
import gen
import grammar

PRE = """
use stylish::format_args as A;
use mc::mac::{All as P, *};
"""


def compile_once(d, k, prelude, codes, left):
    """One compilation: (compiles, {index: message} of the calls blamed)."""
    src = os.path.join(d, f"s{k}.rs")
    lines = ["#![allow(warnings)]"] + prelude.strip("\n").split("\n")
    at, g = {}, 0
    for i in range(0, len(left), 50):
        lines.append(f"fn g{g}() {{")
        g += 1
        for j in left[i:i + 50]:
            lines.append("{ " + codes[j] + " }")
            at[len(lines)] = j
        lines.append("}")
    lines.append("fn main() {}")
    with open(src, "w") as f:
        f.write("\n".join(lines) + "\n")
    ok, ds = gen.rustc(src, os.path.join(d, f"s{k}.rmeta"), emit="metadata")
    new = {}
    for diag in ds:
        for line in gen.lines_of(diag, src):
            if line in at:
                new.setdefault(at[line], diag["message"])
                break
    return ok, new, [x["message"] for x in ds]


def classify(d, k, prelude, codes, accept):
    """Call by call, which does the compiler reject? Later compiler passes only
    look at programs without earlier errors, so rejected calls are removed
    until none is left; errors that point nowhere (captured names that do not
    exist) are pinned down by bisection. Returns {index: message}."""
    rejected, passes = {}, 0
    work = [list(range(len(codes)))]
    while work:
        left = work.pop()
        if not left:
            continue
        passes += 1
        ok, new, msgs = compile_once(d, k, prelude, codes, left)
        if ok:
            continue
        if new:
            rejected.update(new)
            if accept:
                break
            work.append([j for j in left if j not in new])
        elif len(left) == 1:
            rejected[left[0]] = msgs[0] if msgs else "?"
            if accept:
                break
        else:
            if passes == 1 or accept:
                # is it the program around the calls?
                ok, _, msgs = compile_once(d, k, prelude, codes, [])
                if not ok:
                    common.die(f"prelude does not compile: {msgs}")
            m = len(left) // 2
            work += [left[m:], left[:m]]
    return rejected, passes


def string(code):
    """The format string of a call, more or less."""
    return code.split('"')[1] if '"' in code else code


def decide(r, name, cases, prelude=PRE, extra=""):
    """cases: [(key, code, verdict)]. Either answer is fine for verdict None."""
    if r.failed():
        return
    seen, uniq = set(), []
    for c in cases:
        if c[1] not in seen:
            seen.add(c[1])
            uniq.append(c)
    d = os.path.join(gen.WORK, "C15-" + name.replace(" ", "-"))
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    gen.libs()
    acc = [c for c in uniq if c[2] is True]
    rej = [c for c in uniq if c[2] is False]
    jobs = []
    for kind, lst in (("a", acc), ("r", rej)):
        n = max(1, min(common.JOBS, len(lst) // 100 + 1), (len(lst) + 3999) // 4000)
        for k in range(n):
            part = lst[k::n]
            if part and kind == "r":
                # among valid calls, those of the same string first
                same = {}
                for c in acc:
                    same.setdefault(string(c[1]), []).append(c)
                mixed, used = [], set()
                for i, c in enumerate(part):
                    for x in same.get(string(c[1]), [])[:3] + acc[(k + i * n) % len(acc):][:1] if acc else []:
                        if x[1] not in used:
                            used.add(x[1])
                            mixed.append(x)
                    mixed.append(c)
                part = mixed
            if part:
                jobs.append((kind, k, part))
    bad, passes = [], 0
    with concurrent.futures.ThreadPoolExecutor(common.JOBS) as ex:
        for (kind, k, part), (res, p) in zip(jobs, ex.map(
                lambda j: classify(d, j[0] + str(j[1]), prelude, [c[1] for c in j[2]], j[0] == "a"), jobs)):
            passes += p
            for i, c in enumerate(part):
                if kind == "a" and i in res:
                    bad.append((c, f"valid, but does not compile: {res[i]}"))
                if kind == "r" and c[2] is True and i in res:
                    bad.append((c, f"valid, but does not compile among others: {res[i]}"))
                if kind == "r" and c[2] is False and i not in res:
                    bad.append((c, "compiles although it is not valid"))
    v = None
    if bad:
        c, what = min(bad, key=lambda b: (len(b[0][1]), b[0][1]))
        v = {"what": f"{c[0]}: {what}", "case": c[1] + f"\n({len(bad)} calls of this section are decided wrongly)",
             "repro": prelude + "\nfn main() { " + c[1] + " }\n"}
    shutil.rmtree(d, ignore_errors=True)
    n = len(acc) + len(rej)
    sm = [f"[{name}] {c[1]} -> {'accept' if c[2] else 'reject'}" for c in (acc[:1] + acc[-1:] + rej[:1] + rej[-1:])]
    r.add(name, len(uniq), n, n, sm, v, must_accept=len(acc), must_reject=len(rej),
          either_allowed=len(uniq) - n, compiler_passes=passes)


def inner(spec, args=", P"):
    f = "{:" + spec + "}"
    return (f"`{f}`", f"let _ = A!({gen.s(f)}{args});", grammar.call(f, args.count("P"), [], {}))


def whole(f, npos=0, names=(), scope=("n", "m")):
    a = ", P" * npos + "".join(f", {n} = P" for n in names)
    return (f"{gen.s(f)}{a}", f"let _ = A!({gen.s(f)}{a});", grammar.call(f, npos, list(names), scope))


WHOLE_PRE = PRE + "static n: P = P;"


def statics(cases):
    """Variables for every name the strings may capture."""
    names = set()
    for c in cases:
        for ref, _ in grammar.parse(c[1].split('"')[1])[1]:
            if isinstance(ref, str) and ref != "n":
                names.add(ref)
    return " ".join(f"static {x}: P = P;" for x in sorted(names))


TOKENS = ["<", " ", "+", "#", "0", "7", ".", "(", ")", "bold", ",", "fg=red", "?", "x", "s", "p", "$", "=", "q"]
TOK2 = ["<", ">", "^", "+", "-", "#", "0", "1", "65535", "65536", ".", ".3", "(", ")", "()", "(bold)", "(bold,)", "(,)", "(fg=red,bg=blue)",
        "(fg)", "?", "x", "X", "x?", "X?", "o", "p", "b", "e", "E", "s", "d", "S", "D", "B", "*", "$", "'", "é"]
ATTR_TOK = ["bold", "faint", "normal", "fg=", "bg=", "fg", "red", "brightred", "bright", "black", "default", ",", "=", "(", "B"]


def edits(word, letters):
    """All words one edit away."""
    res = {word[:i] + word[i + 1:] for i in range(len(word))}
    res |= {word[:i] + word[i + 1] + word[i] + word[i + 2:] for i in range(len(word) - 1)}
    for ch in letters:
        res |= {word[:i] + ch + word[i:] for i in range(len(word) + 1)}
        res |= {word[:i] + ch + word[i + 1:] for i in range(len(word))}
    res |= {word[:i] + word[i].upper() + word[i + 1:] for i in range(len(word))} | {word.upper(), word.capitalize()}
    res.discard(word)
    return sorted(res)


def arguments(size, letters, maxpos, names):
    """Piece sequences against argument lists that match or do not."""
    res = []
    for pieces in itertools.product(letters, repeat=size):
        f = "".join(pieces)
        for npos in range(maxpos + 1):
            for k in range(len(names) + 1):
                for order in itertools.permutations(names, k):
                    res.append(whole(f, npos, order, ("n", "a", "b")))
    return res


TRAITS = {"Display": "", "Debug": "?", "Octal": "o", "LowerHex": "x", "UpperHex": "X", "Pointer": "p", "Binary": "b",
          "LowerExp": "e", "UpperExp": "E"}
TRAIT_PRE = PRE + "\n".join(f"pub struct Only{t}; impl std::fmt::{t} for Only{t} {{ fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {{ Ok(()) }} }}"
                            for t in TRAITS) + """
pub struct OnlyStylish; impl stylish::Display for OnlyStylish { fn fmt(&self, _: &mut stylish::Formatter<'_>) -> stylish::Result { Ok(()) } }
pub struct Nothing;
"""


def traits():
    res = []
    for t in list(TRAITS) + ["Stylish", "thing"]:
        v = "Nothing" if t == "thing" else "Only" + t
        for ty in grammar.TYPES:
            want = "Stylish" if ty == "s" else "Debug" if ty.endswith("?") else [k for k, x in TRAITS.items() if x == ty][0]
            for pre in ["", "#", "5", "(bold)", "+08.1(fg=red)"]:
                for ref in ["", "*"]:
                    f = "{:" + pre + ty + "}"
                    res.append((f"`{f}` of a {t} value", f"let r = &{v}; let _ = A!({gen.s(f)}, {'r' if ref == '' and ty != 'p' else '*r'});", want == t))
    return [c for c in res]


def syntax():
    """Malformed calls."""
    res = []

    def bad(code):
        res.append((code, f"let _ = {code};", False))

    def good(code):
        res.append((code, f"let _ = {code};", True))
    for m in ["A!", "stylish::plain::format!", "stylish::ansi::format!", "stylish::html::format!", "stylish::format!"]:
        for a in ['', '1', 'x', 'P', 'b"x"', "'c'", '1.5', 'c"x"', '"x" "y"', '"{}" P', '"{}" => P', '"{}"; P', '"{}", P;', '"{}", P P', '"{}",, P', '"{}", P,,', ', "{}"',
                  '"{}", ,', '"{n}", n = ', '"{n}", = P', '"{n}", n == P', '"{n}", n => P', '"{n}", n: P', '"{n}", n P', '"{n}", "n" = P', '"{n}", 1 = P',
                  '"{n}{}", n = P, P', '"{n}{}{}", P, n = P, P', '"{n}{m}{}", n = P, m = P, P', '"{n}{n}", n = P, n = P', '"{n}{m}", n = P, m = P, n = P', '"{n}{m}", n = P, n = P, m = P',
                  '"{r#n}", n = P', '"{n}", ::n = P', '"{n}", #[allow(unused)] n = P', '"{n}", n::<> = P', '"{n}", (n) = P', '"{n}", {n} = P', '"{n}", mut n = P', '"{n}", ref n = P', '"{n}", let n = P', '"{n}", &n = P', '"{n}", n: P = P',
                  '"{n}", n := P', '"{n}", n += P', '"{n}", n =', '"{n}", n = = P', '"{n}", n = P = P', '"{_}", _ = P', '"{n}", _ = P', '"{type}", type == P', '"{type}", type => P', '"{type}", type P', '"{if}", if = P, if = P', '"{if}", if = P, else = P', '"{if}{}", if = P, P',
                  '"{}"s, P', '"{}"u8, P', '"x"_', 'r"{}"x, P', '"{}"r#x, P',
                  '"{n}", r#n = P, n = P', '"{n}", a::n = P', '"{n}", P.n = P',
                  '"{}", P, P', '"{}{}", P', '"", P', '"{0}", P, P', '"{1}", P, P', '"{2}", P, P', '"{n}", P, n = P', '"{}", P, n = P', '"{n}", n = P, m = P',
                  '"{undefined_name}"', '"{self}"', '"{n}{undefined_name}", n = P', '"{0}{}{1}", P', '"{0}{}{}", P', '"{1}{0}", P', '"{}{1}", P', '"{:?}{:?}", P',
                  'format!("{}", P)', 'K0', 'if true { "{}" } else { "" }, P', '{ "{}" }, P', '("{}"), P', '&"{}", P', 'String::new()', '"{}".to_string(), P', 'CONST, P', 'concat!("{", "}"', 'concat!("{}", "}"), P']:
            if m == "A!" or a:
                bad(f"{m}({a})")
        for a in ['"{}", P', '"{}", P,', '"{n}", n = P', '"{n}", n = P,', '"{n}{}", P, n = P', '"{}{}", P, P', '"{}{n}{m}", P, n = P, m = P', '"{m}{n}{}", P, n = P, m = P,', '""', '"",', '"x"', '"{{}}"',
                  '"{0}{0}", P', '"{1}{0}", P, P', '"{}{0}{}", P, P', '"{type}", r#type = P', '"{type}", type = P', '"{self}{true}", self = P, true = P', '"{n}", n =P', '"{n}", n= P', '"{n}", n=P', '"{n}", n=&P', '"{n}", n=*&P', '"{n}", n=!true', '"{n}", n= - 1', '"{n}", r#n = P', 'r"{}", P', 'r#"{}"#, P', '"{}", P == P', '"{}", (n = P, P).1' if False else '"{}", { P }']:
            good(f"{m}({a})")
    # names that come through other macros
    for k, arg, v in [("expr", "n", False), ("path", "n", False), ("ty", "n", False), ("literal", "true", False), ("pat", "n", False), ("block", "{n}", False), ("ident", "n", True), ("tt", "n", True), ("ident", "type", True), ("tt", "true", True)]:
        name = arg.strip("{}")
        res.append((f"a name that is a ${k} of `{arg}`", "{ macro_rules! m { ($x:%s) => { let _ = A!(\"{%s}\", $x = P); } } m!(%s); }" % (k, name, arg), v))
        res.append((f"a value next to a name that is a ${k} of `{arg}`", "{ macro_rules! m { ($x:%s) => { let _ = A!(\"{}{%s}\", P, $x = P,); } } m!(%s); }" % (k, name, arg), v))
    w = "{ use stylish::Write; let mut w = mc::mac::Rec::default(); "
    for m in ["stylish::write!", "stylish::writeln!"]:
        for a in ['w', 'w,', 'w, "{}"', 'w, "{}", P, P', 'w, "{"', 'w, "}"', 'w, "{:y}", P', 'w, "{:(red)}", P', 'w; "{}", P', 'w "{}", P', '"{}", P', 'w, x', 'w, "{n}{n}", n = P, n = P', 'w, "{:65536}", P', '']:
            if m.endswith("ln!") and a in ("w", "w,"):
                res.append((f"{m}({a})", f"let _ = {w} {m}({a}) }};", True))
            else:
                res.append((f"{m}({a})", f"let _ = {w} {m}({a}) }};", False))
        for a in ['w, ""', 'w, "{}", P', 'w, "{}", P,', 'w, "{n:?}", n = P', 'w, "{:>65535}", P', 'w, "{:(red)}"'.replace("red", "") + ", P", '&mut w, "x"']:
            res.append((f"{m}({a})", f"let _ = {w} {m}({a}) }};", True))
    return res


NUMBERS = ["0", "00", "1", "01", "255", "256", "4096", "32767", "32768", "65534", "65535", "065535", "65536", "065536", "65537", "70000", "99999", "100000",
           "131071", "131072", "2147483648", "4294967295", "4294967296", "4294967297", "9223372036854775808", "18446744073709551615", "18446744073709551616", "99999999999999999999999"]
IDENTS = ["a", "_", "__", "_a", "a_", "a1", "1a", "é", "日本", "aé", "a-b", "a.b", "a::b", "a b", "r#a", "#a", "$a", "a$", "'a", "a'", "-", "*", "&a", "-1", "+1", "1.0", "0x1", "1_0", "a()", "a[0]", "self", "Self", "crate", "super", "type",
          "fn", "true", "false", "a!", "\"a\"", "²", "٣", "a²", "\u200d", "a\u0301", "\u0301", "😀", "a😀", "ａ", "ª", "℮", "·", "a·", "$crate", "{", "a\\", "/", "//", "/*", "@", "%", "^", "~", "|", ";", "?", "=", "a=b", ",", "a,b", "(", ")", "(bold)", "<", ">", "bold(", "0()", "a(bold)"]


def identifiers():
    """Argument names, all given explicitly when they could be."""
    res = []
    for i in IDENTS + NUMBERS:
        for spec in ["", ":", ":?", ":(bold)"]:
            f = "{" + i + spec + "}"
            if i.isascii() and i.isdigit():
                k = int(i)
                v = k <= 1
                res.append((f"`{f}`, P, P with `{{0}}{{1}}` before", f"let _ = A!({gen.s('{0}{1}' + f)}, P, P);", v))
                continue
            simple = i.isidentifier() and i not in ("_", "ａ", "ª", "℮", "a·") and i not in ("self", "Self", "crate", "super", "true", "false", "type", "fn", "True")
            if i in ("ａ", "ª", "℮", "a·", "a\u0301", "٣", "²", "a²"):
                continue    # normalisation of identifiers is left to the compiler
            if simple:
                res.append((f"`{f}` given", f"let _ = A!({gen.s(f)}, {i} = P);", True))
                res.append((f"`{f}` in scope", f"let {i} = P; let _ = A!({gen.s(f)});", True))
                res.append((f"`{f}` not in scope", f"let _ = A!({gen.s(f)});", False))
                res.append((f"`{f}` given and unused by", f"let _ = A!({gen.s('{zz' + spec + '}')}, zz = P, {i} = P);", False))
            elif i in ("type", "fn"):
                res.append((f"`{f}` given", f"let _ = A!({gen.s(f)}, r#{i} = P);", True))
                res.append((f"`{f}` in scope", f"let r#{i} = P; let _ = A!({gen.s(f)});", True))
                res.append((f"`{f}` not in scope", f"let _ = A!({gen.s(f)});", False))
            else:
                v, _ = grammar.parse(f)
                if v is None:
                    continue
                res.append((f"`{f}`", f"let _ = A!({gen.s(f)});", False))
                res.append((f"`{f}` with an argument", f"let _ = A!({gen.s(f)}, P);", False))
    return res


def run():
    quick = common.TIER == "quick"
    r = gen.Result("C15", "states: distinct macro calls enumerated; transitions: calls decided by the compiler and by the reference "
                   "grammar; traces: the same (calls for which either answer is allowed are left out)",
                   ["the reference grammar of tools/grammar.py, written from the README and the documentation of std::fmt"])
    specs = []
    for n in range(0, 4 if quick else 5):
        specs += [inner("".join(t)) for t in itertools.product(TOKENS, repeat=n)]
    decide(r, "specification tokens", specs)
    s2 = []
    for n in range(0, 3 if quick else 4):
        s2 += [inner("".join(t)) for t in itertools.product(TOK2, repeat=n)]
    decide(r, "specification parts", s2)
    at = []
    for n in range(0, 4 if quick else 5):
        at += [inner("(" + "".join(t) + ")") for t in itertools.product(ATTR_TOK, repeat=n)]
    decide(r, "attribute list tokens", at)
    words = ["bold", "faint", "normal"] + [f"{k}={c}" for k in ("fg", "bg") for c in sorted(grammar.COLORS)]
    ed = [inner(f"({e})") for w in words for e in edits(w, "bt= (" if quick else "abcdefghiklmnorstuwy=_ ,(:1-é")]
    ed += [inner(f"({w[:i]})") for w in words for i in range(len(w))] + [inner(f"({w[i:]})") for w in words for i in range(1, len(w))]
    ed += [inner(f"({a}{sep}{b})") for a in words[::4] for b in words[::5] for sep in ["", ";", "|", ",,", ", ,", " ", "&", "+", "=", ")(", ",)(", ":"]]
    ed += [inner(f"({k}{eq}{c})") for k in ["fg", "bg", "f", "b", "g", "FG", "Fg", "foreground", "background", "fgg", "intensity", "color", "bold", "faint", "normal", ""]
           for eq in ["=", "", ":", "==", "=="] for c in ["red", "brightblack", "bold", "default", "reset", "gray", "grey", "orange", "0", "1", "255", "#ff0000", "none", "dim", "Red", "RED", ""]]
    decide(r, "attributes one edit away", ed)
    types = [inner(a) for a in map(chr, range(33, 127))] + [inner(a + b) for a in map(chr, range(33, 127)) for b in map(chr, range(33, 127)) if a not in "{}" and b not in "{}"]
    types += [inner(p + t) for p in ["5", "#", "(bold)", "<", ".1"] for t in map(chr, range(33, 127)) if t not in "{}"]
    decide(r, "types", types)
    nums = [inner(pre + n + post) for n in NUMBERS for pre in ["", ".", "0", "5.", "<", "#0", "0."] for post in ["", "?", "x", "(bold)", ".", ".5", ".65536"]]
    decide(r, "counts", nums)
    decide(r, "argument names", identifiers(), prelude=PRE)
    # argument names of every kind of character; captured where they can be
    letters = ["0", "1", "9", "a", "_", "é", ".", "-", "!", "#", "+", "'", "(", "$"]
    an = []
    for n in range(1, 4 if quick else 5):
        for t in itertools.product(letters, repeat=n):
            name = "".join(t)
            for spec in ["", ":", ":?"] if n < 3 else [""]:
                f = "{" + name + spec + "}"
                an.append(whole(f, 0, scope=(name,)))
                if n < 3 or t[0] in "019":
                    an.append(whole("{0}{1}" + f, 2, scope=(name,)))
    decide(r, "argument names of every kind of character", an, prelude=WHOLE_PRE + statics(an))
    ch = ["{", "}", "a", ":", "0", "n", "?", "("]
    w = []
    every = {"".join(t) for n in range(1, 6) for t in itertools.product("a0n", repeat=n)}
    for n in range(0, 6 if quick else 7):
        for t in itertools.product(ch, repeat=n):
            f = "".join(t)
            w.append(whole(f, 1, scope=every))
            if n < 5:
                w.append(whole(f, 0, scope=every))
                w.append(whole(f, 0, ("a",), scope=every))
    decide(r, "whole strings", w, prelude=WHOLE_PRE + statics(w))
    ar = []
    for n in range(0, 4):
        ar += arguments(n, ["{}", "{0}", "{1}", "{2}", "{a}", "{b}", "{n}"] if n < 3 or not quick else ["{}", "{0}", "{1}", "{a}"], 3, ["a", "b"] if n < 3 or not quick else ["a"])
    if not quick:
        ar += arguments(4, ["{}", "{0}", "{2}", "{a}"], 4, ["a", "b"])
    decide(r, "arguments", ar, prelude=WHOLE_PRE + " static a: P = P; static b: P = P;")
    decide(r, "traits", traits(), prelude=TRAIT_PRE)
    decide(r, "malformed calls", syntax(), prelude=PRE + 'pub const CONST: &str = "{}"; pub const K0: &str = "";')
    return r.res
