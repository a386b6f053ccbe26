"""C16: every argument expression is evaluated exactly once, in order, by reference."""
import itertools

import common
import gen

PRE = """
use mc::mac::*;
use stylish::format_args as A;
use std::cell::{Cell, RefCell};
use std::fmt;
thread_local! { static LOG: RefCell<Vec<String>> = RefCell::new(Vec::new()); }
fn log(x: &str) { LOG.with(|l| l.borrow_mut().push(x.to_string())) }
fn taken() -> String { LOG.with(|l| std::mem::take(&mut *l.borrow_mut())).join(" ") }
/// Counts how often it is shown, and is neither Copy nor Clone.
pub struct V(&'static str, Cell<u32>);
fn v(name: &'static str) -> V { log(name); V(name, Cell::new(0)) }
impl V { fn show(&self, f: &mut fmt::Formatter<'_>, k: &str) -> fmt::Result { let n = self.1.get(); self.1.set(n + 1); write!(f, "{}{}{} ", self.0, n, k) } }
impl fmt::Display for V { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { self.show(f, "") } }
impl fmt::Debug for V { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { self.show(f, "?") } }
impl fmt::LowerHex for V { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { self.show(f, "x") } }
impl stylish::Display for V { fn fmt(&self, f: &mut stylish::Formatter<'_>) -> stylish::Result {
    let n = self.1.get(); self.1.set(n + 1); f.write_str(self.0)?; f.write_fmt(A!("{}s ", n)) } }
fn dst<T>(t: &mut T) -> &mut T { log("d"); t }
fn show(a: stylish::Arguments<'_>) -> String { text(a) }
fn again(a: &stylish::Arguments<'_>) -> String { text(A!("{:s}", a)) }
"""
SPECS = ["", "?", "x", "s"]


def simulate(refs, npos, named, renders):
    """Texts of the successive renderings, or None when an argument is unused
    or missing. refs: (argument or None for the next one, spec)."""
    nxt, seq, used = 0, [], set()
    for arg, spec in refs:
        if arg is None:
            if nxt >= npos:
                return None
            arg, nxt = nxt, nxt + 1
        if isinstance(arg, int) and arg >= npos:
            return None
        used.add(arg)
        seq.append((arg, spec))
    if used != set(range(npos)) | set(named):
        return None
    count, texts = {}, []
    for _ in range(renders):
        t = ""
        for arg, spec in seq:
            n = count.get(arg, 0)
            count[arg] = n + 1
            t += f"{'p' if isinstance(arg, int) else ''}{arg}{n}{spec} "
        texts.append(t)
    return texts


def fstr(refs):
    return "".join("{" + ("" if a is None else str(a)) + (":" + s if s else "") + "}" for a, s in refs)


def cases(maxlen, maxpos, specs, maxnames=2):
    res = []
    for size in range(maxlen + 1):
        for npos in range(maxpos + 1):
            for nn in range(maxnames + 1):
                for names in itertools.permutations(["n", "m"][:maxnames], nn):
                    letters = [None] + list(range(npos)) + list(names)
                    if npos == 0:
                        letters = list(names)
                    for i, args in enumerate(itertools.product(letters, repeat=size)):
                        refs = [(a, specs[(i + j) % len(specs)]) for j, a in enumerate(args)]
                        texts = simulate(refs, npos, names, 3)
                        if texts is None:
                            continue
                        a = gen.s(fstr(refs)) + "".join(f', v("p{k}")' for k in range(npos)) + "".join(f', {n} = v("{n}")' for n in names)
                        logd = " ".join([f"p{k}" for k in range(npos)] + list(names))
                        t = [gen.s(x) for x in texts]
                        res.append((f"format_args!({a})",
                                    # prepared once and rendered three times, or never, or rendered at once
                                    f'match A!({a}) {{ a => {{ c.eq(&taken(), "{logd}"); '
                                    f'c.eq(&again(&a), {t[0]}); c.eq(&again(&a), {t[1]}); c.eq(&show(a), {t[2]}); c.eq(&taken(), ""); }} }} '
                                    f'{{ A!({a}); }} c.eq(&taken(), "{logd}"); '
                                    f'c.eq(&stylish::plain::format!({a}), {t[0]}); c.eq(&taken(), "{logd}"); '
                                    ))
    return res


def outputs():
    """Every macro and every output, and the destination."""
    res = []
    a = '"{}{n}{0:?}{m:s}{}", v("p0"), v("p1"), m = v("m"), n = v("n")'
    want, logd = '"p00 n0 p01? m0s p10 "', '"p0 p1 m n"'
    for m in ["stylish::plain::format!", "stylish::ansi::format!", "stylish::html::format!"]:
        res.append((m, f'c.eq(&{m}({a}), {want}); c.eq(&taken(), {logd});'))
    res.append(("format!", f'let s = stylish::format!({a}); c.eq(&taken(), {logd}); c.eq(&again(&A!("{{:s}}", s)), {want}); c.eq(&taken(), "");'))
    for m, nl in [("write", ""), ("writeln", "\\n")]:
        w = want[:-1] + nl + '"'
        for trait, new, get in [("stylish::Write", "stylish::Ansi::new(String::new())", "t.finish().unwrap()"),
                                ("stylish::Write", "stylish::Html::new(String::new())", "t.finish().unwrap()"),
                                ("stylish::Write", "stylish::Plain::new(String::new())", "t.into_inner()"),
                                ("stylish::Write", "Rec::default()", "t.text()"),
                                ("stylish::io::Write", "stylish::io::Ansi::new(Vec::new())", "String::from_utf8(t.finish().unwrap()).unwrap()"),
                                ("stylish::io::Write", "stylish::io::Plain::new(Vec::new())", "String::from_utf8(t.into_inner()).unwrap()")]:
            res.append((f"{m}! to {new}", f'{{ let mut t = {new}; {{ use {trait}; stylish::{m}!(dst(&mut t), {a}).unwrap(); }} '
                        f'c.eq(&taken(), &(String::from("d ") + {logd})); c.eq(&{get}, {w}); }}'))
            if m == "writeln":
                res.append((f"{m}! of nothing to {new}", f'{{ let mut t = {new}; {{ use {trait}; stylish::writeln!(dst(&mut t)).unwrap(); stylish::writeln!(dst(&mut t),).unwrap(); }} '
                            f'c.eq(&taken(), "d d"); c.eq(&{get}, "\\n\\n"); }}'))
    # nested arguments: the inner ones are evaluated while the outer are prepared
    res.append(("nested", 'c.eq(&show(A!("{:s}{}{0:s}", A!("{}{0}", v("i")), v("o"))), "i0 i1 o0 i2 i3 "); c.eq(&taken(), "i o");'))
    res.append(("nested formats", 'c.eq(&show(A!("{}{:s}", stylish::plain::format!("{}{}", v("a"), v("b")), stylish::format!("{}", v("e")))), "a0 b0 e0 "); c.eq(&taken(), "a b e");'))
    return res


def many():
    """Rows with many arguments: positional, explicit, named, both, repeated."""
    rows = []
    for n in (40, 60, 64, 130, 300):
        args = "".join(f', v("w{i}")' for i in range(n))
        named = "".join(f', a{i} = v("w{i}")' for i in range(n))
        order = " ".join(f"w{i}" for i in range(n))
        def row(name, text, args, out):
            rows.append((f"{n} {name}", f'c.eq(&show(A!("{text}"{args})), "{out}"); c.eq(&taken(), "{order}");'))
        up = "".join(f"w{i}0 " for i in range(n))
        down = "".join(f"w{i}0 " for i in reversed(range(n)))
        row("arguments", "{}" * n, args, up)
        row("arguments in reverse", "".join("{%d}" % i for i in reversed(range(n))), args, down)
        row("named arguments", "".join("{a%d}" % i for i in reversed(range(n))), named, down)
        h = n // 2
        both = "".join(f', v("w{i}")' for i in range(h)) + "".join(f', a{i} = v("w{i}")' for i in range(h, n))
        row("arguments, half of them named", "".join("{a%d}" % i for i in range(h, n)) + "{}" * h, both, "".join(f"w{i}0 " for i in [*range(h, n), *range(h)]))
        # each one used twice: evaluated once, formatted twice
        row("arguments used twice", "{}" * n + "".join("{%d}" % i for i in range(n)), args, up + "".join(f"w{i}1 " for i in range(n)))
    return rows


def control():
    """Argument expressions that leave, borrow or own things."""
    res = []
    for k in range(3):
        for kind, ret in [("Err(())?", "Result<String, ()>"), ("return Err(())", "Result<String, ()>")]:
            ex = ['v("p0")', 'v("p1")', 'v("p2")']
            ex[k] = "{ let x: V = " + kind + "; x }"
            for named in (False, True):
                form = '"{}{}{}", ' + ", ".join(ex) if not named else '"{b}{a}{e}", ' + ", ".join(f"{n} = {e}" for n, e in zip("abe", ex))
                logd = " ".join(f"p{i}" for i in range(k))
                res.append((f"argument {k} of {form} leaves", f'{{ fn g() -> {ret} {{ Ok(stylish::plain::format!({form})) }} c.check(g().is_err(), || "returned Ok".into()); c.eq(&taken(), "{logd}"); }}'))
        ex = ['v("p0")', 'v("p1")', 'v("p2")']
        ex[k] = 'if i == 1 { break } else { v("q") }'
        res.append((f"argument {k} breaks", '{ let mut o = String::new(); for i in 0..3 { o += &stylish::plain::format!("{}{}{}", ' + ", ".join(ex) + '); } c.eq(&o, "'
                    + "".join(("q0 " if i == k else f"p{i}0 ") for i in range(3)) + '"); c.eq(&taken(), "' + " ".join(["q" if i == k else f"p{i}" for i in range(3)] + [f"p{i}" for i in range(k)]) + '"); }'))
    B = [
        ("place expressions are not moved", 'struct S { a: V, b: [V; 2], c: Box<V> } let s = S { a: v("a"), b: [v("b"), v("e")], c: Box::new(v("c")) }; taken(); '
         'c.eq(&show(A!("{}{}{}{x}{0}", s.a, s.b[1], *s.c, x = s.b[0])), "a0 e0 c0 b0 a1 "); c.eq(&show(A!("{}{}", s.a, s.c)), "a2 c1 "); let S { a, b, .. } = s; drop((a, b));'),
        ("variables are not moved", 'let a = v("a"); let b = v("b"); taken(); c.eq(&show(A!("{}{a}{b}{x}{0}", a, x = b)), "a0 a1 b0 b1 a2 "); c.eq(&show(A!("{a}{b}")), "a3 b2 "); drop((a, b));'),
        ("captured variables are seen as they are when prepared", 'let mut n = 1; c.eq(&show(A!("{n}")), "1"); n += 1; c.eq(&show(A!("{n}{}", n)), "22"); n += 1; drop(n);'),
        ("through a mutable reference", 'let mut n = 1; { let r = &mut n; c.eq(&show(A!("{}{r}", r)), "11"); *r += 1; } c.eq(&show(A!("{n}")), "2");'),
        ("a mutable borrow ends with the statement", 'let mut w = vec![1]; c.eq(&show(A!("{:?}", w.iter_mut().map(|x| { *x += 1; *x }).collect::<Vec<_>>())), "[2]"); w.push(1); c.eq(&show(A!("{w:?}")), "[2, 1]");'),
        ("interior mutability between renderings", 'let n = Cell::new(1); match A!("{:?}", n) { a => { c.eq(&again(&a), "Cell { value: 1 }"); n.set(5); c.eq(&again(&a), "Cell { value: 5 }"); } }'),
        ("the same object at every use", 'match A!("{0:p} {x:p}", &7 as *const i32, x = &8) { a => { let f = again(&a); c.eq(&again(&a), &f); c.eq(&show(a), &f) } }'),
        ("the address of the caller's object", 'let o = V("o", Cell::new(0)); struct P<\'a>(&\'a V); struct Q; impl fmt::Display for V2 { fn fmt(&self, f: &mut fmt::Formatter<\'_>) -> fmt::Result { write!(f, "{:p}", self) } } struct V2(u8); '
         'let z = V2(1); let want = std::format!("{:p}", &z); c.eq(&show(A!("{}", z)), &want); c.eq(&show(A!("{z}")), &want); c.eq(&show(A!("{q}", q = z)), &want);'),
        ("temporaries live until the rendering is over", 'struct D(&\'static str); impl Drop for D { fn drop(&mut self) { log("drop") } } impl fmt::Display for D { fn fmt(&self, f: &mut fmt::Formatter<\'_>) -> fmt::Result { log("show"); f.write_str(self.0) } } '
         'c.eq(&show(A!("{}{0}", D("d"))), "dd"); c.eq(&taken(), "show show drop"); c.eq(&show(A!("{x}", x = &D("d"))), "d"); c.eq(&taken(), "show drop");'),
        ("unsized and borrowed", 'let s = String::from("owned"); c.eq(&show(A!("{}{}{s}{x}", *s, &s[1..], x = s.as_str())), "ownedwnedownedowned"); drop(s);'),
        ("blocks with their own statements", 'c.eq(&show(A!("{}{}", { let t = v("t"); log("in"); t }, { log("second"); 5 })), "t0 5"); c.eq(&taken(), "t in second");'),
        ("closures as arguments run once", 'let mut n = 0; c.eq(&show(A!("{0}{0}{0}", { n += 1; n })), "111"); c.check(n == 1, || "evaluated more than once".into());'),
        ("assignments to variables in arguments", 'let mut n = 0; c.eq(&show(A!("{b}{}{a}{0}", { n += 1; n }, a = { n += 10; n }, b = { n += 100; n })), "1111111");'),
        ("rendering into failing sinks does not evaluate again", 'struct F(u32); impl stylish::Write for F { fn write_str(&mut self, _: &str, _: stylish::Style) -> stylish::Result { self.0 += 1; Err(fmt::Error) } } use stylish::Write; '
         'let mut f = F(0); c.check(stylish::write!(f, "{}{}{0}", v("a"), v("b")).is_err(), || "no error".into()); c.eq(&taken(), "a b"); c.check(f.0 == 1, || std::format!("{} writes", f.0));'),
        *many(),
    ]
    res += [(n, "{ " + b + " }") for n, b in B]
    return res


EXPR_PRE = PRE + r"""
unsafe impl Sync for V {}
const K: V = V("e", Cell::new(0));
pub mod m { pub const K: super::V = super::V("e", super::Cell::new(0)); pub fn v(n: &'static str) -> super::V { super::v(n) } pub mod n { pub const K: super::super::V = super::K; } }
struct S; impl S { const K: V = V("e", Cell::new(0)); fn v(n: &'static str) -> V { v(n) } }
struct G<T>(T); impl<T> G<T> { const K: V = V("e", Cell::new(0)); }
trait T { const K: V = V("e", Cell::new(0)); const J: V; fn v(n: &'static str) -> V { v(n) } }
impl T for u8 { const J: V = V("e", Cell::new(0)); }
struct F { f: V, g: (V, u8) }
struct D(V); impl std::ops::Deref for D { type Target = V; fn deref(&self) -> &V { log("deref"); &self.0 } }
impl std::ops::Index<u8> for D { type Output = V; fn index(&self, _: u8) -> &V { log("index"); &self.0 } }
impl std::ops::Neg for D { type Output = V; fn neg(self) -> V { log("neg"); self.0 } }
impl std::ops::Not for D { type Output = V; fn not(self) -> V { log("not"); self.0 } }
impl std::ops::Add for D { type Output = V; fn add(self, _: D) -> V { log("add"); self.0 } }
impl V { fn me(self) -> V { log("me"); self } fn r(&self) -> &V { log("r"); self } }
fn dd() -> D { D(v("e")) }
macro_rules! mac { ($e:expr) => { $e }; }
macro_rules! call { ($e:expr) => { v($e) }; }
"""
# expressions, with what one evaluation logs, and what is to be in scope
EXPRS = [
    ("K", "", ""), ("m::K", "", ""), ("self::m::K", "", ""), ("crate::m::n::K", "", ""), ("S::K", "", ""), ("<S>::K", "", ""), ("G::<u8>::K", "", ""),
    ("<G<u8>>::K", "", ""), ("<u8 as T>::K", "", ""), ("<u8 as T>::J", "", ""), ("u8::J", "", ""), ("L", "", 'const L: V = V("e", Cell::new(0));'),
    ("ST", "", 'static ST: V = V("e", Cell::new(0));'), ("s::ST", "", 'mod s { pub static ST: super::V = super::V("e", super::Cell::new(0)); }'.replace("super::", "crate::")),
    ("(K)", "", ""), ("{ K }", "", ""), ("&K", "", ""), ("*&K", "", ""), ("m::n::K.r()", "r", ""), ("const { K }", "", ""), ("[K][0]", "", ""), ("(K,).0", "", ""),
    ("[K, K, K][1]", "", ""), ("mac!(K)", "", ""), ("mac!(m::K)", "", ""), ("if true { m::K } else { K }", "", ""), ("Some(K).unwrap()", "", ""),
    ('V("e", Cell::new(0))', "", ""), ('V { 0: "e", 1: Cell::new(0) }', "", ""), ('V { 0: "e", ..K }', "", ""),
    ('v("e")', "e", ""), ('m::v("e")', "e", ""), ('S::v("e")', "e", ""), ('<u8 as T>::v("e")', "e", ""), ('(v("e"))', "e", ""), ('((v("e")))', "e", ""), ('{ v("e") }', "e", ""), ('unsafe { v("e") }', "e", ""),
    ('{ log("in"); v("e") }', "in e", ""), ("'a: { break 'a v(\"e\") }", "e", ""), ('loop { break v("e") }', "e", ""), ('&v("e")', "e", ""), ('&&v("e")', "e", ""), ('&mut v("e")', "e", ""),
    ('*Box::new(v("e"))', "e", ""), ('Box::new(v("e"))', "e", ""), ('std::rc::Rc::new(v("e"))', "e", ""), ('*dd()', "e deref", ""), ('dd()[0]', "e index", ""), ('-dd()', "e neg", ""), ('!dd()', "e not", ""),
    ('dd() + dd()', "e e add", ""), ('[v("e")][0]', "e", ""), ('[v("x"), v("e")][1]', "x e", ""), ('[v("e")][{ log("i"); 0 }]', "e i", ""), ('(v("e"), 1).0', "e", ""), ('F { f: v("e"), g: (K, 1) }.f', "e", ""),
    ('F { f: K, g: (v("e"), 1) }.g.0', "e", ""), ('v("e").me()', "e me", ""), ('v("e").me().r()', "e me r", ""), ('v("e").r()', "e r", ""), ('Some(v("e")).unwrap()', "e", ""), ('vec![v("e")].pop().unwrap()', "e", ""),
    ('if { log("if"); true } { v("e") } else { v("x") }', "if e", ""), ('match { log("m"); 2 } { 1 => v("x"), _ => v("e") }', "m e", ""), ('if let Some(x) = Some(v("e")) { x } else { K }', "e", ""),
    ('(|| v("e"))()', "e", ""), ('(|x| v(x))("e")', "e", ""), ('mac!(v("e"))', "e", ""), ('call!("e")', "e", ""), ('mac![v("e")]', "e", ""), ('mac!{v("e")}', "e", ""),
    ('x', "", 'let x = V("e", Cell::new(0));'), ('(x)', "", 'let x = V("e", Cell::new(0));'), ('&x', "", 'let x = V("e", Cell::new(0));'), ('{ x }', "", 'let x = V("e", Cell::new(0));'), ('x.r()', "r", 'let x = V("e", Cell::new(0));'),
    ('x', "", 'let x = &V("e", Cell::new(0));'), ('*x', "", 'let x = &V("e", Cell::new(0));'), ('x', "", 'let y = &mut V("e", Cell::new(0)); let x = &mut *y;'), ('*x', "deref", 'let x = D(V("e", Cell::new(0)));'),
    ('x.0', "", 'let x = D(V("e", Cell::new(0)));'), ('x[1]', "index", 'let x = D(V("e", Cell::new(0)));'), ('x[0]', "", 'let x = [V("e", Cell::new(0))];'), ('x[f()]', "f", 'let x = [V("e", Cell::new(0))]; fn f() -> usize { log("f"); 0 }'),
    ('x.f', "", 'let x = F { f: K, g: (K, 1) };'), ('x.g.0', "", 'let x = F { f: V("f", Cell::new(0)), g: (K, 1) };'), ('x()', "e", 'let x = || v("e");'), ('x.take().unwrap()', "", 'let mut x = Some(K);'), ('x.next().unwrap()', "e", 'let mut x = ["e", "w"].iter().map(|n| v(n));'),
    ('x.swap()', "", 'let mut x = W(0); struct W(u8); impl W { fn swap(&mut self) -> V { self.0 += 1; V(["e", "second", "third"][self.0 as usize - 1], Cell::new(0)) } }'),
    ('{ n += 1; V(["", "e", "twice", "thrice"][n], Cell::new(0)) }', "", 'let mut n = 0;'), ('({ n += 1; n }, K).1', "", 'let mut n = 0;'),
    ('Ok::<V, ()>(v("e")).unwrap()', "e", ""), ('o.unwrap()', "", 'let o = Some(K);'), ('{ let t = v("e"); t }', "e", ""), ('{ fn i() -> V { v("e") } i() }', "e", ""), ('{ const Q: V = K; Q }', "", ""), ('if false { return } else { v("e") }', "e", ""),
    ('std::convert::identity(K)', "", ""), ('std::mem::take(&mut o).unwrap()', "", "let mut o = Some(K);"), ('std::cell::RefCell::new(v("e")).into_inner()', "e", ""),
]


def expressions(others):
    """Every kind of argument expression, used one to four times, alone and
    beside another, given by position and by name."""
    res = []
    shows = lambda n, specs, k0: "".join(f"{n}{k0 + k}{s} " for k, s in enumerate(specs))

    def add(f, a, lets, logd, text1, text2):
        twice = f'match A!({gen.s(f)}, {a}) {{ a => {{ c.eq(&taken(), "{logd}"); c.eq(&again(&a), "{text1}"); c.eq(&again(&a), "{text2}"); c.eq(&taken(), ""); }} }}'
        once = f'c.eq(&stylish::plain::format!({gen.s(f)}, {a}), "{text1}"); c.eq(&taken(), "{logd}");'
        for kind, body in (("prepared", twice), ("formatted", once)):
            res.append((f"{f} with {a} and {lets!r}, {kind}", f'(|c: &mut Ctx| {{ {lets} {body} }})(c); taken();'))

    uses = [[""], ["", ""], ["", "?"], ["s", "", "x", "?"], ["", "", "s"]]
    for e, logd, lets in EXPRS:
        # smart pointers lack some traits
        sets = [[""], ["", "?"], ["?", ""]] if e.startswith(("Box", "std::rc", "&mut")) or e == "x" and "&mut" in lets else uses
        for specs in sets:
            k = len(specs)
            ts = [shows("e", specs, 0), shows("e", specs, k)]
            pl = lambda n: "".join("{%s%s}" % (n, ":" + s if s else "") for s in specs)
            add(pl(0), e, lets, logd, *ts)
            add("{%s}" % (":" + specs[0] if specs[0] else "") + "".join("{0%s}" % (":" + s if s else "") for s in specs[1:]), e, lets, logd, *ts)
            add(pl("q"), "q = " + e, lets, logd, *ts)
        if others:
            for f in ["{0}{1}{0}{1}", "{1}{0}{0}{1}", "{}{q}{0}{q}"]:
                two = ("q = " if "q" in f else "") + 'v("o")'
                one = "e0 o0 e1 o1 " if f[1] != "1" else "o0 e0 e1 o1 "
                again = one.replace("1", "3").replace("0", "2")
                add(f, f"{e}, {two}", lets, (logd + " o").strip(), one, again)
                if "q" not in f:
                    add(f, f'v("o"), {e}', lets, ("o " + logd).strip(), one.translate(str.maketrans("eo", "oe")), again.translate(str.maketrans("eo", "oe")))
    return res


CAP_PRE = PRE + r"""
/// Like V, and says when it goes.
pub struct W(&'static str, Cell<u32>);
fn w(name: &'static str) -> W { log(name); W(name, Cell::new(0)) }
impl Drop for W { fn drop(&mut self) { log(&std::format!("-{}", self.0)); } }
impl W { fn show(&self, f: &mut fmt::Formatter<'_>, k: &str) -> fmt::Result { let n = self.1.get(); self.1.set(n + 1); write!(f, "{}{}{} ", self.0, n, k) } }
impl fmt::Display for W { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { self.show(f, "") } }
impl fmt::Debug for W { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { self.show(f, "?") } }
impl stylish::Display for W { fn fmt(&self, f: &mut stylish::Formatter<'_>) -> stylish::Result {
    let n = self.1.get(); self.1.set(n + 1); f.write_str(self.0)?; f.write_fmt(A!("{}s ", n)) } }
const K: W = W("K", Cell::new(0));
const K2: W = W("K2", Cell::new(0));
fn sorted(x: String) -> String { let mut v: Vec<&str> = x.split(' ').filter(|w| !w.is_empty()).collect(); v.sort(); v.join(" ") }
"""


def asynchronous():
    """Arguments that wait: by hand, at every argument, for 0 to 2 turns."""
    pre = ('async fn e(n: &\'static str, turns: u32) -> V { let mut k = turns; std::future::poll_fn(move |_| if k == 0 { std::task::Poll::Ready(()) } else { k -= 1; log("wait"); std::task::Poll::Pending }).await; v(n) } '
           'fn run<T>(f: impl std::future::Future<Output = T>) -> (T, u32) { let mut f = std::pin::pin!(f); let mut cx = std::task::Context::from_waker(std::task::Waker::noop()); let mut n = 0; '
           'loop { n += 1; if let std::task::Poll::Ready(x) = f.as_mut().poll(&mut cx) { return (x, n) } } } ')
    res = []
    for turns in itertools.product(range(3), repeat=3):
        log = " ".join(" ".join(["wait"] * t + [f"p{i}"]) for i, t in enumerate(turns))
        ex = [f'e("p{i}", {t}).await' for i, t in enumerate(turns)]
        for form, names in (("{}{}{}", ["", "", ""]), ("{2}{0}{1}", ["", "", ""]), ("{b}{}{a}", ["", "a = ", "b = "])):
            order = {"{}{}{}": [0, 1, 2], "{2}{0}{1}": [2, 0, 1], "{b}{}{a}": [2, 0, 1]}[form]
            want = "".join(f"p{i}0 " for i in order)
            args = ", ".join(n + x for n, x in zip(names, ex))
            for call, get in (("stylish::plain::format!(", ""), ("show(A!(", ")")):
                res.append((f"{form} of arguments that wait {turns}", "{ " + pre + f'let (s, n) = run(async {{ {call}"{form}", {args}){get} }}); c.eq(&s, "{want}"); c.eq(&taken(), "{log}"); c.check(n == {sum(turns) + 1}, || std::format!("{{n}} turns")); }}'))
    # a future that formats can be sent to another thread, as with std
    res.append(("such futures can be sent", '{ fn sent<T: Send>(t: T) -> T { t } async fn one() -> u8 { 1 } async fn sink(s: String) { drop(s) } '
                'let _ = sent(async { let s = std::format!("{}{x}", one().await, x = one().await); sink(s).await; }); '
                'let _ = sent(async { let s = stylish::plain::format!("{}{x}{:(bold)}", one().await, 2, x = one().await); sink(s).await; }); '
                'let _ = sent(async { sink(stylish::html::format!("{}{x}", one().await, x = one().await)).await; }); }'))
    return res


def captures(maxlen):
    """Names that are captured, also of constants (each use of a constant
    makes a value of its own, but its name in a format string is one argument,
    as in std), beside positional and named arguments."""
    res = []
    specs = ["", "?", "s"]
    letters = [None, 0, "K", "K2", "x", "m"]
    for size in range(1, maxlen + 1):
        for i, args in enumerate(itertools.product(letters, repeat=size)):
            npos = 1 if None in args or 0 in args else 0
            if args.count(None) > npos:
                continue
            named = ["m"] if "m" in args else []
            refs = [(a, specs[(i + j) % 3]) for j, a in enumerate(args)]
            seq = [(0 if a is None else a, sp) for a, sp in refs]

            def texts(n, lasting=()):
                count, out = {}, []
                for k in range(n):
                    t = ""
                    for a, sp in seq:
                        v = count.get(a, 0)
                        count[a] = v + 1
                        t += f"{'p' if a == 0 else ''}{a}{v}{sp} "
                    out.append(t)
                    count = {a: v for a, v in count.items() if not lasting or a in lasting}
                return [gen.s(t) for t in out]
            a = gen.s(fstr(refs)) + (', w("p0")' if npos else "") + (', m = w("m")' if named else "")
            made = (["p0"] if npos else []) + named
            gone = ['-' + n for n in made + [k for k in ("K", "K2") if k in args]]
            logd, drops = " ".join(made), " ".join(sorted(gone))
            both = " ".join(sorted(gone + made))
            p, q = texts(2), texts(4, ("x",))
            res.append((f"format_args!({a}) with constants K and K2 and a variable x",
                        '{ let x = W("x", Cell::new(0)); '
                        f'match A!({a}) {{ a => {{ c.eq(&taken(), "{logd}"); c.eq(&again(&a), {p[0]}); c.eq(&again(&a), {p[1]}); c.eq(&taken(), ""); }} }} c.eq(&sorted(taken()), "{drops}"); std::mem::forget(x); }} '
                        '{ let x = W("x", Cell::new(0)); '
                        f'c.eq(&stylish::plain::format!({a}), {q[0]}); c.eq(&sorted(taken()), "{both}"); '
                        f'{{ A!({a}); }} c.eq(&sorted(taken()), "{both}"); '
                        f'c.eq(&stylish::plain::format!("{{:s}}", stylish::format!({a})), {q[1]}); c.eq(&sorted(taken()), "{both}"); '
                        f'c.eq(&show(A!({a})), {q[2]}); c.eq(&sorted(taken()), "{both}"); std::mem::forget(x); }}'))
    return res


SAME = [("K", 0, False), ("K2", 0, False), ("m::K", 0, False), ('w("e")', 1, False), ("x", 0, True), ("&x", 0, True), ("(K)", 0, False), ("{ K }", 0, False), ("q!(K)", 0, False), ("<S>::K", 0, False)]


def same(maxlen):
    """Lists in which one expression is given several times: each is evaluated
    for itself; a variable is one object all the same."""
    res = []
    for size in range(2, maxlen + 1):
        for idx in itertools.product(range(len(SAME)), repeat=size):
            if len(set(idx)) == size and size > 2:
                continue
            for nn in {0, 1, size}:
                for order, f in ((range(size), "in order"), (reversed(range(size)), "reversed")):
                    order = list(order)
                    if f == "in order" and nn == 0 and size < 4:
                        fs = "{}" * size + "".join("{%d}" % k for k in order)
                    else:
                        fs = "".join("{%s}" % (k if k < size - nn else "n%d" % (k - size + nn)) for k in order * 2)
                    count, text = {}, ""
                    for k in (order if not fs.startswith("{}") else list(range(size))) + order:
                        e, logs, one = SAME[idx[k]]
                        obj = "x" if one else k
                        n = count.get(obj, 0)
                        count[obj] = n + 1
                        name = {'w("e")': "e", "x": "x", "&x": "x", "K2": "K2"}.get(e, "K")
                        text += f"{name}{n} "
                    a = gen.s(fs) + "".join(", " + (SAME[i][0] if k < size - nn else f"n{k - size + nn} = {SAME[i][0]}") for k, i in enumerate(idx))
                    names = sorted(["e" for i in idx if SAME[i][1]] + ["-" + {'w("e")': "e", "K2": "K2"}.get(SAME[i][0], "K") for i in idx if not SAME[i][2]])
                    res.append((f"format_args!({a})", '{ let x = W("x", Cell::new(0)); '
                                f'c.eq(&stylish::plain::format!({a}), "{text}"); c.eq(&sorted(taken()), "{" ".join(names)}"); std::mem::forget(x); }}'))
    return res


SAME_PRE = CAP_PRE + r"""
mod m { pub const K: super::W = super::K; }
struct S; impl S { const K: W = K; }
macro_rules! q { ($e:expr) => { $e }; }
"""


def run():
    quick = common.TIER == "quick"
    r = gen.Result("C16", "states: distinct format strings with argument lists; transitions: observations compared (evaluation "
                   "logs and rendered texts that show which object each use sees, and how often it was used before); traces: the same",
                   [])
    c = cases(4 if quick else 5, 3, SPECS)
    if not quick:
        c += cases(6, 2, SPECS[:3], 1)
    r.run("all usage patterns", PRE, c)
    r.run("kinds of argument expressions", EXPR_PRE, expressions(True), group=10)
    r.run("one expression given several times", SAME_PRE, same(3 if quick else 4))
    r.run("captured names", CAP_PRE, captures(4 if quick else 5))
    r.run("every macro and destination", PRE, outputs())
    r.run("leaving, borrowing and owning arguments", PRE, control() + asynchronous())
    return r.res
