//! C27: a displayed value that fails or panics part-way leaves the writer
//! with what was displayed so far, and usable.
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Arc;

use mc::prog::{self, Cells, Node, Rec, FAIL_PANICS};
use mc::report::{guard, Check, Local, Violation};
use mc::space;
use stylish::Display;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Mode { Error, Panic }

enum Out { Ansi(Vec<u8>), Html(Vec<u8>), Plain(Vec<u8>), Cells(Cells) }

/// The bytes of the same characters written one after the other.
fn plainly(out: &Out, want: &Cells) -> Option<Vec<u8>> {
    use stylish::Write;
    let mut b = [0; 4];
    macro_rules! go { ($w:expr, $end:ident) => {{
        let mut w = $w;
        for c in want { w.write_str(c.0.encode_utf8(&mut b), c.1).unwrap() }
        Some(w.$end().unwrap().into_bytes())
    }} }
    match out {
        Out::Ansi(_) => go!(stylish::Ansi::new(String::new()), finish),
        Out::Html(_) => go!(stylish::Html::new(String::new()), finish),
        Out::Plain(_) | Out::Cells(_) => None,
    }
}

/// How a part ended.
#[derive(Clone, Copy, PartialEq, Debug)]
enum End { Fine, Failed, Panicked }

fn ended<E>(r: std::thread::Result<Result<(), E>>) -> End {
    match r { Ok(Ok(())) => End::Fine, Ok(Err(_)) => End::Failed, Err(_) => End::Panicked }
}

struct Shown<'a>(&'a dyn Display);
impl Display for Shown<'_> {
    fn fmt(&self, f: &mut stylish::Formatter<'_>) -> stylish::Result { self.0.fmt(f) }
}

type Run = fn(&[&dyn Display], usize) -> (Vec<End>, Out);

macro_rules! runs {
    ($($name:literal, $tr:path, $make:expr, |$w:ident| $end:expr;)*) => {
        const RUNS: &[(&str, Run)] = &[$( ($name, |parts, way| {
            use $tr as Tr;
            #[allow(unused_imports)] use $tr as _;
            let mut w = $make;
            let mut ends = Vec::new();
            for (i, n) in parts.iter().enumerate() {
                ends.push(ended(catch_unwind(AssertUnwindSafe(|| match (i + way) % 4 {
                    // the writer's own method where it has one
                    3 => stylish::write!(w, "{:s}", n),
                    0 => Tr::write_fmt(&mut w, stylish::format_args!("{:s}", n)),
                    1 => { let d: &mut dyn Tr = &mut w; stylish::write!(d, "{:s}", Shown(n)) }
                    _ => { let mut r = &mut w; let r = &mut r; Tr::write_fmt(r, stylish::format_args!("{n:s}")) }
                }))));
            }
            let $w = w;
            (ends, $end)
        }) ),*];
    };
}
runs! {
    "Ansi", stylish::Write, stylish::Ansi::new(String::new()), |w| Out::Ansi(w.finish().unwrap().into_bytes());
    "Html", stylish::Write, stylish::Html::new(String::new()), |w| Out::Html(w.finish().unwrap().into_bytes());
    "Plain", stylish::Write, stylish::Plain::new(String::new()), |w| Out::Plain(w.into_inner().into_bytes());
    "io::Ansi", stylish::io::Write, stylish::io::Ansi::new(Vec::new()), |w| Out::Ansi(w.finish().unwrap());
    "io::Plain", stylish::io::Write, stylish::io::Plain::new(Vec::new()), |w| Out::Plain(w.into_inner());
    "String", stylish::Write, stylish::String::new(), |w| Out::Cells(cells(&w));
    "a writer of its own", stylish::Write, Rec::default(), |w| Out::Cells(w.cells);
    "a formatter", stylish::Write, Nested(Rec::default()), |w| Out::Cells(w.0.cells);
}

/// Hands everything it is given to a formatter in a context of its own.
struct Nested(Rec);
impl stylish::Write for Nested {
    fn write_str(&mut self, s: &str, style: stylish::Style) -> stylish::Result { stylish::Write::write_str(&mut self.0, s, style) }
    fn write_fmt(&mut self, args: stylish::Arguments<'_>) -> stylish::Result {
        let w: &mut dyn stylish::Write = &mut self.0;
        stylish::write!(w, "{:s}", stylish::format_args!("{:s}", args))
    }
}

fn cells(s: &stylish::String) -> Cells {
    let mut r = Rec::default();
    let w: &mut dyn stylish::Write = &mut r;
    stylish::write!(w, "{:s}", s).unwrap();
    r.cells
}

fn right(out: &Out, want: &Cells) -> Result<(), String> {
    let text = |b: &[u8]| String::from_utf8_lossy(b).into_owned();
    if let (Some(p), Out::Ansi(b) | Out::Html(b)) = (plainly(out, want), out) {
        if p != *b { return Err(format!("holds {:?}, which is not what writing the same characters gives ({:?}),", text(b), text(&p))) }
    }
    match out {
        Out::Cells(c) => if c == want { Ok(()) } else { Err(format!("holds {}", prog::show_cells(c))) },
        Out::Plain(b) => if text(b).chars().eq(want.iter().map(|c| c.0)) { Ok(()) } else { Err(format!("holds {:?}", text(b))) },
        Out::Ansi(b) => {
            for exclusive in [false, true] {
                let mut shown = Vec::new();
                let mut vt = mc::vt::Vt::new(exclusive);
                vt.feed(b, &mut shown).map_err(|e| format!("holds {:?}: {e}", text(b)))?;
                if !vt.settled() || vt.now != mc::vt::PLAIN || !shown.iter().map(|x| (x.0, x.1)).eq(want.iter().map(|c| (c.0, mc::vt::rendition(c.1)))) {
                    return Err(format!("holds {:?}", text(b)));
                }
            }
            Ok(())
        }
        Out::Html(b) => {
            let mut doc = mc::html::Doc::new();
            let mut shown = Vec::new();
            doc.feed(b, &mut shown).map_err(|e| format!("holds {:?}: {e}", text(b)))?;
            if doc.settled() && doc.open.is_none() && shown.len() == want.len()
                && shown.iter().zip(want).all(|(x, c)| x.0 == c.0 && x.1 == mc::html::expect(c.1)) { Ok(()) }
            else { Err(format!("holds {:?}", text(b))) }
        }
    }
}

fn judge(parts: &[&Node], mode: Mode, l: &mut Local) -> Result<(), Violation> {
    let mut want = Cells::new();
    let ends: Vec<End> = parts.iter().map(|n| end_of(n.denote(space::style(0), &mut want), mode)).collect();
    let show = || parts.iter().map(|n| format!(" display {};", n.show())).collect::<String>();
    let parts: Vec<&dyn Display> = parts.iter().map(|n| *n as &dyn Display).collect();
    verdict(&parts, &show, mode, &ends, &want, l)
}

fn end_of(ok: bool, mode: Mode) -> End {
    match (ok, mode) {
        (true, _) => End::Fine,
        (false, Mode::Error) => End::Failed,
        (false, Mode::Panic) => End::Panicked,
    }
}

fn verdict(parts: &[&dyn Display], show: &dyn Fn() -> String, mode: Mode, ends: &[End], want: &Cells, l: &mut Local) -> Result<(), Violation> {
    for (name, run) in RUNS { for way in 0..4 {
        l.evaluations += 1;
        if ends.iter().any(|e| *e != End::Fine) { l.nontrivial += 1 }
        let d = || format!("{name} (calls from {way}), failing values {}:{}", if mode == Mode::Panic { "panic" } else { "return an error" }, show());
        FAIL_PANICS.with(|p| p.set(mode == Mode::Panic));
        let r = guard(&d, || run(parts, way));
        FAIL_PANICS.with(|p| p.set(false));
        let (got, out) = r?;
        if got != ends { return Err(Violation::new(format!("the displays end as {got:?} instead of {ends:?}"), d())) }
        right(&out, want).map_err(|e| Violation::new(format!("{e} instead of {}", prog::show_cells(want)), d()))?;
    } }
    Ok(())
}

/// A standard value that fails (or panics) in its `at`th write of `of`.
#[derive(Clone, Copy)]
struct Std { at: usize, of: usize }
impl Std {
    fn go(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        let fail = || if FAIL_PANICS.with(|p| p.get()) { panic!("standard value panics") } else { Err(std::fmt::Error) };
        for i in 0..self.of {
            if i == self.at { return fail() }
            match i % 4 {
                0 => f.write_str("s<")?,
                1 => std::fmt::Write::write_char(f, 'ç')?,
                2 => f.write_fmt(format_args!("{}{:>3}", 1, 2))?,
                _ => f.pad("p")?,
            }
        }
        if self.at == self.of { fail() } else { Ok(()) }
    }
}
macro_rules! std_traits { ($($t:ident)*) => { $( impl std::fmt::$t for Std { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { self.go(f) } } )* } }
std_traits!(Display Debug LowerHex Pointer UpperExp);

/// A value displayed by a format string around it, and what that shows.
struct Around { f: Box<dyn Fn(&mut stylish::Formatter<'_>) -> stylish::Result + Sync>, want: Cells, ok: bool }
impl Display for Around { fn fmt(&self, f: &mut stylish::Formatter<'_>) -> stylish::Result { (self.f)(f) } }

fn arounds(v: Std) -> Vec<(&'static str, Around)> {
    let mut all = Vec::new();
    // (the same for std without attributes and what follows, what follows)
    macro_rules! t { ($($lit:literal, $pre:literal, $std:literal, $post:literal, $style:expr;)*) => { $( {
        let mut text = String::new();
        let ok = { use std::fmt::Write; text.write_fmt(format_args!($std, v)).is_ok() };
        let mut want: Cells = $pre.chars().map(|c| (c, space::style(0))).collect();
        want.extend(text.chars().map(|c| (c, $style)));
        if ok { want.extend($post.chars().map(|c| (c, space::style(0)))) }
        all.push(($lit, Around { f: Box::new(move |f| stylish::write!(f, $lit, v)), want, ok }));
    } )* } }
    use stylish::{Color::*, Intensity::*};
    let mk = space::mk;
    t! {
        "{}", "", "{}", "", space::style(0);
        "a{:(fg=red)}b", "a", "{}", "b", mk(Red, Default, Normal);
        "a{:>9(bold)?}b", "a", "{:>9?}", "b", mk(Default, Default, Bold);
        "a{:+#012.3(bg=blue,faint)x}b\n", "a", "{:+#012.3x}", "b\n", mk(Default, Blue, Faint);
        "{:#(bold)?}{{", "", "{:#?}", "{", mk(Default, Default, Bold);
        "{:^4p}.", "", "{:^4p}", ".", space::style(0);
        "{:(fg=green,bg=green)E}.", "", "{:E}", ".", mk(Green, Green, Normal);
    }
    all
}

fn main() {
    let c = Check::start("C27", "fault_enumeration");
    let x = Node::Text("x");
    let styled = Node::With(2, Arc::new(Node::Text("y")));
    let other = Node::Styled(2, "z<");
    let mac = Node::Mac(6, Arc::new(Node::Text("w")));
    let again = Node::With(0, Arc::new(Node::Seq(Arc::new(Node::Text("v")), Arc::new(Node::Fail))));
    let after: Vec<Vec<&Node>> = vec![
        vec![], vec![&x], vec![&styled], vec![&other], vec![&mac], vec![&again],
        vec![&styled, &x], vec![&again, &other], vec![&again, &again, &x], vec![&x, &again, &styled],
    ];
    let before: Vec<Vec<&Node>> = vec![vec![], vec![&other], vec![&styled, &x]];
    let go = |short: bool| {
        let (before, after) = (&before, &after);
        move |n: &Node, l: &mut Local| {
            if n.denote(space::style(0), &mut Cells::new()) { return Ok(()) }
            l.states += 1;
            for b in &before[..if short { 1 } else { before.len() }] {
                for a in &after[..if short { 4 } else { after.len() }] {
                    let parts: Vec<&Node> = b.iter().copied().chain([n]).chain(a.iter().copied()).collect();
                    for mode in [Mode::Error, Mode::Panic] {
                        l.transitions += 1;
                        judge(&parts, mode, l)?;
                    }
                }
            }
            if l.states == 33 { l.sample(|| n.show()) }
            Ok(())
        }
    };
    prog::full(true, false).programs(&c, "failing values, full alphabet", 3, go(false));
    if c.pick(0, 1) == 1 { prog::full(true, false).programs(&c, "failing values of size 4, full alphabet", 4, go(true)) }
    prog::small(true, false).programs(&c, "failing values, small alphabet", c.pick(4, 5), go(false));
    prog::small(true, false).programs(&c, "larger failing values, small alphabet", c.pick(5, 6), go(true));
    prog::specs(&c, "failing values", 40, true, go(true));
    let sizes = c.pick(14, 40);
    let mut cases = Vec::new();
    for of in 0..sizes { for at in 0..=of + 1 { cases.push(Std { at, of }) } }
    c.par("standard values failing at each of their writes", cases.len(), |i, l| {
        for (lit, v) in arounds(cases[i]) {
            for mode in [Mode::Error, Mode::Panic] {
                let mut want = v.want.clone();
                styled.denote(space::style(0), &mut want);
                want.extend(v.want.iter().copied());
                x.denote(space::style(0), &mut want);
                let e = end_of(v.ok, mode);
                let show = || format!(" display {lit:?} with a standard value failing at write {} of {}; {}; the first again; {}", cases[i].at, cases[i].of, styled.show(), x.show());
                verdict(&[&v, &styled, &v, &x], &show, mode, &[e, End::Fine, e, End::Fine], &want, l)?;
                l.transitions += 1;
                if i == 9 { l.sample(show) }
            }
        }
        l.states += 1;
        Ok(())
    });
    // many failures one after the other, deep and wide ones
    let fail = Arc::new(Node::Fail);
    let leaves = prog::full(false, false).leaves;
    let depths = space::lengths(c.pick(40, 120), c.pick(512, 2048));
    c.par("failures below deep values", depths.len(), |i, l| {
        for k0 in 0..4usize {
            let mut n = fail.clone();
            for k in 0..depths[i] {
                n = Arc::new(match (k + k0) % 4 { 0 => Node::With((k + k0) % prog::N_WITH, n), 1 => Node::Mac(2, n), 2 => Node::Seq(leaves[k % leaves.len()].clone(), n), _ => Node::Mac(12, n) });
            }
            for mode in [Mode::Error, Mode::Panic] {
                judge(&[&x, &n, &styled], mode, l)?;
                judge(&[&n, &n, &other], mode, l)?;
            }
            l.states += 1;
        }
        Ok(())
    });
    c.par("failures after wide values, many times", depths.len(), |i, l| {
        let mut v: Vec<Arc<Node>> = (0..depths[i]).map(|k| leaves[(k * 5 + i) % leaves.len()].clone()).collect();
        v.push(fail.clone());
        let n = Node::Many(v);
        for mode in [Mode::Error, Mode::Panic] {
            judge(&[&n, &other, &n], mode, l)?;
            let many: Vec<&Node> = (0..depths[i].min(200)).map(|k| [&again, &styled, &fail, &other, &x][k % 5]).collect();
            judge(&many, mode, l)?;
        }
        l.states += 1;
        Ok(())
    });
    c.finish(
        "states: failing values; transitions: histories of displays with such a value in them, with the failure an error or a caught panic; evaluations: histories run on a writer, each judged by a terminal model, an HTML reader or the characters recorded; nontrivial: histories with a failure in them",
        &["alphabets of programs are those of mc/src/prog.rs", "the sink itself does not fail (C18 to C20)"],
    )
}
