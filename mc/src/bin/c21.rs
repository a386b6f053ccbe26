//! C21: writers behave identically through references and adaptors.
use std::cell::RefCell;
use std::fmt;
use std::io::{self, ErrorKind};

use mc::choice::{self, choose};
use mc::fault::Mark;
use mc::report::{guard, Check, Local, Violation};
use mc::space;
use stylish::{Display, Formatter, Style};

thread_local! { static TRACE: RefCell<Vec<String>> = const { RefCell::new(Vec::new()) } }
fn trace(s: String) { TRACE.with(|t| t.borrow_mut().push(s)) }
fn take() -> Vec<String> { TRACE.with(|t| std::mem::take(&mut *t.borrow_mut())) }

fn text(args: stylish::Arguments<'_>) -> String {
    #[derive(Default)]
    struct R(String);
    impl stylish::Write for R {
        fn write_str(&mut self, s: &str, st: Style) -> stylish::Result {
            self.0 += &format!("[{}]{s:?}", space::show(st));
            Ok(())
        }
    }
    let mut r = R::default();
    let e = stylish::Write::write_fmt(&mut r, args);
    format!("{} {e:?}", r.0)
}

/// What an instrumented operation returns.
fn io_result(n: usize, what: &str) -> io::Result<usize> {
    let kinds = [ErrorKind::Interrupted, ErrorKind::WouldBlock, ErrorKind::Other];
    let c = choose(5);
    trace(format!("{what} -> {c}"));
    match c {
        0 => Ok(n),
        1 => Ok(n / 2),
        k => Err(io::Error::new(kinds[k as usize - 2], Mark(k as u32))),
    }
}

/// A writer that overrides everything and records it.
#[derive(Default)]
struct Every;
impl stylish::io::Write for Every {
    fn write(&mut self, b: &[u8], s: Style) -> io::Result<usize> { io_result(b.len(), &format!("write {b:?} {}", space::show(s))) }
    fn flush(&mut self) -> io::Result<()> { io_result(0, "flush").map(|_| ()) }
    fn write_all(&mut self, b: &[u8], s: Style) -> io::Result<()> { io_result(0, &format!("write_all {b:?} {}", space::show(s))).map(|_| ()) }
    fn write_fmt(&mut self, a: stylish::Arguments<'_>) -> io::Result<()> { io_result(0, &format!("write_fmt {}", text(a))).map(|_| ()) }
}
impl stylish::Write for Every {
    fn write_str(&mut self, b: &str, s: Style) -> fmt::Result { io_result(0, &format!("write_str {b:?} {}", space::show(s))).map(|_| ()).map_err(|_| fmt::Error) }
    fn write_char(&mut self, b: char, s: Style) -> fmt::Result { io_result(0, &format!("write_char {b:?} {}", space::show(s))).map(|_| ()).map_err(|_| fmt::Error) }
    fn write_fmt(&mut self, a: stylish::Arguments<'_>) -> fmt::Result { io_result(0, &format!("write_fmt {}", text(a))).map(|_| ()).map_err(|_| fmt::Error) }
}

/// A writer with only the required operations.
#[derive(Default)]
struct Least;
impl stylish::io::Write for Least {
    fn write(&mut self, b: &[u8], s: Style) -> io::Result<usize> { io_result(b.len(), &format!("write {b:?} {}", space::show(s))) }
    fn flush(&mut self) -> io::Result<()> { io_result(0, "flush").map(|_| ()) }
}
impl stylish::Write for Least {
    fn write_str(&mut self, b: &str, s: Style) -> fmt::Result { io_result(0, &format!("write_str {b:?} {}", space::show(s))).map(|_| ()).map_err(|_| fmt::Error) }
}

/// An instrumented sink.
#[derive(Default)]
struct Sink;
impl io::Write for Sink {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> { io_result(b.len(), &format!("write {b:?}")) }
    fn flush(&mut self) -> io::Result<()> { io_result(0, "flush").map(|_| ()) }
}
impl fmt::Write for Sink {
    fn write_str(&mut self, b: &str) -> fmt::Result { io_result(0, &format!("write_str {b:?}")).map(|_| ()).map_err(|_| fmt::Error) }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op { Write(usize), All(usize), Fmt, Ln, Flush, Empty, Char(usize) }
const IO_OPS: [Op; 8] = [Op::Write(0), Op::Write(4), Op::All(1), Op::All(4), Op::Fmt, Op::Ln, Op::Flush, Op::Empty];
const FMT_OPS: [Op; 8] = [Op::Write(0), Op::Write(4), Op::All(1), Op::Char(0), Op::Char(4), Op::Fmt, Op::Ln, Op::Empty];

struct Val;
impl Display for Val {
    fn fmt(&self, f: &mut Formatter<'_>) -> stylish::Result {
        f.write_str("v")?;
        stylish::write!(f, "{:>3(bold)}", 'é')
    }
}

fn res<T: fmt::Debug>(r: io::Result<T>) -> String {
    match r {
        Ok(v) => format!("Ok({v:?})"),
        Err(e) => format!("Err({:?}, {:?})", e.kind(), e.get_ref().and_then(|x| x.downcast_ref::<Mark>())),
    }
}

fn io_op<W: stylish::io::Write + ?Sized>(w: &mut W, op: Op) -> String {
    let b = space::basis();
    match op {
        Op::Write(s) => res(w.write("xéz".as_bytes(), b[s])),
        Op::All(s) => res(w.write_all(b"pq", b[s])),
        Op::Empty => res(w.write(b"", b[1])) + &res(w.write_all(b"", b[2])),
        Op::Fmt => res(stylish::write!(w, "a{:(fg=red)s}", Val)),
        Op::Ln => res(stylish::writeln!(w, "{:?}", "k")),
        Op::Flush => res(w.flush()),
        Op::Char(_) => unreachable!(),
    }
}

fn fmt_op<W: stylish::Write + ?Sized>(w: &mut W, op: Op) -> String {
    let b = space::basis();
    match op {
        Op::Write(s) | Op::All(s) => format!("{:?}", w.write_str("xé<", b[s])),
        Op::Char(s) => format!("{:?}", w.write_char('é', b[s])),
        Op::Empty => format!("{:?}", w.write_str("", b[1])),
        Op::Fmt => format!("{:?}", stylish::write!(w, "a{:(fg=red)s}", Val)),
        Op::Ln => format!("{:?}", stylish::writeln!(w, "{:?}", "k")),
        Op::Flush => unreachable!(),
    }
}

const IO_PATHS: [&str; 9] = ["directly", "&mut W", "&mut &mut W", "&mut &mut &mut W", "&mut dyn Write", "&mut &mut dyn Write", "by_ref", "by_ref of a reference", "by value as &mut W"];
fn io_via<W: stylish::io::Write>(w: &mut W, path: usize, op: Op) -> String {
    fn by_value<V: stylish::io::Write>(mut v: V, op: Op) -> String { io_op(&mut v, op) }
    match path {
        0 => io_op(w, op),
        1 => io_op::<&mut W>(&mut &mut *w, op),
        2 => io_op::<&mut &mut W>(&mut &mut &mut *w, op),
        3 => io_op::<&mut &mut &mut W>(&mut &mut &mut &mut *w, op),
        4 => { let d: &mut dyn stylish::io::Write = w; io_op(d, op) }
        5 => { let mut d: &mut dyn stylish::io::Write = w; let e: &mut dyn stylish::io::Write = &mut d; io_op(e, op) }
        6 => { let mut r = stylish::io::Write::by_ref(w); io_op(&mut r, op) }
        7 => { let mut r = &mut *w; let q = stylish::io::Write::by_ref(&mut r); io_op(q, op) }
        _ => by_value(w, op),
    }
}

const FMT_PATHS: [&str; 7] = ["directly", "&mut W", "&mut &mut W", "&mut &mut &mut W", "&mut dyn Write", "&mut &mut dyn Write", "by value as &mut W"];
fn fmt_via<W: stylish::Write>(w: &mut W, path: usize, op: Op) -> String {
    fn by_value<V: stylish::Write>(mut v: V, op: Op) -> String { fmt_op(&mut v, op) }
    match path {
        0 => fmt_op(w, op),
        1 => fmt_op::<&mut W>(&mut &mut *w, op),
        2 => fmt_op::<&mut &mut W>(&mut &mut &mut *w, op),
        3 => fmt_op::<&mut &mut &mut W>(&mut &mut &mut &mut *w, op),
        4 => { let d: &mut dyn stylish::Write = w; fmt_op(d, op) }
        5 => { let mut d: &mut dyn stylish::Write = w; let e: &mut dyn stylish::Write = &mut d; fmt_op(e, op) }
        _ => by_value(w, op),
    }
}

/// Runs all histories; every operation takes every path, the sink does
/// anything in up to `bound` of its calls.
fn all<W>(c: &Check, name: &str, make: impl Fn() -> W + Sync, ops: &[Op], paths: &[&str], depth: usize, bound: usize,
          via: impl Fn(&mut W, usize, Op) -> String + Sync, end: impl Fn(W) -> String + Sync) {
    let n = ops.len();
    c.par(&format!("{name}: all histories to depth {depth}, any answer to {bound} calls"), n * n, |t, l| {
        mc::fault::seqs(t / n, n, depth, &mut |v| {
            if v.len() == 1 { if t % n != 0 { return Ok(()) } } else if v[1] != t % n { return Ok(()) }
            let h: Vec<Op> = v.iter().map(|&i| ops[i]).collect();
            let run = |plan: &dyn Fn(usize) -> usize| -> Vec<String> {
                let mut w = make();
                let mut out = Vec::new();
                for (i, &op) in h.iter().enumerate() {
                    let r = via(&mut w, plan(i), op);
                    out.push(r);
                    out.extend(take());
                }
                out.push(end(w));
                out.extend(take());
                out
            };
            let mut direct: Vec<String> = Vec::new();
            // every answer of the writer, then the same answers on every path
            let mut schedules: Vec<Vec<u16>> = Vec::new();
            let show = || format!("{name}: {h:?}");
            let r = guard(&show, || choice::explore(bound, 2000, &mut || {
                take();
                direct = run(&|_| 0);
                schedules.push(choice::current());
                Ok(())
            }))?;
            if let Err((_, e)) = r { return Err(Violation::new(e, show())) }
            for s in &schedules {
                choice_run(&show, s, &mut direct, &|| run(&|_| 0))?;
                for p in 1..=paths.len() {
                    let plan = |i: usize| if p < paths.len() { p } else { (i + 1) % paths.len() };
                    let mut got = Vec::new();
                    choice_run(&show, s, &mut got, &|| run(&plan))?;
                    l.states += 1;
                    l.transitions += h.len() as u64;
                    l.traces += 1;
                    if got != direct {
                        return Err(Violation::new(
                            format!("used through {}: {got:?}, used directly: {direct:?}", paths.get(p).unwrap_or(&"mixed references")), show()));
                    }
                }
            }
            if l.traces > 9000 { l.sample(|| format!("{name}: {h:?}: {direct:?}")) }
            Ok(())
        })
    });
}

/// Runs under a given schedule; a run that asks for more answers than the
/// schedule has gets undisturbed ones.
fn choice_run(show: &dyn Fn() -> String, s: &[u16], out: &mut Vec<String>, f: &dyn Fn() -> Vec<String>) -> Result<(), Violation> {
    guard(show, || {
        take();
        choice::run(s, 4000, || *out = f());
    })
}

fn flush(c: &Check) {
    fn one<W: stylish::io::Write>(mut w: W, pre: &[(&str, Style)], name: &str, l: &mut Local) -> Result<(), Violation> {
        let show = || format!("{name}: {pre:?} then flush");
        guard(&show, || choice::run(&[], 1000, || {
            for (t, s) in pre { w.write_all(t.as_bytes(), *s).unwrap() }
        }))?;
        for ans in [0u16, 2, 3, 4] {
            take();
            let mut r = String::new();
            guard(&show, || choice::run(&[ans], 1000, || r = res(w.flush())))?;
            let t = take();
            l.traces += 1;
            l.transitions += 1;
            let want = ["Ok(())", "", "Err(Interrupted, Some(Mark(2)))", "Err(WouldBlock, Some(Mark(3)))", "Err(Other, Some(Mark(4)))"][ans as usize];
            if t != [format!("flush -> {ans}")] || r != want {
                return Err(Violation::new(format!("flushing makes the sink see {t:?} and reports {r}, expected one flush and {want}"), show()));
            }
        }
        Ok(())
    }
    c.par("flush in every style", 867, |i, l| {
        let s = space::style(i);
        l.states += 1;
        for pre in [&[("a", s)][..], &[("", s)], &[("a", space::style(20)), ("", s)], &[("a", s), ("b\n", space::style(0))], &[("a\n", s), ("b", s)]] {
            one(stylish::io::Ansi::new(Sink), pre, "io::Ansi", l)?;
            one(stylish::io::Plain::new(Sink), pre, "io::Plain", l)?;
            let mut a = stylish::io::Ansi::new(Sink);
            one(&mut a, pre, "&mut io::Ansi", l)?;
            let mut a = stylish::io::Plain::new(Sink);
            let d: &mut dyn stylish::io::Write = &mut a;
            one(d, pre, "&mut dyn io::Plain", l)?;
        }
        Ok(())
    });
}

/// A flush, whatever it reports, changes nothing about later output.
fn flush_then(c: &Check) {
    fn run<W: stylish::io::Write>(w: &mut W, ops: &[(&str, Style)], flushes: &[usize], ans: &[u16]) -> String {
        let mut got = String::new();
        for (i, (t, s)) in ops.iter().enumerate() {
            for _ in flushes.iter().filter(|f| **f == i) {
                choice::run(ans, 1000, || { let _ = w.flush(); });
            }
            choice::run(&[], 1000, || got += &format!("{:?} ", w.write_all(t.as_bytes(), *s).is_ok()));
        }
        for _ in flushes.iter().filter(|f| **f == ops.len()) {
            choice::run(ans, 1000, || { let _ = w.flush(); });
        }
        got
    }
    fn both(ops: &[(&str, Style)], flushes: &[usize], ans: u16, dynamic: bool) -> [(&'static str, Vec<String>, String); 2] {
        take();
        let mut a = stylish::io::Ansi::new(Sink);
        let ra = if dynamic { let mut d: &mut dyn stylish::io::Write = &mut a; run(&mut d, ops, flushes, &[ans]) } else { run(&mut a, ops, flushes, &[ans]) };
        choice::run(&[], 1000, || { let _ = a.finish(); });
        let ta = take();
        let mut p = stylish::io::Plain::new(Sink);
        let rp = if dynamic { run(&mut &mut p, ops, flushes, &[ans]) } else { run(&mut p, ops, flushes, &[ans]) };
        let tp = take();
        [("io::Ansi", ta, ra), ("io::Plain", tp, rp)]
    }
    let b = space::basis();
    c.par("flushes that succeed or fail, and what is written afterwards", 867, |i, l| {
        let s = space::style(i);
        l.states += 1;
        let mut cases: Vec<Vec<(&str, Style)>> = vec![vec![], vec![("a", s)]];
        for t in &b { cases.push(vec![("a", s), ("b", *t)]); cases.push(vec![("q", *t), ("a", s), ("b\n", s)]); }
        for ops in &cases {
            let want = guard(&|| format!("{ops:?}"), || both(ops, &[], 0, false))?;
            for at in 0..=ops.len() {
                for ans in [0u16, 2, 3, 4] {
                    for (flushes, dynamic) in [(vec![at], false), (vec![at, at], true), (vec![0, at, ops.len()], false)] {
                        let show = || format!("{ops:?}, flushed before {flushes:?} (answer {ans}), then finished");
                        let got = guard(&show, || both(ops, &flushes, ans, dynamic))?;
                        l.traces += 2;
                        l.transitions += flushes.len() as u64;
                        for (g, w) in got.iter().zip(&want) {
                            let rest: Vec<_> = g.1.iter().filter(|x| !x.starts_with("flush")).collect();
                            let n = g.1.len() - rest.len();
                            if n != flushes.len() || g.2 != w.2 || !rest.iter().copied().eq(w.1.iter()) {
                                return Err(Violation::new(format!("{}: the sink sees {:?} ({}), without the flushes {:?} ({})", g.0, g.1, g.2, w.1, w.2), show()));
                            }
                        }
                    }
                }
            }
        }
        Ok(())
    });
}

/// A formatter as a writer.
fn formatter(c: &Check) {
    let n = FMT_OPS.len();
    let depth = c.pick(3, 4);
    c.par(&format!("Formatter: all histories to depth {depth}"), n * n, |t, l| {
        mc::fault::seqs(t / n, n, depth, &mut |v| {
            if v.len() == 1 { if t % n != 0 { return Ok(()) } } else if v[1] != t % n { return Ok(()) }
            struct Do<'a>(&'a [usize], usize, RefCell<Vec<String>>);
            impl Display for Do<'_> {
                fn fmt(&self, f: &mut Formatter<'_>) -> stylish::Result {
                    for &i in self.0 { let r = fmt_via(f, self.1, FMT_OPS[i]); self.2.borrow_mut().push(r) }
                    Ok(())
                }
            }
            let show = || format!("Formatter: {:?}", v.iter().map(|&i| FMT_OPS[i]).collect::<Vec<_>>());
            let run = |p: usize, s: &[u16]| -> Result<(Vec<String>, Vec<String>), Violation> {
                let d = Do(v, p, RefCell::default());
                guard(&show, || {
                    take();
                    choice::run(s, 2000, || { let mut w = Least; let _ = stylish::Write::write_fmt(&mut w, stylish::format_args!("{:(bg=blue)s}", d)); });
                })?;
                Ok((d.2.into_inner(), take()))
            };
            for fail in 0..4usize {
                let s: Vec<u16> = if fail == 0 { vec![] } else { (0..fail).map(|i| if i + 1 == fail { 4 } else { 0 }).collect() };
                let want = run(0, &s)?;
                for p in 1..FMT_PATHS.len() {
                    let got = run(p, &s)?;
                    l.states += 1;
                    l.traces += 1;
                    l.transitions += v.len() as u64;
                    if got != want {
                        return Err(Violation::new(format!("used through {}: {got:?}, used directly: {want:?}", FMT_PATHS[p]), show()));
                    }
                }
            }
            Ok(())
        })
    });
}

fn main() {
    let c = Check::start("C21", "model_checking");
    let d = c.pick(3usize, 4usize);
    let b = c.pick(1, 2);
    let none = |_| String::new();
    all(&c, "io writer overriding everything", || Every, &IO_OPS, &IO_PATHS, d, 2, |w, p, o| io_via(w, p, o), |_| String::new());
    all(&c, "io writer overriding nothing", || Least, &IO_OPS, &IO_PATHS, d, b, |w, p, o| io_via(w, p, o), |_| String::new());
    all(&c, "io::Ansi", || stylish::io::Ansi::new(Sink), &IO_OPS, &IO_PATHS, d, b, |w, p, o| io_via(w, p, o), |w| res(w.finish().map(|_| ())));
    all(&c, "io::Plain", || stylish::io::Plain::new(Sink), &IO_OPS, &IO_PATHS, d, b, |w, p, o| io_via(w, p, o), none);
    all(&c, "writer overriding everything", || Every, &FMT_OPS, &FMT_PATHS, d, 2, |w, p, o| fmt_via(w, p, o), |_| String::new());
    all(&c, "writer overriding nothing", || Least, &FMT_OPS, &FMT_PATHS, d, b, |w, p, o| fmt_via(w, p, o), |_| String::new());
    all(&c, "Ansi", || stylish::Ansi::new(Sink), &FMT_OPS, &FMT_PATHS, d, b, |w, p, o| fmt_via(w, p, o), |w| format!("{:?}", w.finish().map(|_| ())));
    all(&c, "Html", || stylish::Html::new(Sink), &FMT_OPS, &FMT_PATHS, d, b, |w, p, o| fmt_via(w, p, o), |w| format!("{:?}", w.finish().map(|_| ())));
    all(&c, "Plain", || stylish::Plain::new(Sink), &FMT_OPS, &FMT_PATHS, d, b, |w, p, o| fmt_via(w, p, o), |_| String::new());
    all(&c, "attributed string", stylish::String::new, &FMT_OPS, &FMT_PATHS, d, 0, |w, p, o| fmt_via(w, p, o), |s| text(stylish::format_args!("{:s}", s)));
    flush(&c);
    flush_then(&c);
    formatter(&c);
    c.finish(
        "states: histories of operations x answers of the instrumented writer x paths to it; transitions: operations; traces: runs whose operations on the underlying writer and results are compared with the same history used directly",
        &["the io::Write of the standard library's own reference adaptors is trusted"],
    )
}
