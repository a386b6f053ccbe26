//! C19: errors are reported, are the first one, and stop the output.
use std::io::{self, ErrorKind};
use std::sync::Arc;

use mc::choice;
use mc::fault::{self, *};
use mc::prog::Node;
use mc::report::{guard, Check, Local, Violation};
use mc::space;

/// How far a run came: operations done, and whether the last one failed.
struct Undisturbed {
    /// what the sink has received after each operation (the last one may fail)
    ends: Vec<usize>,
    bytes: Vec<u8>,
}

/// The error of an operation against what happened at the sink.
fn judge_io(what: &str, r: &io::Result<()>, value_fails: bool) -> Result<(), String> {
    let (failed, after) = log(|l| (l.failed.clone(), l.called_after));
    if after { return Err(format!("{what}: the sink is called again after it failed")) }
    match (r, &failed) {
        (Ok(()), None) if value_fails => Err(format!("{what}: reports success although the displayed value fails")),
        (Ok(()), None) => Ok(()),
        (Ok(()), Some(f)) => Err(format!("{what}: reports success although the sink failed ({f:?})")),
        (Err(e), Some(Failed::Error(id, kind))) => {
            let same = e.get_ref().and_then(|x| x.downcast_ref::<Mark>()) == Some(&Mark(*id)) && e.kind() == *kind;
            if same { Ok(()) } else { Err(format!("{what}: reports {e:?} instead of the sink's own error (call {id}, {kind:?})")) }
        }
        (Err(e), Some(Failed::Os(n))) => {
            if e.raw_os_error() == Some(*n) { Ok(()) } else { Err(format!("{what}: reports {e:?} instead of the sink's own OS error {n}")) }
        }
        (Err(e), Some(Failed::Zero)) => {
            if e.kind() == ErrorKind::WriteZero { Ok(()) } else { Err(format!("{what}: reports {e:?} instead of WriteZero")) }
        }
        (Err(e), None) if value_fails => {
            if e.kind() == ErrorKind::Other && !e.get_ref().is_some_and(|x| x.is::<Mark>()) { Ok(()) }
            else { Err(format!("{what}: reports {e:?} for a failing value instead of a generic error")) }
        }
        (Err(e), None) => Err(format!("{what}: fails with {e:?} although the sink did not")),
    }
}

fn prefix(i: usize, failed: bool, want: Option<&Undisturbed>) -> Result<(), String> {
    let Some(u) = want else { return Ok(()) };
    log(|l| {
        let (lo, hi) = (if i == 0 { 0 } else { u.ends[i - 1] }, u.ends[i]);
        let n = l.bytes.len();
        let ok = if failed { lo <= n && n <= hi } else { n == hi } && l.bytes[..] == u.bytes[..n.min(u.bytes.len())];
        if ok { Ok(()) } else {
            Err(format!("the sink received something that is no prefix of the undisturbed {:?}", String::from_utf8_lossy(&u.bytes[..u.bytes.len().min(500)])))
        }
    })
}

fn fails(n: &Node) -> bool {
    !n.denote(space::style(0), &mut Vec::new())
}

/// Runs the history up to its first error; records or compares.
fn run_io<T: IoW>(ops: &[Op], want: Option<&Undisturbed>) -> Result<Undisturbed, String> {
    let mut w = T::make();
    let mut u = Undisturbed { ends: vec![], bytes: vec![] };
    for (i, op) in ops.iter().enumerate() {
        let what = op.show();
        let (r, vf) = match op {
            Op::All(t, s) => (w.write_all(t.as_bytes(), *s), false),
            Op::Chars(t, s) => { let d: &mut dyn stylish::io::Write = &mut w; (d.write_all(t.as_bytes(), *s), false) }
            Op::Fmt(n) => (w.fmt_(n), fails(n)),
            Op::Flush => (w.flush(), false),
            Op::Raw(t, s) => {
                let mut b = t.as_bytes();
                let r = loop {
                    let r = w.write(b, *s);
                    match r {
                        Ok(n) if n > b.len() => return Err(format!("write returned {n} for {} bytes", b.len())),
                        // the caller sees the refusal of its own bytes as 0
                        Ok(0) if !b.is_empty() => {
                            if log(|l| l.failed != Some(Failed::Zero)) { return Err("write returned 0 although the sink accepts bytes".into()) }
                            if log(|l| l.called_after) { return Err("low-level write calls the sink again after it refused".into()) }
                            prefix(i, true, want)?;
                            return Ok(u);
                        }
                        Ok(n) => {
                            if log(|l| l.failed.is_some()) { break Ok(()) }
                            b = &b[n..];
                            if b.is_empty() { break Ok(()) }
                        }
                        Err(e) if e.kind() == ErrorKind::Interrupted => {}
                        Err(e) => break Err(e),
                    }
                };
                (r, false)
            }
        };
        judge_io(&what, &r, vf)?;
        if want.is_none() { u.ends.push(log(|l| l.bytes.len())) }
        prefix(i, r.is_err(), want)?;
        if r.is_err() {
            if want.is_none() { u.bytes = log(|l| l.bytes.clone()) }
            return Ok(u);
        }
    }
    let r = w.end();
    judge_io("finish", &r, false)?;
    if want.is_none() {
        u.ends.push(log(|l| l.bytes.len()));
        u.bytes = log(|l| l.bytes.clone());
    }
    prefix(ops.len(), r.is_err(), want)?;
    Ok(u)
}

fn io<T: IoW>(ops: &[Op], menu: Menu, bound: usize, l: &mut Local) -> Result<(), Violation> {
    fault::reset(Menu::Benign, Some((usize::MAX, 0)));
    let u = guard(&|| show_run(T::NAME, ops), || run_io::<T>(ops, None))?.map_err(|e| Violation::new(e, show_run(T::NAME, ops)))?;
    let r = guard(&|| show_run(T::NAME, ops), || choice::explore(bound, 12 * u.bytes.len() + 60 * ops.len() + 60, &mut || {
        fault::reset(menu, None);
        run_io::<T>(ops, Some(&u)).map(|_| ())
    }))?;
    match r {
        Ok(s) => {
            l.evaluations += s.executions;
            l.nontrivial += s.executions - 1;
            if l.evaluations > 5000 { l.sample(|| show_run(T::NAME, ops)) }
            Ok(())
        }
        Err((_, e)) => Err(Violation::new(e, show_run(T::NAME, ops))),
    }
}

fn run_fmt<T: FmtW>(ops: &[Op], want: Option<&Undisturbed>) -> Result<Undisturbed, String> {
    let mut w = T::make();
    let mut u = Undisturbed { ends: vec![], bytes: vec![] };
    let judge = |what: &str, r: &std::fmt::Result, vf: bool| {
        let (failed, after) = log(|l| (l.failed.is_some(), l.called_after));
        if after { return Err(format!("{what}: the sink is called again after it failed")) }
        match (r.is_err(), failed, vf) {
            (false, true, _) => Err(format!("{what}: reports success although the sink failed")),
            (false, _, true) => Err(format!("{what}: reports success although the displayed value fails")),
            (true, false, false) => Err(format!("{what}: fails although nothing else did")),
            _ => Ok(()),
        }
    };
    for (i, op) in ops.iter().enumerate() {
        let (r, vf) = match op {
            Op::All(t, s) => (w.write_str(t, *s), false),
            Op::Raw(t, s) => { let d: &mut dyn stylish::Write = &mut w; (d.write_str(t, *s), false) }
            Op::Chars(t, s) => (t.chars().try_for_each(|c| w.write_char(c, *s)), false),
            Op::Fmt(n) if (i + ops.len()) % 2 == 1 => (w.fmt_(n), fails(n)),
            Op::Fmt(n) => (stylish::write!(w, "{:s}", **n), fails(n)),
            Op::Flush => (Ok(()), false),
        };
        judge(&op.show(), &r, vf)?;
        if want.is_none() { u.ends.push(log(|l| l.bytes.len())) }
        prefix(i, r.is_err(), want)?;
        if r.is_err() {
            if want.is_none() { u.bytes = log(|l| l.bytes.clone()) }
            return Ok(u);
        }
    }
    let r = w.end();
    judge("finish", &r, false)?;
    if want.is_none() {
        u.ends.push(log(|l| l.bytes.len()));
        u.bytes = log(|l| l.bytes.clone());
    }
    prefix(ops.len(), r.is_err(), want)?;
    Ok(u)
}

fn fmt<T: FmtW>(ops: &[Op], l: &mut Local) -> Result<(), Violation> {
    let mut u = Err(String::new());
    guard(&|| show_run(T::NAME, ops), || choice::run(&[], 1 << 20, || {
        fault::reset(Menu::Hard, None);
        u = run_fmt::<T>(ops, None);
    }))?;
    let u = u.map_err(|e| Violation::new(e, show_run(T::NAME, ops)))?;
    let r = guard(&|| show_run(T::NAME, ops), || choice::explore(2, 1 << 20, &mut || {
        fault::reset(Menu::Hard, None);
        run_fmt::<T>(ops, Some(&u)).map(|_| ())
    }))?;
    match r {
        Ok(s) => {
            l.evaluations += s.executions;
            l.nontrivial += s.executions - 1;
            if l.evaluations > 500 { l.sample(|| show_run(T::NAME, ops)) }
            Ok(())
        }
        Err((_, e)) => Err(Violation::new(e, show_run(T::NAME, ops))),
    }
}

fn seq(nodes: Vec<Node>) -> Op { Op::Fmt(Arc::new(Node::Many(nodes.into_iter().map(Arc::new).collect()))) }

fn alphabet() -> Vec<Op> {
    let b = space::basis();
    vec![
        Op::All("ab", b[0]), Op::All("é<", b[1]), Op::All("漢", b[4]), Op::All("", b[2]), Op::Chars("c&", b[2]),
        Op::Raw("xy", b[4]), Op::Raw("z", b[0]), Op::Raw("", b[7]),
        seq(vec![Node::Num(1)]), seq(vec![Node::Attr(1), Node::Num(2)]),
        Op::Fmt(Arc::new(Node::With(2, Arc::new(Node::Mac(3, Arc::new(Node::Text("é\n"))))))),
        seq(vec![Node::Styled(1, "f"), Node::Mac(1, Arc::new(Node::Fail)), Node::Text("no")]),
        Op::Flush,
    ]
}

fn histories(c: &Check, name: &str, depth: usize, f: impl Fn(&[Op], &mut Local) -> Result<(), Violation> + Sync) {
    let ops = alphabet();
    let n = ops.len();
    c.par(&format!("{name}: all histories to depth {depth}"), n * n, |t, l| {
        seqs(t / n, n, depth, &mut |v| {
            if v.len() == 1 { if t % n != 0 { return Ok(()) } } else if v[1] != t % n { return Ok(()) }
            let h: Vec<Op> = v.iter().map(|&i| ops[i].clone()).collect();
            f(&h, l)
        })
    });
}

fn all_io<T: IoW>(c: &Check) {
    histories(c, &format!("{}, up to 2 disturbances", T::NAME), c.pick(2, 3), |h, l| io::<T>(h, Menu::Hard, 2, l));
    histories(c, &format!("{}, 1 disturbance", T::NAME), c.pick(4, 5), |h, l| io::<T>(h, Menu::Hard, 1, l));
    histories(c, &format!("{}, up to 3 disturbances", T::NAME), c.pick(1, 2), |h, l| io::<T>(h, Menu::Hard, 3, l));
    let step = c.pick(17, 1);
    c.par(&format!("{}: every style to {} styles, 1 disturbance", T::NAME, 867usize.div_ceil(step)), 867, |i, l| {
        for j in (0..867).skip(i % step).step_by(step) {
            io::<T>(&[Op::All("a", space::style(i)), Op::Raw("bc", space::style(j))], Menu::Hard, 1, l)?;
        }
        Ok(())
    });
    histories(c, &format!("{}, every kind of error", T::NAME), c.pick(2, 3), |h, l| io::<T>(h, Menu::Kinds, 1, l));
    let lens = space::lengths(c.pick(80, 300), c.pick(1 << 14, 1 << 17));
    c.par(&format!("{}: lengths, up to 2 disturbances", T::NAME), lens.len(), |i, l| {
        let t: &'static str = Box::leak(space::text_of(lens[i]).into_boxed_str());
        let b = space::basis();
        io::<T>(&[Op::All(t, b[4])], Menu::Hard, 2, l)?;
        io::<T>(&[Op::Raw(t, b[2]), seq(vec![Node::Styled(1, t), Node::Text(t)])], Menu::Hard, if lens[i] < 300 { 2 } else { 1 }, l)
    });
    mc::prog::full(true, true).programs(c, &format!("{}: programs, 1 disturbance", T::NAME), c.pick(3, 4), |n, l| {
        io::<T>(&[Op::Fmt(Arc::new(n.share())), Op::All("q", space::style(20))], Menu::Hard, 1, l)
    });
    mc::prog::specs(c, &format!("{}: 1 disturbance", T::NAME), c.pick(7, 40), true, |n, l| {
        io::<T>(&[Op::Fmt(Arc::new(n.share())), Op::All("q", space::style(20))], Menu::Hard, 1, l)
    });
}

fn all_fmt<T: FmtW>(c: &Check) {
    histories(c, &format!("{}, failure of any call", T::NAME), c.pick(4, 5), |h, l| fmt::<T>(h, l));
    let step = c.pick(17, 1);
    c.par(&format!("{}: every style to {} styles, failure of any call", T::NAME, 867usize.div_ceil(step)), 867, |i, l| {
        for j in (0..867).skip(i % step).step_by(step) {
            fmt::<T>(&[Op::All("a", space::style(i)), Op::All("b<c", space::style(j))], l)?;
        }
        Ok(())
    });
    let lens = space::lengths(c.pick(80, 300), c.pick(1 << 14, 1 << 17));
    c.par(&format!("{}: lengths, failure of any call", T::NAME), lens.len(), |i, l| {
        let t: &'static str = Box::leak(space::text_of(lens[i]).replace('a', "<").into_boxed_str());
        let b = space::basis();
        // one failing call each; every character reference is a call of its own
        if lens[i] < 1000 { fmt::<T>(&[Op::All(t, b[4]), seq(vec![Node::Styled(1, t), Node::Text(t)])], l)? }
        Ok(())
    });
    mc::prog::full(true, true).programs(c, &format!("{}: programs, failure of any call", T::NAME), c.pick(3, 4), |n, l| {
        fmt::<T>(&[Op::Fmt(Arc::new(n.share())), Op::All("q", space::style(20))], l)
    });
    mc::prog::specs(c, &format!("{}: failure of any call", T::NAME), c.pick(7, 40), true, |n, l| {
        fmt::<T>(&[Op::Fmt(Arc::new(n.share())), Op::All("q", space::style(20))], l)
    });
}

fn main() {
    let c = Check::start("C19", "fault_enumeration");
    all_io::<stylish::io::Ansi<Sink>>(&c);
    all_io::<stylish::io::Plain<Sink>>(&c);
    all_io::<Own>(&c);
    all_fmt::<stylish::Ansi<FmtSink>>(&c);
    all_fmt::<stylish::Html<FmtSink>>(&c);
    all_fmt::<stylish::Plain<FmtSink>>(&c);
    all_fmt::<OwnFmt>(&c);
    c.finish(
        "every history of a fixed alphabet to the depth given x every failure of a sink call (error, refusal, partial acceptance), preceded by up to the given number of short writes and interruptions; runs stop at the first error; non-trivial: at least one call is disturbed",
        &["displayed values pass on the errors they get", "the undisturbed output of the same history is the reference; that it is right is C01, C02 and C04"],
    )
}
