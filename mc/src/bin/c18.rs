//! C18: short writes and interruptions of a byte sink are invisible.
use std::io::ErrorKind;
use std::sync::Arc;

use mc::choice;
use mc::fault::{self, *};
use mc::prog::Node;
use mc::report::{guard, Check, Local, Violation};
use mc::space;

/// Runs the history to its end, repeating interrupted low-level writes.
fn run<T: IoW>(ops: &[Op]) -> Result<(), String> {
    let mut w = T::make();
    for op in ops {
        let fail = |e: std::io::Error| format!("{} fails with {e:?}", op.show());
        match op {
            Op::All(t, s) => w.write_all(t.as_bytes(), *s).map_err(fail)?,
            Op::Chars(t, s) => { let d: &mut dyn stylish::io::Write = &mut w; d.write_all(t.as_bytes(), *s).map_err(fail)? }
            Op::Fmt(n) => w.fmt_(n).map_err(fail)?,
            Op::Flush => w.flush().map_err(fail)?,
            Op::Raw(t, s) => {
                let mut b = t.as_bytes();
                loop {
                    match w.write(b, *s) {
                        Ok(n) if n > b.len() => return Err(format!("write returned {n} for {} bytes", b.len())),
                        Ok(0) if !b.is_empty() => return Err("write returned 0 although the sink accepts bytes".into()),
                        Ok(n) => { b = &b[n..]; if b.is_empty() { break } }
                        Err(e) if e.kind() == ErrorKind::Interrupted => {
                            // only the payload may be what was interrupted
                            let offered = log(|l| l.last_offer.clone());
                            if !b.is_empty() && !offered.ends_with(b) && !offered.starts_with(b) {
                                return Err("low-level write reports an interruption of its style change".into());
                            }
                        }
                        Err(e) => return Err(fail(e)),
                    }
                }
            }
        }
    }
    w.end().map_err(|e| format!("finish fails with {e:?}"))
}

fn reference<T: IoW>(ops: &[Op]) -> Result<Vec<u8>, Violation> {
    fault::reset(Menu::Benign, Some((usize::MAX, 0)));
    guard(&|| show_run(T::NAME, ops), || run::<T>(ops))?.map_err(|e| Violation::new(e, show_run(T::NAME, ops)))?;
    Ok(log(|l| l.bytes.clone()))
}

fn compare<T: IoW>(ops: &[Op], want: &[u8]) -> Result<(), String> {
    run::<T>(ops)?;
    log(|l| if l.bytes != want {
        Err(format!("sink receives something else than the undisturbed {:?}", String::from_utf8_lossy(&want[..want.len().min(500)])))
    } else { Ok(()) })
}

fn explore<T: IoW>(ops: &[Op], bound: usize, l: &mut Local) -> Result<(), Violation> {
    let want = reference::<T>(ops)?;
    let horizon = 12 * want.len() + 60 * ops.len() + 60;
    let r = guard(&|| show_run(T::NAME, ops), || choice::explore(bound, horizon, &mut || {
        fault::reset(Menu::Benign, None);
        compare::<T>(ops, &want)
    }))?;
    match r {
        Ok(s) => {
            l.evaluations += s.executions;
            l.nontrivial += s.executions - 1;
            if l.evaluations > 5000 { l.sample(|| show_run(T::NAME, ops)) }
            Ok(())
        }
        Err((_, e)) => Err(Violation::new(e, show_run(T::NAME, ops))),
    }
}

fn policies<T: IoW>(ops: &[Op], l: &mut Local) -> Result<(), Violation> {
    let want = reference::<T>(ops)?;
    for k in [1, 2, 3, 4, 5, 6, 7, 8, 16, 63, 64, 65, 1024, usize::MAX] {
        for int in [0, 2, 3, 4, 5, 7] {
            fault::reset(Menu::Benign, Some((k, int)));
            l.evaluations += 1;
            l.nontrivial += 1;
            guard(&|| show_run(T::NAME, ops), || compare::<T>(ops, &want))?
                .map_err(|e| Violation::new(format!("{e}; the sink takes at most {k} bytes and interrupts every {int}th call"), show_run(T::NAME, ops)))?;
        }
    }
    Ok(())
}

fn seq(nodes: Vec<Node>) -> Op { Op::Fmt(Arc::new(Node::Many(nodes.into_iter().map(Arc::new).collect()))) }

fn alphabet() -> Vec<Op> {
    let b = space::basis();
    vec![
        Op::All("ab", b[0]), Op::All("é", b[1]), Op::All("漢", b[4]), Op::All("", b[2]), Op::Chars("c", b[2]),
        Op::Raw("xy", b[4]), Op::Raw("z", b[0]), Op::Raw("", b[7]),
        seq(vec![Node::Num(1)]), seq(vec![Node::Attr(1), Node::Num(2)]),
        Op::Fmt(Arc::new(Node::With(2, Arc::new(Node::Mac(3, Arc::new(Node::Text("é\n"))))))),
        Op::Flush,
    ]
}

fn all<T: IoW>(c: &Check) {
    let ops = alphabet();
    let n = ops.len();
    for (depth, bound) in c.pick(vec![(3, 2), (2, 3), (1, 5)], vec![(4, 2), (3, 3), (2, 4), (1, 6)]) {
        c.par(&format!("{}: all histories to depth {depth}, {bound} disturbances", T::NAME), n * n, |t, l| {
            seqs(t / n, n, depth, &mut |v| {
                if v.len() == 1 { if t % n != 0 { return Ok(()) } } else if v[1] != t % n { return Ok(()) }
                let h: Vec<Op> = v.iter().map(|&i| ops[i].clone()).collect();
                explore::<T>(&h, bound, l)
            })
        });
    }
    // every change of style under every disturbance of one call
    let step = c.pick(17, 1);
    c.par(&format!("{}: every style to {} styles, one disturbance", T::NAME, 867usize.div_ceil(step)), 867, |i, l| {
        for j in (0..867).skip(i % step).step_by(step) {
            explore::<T>(&[Op::All("a", space::style(i)), Op::Raw("bc", space::style(j))], 1, l)?;
        }
        Ok(())
    });
    let lens = space::lengths(c.pick(80, 300), c.pick(1 << 14, 1 << 17));
    c.par(&format!("{}: lengths under regular disturbances", T::NAME), lens.len(), |i, l| {
        let t: &'static str = Box::leak(space::text_of(lens[i]).into_boxed_str());
        let b = space::basis();
        policies::<T>(&[Op::All(t, b[4]), Op::Raw(t, b[2]), seq(vec![Node::Styled(1, t), Node::Text(t)])], l)
    });
    // sequences of every program under regular disturbances
    let full = mc::prog::full(false, false);
    full.programs(c, &format!("{}: programs under regular disturbances", T::NAME), c.pick(3, 4), |n, l| {
        let ops = [Op::Fmt(Arc::new(n.share())), Op::All("q", space::style(20))];
        policies::<T>(&ops, l)
    });
}

fn main() {
    let c = Check::start("C18", "fault_enumeration");
    all::<stylish::io::Ansi<Sink>>(&c);
    all::<stylish::io::Plain<Sink>>(&c);
    all::<Own>(&c);
    c.finish(
        "every history of a fixed alphabet to the depth given x every way to let the sink be short (1, half, all but one byte) or interrupted in up to the given number of its calls, plus regular patterns throughout; non-trivial: at least one call is disturbed",
        &["the undisturbed output of the same history is the reference; that it is right is C01 and C04"],
    )
}
