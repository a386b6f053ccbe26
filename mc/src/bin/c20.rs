//! C20: a failed or partial low-level write can be retried.
use std::io::ErrorKind;

use mc::choice;
use mc::fault::{self, *};
use mc::report::{guard, Check, Local, Violation};
use mc::space;
use mc::vt::{self, Rendition, Vt};
use stylish::Style;

/// Which writes the caller leaves at their first attempt, instead of retrying,
/// where that did not cut off an escape code.
#[derive(Clone, Copy, Debug)]
enum Leaves { None, All, First }

/// Retries every write until it is done or goes on with the next, judging each
/// attempt by what the terminal shows (every byte on its own).
fn run<T: IoW>(ops: &[Op], styled: bool, leaves: Leaves) -> Result<(), String> {
    let mut w = T::make();
    let mut vt = [Vt::bytewise(false), Vt::bytewise(true)];
    let mut shown = Vec::new();
    let mut want: Vec<(char, Rendition)> = Vec::new();
    let mut seen = 0;
    let mut whole = true;
    let mut step = |want: &[(char, Rendition)], what: &str, whole: &mut bool| -> Result<usize, String> {
        let new = log(|l| { let v = l.bytes[seen..].to_vec(); seen = l.bytes.len(); v });
        let before = shown.len();
        vt[0].feed(&new, &mut shown).map_err(|e| format!("{what}: {e}"))?;
        let mut other = Vec::new();
        vt[1].feed(&new, &mut other).map_err(|e| format!("{what}: {e}"))?;
        if other != shown[before..] { return Err(format!("{what}: terminals with separate and with exclusive bold/faint show different styles")) }
        *whole = vt[0].settled();
        let n = shown.len() - before;
        if shown[before..] != want[..n.min(want.len())] {
            return Err(format!("{what}: the terminal shows {:?} instead of a prefix of {:?}", &shown[before..], want));
        }
        Ok(n)
    };
    for (i, op) in ops.iter().enumerate() {
        let (t, s) = match op {
            Op::Raw(t, s) | Op::All(t, s) => (t.as_bytes(), *s),
            _ => unreachable!(),
        };
        let r = if styled { vt::rendition(s) } else { vt::PLAIN };
        want.clear();
        want.extend(t.iter().map(|&b| (b as char, r)));
        let mut b = t;
        if let Op::All(..) = op {
            // something before, on a sink that works
            log(|l| l.policy = Some((usize::MAX, 0)));
            let r = w.write_all(t, s);
            log(|l| l.policy = None);
            r.map_err(|e| format!("write_all fails with {e:?}"))?;
            if step(&want, &op.show(), &mut whole)? != want.len() { return Err("write_all does not show everything".into()) }
            continue;
        }
        loop {
            log(|l| l.failed = None);
            let done = t.len() - b.len();
            let r = w.write(b, s);
            let what = format!("write of the last {} bytes of {}", b.len(), op.show());
            let n = step(&want[done..], &what, &mut whole)?;
            match r {
                Ok(k) if k > b.len() => return Err(format!("{what} returned {k}")),
                Ok(k) if k != n => return Err(format!("{what} returned {k}, but {n} bytes were delivered")),
                Ok(k) => {
                    b = &b[k..];
                    if k == 0 && !b.is_empty() && log(|l| l.failed.is_none()) {
                        return Err(format!("{what} returned 0 although the sink accepts bytes"));
                    }
                    if b.is_empty() { break }
                }
                Err(_) if n != 0 => return Err(format!("{what} reports an error, but {n} bytes were delivered")),
                Err(e) if e.kind() != ErrorKind::Interrupted && log(|l| l.failed.is_none()) => {
                    return Err(format!("{what} fails with {e:?} although the sink did not"));
                }
                Err(_) => {}
            }
            if whole && match leaves { Leaves::None => false, Leaves::All => true, Leaves::First => i + 1 < ops.len() } { break }
        }
    }
    log(|l| l.policy = Some((usize::MAX, 0)));
    let r = w.end();
    log(|l| l.policy = None);
    r.map_err(|e| format!("finish fails with {e:?}"))?;
    step(&[], "finish", &mut whole)?;
    if vt[0].now != vt::PLAIN || vt[1].now != vt::PLAIN || !vt[0].settled() { return Err("the terminal is left styled".into()) }
    Ok(())
}

fn explore<T: IoW>(ops: &[Op], bound: usize, styled: bool, l: &mut Local) -> Result<(), Violation> {
    let len: usize = ops.iter().map(|o| match o { Op::Raw(t, _) | Op::All(t, _) => t.len(), _ => 0 }).sum();
    let ways: &[Leaves] = if ops.len() > 1 { &[Leaves::None, Leaves::All, Leaves::First] } else { &[Leaves::None, Leaves::All] };
    for &leaves in ways {
    let r = guard(&|| format!("{} ({leaves:?} left after one attempt)", show_run(T::NAME, ops)), || choice::explore(bound, 200 + 60 * ops.len() + 12 * len, &mut || {
        fault::reset(Menu::Hard, None);
        run::<T>(ops, styled, leaves)
    }))?;
    match r {
        Ok(s) => {
            l.evaluations += s.executions;
            l.nontrivial += s.executions - 1;
            if l.evaluations > 5000 { l.sample(|| show_run(T::NAME, ops)) }
        }
        Err((_, e)) => return Err(Violation::new(e, format!("{} ({leaves:?} left after one attempt)", show_run(T::NAME, ops))).repro(format!("// styles: {}", ops.iter().map(|o| match o {
            Op::Raw(_, s) | Op::All(_, s) => space::src(*s), _ => String::new() }).collect::<Vec<_>>().join("; ")))),
    }
    }
    Ok(())
}

fn all<T: IoW>(c: &Check, styled: bool) {
    let b = space::basis();
    let mut ops = Vec::new();
    for &s in &[b[0], b[1], b[4], b[2]] {
        for t in ["xyz", "é"] { ops.push(Op::Raw(t, s)) }
    }
    ops.push(Op::Raw("", b[4]));
    ops.push(Op::All("w", b[6]));
    let n = ops.len();
    for (depth, bound) in c.pick(vec![(2, 2), (3, 2), (4, 1), (1, 3)], vec![(3, 3), (4, 2), (6, 1), (2, 4)]) {
        c.par(&format!("{}: all histories to depth {depth}, {bound} disturbances", T::NAME), n * n, |t, l| {
            seqs(t / n, n, depth, &mut |v| {
                if v.len() == 1 { if t % n != 0 { return Ok(()) } } else if v[1] != t % n { return Ok(()) }
                let h: Vec<Op> = v.iter().map(|&i| ops[i].clone()).collect();
                explore::<T>(&h, bound, styled, l)
            })
        });
    }
    // every change of style under one and two disturbances
    let pairs = |step: usize, bound: usize| {
        c.par(&format!("{}: every style to {} styles, {bound} disturbances", T::NAME, 867usize.div_ceil(step)), 867, |i, l| {
            for j in (0..867).skip(i % step).step_by(step) {
                let (s, t): (Style, Style) = (space::style(i), space::style(j));
                explore::<T>(&[Op::All("a", s), Op::Raw("bc", t)], bound, styled, l)?;
            }
            Ok(())
        })
    };
    pairs(c.pick(7, 1), 1);
    pairs(c.pick(289, 17), 2);
    let lens = space::lengths(c.pick(80, 300), c.pick(1 << 14, 1 << 16));
    c.par(&format!("{}: lengths, 2 disturbances", T::NAME), lens.len(), |i, l| {
        let t: &'static str = Box::leak(space::text_of(lens[i]).into_boxed_str());
        explore::<T>(&[Op::All("w", b[6]), Op::Raw(t, b[4])], if lens[i] > 1000 { 1 } else { 2 }, styled, l)
    });
}

fn main() {
    let c = Check::start("C20", "fault_enumeration");
    all::<stylish::io::Ansi<Sink>>(&c, true);
    all::<stylish::io::Plain<Sink>>(&c, false);
    c.finish(
        "every history of low-level writes to the depth given x every way to let up to the given number of calls of the sink fail, refuse, take a part or be interrupted; the caller retries the rest after each, or goes on with the next write, or ends the output, unless an escape code was cut off; non-trivial: at least one call is disturbed",
        &["what counts as delivered is what an SGR terminal shows; an escape code cut off by an error is abandoned when the next one starts, as ECMA-48 terminals do"],
    )
}
