//! Stateless exploration of a program that asks `choose` at every point of
//! nondeterminism. Answer 0 is the undisturbed one; every other answer is a
//! deviation. All executions with at most `bound` deviations are run.
use std::cell::RefCell;

#[derive(Default)]
struct Run {
    prefix: Vec<u16>,
    trace: Vec<(u16, u16)>, // (choice, arity)
    horizon: usize,
}

thread_local! { static RUN: RefCell<Run> = RefCell::new(Run::default()) }

pub fn choose(arity: u16) -> u16 {
    RUN.with(|r| {
        let mut r = r.borrow_mut();
        let i = r.trace.len();
        if i >= r.horizon {
            drop(r);
            panic!("more than the expected number of calls to the sink: does not terminate");
        }
        let c = r.prefix.get(i).copied().unwrap_or(0);
        assert!(c < arity, "REPLAY DIVERGED: choice {c} of {arity} at point {i}");
        r.trace.push((c, arity));
        c
    })
}

pub struct Stats {
    pub executions: u64,
    pub points: u64,
}

/// Runs `body` once under `prefix`; returns the choices taken.
pub fn run(prefix: &[u16], horizon: usize, body: impl FnOnce()) -> Vec<(u16, u16)> {
    RUN.with(|r| *r.borrow_mut() = Run { prefix: prefix.to_vec(), trace: Vec::new(), horizon });
    body();
    RUN.with(|r| std::mem::take(&mut r.borrow_mut().trace))
}

pub fn current() -> Vec<u16> {
    RUN.with(|r| r.borrow().trace.iter().map(|t| t.0).collect())
}

/// Explores; `body` returns an error to stop with a violation, which is
/// returned with the choices that led to it.
pub fn explore(
    bound: usize,
    horizon: usize,
    body: &mut dyn FnMut() -> Result<(), String>,
) -> Result<Stats, (Vec<u16>, String)> {
    let mut stats = Stats { executions: 0, points: 0 };
    let mut stack: Vec<(Vec<u16>, usize)> = vec![(Vec::new(), 0)];
    // fewest deviations first: a queue per deviation count
    let mut level = 0;
    while !stack.is_empty() {
        let mut next = Vec::new();
        for (prefix, used) in stack.drain(..) {
            let mut res = Ok(());
            let trace = run(&prefix, horizon, || {
                res = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(&mut *body)) {
                    Ok(r) => r,
                    Err(e) => Err(format!("panic: {}", crate::report::panic_text(&e))),
                }
            });
            stats.executions += 1;
            stats.points += trace.len() as u64;
            if let Err(e) = res {
                return Err((trace.iter().map(|t| t.0).collect(), e));
            }
            assert!(trace.len() >= prefix.len(), "REPLAY DIVERGED: shorter run");
            if used == bound {
                continue;
            }
            for i in prefix.len()..trace.len() {
                for alt in 1..trace[i].1 {
                    let mut p: Vec<u16> = trace[..i].iter().map(|t| t.0).collect();
                    p.push(alt);
                    next.push((p, used + 1));
                }
            }
        }
        stack = next;
        level += 1;
        assert!(level <= bound + 1);
    }
    Ok(stats)
}
