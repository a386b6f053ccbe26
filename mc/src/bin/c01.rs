//! C01: ANSI output shows every character in exactly its style.
use mc::hist::*;
use mc::report::{guard, Check, Violation};
use mc::space;
use mc::tap;
use mc::writers::*;
use stylish::{Ansi, io};

/// Texts that contain escape characters cannot be told from codes by a
/// terminal; they have to pass through unchanged: the output is that of the
/// same history with a placeholder character in their place.
fn opaque<T: W>(c: &Check) {
    let texts: Vec<String> = {
        let alpha = ["\x1b", "[", "3", "1", "m", "0", ";", "a", "\u{9b}", "\r", "\0"];
        let mut v: Vec<String> = Vec::new();
        for a in alpha { for b in alpha { for d in alpha {
            v.push([a, b, d].concat());
            v.push(["\x1b[", a, b, d, "m"].concat());
        } } }
        v
    };
    let basis = space::basis();
    c.par(&format!("texts with control characters, {}", T::NAME), texts.len(), |i, l| {
        let text = &texts[i];
        for &s0 in &basis { for &s1 in &basis {
            let run = |t: &str| -> Result<Vec<u8>, Violation> {
                let ops = [Op::new(Api::Whole, "x", s0), Op::new(Api::Whole, t, s1), Op::new(Api::Fmt, t, s0)];
                let r = guard(&|| show_ops(T::NAME, &ops), || {
                    tap::clear();
                    let mut w = T::new();
                    for op in &ops { w.put(op.api, &op.text, op.style)?; }
                    w.end().map(|()| tap::take())
                })?;
                r.map_err(|e| viol::<T>(e, &ops))
            };
            l.traces += 1;
            let got = run(text)?;
            let hole = run("\u{e000}")?;
            let want = String::from_utf8(hole).unwrap().replace('\u{e000}', text);
            if got != want.as_bytes() {
                let ops = [Op::new(Api::Whole, "x", s0), Op::new(Api::Whole, text, s1), Op::new(Api::Fmt, text, s0)];
                return Err(viol::<T>(format!("text is not passed through unchanged: {:?} instead of {want:?}",
                    String::from_utf8_lossy(&got)), &ops));
            }
        } }
        if i == 5 { l.sample(|| format!("{text:?} between styles")) }
        Ok(())
    });
}

fn all<T: W>(c: &Check) {
    bfs::<T, AnsiOracle>(c, &["", "a", "Zé漢\n🦀"], 20_000);
    let b = space::basis();
    let mut alphabet = Vec::new();
    for &s in &b { for t in ["a", "", "é\nx"] { alphabet.push(Op::new(Api::Whole, t, s)); } }
    sequences::<T, AnsiOracle>(c, &alphabet, c.pick(5, 6));
    scalars::<T, AnsiOracle>(c, |ch| ch == '\x1b');
    strings::<T, AnsiOracle>(c, c.pick(4, 5));
    pairs::<T, AnsiOracle>(c);
    lengths::<T, AnsiOracle>(c);
    long::<T, AnsiOracle>(c);
    opaque::<T>(c);
}

fn main() {
    let c = Check::start("C01", "model_checking");
    all::<Ansi<tap::Tap>>(&c);
    all::<io::Ansi<tap::Tap>>(&c);
    mc::entries::explore(&c, mc::entries::Kind::Ansi, 3, mc::entries::ansi);
    mc::entries::memory(&c, &[mc::entries::Kind::Ansi]);
    c.finish(
        "states: distinct (writer, terminal) states expanded, each with a write of every of 3 texts in every of 867 styles through up to 4 methods (transitions). traces: histories run from scratch (all sequences, scalar, length, long-history and control-character sweeps)",
        &["a terminal is the SGR model of mc/src/vt.rs", "states are merged on the derived Debug output of the writer; the stateless sections do not rely on it"],
    )
}
