//! C04: plain output is exactly the text.
use mc::entries;
use mc::hist::*;
use mc::report::Check;
use mc::space;
use mc::tap;
use mc::writers::*;
use stylish::{Plain, io};

fn all<T: W>(c: &Check) {
    bfs::<T, PlainOracle>(c, &["", "a", "Zé漢\n🦀", "\x1b[31m<&>\0"], 20_000);
    let b = space::basis();
    let mut alphabet = Vec::new();
    for &s in &b { for t in ["a", "", "é\n&"] { alphabet.push(Op::new(Api::Whole, t, s)); } }
    sequences::<T, PlainOracle>(c, &alphabet, c.pick(5, 6));
    scalars::<T, PlainOracle>(c, |_| false);
    strings::<T, PlainOracle>(c, c.pick(4, 5));
    pairs::<T, PlainOracle>(c);
    lengths::<T, PlainOracle>(c);
    long::<T, PlainOracle>(c);
}

fn main() {
    let c = Check::start("C04", "model_checking");
    all::<Plain<tap::Tap>>(&c);
    all::<io::Plain<tap::Tap>>(&c);
    entries::explore(&c, entries::Kind::Plain, 3, entries::plain);
    entries::memory(&c, &[entries::Kind::Plain]);
    c.finish(
        "states: distinct writer states expanded (the plain writers have one), each with a write of every of 4 texts in every of 867 styles through up to 4 methods (transitions). traces: histories run from scratch (all sequences, scalar, length and long-history sweeps)",
        &["states are merged on the derived Debug output of the writer; the stateless sections do not rely on it"],
    )
}
