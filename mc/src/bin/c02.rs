//! C02: HTML output is well formed and gives every character its style.
use mc::hist::*;
use mc::report::Check;
use mc::space;
use mc::tap;
use mc::writers::*;
use stylish::Html;

fn main() {
    let c = Check::start("C02", "model_checking");
    type T = Html<tap::Tap>;
    bfs::<T, HtmlOracle>(&c, &["", "a", "Zé漢\n🦀", "<&>"], 20_000);
    let b = space::basis();
    let mut alphabet = Vec::new();
    for &s in &b { for t in ["a", "", "é\n&"] { alphabet.push(Op::new(Api::Whole, t, s)); } }
    sequences::<T, HtmlOracle>(&c, &alphabet, c.pick(5, 6));
    scalars::<T, HtmlOracle>(&c, |_| false);
    strings::<T, HtmlOracle>(&c, c.pick(4, 5));
    pairs::<T, HtmlOracle>(&c);
    lengths::<T, HtmlOracle>(&c);
    long::<T, HtmlOracle>(&c);
    mc::entries::explore(&c, mc::entries::Kind::Html, 3, mc::entries::html);
    mc::entries::memory(&c, &[mc::entries::Kind::Html]);
    c.finish(
        "states: distinct (writer, page) states expanded, each with a write of every of 4 texts in every of 867 styles through up to 4 methods (transitions). traces: histories run from scratch (all sequences, scalar, length and long-history sweeps)",
        &["a page is the flat-span model of mc/src/html.rs", "the CSS value of each colour is the table in mc/src/html.rs", "states are merged on the derived Debug output of the writer; the stateless sections do not rely on it"],
    )
}
