//! C25: copies of a writer or attributed string go their own ways, and all
//! ways to make a new one give the same one.
use std::collections::HashMap;

use mc::report::{guard, Check, Local, Violation};
use mc::space;
use mc::writers::{clip, Api};
use stylish::Style;

#[derive(Clone, Copy)]
struct Op {
    api: Api,
    text: &'static str,
    style: Style,
}

trait Copied: Clone + Sized + 'static {
    const NAME: &'static str;
    /// ways to make a new one
    const MAKES: &'static [(&'static str, fn() -> Self)];
    fn put(&mut self, op: &Op);
    /// what it holds in the end
    fn end(self) -> Vec<u8>;
    /// what it holds now, if that can be seen
    fn peek(&self) -> Vec<u8> { Vec::new() }
}

macro_rules! put {
    (fmt $me:ident $op:ident) => {{
        use stylish::Write;
        match $op.api {
            Api::Whole => $me.write_str($op.text, $op.style).unwrap(),
            Api::Fine => for c in $op.text.chars() { $me.write_char(c, $op.style).unwrap() },
            _ => stylish::write!($me, "{:s}", mc::writers::Piece($op.text, $op.style)).unwrap(),
        }
    }};
    (io $me:ident $op:ident) => {{
        use stylish::io::Write;
        match $op.api {
            Api::Whole => $me.write_all($op.text.as_bytes(), $op.style).unwrap(),
            Api::Fine => for c in $op.text.as_bytes() { assert_eq!($me.write(&[*c], $op.style).unwrap(), 1) },
            _ => stylish::write!($me, "{:s}", mc::writers::Piece($op.text, $op.style)).unwrap(),
        }
    }};
}

macro_rules! copied {
    ($($t:ty, $name:literal, $kind:ident, [$($mk:literal => $make:expr),*], |$w:ident| $end:expr;)*) => { $(
        impl Copied for $t {
            const NAME: &'static str = $name;
            const MAKES: &'static [(&'static str, fn() -> Self)] = &[$(($mk, || $make)),*];
            fn put(&mut self, op: &Op) { put!($kind self op) }
            fn end(self) -> Vec<u8> { let $w = self; $end }
        }
    )* };
}

copied! {
    stylish::Ansi<String>, "Ansi", fmt,
        ["new" => stylish::Ansi::new(String::new()), "ansi" => stylish::ansi(String::new()), "default" => Default::default()],
        |w| w.finish().unwrap().into_bytes();
    stylish::Html<String>, "Html", fmt,
        ["new" => stylish::Html::new(String::new()), "html" => stylish::html(String::new()), "default" => Default::default()],
        |w| w.finish().unwrap().into_bytes();
    stylish::Plain<String>, "Plain", fmt,
        ["new" => stylish::Plain::new(String::new()), "plain" => stylish::plain(String::new()), "default" => Default::default()],
        |w| w.into_inner().into_bytes();
    stylish::io::Ansi<Vec<u8>>, "io::Ansi", io,
        ["new" => stylish::io::Ansi::new(Vec::new()), "io::ansi" => stylish::io::ansi(Vec::new()), "default" => Default::default()],
        |w| w.finish().unwrap();
    stylish::io::Plain<Vec<u8>>, "io::Plain", io,
        ["new" => stylish::io::Plain::new(Vec::new()), "io::plain" => stylish::io::plain(Vec::new()), "default" => Default::default()],
        |w| w.into_inner();
}

fn shown(s: &stylish::String) -> Vec<u8> {
    stylish::html::format!("{:(fg=green)s}", s).into_bytes()
}

impl Copied for stylish::String {
    const NAME: &'static str = "String";
    const MAKES: &'static [(&'static str, fn() -> Self)] = &[
        ("new", stylish::String::new), ("default", Default::default),
        ("format!", || stylish::format!("")), ("to_stylish_string", || { use stylish::ToStylishString; stylish::format_args!("").to_stylish_string() }),
    ];
    fn put(&mut self, op: &Op) {
        let me = self;
        put!(fmt me op)
    }
    fn end(self) -> Vec<u8> { shown(&self) }
    fn peek(&self) -> Vec<u8> { shown(self) }
}

fn show(ops: &[Op]) -> String {
    let skip = ops.len().saturating_sub(40);
    ops[skip..].iter().map(|o| format!(" {:?} {} in [{}];", o.api, clip(o.text), space::show(o.style))).collect()
}

struct Case<'a> {
    make: usize,
    before: &'a [Op],
    a: &'a [Op],
    b: &'a [Op],
}

fn describe<T: Copied>(c: &Case) -> String {
    format!("{} (from {}): before the copy:{} original then:{} copy then:{}", T::NAME, T::MAKES[c.make].0, show(c.before), show(c.a), show(c.b))
}

fn alone<T: Copied>(ops: &[&[Op]]) -> Vec<u8> {
    let mut w = T::MAKES[0].1();
    for o in ops.iter().flat_map(|o| o.iter()) { w.put(o) }
    w.end()
}

/// How the copy is made and in which order the two go on.
const WAYS: usize = 6;

fn diverge<T: Copied>(c: &Case, way: usize, want: &(Vec<u8>, Vec<u8>)) -> Result<(), Violation> {
    let (a, b) = guard(&|| describe::<T>(c), || {
        let mut w = T::MAKES[c.make].1();
        for o in c.before { w.put(o) }
        let mut x;
        match way {
            // over one that was used for something else
            4 => {
                x = T::MAKES[0].1();
                for o in c.a { x.put(o) }
                x.clone_from(&w);
            }
            // a copy of a copy
            5 => x = w.clone().clone(),
            _ => x = w.clone(),
        }
        match way {
            0 | 4 | 5 => {
                for o in c.a { w.put(o) }
                for o in c.b { x.put(o) }
                (w.end(), x.end())
            }
            1 => {
                for o in c.b { x.put(o) }
                for o in c.a { w.put(o) }
                (w.end(), x.end())
            }
            // turn by turn
            2 => {
                for i in 0..c.a.len().max(c.b.len()) {
                    if let Some(o) = c.a.get(i) { w.put(o) }
                    if let Some(o) = c.b.get(i) { x.put(o) }
                }
                let x = x.end();
                (w.end(), x)
            }
            // the original is finished before the copy goes on
            _ => {
                for o in c.a { w.put(o) }
                let before = x.peek();
                let w = w.end();
                assert!(x.peek() == before, "finishing the original changes the copy");
                for o in c.b { x.put(o) }
                (w, x.end())
            }
        }
    })?;
    let report = |which: &str, got: &[u8], want: &[u8]| Violation::new(
        format!("{which} holds {:?} instead of {:?} (way {way})", String::from_utf8_lossy(got), String::from_utf8_lossy(want)), describe::<T>(c));
    if a != want.0 { return Err(report("the original", &a, &want.0)) }
    if b != want.1 { return Err(report("the copy", &b, &want.1)) }
    Ok(())
}

fn case<T: Copied>(c: &Case, l: &mut Local) -> Result<(), Violation> {
    let want = guard(&|| describe::<T>(c), || (alone::<T>(&[c.before, c.a]), alone::<T>(&[c.before, c.b])))?;
    l.states += 1;
    for way in 0..WAYS {
        l.traces += 1;
        l.transitions += (c.before.len() + c.a.len() + c.b.len()) as u64;
        diverge::<T>(c, way, &want)?;
    }
    if want.0 != want.1 { l.nontrivial += 1 }
    l.outcome(&want.1);
    Ok(())
}

fn words(alphabet: &[Op], max: usize) -> Vec<Vec<Op>> {
    let mut all = vec![vec![]];
    let mut from = 0;
    for _ in 0..max {
        let to = all.len();
        for i in from..to {
            for o in alphabet {
                let mut w: Vec<Op> = all[i].clone();
                w.push(*o);
                all.push(w);
            }
        }
        from = to;
    }
    all
}

fn all<T: Copied>(c: &Check) {
    let b = space::basis();
    let mut alphabet = Vec::new();
    for &style in &b {
        alphabet.push(Op { api: Api::Whole, text: "aé", style });
    }
    alphabet.push(Op { api: Api::Fine, text: "b<", style: b[4] });
    alphabet.push(Op { api: Api::Fmt, text: "c\n", style: b[5] });
    alphabet.push(Op { api: Api::Whole, text: "", style: b[1] });
    let prefixes = words(&alphabet, c.pick(2, 3));
    let small = [alphabet[0], alphabet[1], alphabet[4], alphabet[9], alphabet[10]];
    let suffixes = words(&small, 2);
    c.par(&format!("copies after every history, {}", T::NAME), prefixes.len(), |i, l| {
        for a in &suffixes {
            for b in &suffixes {
                case::<T>(&Case { make: i % T::MAKES.len(), before: &prefixes[i], a, b }, l)?;
            }
        }
        if i == 20 { l.sample(|| describe::<T>(&Case { make: 0, before: &prefixes[i], a: &suffixes[7], b: &suffixes[9] })) }
        Ok(())
    });
    // in every style
    c.par(&format!("copies in every style, {}", T::NAME), space::N, |i, l| {
        let before = [Op { api: Api::Whole, text: "p", style: space::style(i) }];
        for j in [0, i, (i + 1) % space::N, (i + 51) % space::N, (i + 3) % space::N, (i * 7 + 5) % space::N] {
            let a = [Op { api: Api::Whole, text: "q", style: space::style(j) }];
            for k in [0, i, j, (i + 2) % space::N, (j + 433) % space::N] {
                let b = [Op { api: Api::Fine, text: "r", style: space::style(k) }];
                case::<T>(&Case { make: 0, before: &before, a: &a, b: &b }, l)?;
                case::<T>(&Case { make: 0, before: &before, a: &[], b: &b }, l)?;
                case::<T>(&Case { make: 0, before: &before, a: &a, b: &[] }, l)?;
            }
        }
        Ok(())
    });
    // long histories, in which storage is shared or full
    let ls = space::lengths(c.pick(100, 600), c.pick(2048, 20_000));
    c.par(&format!("copies after long histories, {}", T::NAME), ls.len(), |i, l| {
        let mut before = Vec::new();
        for k in 0..ls[i] { before.push(alphabet[k * 5 % alphabet.len()]) }
        for a in [0, 4, 9] {
            for b in [1, 4] {
                case::<T>(&Case { make: i % T::MAKES.len(), before: &before, a: &[alphabet[a]], b: &[alphabet[b], alphabet[0]] }, l)?;
            }
        }
        Ok(())
    });
    // every way to make one
    let hs = words(&alphabet, c.pick(3, 4));
    c.par(&format!("every constructor, {}", T::NAME), hs.len(), |i, l| {
        let d = || format!("{}:{}", T::NAME, show(&hs[i]));
        let outs = guard(&d, || T::MAKES.iter().map(|(name, make)| {
            let mut w = make();
            for o in &hs[i] { w.put(o) }
            (*name, w.end())
        }).collect::<HashMap<_, _>>())?;
        l.traces += outs.len() as u64;
        for (name, o) in &outs {
            if *o != outs["new"] {
                return Err(Violation::new(format!("made by {name} it holds {:?}, made by new {:?}",
                    String::from_utf8_lossy(o), String::from_utf8_lossy(&outs["new"])), d()));
            }
        }
        Ok(())
    });
}

fn main() {
    let c = Check::start("C25", "model_checking");
    all::<stylish::Ansi<String>>(&c);
    all::<stylish::io::Ansi<Vec<u8>>>(&c);
    all::<stylish::Html<String>>(&c);
    all::<stylish::Plain<String>>(&c);
    all::<stylish::io::Plain<Vec<u8>>>(&c);
    all::<stylish::String>(&c);
    c.finish(
        "states: points at which a copy is made, with what the original and the copy do afterwards; transitions: writes; traces: runs (six ways to make and use the copy), each compared with two runs from scratch that never copy; nontrivial: cases in which the two end up different",
        &["the reference is the same writer run from scratch without copying; what it should hold is decided by C01 to C05 and C09"],
    )
}
