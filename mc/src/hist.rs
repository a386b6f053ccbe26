//! Explorations of histories of writes on one writer, judged step by step.
use std::collections::HashSet;
use std::sync::{Mutex, RwLock};

use stylish::Style;

use crate::html::{self, Css, Doc};
use crate::report::{guard, Check, Local, Violation};
use crate::space;
use crate::tap;
use crate::vt::{self, Vt};
use crate::writers::{repro_ops, show_ops, Api, Op, APIS, W};

pub trait Oracle: Clone + Send + Sync {
    fn new() -> Self;
    fn key(&self) -> String;
    /// `emitted` is what one write of `text` in `style` sent to the sink.
    fn step(&mut self, emitted: &[u8], text: &str, style: Style) -> Result<(), String>;
    /// `emitted` is what ending the output sent to the sink.
    fn end(&mut self, emitted: &[u8]) -> Result<(), String>;
}

#[derive(Clone)]
pub struct AnsiOracle {
    a: Vt,
    b: Vt,
}

impl AnsiOracle {
    fn feed(&mut self, emitted: &[u8]) -> Result<Vec<(char, vt::Rendition)>, String> {
        let (mut x, mut y) = (Vec::new(), Vec::new());
        self.a.feed(emitted, &mut x)?;
        self.b.feed(emitted, &mut y)?;
        if !self.a.settled() {
            return Err("write ends inside an escape code or character".into());
        }
        if x != y {
            return Err(format!("a terminal with separate bold and faint shows {x:?}, one with exclusive ones {y:?}"));
        }
        Ok(x)
    }
}

impl Oracle for AnsiOracle {
    fn new() -> Self {
        AnsiOracle { a: Vt::new(false), b: Vt::new(true) }
    }
    fn key(&self) -> String {
        format!("{:?}{:?}", self.a.now, self.b.now)
    }
    fn step(&mut self, emitted: &[u8], text: &str, style: Style) -> Result<(), String> {
        let shown = self.feed(emitted)?;
        let want = vt::rendition(style);
        let mut chars = text.chars();
        for (c, r) in &shown {
            match chars.next() {
                Some(w) if w == *c && *r == want => {}
                Some(w) => return Err(format!("terminal shows {c:?} as {r:?} instead of {w:?} as {want:?}")),
                None => return Err(format!("terminal shows {c:?} that was not written")),
            }
        }
        if let Some(c) = chars.next() {
            return Err(format!("{c:?} was written but not shown"));
        }
        Ok(())
    }
    fn end(&mut self, emitted: &[u8]) -> Result<(), String> {
        let shown = self.feed(emitted)?;
        if !shown.is_empty() {
            return Err(format!("finish shows text {shown:?}"));
        }
        if self.a.now != vt::PLAIN || self.b.now != vt::PLAIN {
            return Err(format!("finish leaves the terminal in {:?}", self.a.now));
        }
        Ok(())
    }
}

#[derive(Clone)]
pub struct HtmlOracle(Doc);

impl Oracle for HtmlOracle {
    fn new() -> Self {
        HtmlOracle(Doc::new())
    }
    fn key(&self) -> String {
        format!("{:?}", self.0)
    }
    fn step(&mut self, emitted: &[u8], text: &str, style: Style) -> Result<(), String> {
        let mut out: Vec<(char, Option<Css>)> = Vec::new();
        self.0.feed(emitted, &mut out)?;
        if !self.0.settled() {
            return Err("write ends inside a tag or character reference".into());
        }
        let want = html::expect(style);
        let mut chars = text.chars();
        for (c, css) in &out {
            match chars.next() {
                Some(w) if w == *c && *css == want => {}
                Some(w) => return Err(format!("page shows {c:?} with {css:?} instead of {w:?} with {want:?}")),
                None => return Err(format!("page shows {c:?} that was not written")),
            }
        }
        if let Some(c) = chars.next() {
            return Err(format!("{c:?} was written but not shown"));
        }
        Ok(())
    }
    fn end(&mut self, emitted: &[u8]) -> Result<(), String> {
        let mut out = Vec::new();
        self.0.feed(emitted, &mut out)?;
        if !out.is_empty() {
            return Err(format!("finish adds text {out:?}"));
        }
        if !self.0.settled() || self.0.open.is_some() {
            return Err("output is not balanced after finish".into());
        }
        Ok(())
    }
}

#[derive(Clone)]
pub struct PlainOracle;

impl Oracle for PlainOracle {
    fn new() -> Self {
        PlainOracle
    }
    fn key(&self) -> String {
        String::new()
    }
    fn step(&mut self, emitted: &[u8], text: &str, _: Style) -> Result<(), String> {
        if emitted == text.as_bytes() {
            Ok(())
        } else {
            Err(format!("sink received {:?}", String::from_utf8_lossy(emitted)))
        }
    }
    fn end(&mut self, emitted: &[u8]) -> Result<(), String> {
        if emitted.is_empty() { Ok(()) } else { Err("ending the output wrote something".into()) }
    }
}

pub fn viol<T: W>(what: String, ops: &[Op]) -> Violation {
    Violation::new(format!("{}: {what}", T::NAME), show_ops(T::NAME, ops)).repro(repro_ops::<T>(ops))
}

/// Runs a history from scratch, checking every step and the end.
pub fn run_history<T: W, O: Oracle>(ops: &[Op]) -> Result<(), Violation> {
    let r = guard(&|| show_ops(T::NAME, ops), || {
        tap::clear();
        let mut w = T::new();
        let mut o = O::new();
        for (i, op) in ops.iter().enumerate() {
            w.put(op.api, &op.text, op.style)
                .and_then(|()| tap::drain(|b| o.step(b, &op.text, op.style)))
                .map_err(|e| (i, e))?;
        }
        w.end().and_then(|()| tap::drain(|b| o.end(b))).map_err(|e| (ops.len(), e))
    })?;
    r.map_err(|(i, e)| viol::<T>(format!("step {i}: {e}"), &ops[..ops.len().min(i + 1)]))
}

/// Breadth-first search over writer x reference states with all 867 styles.
pub fn bfs<T: W, O: Oracle>(c: &Check, texts: &[&str], cap: usize) {
    let section = format!("bfs {}", T::NAME);
    struct Node<T, O> {
        w: T,
        o: O,
        path: Vec<Op>,
    }
    let styles = space::all();
    let seen = RwLock::new(HashSet::new());
    let key = |w: &T, o: &O| format!("{w:?}|{}", o.key());
    let start = Node { w: T::new(), o: O::new(), path: vec![] };
    seen.write().unwrap().insert(key(&start.w, &start.o));
    let mut frontier = vec![start];
    let mut depth = 0;
    while !frontier.is_empty() && !c.failed() && !c.out_of_time() {
        if frontier.len() > cap {
            c.note(&section, "capped", format!("frontier of {} states cut to {cap}", frontier.len()));
            frontier.truncate(cap);
        }
        let found = Mutex::new(Vec::new());
        c.par(&format!("{section} depth {depth}"), frontier.len(), |i, l: &mut Local| {
            let n = &frontier[i];
            l.states += 1;
            let with = |op: &Op| -> Vec<Op> { n.path.iter().cloned().chain([op.clone()]).collect() };
            // ending here
            let r = guard(&|| show_ops(T::NAME, &n.path), || {
                tap::clear();
                n.w.clone().end().and_then(|()| tap::drain(|b| n.o.clone().end(b)))
            })?;
            r.map_err(|e| viol::<T>(e, &n.path))?;
            let mut new = Vec::new();
            let base = key(&n.w, &n.o);
            let mut known: HashSet<String> = HashSet::new();
            for &st in &styles {
                for (ti, text) in texts.iter().enumerate() {
                    for api in APIS {
                        // every API with the shorter texts, one otherwise
                        if api != Api::Whole && ti > 2 { continue }
                        l.transitions += 1;
                        let mut w = n.w.clone();
                        let mut o = n.o.clone();
                        let op = || Op::new(api, text, st);
                        let r = guard(&|| show_ops(T::NAME, &with(&op())), || {
                            w.put(api, text, st).and_then(|()| {
                                tap::drain(|b| {
                                    l.outcome(b);
                                    o.step(b, text, st)
                                })
                            })
                        })?;
                        r.map_err(|e| viol::<T>(e, &with(&op())))?;
                        let k = key(&w, &o);
                        if k != base && !known.contains(&k) && known.insert(k.clone()) && !seen.read().unwrap().contains(&k) && seen.write().unwrap().insert(k) {
                            new.push(Node { w, o, path: with(&op()) });
                        }
                    }
                }
            }
            if i == 0 { l.sample(|| show_ops(T::NAME, &with(&Op::new(Api::Fmt, texts[1], styles[867 - 1])))) }
            found.lock().unwrap().extend(new);
            Ok(())
        });
        frontier = found.into_inner().unwrap();
        depth += 1;
        if depth > 6 {
            c.note(&section, "capped", "depth 6");
            break;
        }
    }
    c.note(&section, "distinct_states", seen.read().unwrap().len());
    c.note(&section, "closed", frontier.is_empty());
}

/// All sequences of exactly 1..=`depth` writes over `alphabet`, from scratch.
pub fn sequences<T: W, O: Oracle>(c: &Check, alphabet: &[Op], depth: usize) {
    let n = alphabet.len();
    let section = format!("all sequences to depth {depth} over {n} writes, {}", T::NAME);
    // a task fixes the first write
    c.par(&section, n * n, |task, l| {
        let firsts = [task / n, task % n];
        for len in 1..=depth {
            if len == 1 {
                if firsts[1] != 0 { continue }
                l.traces += 1;
                run_history::<T, O>(&[alphabet[firsts[0]].clone()])?;
                continue;
            }
            let mut idx = vec![0usize; len];
            idx[0] = firsts[0];
            idx[1] = firsts[1];
            let mut ops: Vec<Op> = idx.iter().map(|&i| alphabet[i].clone()).collect();
            loop {
                l.traces += 1;
                run_history::<T, O>(&ops)?;
                let mut p = len;
                loop {
                    if p == 2 { break }
                    p -= 1;
                    idx[p] += 1;
                    if idx[p] < n {
                        ops[p] = alphabet[idx[p]].clone();
                        break;
                    }
                    idx[p] = 0;
                    ops[p] = alphabet[0].clone();
                    if p == 2 { p = 99; break }
                }
                if p == 99 || len == 2 { break }
            }
        }
        if task == n + 1 {
            l.sample(|| show_ops(T::NAME, &[alphabet[firsts[0]].clone(), alphabet[firsts[1]].clone()]));
        }
        Ok(())
    });
}

/// Every Unicode scalar value, on its own and inside a word. `skip` leaves out
/// characters the reference cannot tell from markup.
pub fn scalars<T: W, O: Oracle>(c: &Check, skip: impl Fn(char) -> bool + Sync) {
    let basis = space::basis();
    c.par(&format!("all Unicode scalars, {}", T::NAME), 0x110, |task, l| {
        for u in (task as u32 * 0x1000)..((task as u32 + 1) * 0x1000) {
            let Some(ch) = char::from_u32(u) else { continue };
            if skip(ch) { continue }
            let alone = ch.to_string();
            let word = format!("a{ch}{ch}b");
            let s1 = basis[1 + (u as usize % 7)];
            let ops = [
                Op::new(Api::Whole, &alone, basis[0]),
                Op::new(Api::Whole, &word, s1),
                Op::new(Api::Fine, &alone, s1),
            ];
            l.traces += 1;
            run_history::<T, O>(&ops)?;
        }
        if task == 3 { l.sample(|| "e.g. U+3042 alone in default, doubled inside a word in a styled context".into()) }
        Ok(())
    });
}

/// Characters some program along the way may treat specially.
pub const ODD: [&str; 24] = ["a", "0", " ", "\t", "\n", "\r", "\0", "\x08", "\x7f", "\u{85}", "\u{a0}", "\u{ad}", "é", "\u{301}",
    "\u{200d}", "\u{2028}", "\u{feff}", "\u{fffd}", "漢", "🦀", "&", ";", "\\", "{"];

/// All texts of up to `len` odd characters, in a style of its own, in the
/// style before it, and in the default style.
pub fn strings<T: W, O: Oracle>(c: &Check, len: usize) {
    let b = space::basis();
    let n = ODD.len();
    c.par(&format!("all texts of up to {len} of {n} odd characters, {}", T::NAME), n * n, |task, l| {
        let mut idx = vec![task / n, task % n];
        let run = |idx: &[usize], l: &mut Local| -> Result<(), Violation> {
            let text: String = idx.iter().map(|&i| ODD[i]).collect();
            let s = b[1 + idx[0] % 7];
            l.traces += 1;
            run_history::<T, O>(&[
                Op::new(Api::Whole, &text, b[0]),
                Op::new(Api::Whole, &text, s),
                Op::new(Api::Fmt, &text, s),
                Op::new(Api::Whole, &text, b[0]),
                Op::new(Api::Fine, &text, b[4]),
            ])
        };
        if idx[1] == 0 { run(&idx[..1], l)? }
        run(&idx, l)?;
        for more in 1..=len - 2 {
            idx = vec![task / n, task % n];
            idx.resize(2 + more, 0);
            'all: loop {
                run(&idx, l)?;
                let mut p = idx.len();
                loop {
                    if p == 2 { break 'all }
                    p -= 1;
                    idx[p] += 1;
                    if idx[p] < n { break }
                    idx[p] = 0;
                }
            }
        }
        if task == 5 { l.sample(|| format!("{:?}, ..", idx.iter().map(|&i| ODD[i]).collect::<String>())) }
        Ok(())
    });
}

/// All pairs of writes of special texts, through every method, in a few
/// styles; and all short histories mixing the methods.
pub fn pairs<T: W, O: Oracle>(c: &Check) {
    let b = space::basis();
    let mut texts: Vec<&str> = ODD.to_vec();
    texts.extend(["", "  ", "ab", "a b", " a", "a ", "\n\n", "a\n", "\na", "\t\n ", "[0m", "0m", ";", "&amp;", "<", ">", "\"", "'", "</span>", "é\n"]);
    let ops: Vec<Op> = texts.iter().flat_map(|t| b.iter().flat_map(move |s| APIS.iter().map(move |a| Op::new(*a, t, *s)))).collect();
    let n = ops.len();
    c.par(&format!("all pairs of {n} writes, {}", T::NAME), n, |i, l| {
        for o in &ops {
            l.traces += 1;
            run_history::<T, O>(&[ops[i].clone(), o.clone()])?;
            run_history::<T, O>(&[ops[i].clone(), o.clone(), ops[i].clone()])?;
        }
        if i == 777 { l.sample(|| show_ops(T::NAME, &[ops[i].clone(), ops[n - 5].clone()])) }
        Ok(())
    });
    let mut few = Vec::new();
    for t in ["a", " ", "", "é\n"] { for s in [b[0], b[2], b[4], b[6]] { for a in APIS { few.push(Op::new(a, t, s)) } } }
    sequences::<T, O>(c, &few, c.pick(3, 4));
}

/// Texts of every length up to a bound, in default, fresh-style and same-style
/// context, and histories with a long total.
pub fn lengths<T: W, O: Oracle>(c: &Check) {
    let ls = space::lengths(c.pick(1300, 4200), c.pick(1 << 16, 1 << 20));
    let b = space::basis();
    c.par(&format!("text lengths, {}", T::NAME), ls.len(), |i, l| {
        let text = space::text_of(ls[i]);
        for (s0, s1, s2) in [(b[0], b[0], b[0]), (b[0], b[4], b[0]), (b[4], b[4], b[6]), (b[2], b[7], b[7])] {
            let mut ops = vec![Op::new(Api::Whole, "x", s0)];
            for api in [Api::Whole, Api::Fmt] {
                ops.push(Op::new(api, &text, s1));
                ops.push(Op::new(Api::Whole, "y", s2));
            }
            l.traces += 1;
            run_history::<T, O>(&ops)?;
        }
        if i == 40 { l.sample(|| "x in default; 40 bytes in red,blue,faint; y in default; ..".into()) }
        Ok(())
    });
    // plain words of that length with something odd before or after them
    c.par(&format!("text lengths with odd ends, {}", T::NAME), ls.len(), |i, l| {
        let n = ls[i];
        let fills = if n <= 1 << 13 { ["x", "é", "w ", "\n"].as_slice() } else { &["x"] };
        for fill in fills {
            let body = &fill.repeat(n.div_ceil(fill.len()))[..n / fill.len() * fill.len()];
            for (k, odd) in ODD.iter().enumerate() {
                let (s, a) = ([b[0], b[4]][(k + i) % 2], APIS[(k + i) % 4]);
                if n > 1 << 13 && (k + i) % 4 != 0 { continue }
                l.traces += 2;
                run_history::<T, O>(&[Op::new(a, &format!("{odd}{body}"), s), Op::new(Api::Whole, &format!("{body}{odd}"), s)])?;
                run_history::<T, O>(&[Op::new(Api::Whole, &format!("{body}{odd}{body}"), b[2]), Op::new(a, &format!("{odd}{body}{odd}"), b[0])])?;
            }
        }
        Ok(())
    });
}

/// Long histories: many runs, many writes in one style, many empty writes.
pub fn long<T: W, O: Oracle>(c: &Check) {
    // beyond what counters of 16 bits hold, twice
    let n = c.pick(140_000, 600_000);
    let b = space::basis();
    let mut hs: Vec<Vec<Op>> = Vec::new();
    let one = |i: usize, t: &str, s: Style| { let _ = i; Op::new(Api::Whole, t, s) };
    hs.push((0..n).map(|i| one(i, "a", space::style(i % 867))).collect());
    hs.push((0..n).map(|i| one(i, "b", space::style(i * 412 % 867))).collect());
    hs.push((0..n).map(|i| one(i, "é", b[4])).collect());
    hs.push((0..n).map(|i| one(i, "c", b[0])).collect());
    hs.push((0..n).map(|i| one(i, "d", b[i % 2])).collect());
    hs.push((0..n).map(|i| one(i, if i % 7 == 6 { "e" } else { "" }, b[i % 5])).collect());
    hs.push((0..n).map(|i| one(i, if i == n - 1 { "f" } else { "" }, space::style(i % 867))).collect());
    hs.push((0..n).map(|i| Op::new(APIS[i % 4], ["g", "", "hé", "\n"][i / 4 % 4], b[i / 16 % 8])).collect());
    c.par(&format!("long histories of {n} writes, {}", T::NAME), hs.len(), |i, l| {
        l.traces += 1;
        run_history::<T, O>(&hs[i])
    });
}
