//! C06: output depends only on the styled characters, not on their chunking.
use mc::report::{guard, Check, Local, Violation};
use mc::space;
use mc::tap;
use mc::writers::*;
use std::collections::HashSet;
use std::sync::{Mutex, RwLock};
use stylish::{io, Ansi, Html, Plain, Style};

fn put<T: W>(w: &mut T, api: Api, t: &str, s: Style) -> Result<Vec<u8>, String> {
    tap::clear();
    w.put(api, t, s)?;
    Ok(tap::take())
}

fn end<T: W>(w: T) -> Result<Vec<u8>, String> {
    tap::clear();
    w.end()?;
    Ok(tap::take())
}

fn v<T: W>(what: String, a: &[Op], b: &[Op]) -> Violation {
    Violation::new(format!("{}: {what}", T::NAME), format!("{}\nversus {}", show_ops("first", a), show_ops("second", b)))
        .repro(format!("{}\n// versus\n{}", repro_ops::<T>(a), repro_ops::<T>(b)))
}

fn lossy(b: &[u8]) -> String {
    String::from_utf8_lossy(b).into_owned()
}

/// Product search over two writers given the same styled characters, the
/// first one character at a time, the second merged and with empty writes.
fn bisim<T: W>(c: &Check) {
    struct Node<T> {
        a: T,
        b: T,
        pa: Vec<Op>,
        pb: Vec<Op>,
    }
    let styles = space::all();
    let section = format!("bisimulation {}", T::NAME);
    let seen = RwLock::new(HashSet::new());
    let key = |a: &T, b: &T| format!("{a:?}|{b:?}");
    // what a character looks like when no styling is due
    let bare = |t: &str| end::<T>({ let mut w = T::new(); put(&mut w, Api::Whole, t, Style::default()).unwrap(); w })
        .map(|_| put(&mut T::new(), Api::Whole, t, Style::default()).unwrap()).unwrap();
    let bare_c = bare("c");
    let bare_lt = bare("<");
    let start = Node { a: T::new(), b: T::new(), pa: vec![], pb: vec![] };
    seen.write().unwrap().insert(key(&start.a, &start.b));
    let mut frontier = vec![start];
    let mut depth = 0;
    while !frontier.is_empty() && !c.failed() && !c.out_of_time() {
        let found = Mutex::new(Vec::new());
        c.par(&format!("{section} depth {depth}"), frontier.len(), |i, l: &mut Local| {
            let n = &frontier[i];
            l.states += 1;
            let ex = |p: &[Op], ops: &[Op]| -> Vec<Op> { p.iter().chain(ops).cloned().collect() };
            let check = |ops_a: &[Op], ops_b: &[Op], silent: bool, l: &mut Local| -> Result<(T, T), Violation> {
                l.transitions += 1;
                let (mut a, mut b) = (n.a.clone(), n.b.clone());
                let r = guard(&|| show_ops(T::NAME, &ex(&n.pb, ops_b)), || -> Result<(), String> {
                    let mut oa = Vec::new();
                    for o in ops_a { oa.extend(put(&mut a, o.api, &o.text, o.style)?) }
                    let mut ob = Vec::new();
                    for o in ops_b { ob.extend(put(&mut b, o.api, &o.text, o.style)?) }
                    if oa != ob {
                        return Err(format!("same styled characters give {:?} and {:?}", lossy(&oa), lossy(&ob)));
                    }
                    if silent && !ob.is_empty() {
                        return Err(format!("empty write emits {:?}", lossy(&ob)));
                    }
                    let (ea, eb) = (end(a.clone())?, end(b.clone())?);
                    if ea != eb {
                        return Err(format!("ending after the same styled characters gives {:?} and {:?}", lossy(&ea), lossy(&eb)));
                    }
                    Ok(())
                })?;
                r.map_err(|e| v::<T>(e, &ex(&n.pa, ops_a), &ex(&n.pb, ops_b)))?;
                Ok((a, b))
            };
            let mut new = Vec::new();
            let mut known: HashSet<String> = HashSet::new();
            let mut visit = |a: T, b: T, oa: &[Op], ob: &[Op]| {
                let k = key(&a, &b);
                if !known.contains(&k) && known.insert(k.clone()) && !seen.read().unwrap().contains(&k) && seen.write().unwrap().insert(k) {
                    new.push(Node { a, b, pa: ex(&n.pa, oa), pb: ex(&n.pb, ob) });
                }
            };
            let last = n.pa.iter().rev().find(|o| !o.text.is_empty()).map(|o| o.style).unwrap_or_default();
            for &s in &styles {
                let ch = |t: &str| Op::new(Api::Whole, t, s);
                let one = [ch("c")];
                let (a, b) = check(&one, &one, false, l)?;
                visit(a, b, &one, &one);
                for (oa, ob) in [
                    (vec![ch("c"), ch("<")], vec![ch("c<")]),
                    (vec![ch("é"), ch("漢")], vec![Op::new(Api::Fmt, "é漢", s)]),
                ] {
                    let (a, b) = check(&oa, &ob, false, l)?;
                    visit(a, b, &oa, &ob);
                }
                if !T::IO {
                    for api in APIS {
                        let e = [Op::new(api, "", s)];
                        let (a, b) = check(&[], &e, true, l)?;
                        visit(a, b, &[], &e);
                    }
                }
                if s == last {
                    // no styling between characters of one style
                    for (t, want) in [("c", &bare_c), ("<", &bare_lt)] {
                        let mut b = n.b.clone();
                        let r = guard(&|| show_ops(T::NAME, &n.pb), || put(&mut b, Api::Whole, t, s))?;
                        let got = r.map_err(|e| v::<T>(e, &n.pb, &n.pb))?;
                        if got != *want {
                            let h = ex(&n.pb, &[ch(t)]);
                            return Err(v::<T>(format!("character in the style of the previous one emits {:?}", lossy(&got)), &h, &h));
                        }
                    }
                }
            }
            if i == 0 { l.sample(|| format!("{} / {}", show_ops("a", &ex(&n.pa, &[Op::new(Api::Whole, "c", styles[9])])), show_ops("b", &ex(&n.pb, &[Op::new(Api::Fmt, "", styles[5])])))) }
            found.lock().unwrap().extend(new);
            Ok(())
        });
        frontier = found.into_inner().unwrap();
        depth += 1;
        if depth > 5 || frontier.len() > 100_000 {
            c.note(&section, "capped", format!("depth {depth}, frontier {}", frontier.len()));
            break;
        }
    }
    c.note(&section, "closed", frontier.is_empty());
}

fn run<T: W>(ops: &[Op]) -> Result<Vec<u8>, Violation> {
    let r = guard(&|| show_ops(T::NAME, ops), || {
        tap::clear();
        let mut w = T::new();
        for o in ops { w.put(o.api, &o.text, o.style)? }
        w.end().map(|()| tap::take())
    })?;
    r.map_err(|e| v::<T>(e, ops, ops))
}

fn same<T: W>(want: &[u8], cells: &[Op], ops: &[Op]) -> Result<(), Violation> {
    let got = run::<T>(ops)?;
    if got != want {
        return Err(v::<T>(format!("chunking changes the output: {:?} and {:?}", lossy(want), lossy(&got)), cells, ops));
    }
    Ok(())
}

const CHARS: [&str; 8] = ["a", "é", "<", "b", "漢", "&", "\n", "z"];

fn join(cells: &[Op], cuts: usize) -> Option<Vec<Op>> {
    // bit i of `cuts` set: no cut between cells i and i+1
    let mut ops: Vec<Op> = vec![cells[0].clone()];
    for i in 1..cells.len() {
        if cuts >> (i - 1) & 1 == 1 {
            if cells[i].style != cells[i - 1].style { return None }
            ops.last_mut().unwrap().text.push_str(&cells[i].text);
        } else {
            ops.push(cells[i].clone());
        }
    }
    Some(ops)
}

fn chunkings<T: W>(c: &Check) {
    let b = space::basis();
    let pal = [b[0], b[4], b[2], b[7]];
    let len = c.pick(7, 8);
    let n = pal.len().pow(len as u32);
    c.par(&format!("all chunkings of all {len}-cell texts over {} styles, {}", pal.len(), T::NAME), n, |task, l| {
        let mut x = task;
        let cells: Vec<Op> = (0..len).map(|i| { let s = pal[x % 4]; x /= 4; Op::new(Api::Whole, CHARS[i], s) }).collect();
        let want = run::<T>(&cells)?;
        l.outcome(&want);
        for cuts in 1..1usize << (len - 1) {
            let Some(mut ops) = join(&cells, cuts) else { continue };
            l.traces += 1;
            same::<T>(&want, &cells, &ops)?;
            let api = APIS[cuts % 4];
            for o in &mut ops { o.api = api }
            same::<T>(&want, &cells, &ops)?;
        }
        if task == 21 { l.sample(|| show_ops(T::NAME, &cells)) }
        Ok(())
    });
    if T::IO { return }
    let len = 4;
    let n = pal.len().pow(len as u32);
    c.par(&format!("all chunkings with up to two empty writes inserted, {}", T::NAME), n, |task, l| {
        let mut x = task;
        let cells: Vec<Op> = (0..len).map(|i| { let s = pal[x % 4]; x /= 4; Op::new(Api::Whole, CHARS[i], s) }).collect();
        let want = run::<T>(&cells)?;
        for cuts in 0..1usize << (len - 1) {
            let Some(ops) = join(&cells, cuts) else { continue };
            for p1 in 0..=ops.len() { for s1 in pal {
                let mut one = ops.clone();
                one.insert(p1, Op::new(APIS[(p1 + cuts) % 4], "", s1));
                l.traces += 1;
                same::<T>(&want, &cells, &one)?;
                for p2 in p1..=one.len() { for s2 in pal {
                    let mut two = one.clone();
                    two.insert(p2, Op::new(APIS[(p2 + 1) % 4], "", s2));
                    l.traces += 1;
                    same::<T>(&want, &cells, &two)?;
                } }
            } }
        }
        Ok(())
    });
}

fn long<T: W>(c: &Check) {
    let b = space::basis();
    let ls = space::lengths(c.pick(400, 1200), c.pick(1 << 14, 1 << 18));
    c.par(&format!("long texts whole, cut once anywhere, and character by character, {}", T::NAME), ls.len(), |i, l| {
        let text: String = space::text_of(ls[i]).replace('z', "<").replace('b', "&");
        if T::IO && text.is_empty() { return Ok(()) }
        for s in [b[0], b[4]] {
            let mk = |t: &str| Op::new(Api::Whole, t, s);
            let tail = Op::new(Api::Whole, "x", b[3]);
            let whole = [mk(&text), tail.clone()];
            let want = run::<T>(&whole)?;
            let mut chars: Vec<Op> = text.chars().map(|ch| mk(ch.encode_utf8(&mut [0; 4]))).collect();
            chars.push(tail.clone());
            l.traces += 1;
            same::<T>(&want, &whole, &chars)?;
            let mut fine = whole.clone();
            fine[0].api = Api::Fine;
            same::<T>(&want, &whole, &fine)?;
            let cut: Vec<usize> = text.char_indices().map(|x| x.0).collect();
            let step = if cut.len() > 450 { cut.len() / 40 } else { 1 };
            for &p in cut.iter().step_by(step) {
                if p == 0 { continue }
                l.traces += 1;
                same::<T>(&want, &whole, &[mk(&text[..p]), mk(&text[p..]), tail.clone()])?;
            }
        }
        Ok(())
    });
    // only default text: nothing but the text; only empty text: nothing
    c.par(&format!("default-only and empty-only histories, {}", T::NAME), 867, |i, l| {
        let s = space::style(i);
        let mut ops: Vec<Op> = Vec::new();
        for k in 0..40 {
            if !T::IO { ops.push(Op::new(APIS[k % 4], "", s)); }
            if k % 2 == 0 { ops.push(Op::new(APIS[k / 2 % 4], "ab", Style::default())); }
        }
        l.traces += 2;
        let got = run::<T>(&ops)?;
        if got != b"ab".repeat(20) {
            return Err(v::<T>(format!("default-styled text gives {:?}", lossy(&got)), &ops, &ops));
        }
        if !T::IO {
            ops.retain(|o| o.text.is_empty());
            let got = run::<T>(&ops)?;
            if !got.is_empty() {
                return Err(v::<T>(format!("empty writes give {:?}", lossy(&got)), &ops, &ops));
            }
        }
        Ok(())
    });
}

/// Every text of odd characters whole, and cut at each place.
fn odd<T: W>(c: &Check) {
    use mc::hist::ODD;
    let b = space::basis();
    let mut chars = ODD.to_vec();
    chars.extend(["<", ">", "[", "m", "\x1b"]);
    let n = chars.len();
    c.par(&format!("all texts of up to 3 of {n} odd characters, cut everywhere, {}", T::NAME), n * n, |task, l| {
        let (x, y) = (chars[task / n], chars[task % n]);
        for z in chars.iter().copied().chain([""]) {
            for (s0, s, s1) in [(b[0], b[0], b[0]), (b[0], b[4], b[0]), (b[4], b[4], b[4]), (b[2], b[6], b[1])] {
                let (pre, post) = (Op::new(Api::Whole, "q", s0), Op::new(Api::Whole, "r", s1));
                let whole = [pre.clone(), Op::new(Api::Whole, &[x, y, z].concat(), s), post.clone()];
                let want = run::<T>(&whole)?;
                for parts in [vec![x, y, z], vec![x, &[y, z].concat()], vec![&[x, y].concat(), z]] {
                    let api = APIS[(l.traces % 4) as usize];
                    let mut ops = vec![pre.clone()];
                    ops.extend(parts.iter().filter(|t| !T::IO || !t.is_empty()).map(|t| Op::new(api, t, s)));
                    ops.push(post.clone());
                    l.traces += 1;
                    same::<T>(&want, &whole, &ops)?;
                }
                let mut fine = whole.clone();
                for api in &APIS[1..] {
                    fine[1].api = *api;
                    l.traces += 1;
                    same::<T>(&want, &whole, &fine)?;
                }
                // and with the text before, when that is in the same style
                if space::same(s0, s) {
                    same::<T>(&want, &whole, &[Op::new(Api::Whole, &["q", x, y, z].concat(), s), post.clone()])?;
                    same::<T>(&want, &whole, &[Op::new(Api::Whole, &["q", x].concat(), s), Op::new(Api::Fmt, &[y, z].concat(), s), post.clone()])?;
                }
            }
        }
        if task == 5 { l.sample(|| format!("{:?} in default, red..", [x, y].concat())) }
        Ok(())
    });
}

fn all<T: W>(c: &Check) {
    odd::<T>(c);
    bisim::<T>(c);
    chunkings::<T>(c);
    long::<T>(c);
}

fn main() {
    let c = Check::start("C06", "model_checking");
    all::<Ansi<tap::Tap>>(&c);
    all::<Html<tap::Tap>>(&c);
    all::<Plain<tap::Tap>>(&c);
    all::<io::Ansi<tap::Tap>>(&c);
    all::<io::Plain<tap::Tap>>(&c);
    mc::entries::agree(&c, true);
    mc::entries::memory(&c, &[mc::entries::Kind::Ansi, mc::entries::Kind::Html, mc::entries::Kind::Plain]);
    c.finish(
        "states: distinct pairs of writers that have been given the same styled characters, chunked differently, expanded with every of 867 styles and every chunking variant (transitions); traces: stateless comparisons of two chunkings of the same styled characters",
        &["empty writes are left out for the byte-stream writers, which may emit the style change of an empty write"],
    )
}
