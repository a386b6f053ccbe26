//! C30: nothing is emitted beyond what a change of style needs.
use mc::report::{guard, Check, Violation};
use mc::space::{self, ci, ii};
use mc::tap;
use mc::writers::*;
use stylish::{io, Ansi, Html, Plain, Style};

/// What may come before a character: the previous style and the next one.
type Judge = fn(&str, Style, Style) -> Result<(), String>;

fn changed(a: Style, b: Style) -> (bool, bool, bool) {
    (ci(a.foreground) != ci(b.foreground), ci(a.background) != ci(b.background), ii(a.intensity) != ii(b.intensity))
}

/// At most one escape code, with at most one parameter for each aspect that
/// changes (two to go from one emphasis to the other), or a reset.
fn ansi(code: &str, a: Style, b: Style) -> Result<(), String> {
    let d = changed(a, b);
    if d == (false, false, false) {
        return if code.is_empty() { Ok(()) } else { Err("emits a code although the style does not change".into()) };
    }
    let params = code.strip_prefix("\x1b[").and_then(|x| x.strip_suffix('m')).ok_or("is not a single escape code")?;
    if params.is_empty() || params == "0" {
        return if space::index(b) == 0 { Ok(()) } else { Err("resets a style only to set it again".into()) };
    }
    let mut left = [d.0 as i32, d.1 as i32, if d.2 { 1 + (ii(a.intensity) != 0 && ii(b.intensity) != 0) as i32 } else { 0 }];
    for p in params.split(';') {
        let n: u32 = p.parse().map_err(|_| format!("has parameter {p:?}"))?;
        let i = match n {
            30..=39 | 90..=97 => 0,
            40..=49 | 100..=107 => 1,
            1 | 2 | 22 => 2,
            _ => return Err(format!("has parameter {p:?}, which belongs to no aspect that changes")),
        };
        left[i] -= 1;
        if left[i] < 0 { return Err(format!("parameter {p:?} is not needed")) }
    }
    Ok(())
}

/// One closing tag if a span is open, one opening tag if one is due.
fn html(code: &str, a: Style, b: Style) -> Result<(), String> {
    if changed(a, b) == (false, false, false) {
        return if code.is_empty() { Ok(()) } else { Err("emits markup although the style does not change".into()) };
    }
    let mut rest = code;
    if space::index(a) != 0 {
        rest = rest.strip_prefix("</span>").ok_or("does not close the open span first")?;
    }
    if space::index(b) == 0 {
        return if rest.is_empty() { Ok(()) } else { Err("emits more than the closing tag".into()) };
    }
    let decls = rest.strip_prefix("<span").and_then(|r| r.strip_suffix('>')).ok_or("does not open one span")?;
    if decls.contains(['<', '>']) { return Err("emits more than one opening tag".into()) }
    let n = changed(Style::default(), b);
    let n = n.0 as usize + n.1 as usize + n.2 as usize;
    if decls.matches(':').count() != n { return Err(format!("does not have {n} declarations")) }
    Ok(())
}

fn plain(code: &str, _: Style, _: Style) -> Result<(), String> {
    if code.is_empty() { Ok(()) } else { Err("emits something".into()) }
}

/// The output has to be the texts, each with what is due before it.
fn check<T: W>(ops: &[Op], judge: Judge) -> Result<(), Violation> {
    let show = || show_ops(T::NAME, ops);
    let v = |e: String| Violation::new(format!("{}: {e}", T::NAME), show()).repro(repro_ops::<T>(ops));
    let parts = guard(&show, || -> Result<Vec<String>, String> {
        tap::clear();
        let mut w = T::new();
        let mut parts = Vec::new();
        for op in ops {
            w.put(op.api, &op.text, op.style)?;
            parts.push(String::from_utf8(tap::take()).map_err(|_| "output is not UTF-8")?);
        }
        w.end()?;
        parts.push(String::from_utf8(tap::take()).map_err(|_| "output is not UTF-8")?);
        // one that is not finished but left alone
        let mut w = T::new();
        for op in ops { w.put(op.api, &op.text, op.style)? }
        tap::clear();
        drop(w);
        let more = tap::take();
        if !more.is_empty() { return Err(format!("dropped without being finished, it emits {:?}", String::from_utf8_lossy(&more))) }
        Ok(parts)
    })?.map_err(v)?;
    let mut was = Style::default();
    for (i, (op, got)) in ops.iter().zip(&parts).enumerate() {
        let (code, now) = if op.text.is_empty() { (got.as_str(), was) }
            else { (got.strip_suffix(&op.text).ok_or_else(|| v(format!("write {i} emits {got:?}, which does not end with the text")))?, op.style) };
        judge(code, was, now).map_err(|e| v(format!("write {i}: {code:?} {e}")))?;
        was = now;
    }
    let last = parts.last().unwrap();
    judge(last, was, Style::default()).map_err(|e| v(format!("finishing: {last:?} {e}")))
}

fn all<T: W>(c: &Check, judge: Judge) {
    c.par(&format!("all changes from one style to another, {}", T::NAME), space::N, |i, l| {
        let a = space::style(i);
        l.states += 1;
        for j in 0..space::N {
            let b = space::style(j);
            l.transitions += 1;
            // from the start, again, to the next and back
            check::<T>(&[Op::new(Api::Whole, "k", a), Op::new(Api::Fmt, "l", a), Op::new(Api::Whole, "n", b), Op::new(Api::Dyn, "o", a)], judge)?;
        }
        if i == 70 { l.sample(|| format!("{}: \"k\" and \"l\" in [{}], then \"n\" in any style, then \"o\" in the first", T::NAME, space::show(a))) }
        Ok(())
    });
    // every history of a few styles
    let b = space::basis();
    let depth = c.pick(5, 7);
    c.par(&format!("all histories of {depth} writes in 8 styles, {}", T::NAME), 8 * 8, |task, l| {
        let mut idx = vec![0; depth];
        (idx[0], idx[1]) = (task / 8, task % 8);
        'all: loop {
            l.traces += 1;
            let ops: Vec<Op> = idx.iter().enumerate().map(|(k, &i)| {
                // every third write is empty where that is nothing at all
                let t = if !T::IO && (k + i) % 3 == 2 { "" } else { ["p", "qu", "\n"][k % 3] };
                Op::new(APIS[(i + k) % 4], t, b[i])
            }).collect();
            check::<T>(&ops, judge)?;
            let mut p = depth;
            loop {
                if p == 2 { break 'all }
                p -= 1;
                idx[p] += 1;
                if idx[p] < 8 { break }
                idx[p] = 0;
            }
        }
        Ok(())
    });
    // odd characters wherever they stand in a text
    let odd: Vec<&str> = mc::hist::ODD.iter().copied().chain(["[", "m", "x"]).filter(|c| *c != "&" || T::NAME != "Html").collect();
    let n = odd.len();
    c.par(&format!("all texts of up to 3 of {n} odd characters, {}", T::NAME), n * n, |t, l| {
        let first = [odd[t / n], odd[t % n]].concat();
        let mut texts: Vec<String> = odd.iter().map(|z| [first.as_str(), z].concat()).collect();
        texts.push(first);
        if t % n == 0 { texts.push(odd[t / n].into()) }
        for (i, x) in texts.iter().enumerate() {
            for k in 0..8 {
                l.traces += 1;
                let api = |j: usize| APIS[[0, 2, 3][(i + j + k) % 3]];
                check::<T>(&[Op::new(api(0), "p", b[(k + 3) % 8]), Op::new(api(1), x, b[k]), Op::new(api(2), x, b[k]), Op::new(api(0), "q", b[(k + t + 1) % 8])], judge)?;
            }
        }
        if t == 33 { l.sample(|| format!("{:?}", texts[0])) }
        Ok(())
    });
    let ls = space::lengths(300, c.pick(1 << 14, 1 << 17));
    c.par(&format!("lengths, {}", T::NAME), ls.len(), |i, l| {
        let n = ls[i];
        let t = "word\n".repeat(n / 5 + 1)[..n].to_string();
        l.traces += 2;
        check::<T>(&[Op::new(Api::Whole, &t, b[0]), Op::new(Api::Whole, &t, b[4]), Op::new(Api::Fmt, &t, b[4]), Op::new(Api::Whole, &t, b[6])], judge)?;
        // that many writes in one style, and in two by turns
        if n < 2000 {
            let mut ops: Vec<Op> = (0..n).map(|_| Op::new(Api::Whole, "m", b[5])).collect();
            ops.extend((0..n).map(|k| Op::new(Api::Whole, "m", b[k % 2 * 3])));
            check::<T>(&ops, judge)?;
        }
        Ok(())
    });
}

fn main() {
    let c = Check::start("C30", "model_checking");
    all::<Ansi<tap::Tap>>(&c, ansi);
    all::<io::Ansi<tap::Tap>>(&c, ansi);
    all::<Html<tap::Tap>>(&c, html);
    all::<Plain<tap::Tap>>(&c, plain);
    all::<io::Plain<tap::Tap>>(&c, plain);
    mc::entries::agree(&c, true);
    mc::entries::memory(&c, &[mc::entries::Kind::Ansi, mc::entries::Kind::Html, mc::entries::Kind::Plain]);
    c.finish("states: styles; transitions: all ordered pairs of styles, written as first, same, next and previous style; traces: all histories to a depth and long histories. What is emitted is counted code by code", &[])
}
