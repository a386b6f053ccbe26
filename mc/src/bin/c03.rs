//! C03: HTML output never lets text become markup.
use mc::hist::viol;
use mc::html;
use mc::report::{Check, Local, Violation, guard};
use mc::space;
use mc::tap::{self, Tap};
use mc::writers::*;
use stylish::Html;

type T = Html<Tap>;

/// Runs the history and checks the text and the markup of the whole output.
fn check(ops: &[Op], l: &mut Local) -> Result<(), Violation> {
    let r = guard(&|| show_ops(T::NAME, ops), || {
        tap::clear();
        let mut w = <T as W>::new();
        for o in ops { w.put(o.api, &o.text, o.style)? }
        w.end().map(|()| tap::take())
    })?;
    let out = r.map_err(|e| viol::<T>(e, ops))?;
    l.outcome(&out);
    let shown = html::render(&out).map_err(|e| viol::<T>(format!("{e}; output {:?}", String::from_utf8_lossy(&out)), ops))?;
    let text: String = shown.iter().map(|c| c.0).collect();
    let want: String = ops.iter().map(|o| o.text.as_str()).collect();
    if text != want {
        return Err(viol::<T>(format!("page shows {text:?} instead of {want:?}; output {:?}", String::from_utf8_lossy(&out)), ops));
    }
    l.traces += 1;
    if want.contains(['&', '<', '>', '"', '\'']) { l.nontrivial += 1 }
    Ok(())
}

const ALPHA: [&str; 13] = ["a", "&", "<", ">", "\"", "'", "m", "p", ";", "#", "x", "3", "/"];

fn main() {
    let c = Check::start("C03", "model_checking");
    let b = space::basis();
    let n = ALPHA.len();
    let len = c.pick(5, 6);
    mc::entries::explore(&c, mc::entries::Kind::Html, 3, mc::entries::html);
    mc::entries::memory(&c, &[mc::entries::Kind::Html]);
    // all strings, in default and styled context; a state is a prefix, a
    // transition appends a letter
    c.par(&format!("all strings to length {len} over {n} letters"), n * n * n, |task, l| {
        let pre = [ALPHA[task % n], ALPHA[task / n % n], ALPHA[task / n / n]].concat();
        let mut idx = vec![0usize; len - 3];
        loop {
            for k in 0..=idx.len() {
                // shorter strings once
                if k < idx.len() && idx[k..].iter().any(|&x| x != 0) { continue }
                let s = pre.clone() + &idx[..k].iter().map(|&i| ALPHA[i]).collect::<String>();
                l.states += 1;
                check(&[Op::new(Api::Whole, &s, b[0])], l)?;
                check(&[Op::new(Api::Whole, &s, b[4])], l)?;
                l.transitions += 2;
            }
            let mut p = idx.len();
            loop {
                if p == 0 { break }
                p -= 1;
                idx[p] += 1;
                if idx[p] < n { p = 99; break }
                idx[p] = 0;
            }
            if p != 99 { break }
        }
        if task == 100 { l.sample(|| format!("{pre:?} in default and in {}", space::show(b[4]))) }
        Ok(())
    });
    // all texts of tokens of markup and references
    const TOKENS: [&str; 20] = ["&", "<", ">", "\"", "'", ";", "a", " ", "&amp;", "&lt;", "&gt;", "&quot;", "&#x27;", "&#39;", "<b>", "</span>", "amp;", "lt;", "=", "\n"];
    let m = TOKENS.len();
    let len = c.pick(4, 5);
    c.par(&format!("all texts of up to {len} of {m} tokens"), m * m, |task, l| {
        for more in 0..=len - 2 {
            for x in 0..m.pow(more as u32) {
                let mut s = format!("{}{}", TOKENS[task % m], TOKENS[task / m]);
                let mut y = x;
                for _ in 0..more { s += TOKENS[y % m]; y /= m }
                let api = APIS[(x + task) % 4];
                check(&[Op::new(api, &s, b[(x + task) % 2 * 4])], l)?;
                check(&[Op::new(Api::Fmt, &s, b[1]), Op::new(api, &s, b[1])], l)?;
                l.states += 1;
                l.transitions += 2;
            }
        }
        Ok(())
    });
    // every split of the shorter strings, styles changing at the splits
    let len = c.pick(4, 5);
    let total = n.pow(len as u32);
    c.par(&format!("all splits of all strings of length {len}"), total / 13, |task, l| {
        for first in 0..n {
            let mut x = task;
            let mut cs = vec![ALPHA[first]];
            for _ in 1..len { cs.push(ALPHA[x % n]); x /= n; }
            for cuts in 0..1usize << (len - 1) {
                for alternate in [false, true] {
                    let mut ops: Vec<Op> = vec![Op::new(APIS[cuts % 4], cs[0], b[if alternate { 4 } else { 2 }])];
                    for i in 1..len {
                        if cuts >> (i - 1) & 1 == 0 { ops.last_mut().unwrap().text.push_str(cs[i]) }
                        else {
                            let st = if alternate { b[(ops.len() % 2) * 4 % 8] } else { b[2] };
                            ops.push(Op::new(APIS[cuts % 4], cs[i], st));
                        }
                    }
                    l.transitions += 1;
                    check(&ops, l)?;
                }
            }
        }
        Ok(())
    });
    // every special and its neighbours in all 867 styles, after all basis styles
    c.par("every special in every style", 867, |i, l| {
        let s = space::style(i);
        for t in ["&", "<", ">", "\"", "'", "&amp;", "<b>", "&#x3c;", "</span>", "a&", "&a", "a&b<c>d\"e'f"] {
            for &p in &b {
                for api in APIS {
                    check(&[Op::new(Api::Whole, "<", p), Op::new(api, t, s), Op::new(Api::Whole, ">", p)], l)?;
                }
            }
        }
        Ok(())
    });
    // every Unicode scalar next to specials
    c.par("all Unicode scalars next to specials", 0x110, |task, l| {
        for u in (task as u32 * 0x1000)..((task as u32 + 1) * 0x1000) {
            let Some(ch) = char::from_u32(u) else { continue };
            check(&[Op::new(Api::Whole, &format!("{ch}<{ch}&{ch}"), b[u as usize % 8])], l)?;
        }
        Ok(())
    });
    // one special at each position of texts of every length
    let max = c.pick(300, 700);
    c.par(&format!("one special at every position of texts up to {max} bytes"), max, |n, l| {
        let pads = ["a", "é", "漢"];
        for pad in pads {
            for pos in 0..=n {
                for sp in ["&", "<", ">", "\"", "'"] {
                    if n > 80 && !(sp == "<" || (n + pos) % 5 == 0) { continue }
                    let s = format!("{}{sp}{}", pad.repeat(pos), pad.repeat(n - pos));
                    check(&[Op::new(Api::Whole, &s, b[pos % 2 * 4])], l)?;
                }
            }
        }
        Ok(())
    });
    let ls = space::lengths(64, c.pick(1 << 16, 1 << 20));
    c.par("long texts", ls.len(), |i, l| {
        let n = ls[i];
        for s in [b[0], b[4]] {
            for t in ["<".repeat(n), "&a".repeat(n), format!("{}<", "a".repeat(n)), format!("<{}>", "a".repeat(n)), format!("{}&{}\"", "é".repeat(n), "b".repeat(n))] {
                check(&[Op::new(Api::Whole, &t, s)], l)?;
            }
        }
        Ok(())
    });
    c.finish(
        "states: distinct strings over the alphabet & < > \" ' a m p ; # x 3 / ; transitions: appending or splitting steps taken; traces: complete outputs read back by the HTML reader, which has to give the text and find no special character outside markup",
        &["markup is what mc/src/html.rs accepts: flat spans and character references"],
    )
}
