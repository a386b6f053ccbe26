//! C09: an attributed string records and replays every character's style.
use mc::hist::ODD;
use mc::prog::{show_cells, Cells, Rec};
use mc::report::{guard, Check, Local, Violation};
use mc::space;
use mc::writers::*;
use stylish::{Style, Write};

/// Displays in context `ctx` and returns what a recording writer gets.
fn replay(s: &stylish::String, ctx: Style) -> Result<Cells, String> {
    struct In<'a>(&'a stylish::String, Style);
    impl stylish::Display for In<'_> {
        fn fmt(&self, f: &mut stylish::Formatter<'_>) -> stylish::Result {
            stylish::Display::fmt(self.0, &mut f.with(self.1))
        }
    }
    let mut rec = Rec::default();
    stylish::write!(rec, "{:s}", In(s, ctx)).map_err(|_| "displaying fails".to_string())?;
    Ok(rec.cells)
}

fn apply(s: &mut stylish::String, op: &Op) -> Result<(), String> {
    match op.api {
        Api::Whole => s.write_str(&op.text, op.style),
        Api::Fine => op.text.chars().try_for_each(|c| s.write_char(c, op.style)),
        Api::Fmt => stylish::write!(s, "{:s}", Piece(&op.text, op.style)),
        Api::Dyn => { let d: &mut dyn Write = s; d.write_str(&op.text, op.style) }
    }.map_err(|_| "writing fails".to_string())
}

fn cells(ops: &[Op]) -> Cells {
    ops.iter().flat_map(|o| o.text.chars().map(|c| (c, o.style))).collect()
}

fn bad(what: String, ops: &[Op]) -> Violation {
    let mut r = String::from("#[test]\nfn replay() {\n    use stylish::Write as _;\n    let mut s = stylish::String::new();\n");
    for o in ops.iter().take(60) { r += &format!("    s.write_str({:?}, {}).unwrap();\n", o.text, space::src(o.style)); }
    r += "    println!(\"{:?}\", stylish::ansi::format!(\"{:s}\", s));\n}\n";
    Violation::new(what, show_ops("attributed string", ops)).repro(r)
}

fn expect(got: &Cells, want: &Cells, what: &str, ops: &[Op]) -> Result<(), Violation> {
    if got != want {
        return Err(bad(format!("{what}: shows {} instead of {}", show_cells(got), show_cells(want)), ops));
    }
    Ok(())
}

/// One history: build, replay after every step in several contexts, clone in
/// the middle and let the clone go its own way.
fn history(ops: &[Op], l: &mut Local) -> Result<(), Violation> {
    let ctxs = [space::basis()[0], space::basis()[6]];
    l.traces += 1;
    let r = guard(&|| show_ops("attributed string", ops), || -> Result<_, String> {
        let mut s = stylish::String::new();
        let mut shown = Vec::new();
        let mut clone: Option<stylish::String> = None;
        for (i, op) in ops.iter().enumerate() {
            apply(&mut s, op)?;
            if i == ops.len() / 2 { clone = Some(s.clone()) }
            shown.push((i, replay(&s, ctxs[i % 2])?));
        }
        let mut clone = clone.unwrap_or_default();
        let extra = Op::new(Api::Whole, "!é", space::style(17));
        apply(&mut clone, &extra)?;
        let fin = [replay(&s, ctxs[0])?, replay(&s, ctxs[1])?, replay(&s, ctxs[1])?];
        let cl = replay(&clone, ctxs[0])?;
        let after = replay(&s, ctxs[0])?;
        Ok((shown, fin, cl, after))
    })?;
    let (shown, fin, cl, after) = r.map_err(|e| bad(e, ops))?;
    for (i, got) in &shown {
        expect(got, &cells(&ops[..=*i]), "after a write", &ops[..=*i])?;
    }
    let want = cells(ops);
    for f in &fin { expect(f, &want, "displayed again", ops)? }
    expect(&after, &want, "after its clone was extended", ops)?;
    let mut wc = if ops.is_empty() { vec![] } else { cells(&ops[..=ops.len() / 2]) };
    wc.extend([('!', space::style(17)), ('é', space::style(17))]);
    expect(&cl, &wc, "clone", ops)
}

fn main() {
    let c = Check::start("C09", "model_checking");
    let b = space::basis();
    // state machine over (last style, pending empties): every style to every style
    c.par("every pair of styles, with and without empty writes between", 867, |i, l| {
        l.states += 1;
        for j in 0..867 {
            let (s, t) = (space::style(i), space::style(j));
            l.transitions += 1;
            let e = |k| Op::new(Api::Whole, "", space::style(k));
            for ops in [
                vec![Op::new(Api::Whole, "é", s), Op::new(Api::Fmt, "b", t)],
                vec![e(i), Op::new(Api::Whole, "a", t), e(j), Op::new(Api::Fine, "漢", s), e(0)],
            ] {
                history(&ops, l)?;
            }
        }
        Ok(())
    });
    // all histories
    let mut alpha = Vec::new();
    for s in [b[0], b[1], b[4], b[2]] { for t in ["a", "", "é漢", "x\ny"] { alpha.push((t, s)) } }
    let n = alpha.len();
    let depth = c.pick(5usize, 6usize);
    c.par(&format!("all histories to depth {depth} over {n} writes"), n * n, |t, l| {
        for len in 1..=depth {
            if len == 1 && t % n != 0 { continue }
            let mut idx = vec![0; len.saturating_sub(2)];
            loop {
                let mut ops = vec![t / n];
                if len > 1 { ops.push(t % n) }
                ops.extend(&idx);
                let ops: Vec<Op> = ops.iter().enumerate().map(|(k, &i)| Op::new(APIS[(k + i) % 4], alpha[i].0, alpha[i].1)).collect();
                l.states += 1;
                l.transitions += 1;
                history(&ops, l)?;
                if l.states == 999 { l.sample(|| show_ops("attributed string", &ops)) }
                let mut p = idx.len();
                loop {
                    if p == 0 { break }
                    p -= 1;
                    idx[p] += 1;
                    if idx[p] < n { p = 99; break }
                    idx[p] = 0;
                }
                if p != 99 { break }
            }
        }
        Ok(())
    });
    // odd texts after every short history, empty writes among it
    let odd: Vec<String> = ODD.iter().map(|x| x.to_string()).chain(ODD.iter().flat_map(|x| ODD.iter().map(move |y| [*x, *y].concat()))).collect();
    let st = [b[0], b[1], b[4], b[2]];
    let before: Vec<Op> = st.iter().flat_map(|s| ["", "a"].map(|t| Op::new(Api::Whole, t, *s))).collect();
    c.par("odd texts after every history of up to two writes, of which some are empty", odd.len(), |i, l| {
        for k in 0..73 {
            let pre: Vec<Op> = match k { 0 => vec![], 1..=8 => vec![before[k - 1].clone()], _ => vec![before[(k - 9) / 8].clone(), before[(k - 9) % 8].clone()] };
            for (j, s) in st.iter().enumerate() {
                if i >= 24 && !c.thorough() && (i + j + k) % 2 != 0 { continue }
                let mut ops = pre.clone();
                ops.push(Op::new(APIS[(i + j + k) % 4], &odd[i], *s));
                if (i + k) % 3 == 0 { ops.push(before[(i + j) % 8].clone()) }
                history(&ops, l)?;
            }
        }
        l.states += 1;
        Ok(())
    });
    // lengths of runs, numbers of runs
    let ls = space::lengths(c.pick(600, 2000), c.pick(1 << 16, 1 << 20));
    c.par("run lengths", ls.len(), |i, l| {
        let text = space::text_of(ls[i]);
        for pre in ["", "é"] {
            history(&[Op::new(Api::Whole, pre, b[0]), Op::new(Api::Whole, &text, b[4]), Op::new(Api::Whole, "", b[1]), Op::new(Api::Whole, &text, b[2]), Op::new(Api::Whole, "z", b[2])], l)?;
        }
        Ok(())
    });
    let runs = c.pick(400, 1200);
    c.par("numbers of runs", runs, |n, l| {
        for k in 0..3usize {
            let ops: Vec<Op> = (0..n).map(|i| {
                let t = ["a", "é", "", "漢🦀"][if k == 2 { i % 4 } else { i % 2 }];
                Op::new(Api::Whole, t, if k == 0 { b[i % 2] } else { space::style((i * 7 + k) % 867) })
            }).collect();
            // replaying after every step is quadratic; sample lengths fully
            let r = guard(&|| show_ops("attributed string", &ops), || -> Result<_, String> {
                let mut s = stylish::String::new();
                for op in &ops { apply(&mut s, op)?; }
                Ok((replay(&s, b[0])?, replay(&s.clone(), b[6])?))
            })?;
            let (x, y) = r.map_err(|e| bad(e, &ops))?;
            l.traces += 2;
            let want = cells(&ops);
            expect(&x, &want, "displayed", &ops)?;
            expect(&y, &want, "clone displayed", &ops)?;
        }
        Ok(())
    });
    // strings of strings: appended to itself and to others, doubling
    c.par("strings appended to strings", 64, |t, l| {
        let mut s = stylish::String::new();
        let mut want: Cells = Vec::new();
        let mut log = String::new();
        for k in 0..c.pick(8, 11) {
            let st = b[(t + k) % 8];
            let text = ["a", "é", "", "x\n"][(t / 8 + k) % 4];
            let op = Op::new(Api::Whole, text, st);
            log.push_str(&show_ops("", std::slice::from_ref(&op)));
            let r = guard(&|| log.clone(), || -> Result<_, String> {
                apply(&mut s, &op)?;
                let old = s.clone();
                stylish::write!(s, "{:(fg=green)s}|{:s}", old, old).map_err(|_| "writing fails")?;
                replay(&s, b[3])
            })?;
            l.traces += 1;
            want.extend(text.chars().map(|ch| (ch, st)));
            let old = want.clone();
            want.extend(&old);
            want.push(('|', b[0]));
            want.extend(old);
            let got = r.map_err(|e| Violation::new(e, log.clone()))?;
            if got != want {
                return Err(Violation::new(format!("string containing strings shows {} instead of {}", show_cells(&got), show_cells(&want)), log.clone()));
            }
        }
        Ok(())
    });
    c.par("every Unicode scalar", 0x110, |task, l| {
        for u in (task as u32 * 0x1000)..((task as u32 + 1) * 0x1000) {
            let Some(ch) = char::from_u32(u) else { continue };
            let t = format!("{ch}a{ch}");
            history(&[Op::new(Api::Whole, &t, b[1]), Op::new(Api::Fine, &t, b[2])], l)?;
        }
        Ok(())
    });
    c.par("all texts of up to 3 odd characters", ODD.len() * ODD.len(), |task, l| {
        let (x, y) = (ODD[task / ODD.len()], ODD[task % ODD.len()]);
        for z in ODD.iter().chain(&[""]) {
            let t = [x, y, z].concat();
            history(&[Op::new(Api::Whole, &t, b[0]), Op::new(Api::Whole, &t, b[1]), Op::new(Api::Fine, &t, b[1]), Op::new(Api::Fmt, &t, b[2])], l)?;
        }
        Ok(())
    });
    mc::entries::agree(&c, true);
    mc::entries::memory(&c, &[mc::entries::Kind::Ansi, mc::entries::Kind::Html, mc::entries::Kind::Plain]);
    c.finish(
        "states: styles a string can end in, and distinct histories; transitions: writes from them; traces: histories built from scratch, displayed after every write in several contexts, again, and from clones",
        &[],
    )
}
