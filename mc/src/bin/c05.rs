//! C05: all outputs agree on content and styling of the same data.
use mc::html;
use mc::prog::{self, Cells, Node, Rec};
use mc::report::{guard, Check, Local, Violation};
use mc::space;
use mc::vt;
use stylish::{Style, Write};

fn check(n: &Node, l: &mut Local) -> Result<(), Violation> {
    let mut want: Cells = Vec::new();
    if !n.denote(space::style(0), &mut want) { return Ok(()) }
    let bad = |what: String, body: &str| Violation::new(what, n.show()).repro(n.repro(body));
    let outs = |_: ()| {
        let mut plain = stylish::Plain::new(String::new());
        let r1 = stylish::write!(plain, "{:s}", n).is_ok();
        let mut ansi = stylish::Ansi::new(String::new());
        let r2 = stylish::write!(ansi, "{:s}", n).is_ok();
        let mut html = stylish::Html::new(String::new());
        let r3 = stylish::write!(html, "{:s}", n).is_ok();
        let mut ioplain = stylish::io::Plain::new(Vec::new());
        let r4 = stylish::write!(ioplain, "{:s}", n).is_ok();
        let mut ioansi = stylish::io::Ansi::new(Vec::new());
        let r5 = stylish::write!(ioansi, "{:s}", n).is_ok();
        let mut attr = stylish::String::new();
        let r6 = stylish::write!(attr, "{:s}", n).is_ok();
        let mut rec = Rec::default();
        let r7 = stylish::write!(rec, "{:s}", attr).is_ok();
        ([r1, r2, r3, r4, r5, r6, r7], plain.into_inner(), ansi.finish(), html.finish(), ioplain.into_inner(), ioansi.finish().ok(), rec.cells)
    };
    let a = guard(&|| n.show(), || outs(()))?;
    l.traces += 1;
    let (ok, plain, ansi, html, ioplain, ioansi, cells) = &a;
    if ok.contains(&false) || ansi.is_err() || html.is_err() || ioansi.is_none() {
        return Err(bad(format!("rendering fails (plain, ansi, html, io plain, io ansi, attributed, replay: {ok:?})"), ""));
    }
    let (ansi, html, ioansi) = (ansi.as_ref().unwrap(), html.as_ref().unwrap(), ioansi.as_ref().unwrap());
    l.outcome(ansi.as_bytes());
    let text: String = want.iter().map(|c| c.0).collect();
    if *plain != text {
        return Err(bad(format!("plain text is {plain:?} instead of {text:?}"), "println!(\"{:?}\", stylish::plain::format!(\"{:s}\", value));"));
    }
    if ioplain != text.as_bytes() {
        return Err(bad(format!("byte-stream plain text is {:?} instead of {text:?}", String::from_utf8_lossy(ioplain)), ""));
    }
    if *cells != want {
        return Err(bad(format!("attributed string has {} instead of {}", prog::show_cells(cells), prog::show_cells(&want)), "println!(\"{:?}\", stylish::format!(\"{:s}\", value));"));
    }
    let check_ansi = |bytes: &[u8], which: &str| -> Result<(), Violation> {
        let r = vt::render(bytes).and_then(|(shown, end)| {
            let w: Vec<_> = want.iter().map(|&(c, s)| (c, vt::rendition(s))).collect();
            if shown != w { return Err(format!("shows {shown:?} instead of {}", prog::show_cells(&want))) }
            if end != vt::PLAIN { return Err("leaves the terminal styled".into()) }
            Ok(())
        });
        r.map_err(|e| bad(format!("{which} {:?}: {e}", String::from_utf8_lossy(bytes)), "println!(\"{:?}\", stylish::ansi::format!(\"{:s}\", value));"))
    };
    check_ansi(ansi.as_bytes(), "ANSI")?;
    check_ansi(ioansi, "byte-stream ANSI")?;
    let shown = html::render(html.as_bytes()).map_err(|e| bad(format!("HTML {html:?}: {e}"), "println!(\"{:?}\", stylish::html::format!(\"{:s}\", value));"))?;
    if shown.len() != want.len() || shown.iter().zip(&want).any(|(a, b)| a.0 != b.0 || a.1 != html::expect(b.1)) {
        return Err(bad(format!("HTML {html:?} shows something else than {}", prog::show_cells(&want)), "println!(\"{:?}\", stylish::html::format!(\"{:s}\", value));"));
    }
    if ioansi != ansi.as_bytes() {
        return Err(bad(format!("byte-stream ANSI {:?} differs from ANSI {ansi:?}", String::from_utf8_lossy(ioansi)), ""));
    }
    // again
    let b = guard(&|| n.show(), || outs(()))?;
    if b.1 != a.1 || b.2 != a.2 || b.3 != a.3 || b.4 != a.4 || b.5 != a.5 || b.6 != a.6 {
        return Err(bad("rendering the same value again gives something else".into(), ""));
    }
    Ok(())
}

fn flat(c: &Check) {
    // every pair of styles in one value
    struct Two(Style, Style);
    impl stylish::Display for Two {
        fn fmt(&self, f: &mut stylish::Formatter<'_>) -> stylish::Result {
            f.with(self.0).write_str("a<")?;
            f.with(self.1).write_str("b")?;
            f.write_str("c")
        }
    }
    c.par("every pair of styles through every output", 867, |i, l| {
        for j in 0..867 {
            let (s, t) = (space::style(i), space::style(j));
            let v = Two(s, t);
            let show = || format!("\"a<\" in [{}], \"b\" in [{}], \"c\" in [default]", space::show(s), space::show(t));
            let (ansi, io, html, plain, attr) = guard(&show, || {
                let mut io = stylish::io::Ansi::new(Vec::new());
                let r = stylish::write!(io, "{:s}", v);
                assert!(r.is_ok());
                let mut rec = Rec::default();
                let _ = stylish::write!(rec, "{:s}", stylish::format!("{:s}", v));
                (stylish::ansi::format!("{:s}", v), io.finish().unwrap(), stylish::html::format!("{:s}", v), stylish::plain::format!("{:s}", v), rec.cells)
            })?;
            l.evaluations += 1;
            let want = [('a', s), ('<', s), ('b', t), ('c', Style::default())];
            let va = vt::render(ansi.as_bytes()).map_err(|e| Violation::new(format!("ANSI {ansi:?}: {e}"), show()))?;
            let h = html::render(html.as_bytes()).map_err(|e| Violation::new(format!("HTML {html:?}: {e}"), show()))?;
            let ok = va.0 == want.map(|c| (c.0, vt::rendition(c.1))) && va.1 == vt::PLAIN
                && h == want.map(|c| (c.0, html::expect(c.1)))
                && plain == "a<bc" && attr == want && io == ansi.as_bytes();
            if !ok {
                return Err(Violation::new(format!("outputs disagree: {ansi:?} {:?} {html:?} {plain:?} {}", String::from_utf8_lossy(&io), prog::show_cells(&attr)), show()));
            }
        }
        Ok(())
    });
}

/// One styled text.
struct P(&'static str, Style);
impl stylish::Display for P {
    fn fmt(&self, f: &mut stylish::Formatter<'_>) -> stylish::Result { f.with(self.1).write_str(self.0) }
}

/// The same pieces in one call and in a call each, through the methods of the
/// writers' own and those of the traits, to every output.
fn calls(c: &Check) {
    let b = space::basis();
    type Outs = Vec<(&'static str, Vec<u8>)>;
    fn outs(parts: &[P], each: bool, own: bool) -> Outs {
        let mut v: Outs = Vec::new();
        macro_rules! run {
            ($name:literal, $new:expr, $tr:path, $end:expr) => {{
                let mut w = $new;
                let mut ok = true;
                let mut one = |a: stylish::Arguments<'_>| ok &= if own { w.write_fmt(a).is_ok() } else { <_ as $tr>::write_fmt(&mut w, a).is_ok() };
                if each { for p in parts { one(stylish::format_args!("{:s}", p)) } }
                else {
                    match parts {
                        [p, q] => one(stylish::format_args!("{:s}{:s}", p, q)),
                        [p, q, r] => one(stylish::format_args!("{:s}{:s}{:s}", p, q, r)),
                        [p, q, r, s] => one(stylish::format_args!("{:s}{:s}{:s}{:s}", p, q, r, s)),
                        _ => unreachable!(),
                    }
                }
                let mut o: Vec<u8> = $end(w);
                if !ok { o.extend(b"(error)") }
                v.push(($name, o));
            }};
        }
        run!("Ansi", stylish::Ansi::new(String::new()), stylish::Write, |w: stylish::Ansi<String>| w.finish().unwrap().into_bytes());
        run!("io::Ansi", stylish::io::Ansi::new(Vec::new()), stylish::io::Write, |w: stylish::io::Ansi<Vec<u8>>| w.finish().unwrap());
        run!("Plain", stylish::Plain::new(String::new()), stylish::Write, |w: stylish::Plain<String>| w.into_inner().into_bytes());
        run!("io::Plain", stylish::io::Plain::new(Vec::new()), stylish::io::Write, |w: stylish::io::Plain<Vec<u8>>| w.into_inner());
        run!("Html", stylish::Html::new(String::new()), stylish::Write, |w: stylish::Html<String>| w.finish().unwrap().into_bytes());
        v
    }
    fn judge(parts: &[P], l: &mut Local) -> Result<(), Violation> {
        let show = || parts.iter().map(|p| format!("{:?} in [{}]", p.0, space::show(p.1))).collect::<Vec<_>>().join(", then ");
        let bad = |w: String| Violation::new(w, show());
        let mut all = guard(&show, || [(false, true), (true, true), (true, false), (false, false)].map(|(e, o)| outs(parts, e, o)))?;
        l.traces += 20;
        let first = std::mem::take(&mut all[0]);
        for (other, how) in all[1..].iter().zip(["a call each", "a call each of the trait", "one call of the trait"]) {
            for (a, b) in first.iter().zip(other) {
                if a != b {
                    return Err(bad(format!("{}: {how} gives {:?}, one call {:?}", a.0, String::from_utf8_lossy(&b.1), String::from_utf8_lossy(&a.1))));
                }
            }
        }
        let s = |i: usize| String::from_utf8_lossy(&first[i].1).into_owned();
        if first[0].1 != first[1].1 { return Err(bad(format!("Ansi gives {:?}, io::Ansi {:?}", s(0), s(1)))) }
        let want: Cells = parts.iter().flat_map(|p| p.0.chars().map(|c| (c, p.1))).collect();
        let text: String = want.iter().map(|c| c.0).collect();
        if first[2].1 != text.as_bytes() || first[3].1 != text.as_bytes() { return Err(bad(format!("plain text is {:?} and {:?}", s(2), s(3)))) }
        let (shown, end) = vt::render(&first[0].1).map_err(|e| bad(format!("ANSI {:?}: {e}", s(0))))?;
        if end != vt::PLAIN || !shown.iter().copied().eq(want.iter().map(|c| (c.0, vt::rendition(c.1)))) { return Err(bad(format!("ANSI is {:?}", s(0)))) }
        let page = html::render(&first[4].1).map_err(|e| bad(format!("HTML {:?}: {e}", s(4))))?;
        if page.len() != want.len() || page.iter().zip(&want).any(|(a, b)| a.0 != b.0 || a.1 != html::expect(b.1)) { return Err(bad(format!("HTML is {:?}", s(4)))) }
        Ok(())
    }
    c.par("several calls on every output, all pairs of styles", 867, |i, l| {
        for j in 0..867 {
            l.states += 1;
            let (s, t) = (space::style(i), space::style(j));
            judge(&[P("a", s), P("é<", t), P("c", if (i + j) % 2 == 0 { s } else { b[(i + j) / 2 % 8] })], l)?;
        }
        Ok(())
    });
    // all triples over styles that share and do not share each aspect
    let pal: Vec<Style> = {
        use stylish::{Color::*, Intensity::*};
        let mut v = Vec::new();
        for f in [Default, Red, BrightCyan] { for g in [Default, Blue, BrightBlack] { for i in [Normal, Bold, Faint] { v.push(space::mk(f, g, i)) } } }
        v
    };
    let n = pal.len();
    c.par("several calls on every output, all triples of 27 styles", n * n, |k, l| {
        for &t in &pal {
            l.states += 1;
            judge(&[P("a", pal[k / n]), P("b\n", pal[k % n]), P("&", t)], l)?;
            judge(&[P("\r\n", pal[k / n]), P("x", pal[k / n]), P("\n", pal[k % n]), P(" ", t)], l)?;
        }
        Ok(())
    });
}

fn main() {
    let c = Check::start("C05", "model_checking");
    let count = |n: &Node, l: &mut Local| { l.states += 1; l.transitions += n.size() as u64; check(n, l)?; if l.states == 77 { l.sample(|| n.show()) } Ok(()) };
    prog::full(false, true).programs(&c, "all programs over the full alphabet", c.pick(4, 5), count);
    prog::small(false, true).programs(&c, "all programs over the small alphabet", c.pick(6, 7), count);
    prog::odd(&c, "values", count);
    prog::specs(&c, "values", 300, false, count);
    calls(&c);
    mc::entries::explore(&c, mc::entries::Kind::Ansi, 3, mc::entries::ansi);
    mc::entries::explore(&c, mc::entries::Kind::Html, 3, mc::entries::html);
    mc::entries::explore(&c, mc::entries::Kind::Plain, 3, mc::entries::plain);
    mc::entries::memory(&c, &[mc::entries::Kind::Ansi, mc::entries::Kind::Html, mc::entries::Kind::Plain]);
    let deep = prog::deep(c.pick(500, 4000), true);
    c.par("deep and wide programs", deep.len(), |i, l| check(&deep[i], l));
    flat(&c);
    c.finish(
        "states: distinct formatter programs enumerated; transitions: formatter operations executed per output; traces: programs rendered twice through all six outputs, each compared with the denotation and with each other",
        &["alphabets of programs are those of mc/src/prog.rs"],
    )
}
