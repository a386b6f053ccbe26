//! C07: restyling sets exactly the aspects it names and composes in order.
use mc::report::{guard, Check, Local, Violation};
use mc::space::{self, COLORS, INTENSITIES};
use stylish::{Background, Color, Foreground, Intensity, Restyle, Style, StyleDiff};

/// Reference: what a restyling sets, aspect by aspect.
#[derive(Clone, Copy, Default, Debug, PartialEq)]
struct Sets {
    fg: Option<Color>,
    bg: Option<Color>,
    int: Option<Intensity>,
}

impl Sets {
    fn then(self, o: Sets) -> Sets {
        Sets { fg: o.fg.or(self.fg), bg: o.bg.or(self.bg), int: o.int.or(self.int) }
    }
    fn on(self, s: Style) -> (Color, Color, Intensity) {
        (self.fg.unwrap_or(s.foreground), self.bg.unwrap_or(s.background), self.int.unwrap_or(s.intensity))
    }
}

fn is<R: Restyle + ?Sized>(l: &mut Local, s: Style, r: &R, want: Sets, name: &dyn Fn() -> String) -> Result<(), Violation> {
    l.transitions += 1;
    let desc = || format!("{} applied to [{}]", name(), space::show(s));
    let got = guard(&desc, || {
        let a = r.apply(s);
        let b = s.with(r);
        (a, b)
    })?;
    let w = want.on(s);
    for g in [got.0, got.1] {
        if !space::same(g, space::mk(w.0, w.1, w.2)) {
            return Err(Violation::new(
                format!("gives [{}] instead of [{}]", space::show(g), space::show(space::mk(w.0, w.1, w.2))), desc())
                .repro(format!("// {}\nlet s = {};\nassert_eq!(s.with({}), {});", desc(), space::src(s), name(), space::src(space::mk(w.0, w.1, w.2)))));
        }
    }
    Ok(())
}

fn diff(d: Sets) -> StyleDiff {
    let mut x = StyleDiff::default();
    x.foreground = d.fg;
    x.background = d.bg;
    x.intensity = d.int;
    x
}

fn style_sets(s: Style) -> Sets {
    Sets { fg: Some(s.foreground), bg: Some(s.background), int: Some(s.intensity) }
}

/// Boxed restylings with their reference, for compositions.
fn basis() -> Vec<(Box<dyn Restyle + Send + Sync>, Sets, String)> {
    let mut v: Vec<(Box<dyn Restyle + Send + Sync>, Sets, String)> = vec![(Box::new(()), Sets::default(), "()".into())];
    for c in [Color::Default, Color::Red, Color::BrightCyan] {
        v.push((Box::new(Foreground(c)), Sets { fg: Some(c), ..Default::default() }, format!("Foreground({c:?})")));
        v.push((Box::new(Background(c)), Sets { bg: Some(c), ..Default::default() }, format!("Background({c:?})")));
    }
    for i in INTENSITIES {
        v.push((Box::new(i), Sets { int: Some(i), ..Default::default() }, format!("Intensity::{i:?}")));
    }
    for d in [
        Sets::default(),
        Sets { fg: Some(Color::Blue), bg: None, int: Some(Intensity::Bold) },
        Sets { fg: None, bg: Some(Color::Default), int: None },
        Sets { fg: Some(Color::Default), bg: Some(Color::Green), int: Some(Intensity::Normal) },
    ] {
        v.push((Box::new(diff(d)), d, format!("{d:?} as StyleDiff")));
    }
    for s in [space::basis()[0], space::basis()[4]] {
        v.push((Box::new(s), style_sets(s), format!("Style [{}]", space::show(s))));
    }
    v.push((Box::new(None::<Foreground>), Sets::default(), "None".into()));
    v.push((Box::new(Some(Foreground(Color::White))), Sets { fg: Some(Color::White), ..Default::default() }, "Some(Foreground(White))".into()));
    v.push((Box::new((Foreground(Color::Red), Foreground(Color::Black))), Sets { fg: Some(Color::Black), ..Default::default() }, "(Foreground(Red), Foreground(Black))".into()));
    v.push((Box::new((Intensity::Faint, Background(Color::Red), Intensity::Bold)), Sets { int: Some(Intensity::Bold), bg: Some(Color::Red), fg: None }, "(Faint, Background(Red), Bold)".into()));
    v
}

/// Restylings that depend on the style they are given.
#[derive(Clone, Copy)]
struct Next;
#[derive(Clone, Copy)]
struct Swap;
#[derive(Clone, Copy)]
struct By(u8);

fn next(s: Style, n: usize) -> Style {
    space::mk(COLORS[(space::ci(s.foreground) + n) % 17], s.background, INTENSITIES[(space::ii(s.intensity) + n) % 3])
}
fn swap(s: Style) -> Style { space::mk(s.background, s.foreground, s.intensity) }

impl Restyle for Next { fn apply(&self, s: Style) -> Style { next(s, 1) } }
impl Restyle for Swap { fn apply(&self, s: Style) -> Style { swap(s) } }
impl Restyle for By { fn apply(&self, s: Style) -> Style { next(s, self.0 as usize) } }

fn gives<R: Restyle + ?Sized>(l: &mut Local, s: Style, r: &R, want: Style, name: &dyn Fn() -> String) -> Result<(), Violation> {
    l.transitions += 1;
    let desc = || format!("{} applied to [{}] (Next turns foreground and intensity to the next ones, Swap exchanges the colours, By(n) is n times Next)", name(), space::show(s));
    for g in guard(&desc, || [r.apply(s), s.with(r), (&r).apply(s)])? {
        if !space::same(g, want) { return Err(Violation::new(format!("gives [{}] instead of [{}]", space::show(g), space::show(want)), desc())) }
    }
    Ok(())
}

/// Compositions whose elements see what the ones before them did.
fn dependent(c: &Check) {
    let top = c.pick(70, 300);
    c.par("compositions of restylings that depend on the style, every style", 867, |i, l| {
        let s = space::style(i);
        gives(l, s, &Next, next(s, 1), &|| "Next".into())?;
        gives(l, s, &Some(Swap), swap(s), &|| "Some(Swap)".into())?;
        gives(l, s, &Box::new(Next), next(s, 1), &|| "Box(Next)".into())?;
        gives(l, s, &(Next, Next), next(s, 2), &|| "(Next, Next)".into())?;
        gives(l, s, &(Next, Swap), swap(next(s, 1)), &|| "(Next, Swap)".into())?;
        gives(l, s, &(Swap, Next), next(swap(s), 1), &|| "(Swap, Next)".into())?;
        gives(l, s, &(Swap, Next, Swap), swap(next(swap(s), 1)), &|| "(Swap, Next, Swap)".into())?;
        gives(l, s, &(Next, Next, Next), next(s, 3), &|| "(Next, Next, Next)".into())?;
        gives(l, s, &(By(5), Swap, By(7)), next(swap(next(s, 5)), 7), &|| "(By(5), Swap, By(7))".into())?;
        gives(l, s, &((Next, Swap), (Next, Swap)), swap(next(swap(next(s, 1)), 1)), &|| "((Next, Swap), (Next, Swap))".into())?;
        gives(l, s, &(Foreground(Color::Red), Next), next(space::mk(Color::Red, s.background, s.intensity), 1), &|| "(Foreground(Red), Next)".into())?;
        gives(l, s, &(Next, space::style(200), Swap), swap(space::style(200)), &|| "(Next, a Style, Swap)".into())?;
        let pair = [(Next, Swap); 40];
        let opt = [Some(Next); 40];
        let mut half = [Some(Next); 40];
        for k in (0..40).step_by(3) { half[k] = None }
        let (mut a, mut o, mut h, mut by) = (s, s, s, s);
        let bys: Vec<By> = (0..top).map(|k| By(k as u8)).collect();
        let nexts = vec![Next; top];
        let refs: Vec<&dyn Restyle> = (0..top).map(|k| if k % 3 == 1 { &Swap as &dyn Restyle } else { &Next }).collect();
        let boxes: Vec<Box<dyn Restyle>> = (0..top).map(|k| if k % 3 == 1 { Box::new(Swap) as Box<dyn Restyle> } else { Box::new(Next) }).collect();
        let mut mixed = s;
        for n in 0..top {
            if n > 40 && (n + i) % 5 != 0 {
                by = next(by, n as u8 as usize);
                mixed = if n % 3 == 1 { swap(mixed) } else { next(mixed, 1) };
                continue;
            }
            gives(l, s, &nexts[..n], next(s, n), &|| format!("[Next; {n}][..]"))?;
            gives(l, s, &vec![Swap; n][..], if n % 2 == 1 { swap(s) } else { s }, &|| format!("[Swap; {n}][..]"))?;
            gives(l, s, &bys[..n], by, &|| format!("[By(0), By(1), ..][..{n}]"))?;
            gives(l, s, &refs[..n], mixed, &|| format!("[&Next, &Swap, &Next, &Next, &Swap, ..][..{n}]"))?;
            gives(l, s, &boxes[..n], mixed, &|| format!("[Box(Next), Box(Swap), Box(Next), Box(Next), ..][..{n}]"))?;
            gives(l, s, &vec![(); n][..], s, &|| format!("[(); {n}][..]"))?;
            by = next(by, n as u8 as usize);
            mixed = if n % 3 == 1 { swap(mixed) } else { next(mixed, 1) };
            if n < 40 {
                gives(l, s, &pair[..n], a, &|| format!("[(Next, Swap); {n}][..]"))?;
                gives(l, s, &opt[..n], o, &|| format!("[Some(Next); {n}][..]"))?;
                gives(l, s, &half[..n], h, &|| format!("[None, Some(Next), Some(Next), None, ..][..{n}]"))?;
                a = swap(next(a, 1));
                o = next(o, 1);
                if n % 3 != 0 { h = next(h, 1) }
            }
        }
        Ok(())
    });
}

fn main() {
    let c = Check::start("C07", "model_checking");
    // every single restyling of every type on every style
    c.par("every style x every simple restyling", 867, |i, l| {
        let s = space::style(i);
        l.states += 1;
        is(l, s, &(), Sets::default(), &|| "()".into())?;
        for col in COLORS {
            let f = Sets { fg: Some(col), ..Default::default() };
            let b = Sets { bg: Some(col), ..Default::default() };
            is(l, s, &Foreground(col), f, &|| format!("stylish::Foreground(stylish::Color::{col:?})"))?;
            is(l, s, &Background(col), b, &|| format!("stylish::Background(stylish::Color::{col:?})"))?;
            is(l, s, &&Foreground(col), f, &|| format!("&Foreground({col:?})"))?;
            is(l, s, &&&Background(col), b, &|| format!("&&Background({col:?})"))?;
            is(l, s, &Box::new(Foreground(col)), f, &|| format!("Box(Foreground({col:?}))"))?;
            is(l, s, &Box::new(Background(col)), b, &|| format!("Box(Background({col:?}))"))?;
            is(l, s, &Some(Foreground(col)), f, &|| format!("Some(Foreground({col:?}))"))?;
            is(l, s, &Some(Background(col)), b, &|| format!("Some(Background({col:?}))"))?;
        }
        for int in INTENSITIES {
            let w = Sets { int: Some(int), ..Default::default() };
            is(l, s, &int, w, &|| format!("stylish::Intensity::{int:?}"))?;
            is(l, s, &&int, w, &|| format!("&Intensity::{int:?}"))?;
            is(l, s, &Box::new(int), w, &|| format!("Box(Intensity::{int:?})"))?;
            is(l, s, &Some(int), w, &|| format!("Some(Intensity::{int:?})"))?;
        }
        is(l, s, &None::<Foreground>, Sets::default(), &|| "None::<Foreground>".into())?;
        is(l, s, &None::<Style>, Sets::default(), &|| "None::<Style>".into())?;
        is(l, s, &None::<Box<StyleDiff>>, Sets::default(), &|| "None::<Box<StyleDiff>>".into())?;
        if i == 100 { l.sample(|| format!("every simple restyling on [{}]", space::show(s))) }
        Ok(())
    });
    // every difference and every complete style on every style
    c.par("every style x every StyleDiff and every Style", 867, |i, l| {
        let s = space::style(i);
        for f in std::iter::once(None).chain(COLORS.map(Some)) {
            for b in std::iter::once(None).chain(COLORS.map(Some)) {
                for int in std::iter::once(None).chain(INTENSITIES.map(Some)) {
                    let d = Sets { fg: f, bg: b, int };
                    is(l, s, &diff(d), d, &|| format!("{d:?} as StyleDiff"))?;
                    is(l, s, &(f.map(Foreground), b.map(Background), int), d, &|| format!("tuple of options {d:?}"))?;
                }
            }
        }
        for j in 0..867 {
            let t = space::style(j);
            is(l, s, &t, style_sets(t), &|| space::src(t))?;
            is(l, s, &(Foreground(t.foreground), Background(t.background), t.intensity), style_sets(t),
               &|| format!("(Foreground({:?}), Background({:?}), {:?})", t.foreground, t.background, t.intensity))?;
            is(l, s, &(t.intensity, (Background(t.background), Foreground(t.foreground))), style_sets(t),
               &|| format!("({:?}, (Background({:?}), Foreground({:?})))", t.intensity, t.background, t.foreground))?;
        }
        Ok(())
    });
    // order: same aspect twice, all values
    c.par("pairs, triples and slices naming one aspect repeatedly", 17 * 17, |i, l| {
        let (x, y) = (COLORS[i / 17], COLORS[i % 17]);
        let fg = |c| Sets { fg: Some(c), ..Default::default() };
        let bg = |c| Sets { bg: Some(c), ..Default::default() };
        for &s in &space::basis() {
            is(l, s, &(Foreground(x), Foreground(y)), fg(y), &|| format!("(Foreground({x:?}), Foreground({y:?}))"))?;
            is(l, s, &(Background(x), Background(y)), bg(y), &|| format!("(Background({x:?}), Background({y:?}))"))?;
            is(l, s, [Foreground(x), Foreground(y)].as_slice(), fg(y), &|| format!("[Foreground({x:?}), Foreground({y:?})][..]"))?;
            is(l, s, [Background(x), Background(y)].as_slice(), bg(y), &|| format!("[Background({x:?}), Background({y:?})][..]"))?;
            for z in COLORS {
                is(l, s, &(Foreground(x), Foreground(y), Foreground(z)), fg(z), &|| format!("(Foreground({x:?}), Foreground({y:?}), Foreground({z:?}))"))?;
                is(l, s, &(Background(x), Foreground(y), Background(z)), fg(y).then(bg(z)), &|| format!("(Background({x:?}), Foreground({y:?}), Background({z:?}))"))?;
                is(l, s, [Background(x), Background(y), Background(z)].as_slice(), bg(z), &|| format!("[Background({x:?}), Background({y:?}), Background({z:?})][..]"))?;
                is(l, s, [Some(Foreground(x)), None, Some(Foreground(z))].as_slice(), fg(z), &|| format!("[Some(Foreground({x:?})), None, Some(Foreground({z:?}))][..]"))?;
            }
            for int in INTENSITIES {
                for int2 in INTENSITIES {
                    is(l, s, &(int, Foreground(x), int2), Sets { fg: Some(x), bg: None, int: Some(int2) }, &|| format!("({int:?}, Foreground({x:?}), {int2:?})"))?;
                    is(l, s, [int, int2, int].as_slice(), Sets { int: Some(int), ..Default::default() }, &|| format!("[{int:?}, {int2:?}, {int:?}][..]"))?;
                }
            }
        }
        Ok(())
    });
    // compositions over a basis, through boxes and trait objects
    let n = basis().len();
    let depth = c.pick(4, 5);
    c.par(&format!("pairs and triples on every style; slices of length 0..={depth}, of boxed restylings from {n}"), n * n, |t, l| {
        let v = basis();
        let (a, b) = (&v[t / n], &v[t % n]);
        for i in 0..867 {
            let s = space::style(i);
            is(l, s, &(&a.0, &b.0), a.1.then(b.1), &|| format!("({}, {})", a.2, b.2))?;
            if (i % 40) == (t % 40) {
                for x in &v {
                    is(l, s, &(&a.0, &b.0, &x.0), a.1.then(b.1).then(x.1), &|| format!("({}, {}, {})", a.2, b.2, x.2))?;
                    is(l, s, &((&a.0, &b.0), &x.0), a.1.then(b.1).then(x.1), &|| format!("(({}, {}), {})", a.2, b.2, x.2))?;
                    is(l, s, &(&a.0, (&b.0, &x.0)), a.1.then(b.1).then(x.1), &|| format!("({}, ({}, {}))", a.2, b.2, x.2))?;
                    is(l, s, &Some((&a.0, Some(&b.0), None::<Style>)), a.1.then(b.1), &|| format!("Some(({}, Some({}), None))", a.2, b.2))?;
                }
            }
        }
        let ss = [space::basis()[0], space::basis()[6]];
        for s in ss {
            let empty: [&dyn Restyle; 0] = [];
            is(l, s, empty.as_slice(), Sets::default(), &|| "[][..]".into())?;
            is(l, s, [&a.0].as_slice(), a.1, &|| format!("[{}][..]", a.2))?;
            // all slices a, b, ... up to the depth
            let mut idx: Vec<usize> = vec![0; depth - 2];
            loop {
                for k in 0..=idx.len() {
                    if idx[k..].iter().any(|&x| x != 0) { continue }
                    let mut rs: Vec<&(dyn Restyle + Send + Sync)> = vec![&*a.0, &*b.0];
                    let mut want = a.1.then(b.1);
                    for &x in &idx[..k] { rs.push(&*v[x].0); want = want.then(v[x].1) }
                    is(l, s, rs.as_slice(), want, &|| {
                        let names: Vec<&str> = [t / n, t % n].iter().chain(&idx[..k]).map(|&x| v[x].2.as_str()).collect();
                        format!("[{}][..]", names.join(", "))
                    })?;
                }
                let mut p = idx.len();
                loop {
                    if p == 0 { break }
                    p -= 1;
                    idx[p] += 1;
                    if idx[p] < n { p = 99; break }
                    idx[p] = 0;
                }
                if p != 99 { break }
            }
        }
        l.traces += 1;
        if t == 23 { l.sample(|| format!("({}, {}) on every style", a.2, b.2)) }
        Ok(())
    });
    // long slices
    c.par("slices of every length", c.pick(300, 2000), |n, l| {
        let v = basis();
        for off in 0..v.len() {
            let rs: Vec<&(dyn Restyle + Send + Sync)> = (0..n).map(|i| &*v[(i * 7 + off) % v.len()].0).collect();
            let want = (0..n).fold(Sets::default(), |w, i| w.then(v[(i * 7 + off) % v.len()].1));
            for s in space::basis() {
                is(l, s, rs.as_slice(), want, &|| format!("slice of {n} restylings: every 7th of the basis from {off}"))?;
            }
        }
        Ok(())
    });
    dependent(&c);
    c.finish(
        "states: all 867 styles; transitions: applications of a restyling (directly and through Style::with), each compared with the reference on all three aspects; traces: composition families",
        &["the basis for compositions has at least one restyling of every implementing type"],
    )
}
