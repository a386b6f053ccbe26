//! C17: preparing and rendering format arguments does not allocate.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, UnsafeCell};

use mc::prog::{self, Node};
use mc::report::{guard, Check, Local, Violation};
use mc::space;
use stylish::Style;

struct Counting;
thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
    static COUNT: Cell<(u64, u64)> = const { Cell::new((0, 0)) };
    static BUF: UnsafeCell<([u8; 1 << 12], usize)> = const { UnsafeCell::new(([0; 1 << 12], 0)) };
}

fn note(size: usize) {
    if ON.with(|o| o.get()) { COUNT.with(|c| { let (n, b) = c.get(); c.set((n + 1, b + size as u64)) }) }
}

// SAFETY: forwards to the system allocator
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { note(l.size()); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 { note(l.size()); System.alloc_zeroed(l) }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 { note(n); System.realloc(p, l, n) }
}

#[global_allocator]
static A: Counting = Counting;

/// A sink that never allocates: a ring of fixed size.
#[derive(Default)]
struct Fixed;
fn put(b: &[u8]) {
    // SAFETY: thread-local, not re-entered
    BUF.with(|x| unsafe {
        let (buf, n) = &mut *x.get();
        for &c in b { buf[*n % buf.len()] = c; *n += 1 }
    })
}
impl std::fmt::Write for Fixed {
    fn write_str(&mut self, s: &str) -> std::fmt::Result { put(s.as_bytes()); Ok(()) }
}
impl std::io::Write for Fixed {
    fn write(&mut self, s: &[u8]) -> std::io::Result<usize> { put(s); Ok(s.len()) }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
/// A user's own writers, one with the required method only.
struct Own;
impl stylish::Write for Own {
    fn write_str(&mut self, s: &str, _: Style) -> stylish::Result { put(s.as_bytes()); Ok(()) }
}
impl stylish::io::Write for Own {
    fn write(&mut self, s: &[u8], _: Style) -> std::io::Result<usize> { let n = s.len().min(3); put(&s[..n]); Ok(n) }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}

fn counted(f: impl FnOnce() -> bool) -> (bool, u64, u64) {
    COUNT.with(|c| c.set((0, 0)));
    ON.with(|o| o.set(true));
    struct Off;
    impl Drop for Off { fn drop(&mut self) { ON.with(|o| o.set(false)) } }
    let off = Off;
    let ok = f();
    drop(off);
    let (n, b) = COUNT.with(|c| c.get());
    (ok, n, b)
}

fn runs(d: &dyn stylish::Display) -> [(&'static str, (bool, u64, u64)); 8] {
    use stylish::io::Write as I;
    use stylish::Write as F;
    [
        ("Ansi", counted(|| { let mut w = stylish::Ansi::new(Fixed); stylish::write!(w, "{:s}", d).is_ok() && w.finish().is_ok() })),
        ("Html", counted(|| { let mut w = stylish::Html::new(Fixed); stylish::writeln!(w, "{:s}", d).is_ok() && w.finish().is_ok() })),
        ("Plain", counted(|| { let mut w = stylish::Plain::new(Fixed); let r = stylish::write!(w, "{:(fg=red)s}", d).is_ok(); w.into_inner(); r })),
        ("io::Ansi", counted(|| { let mut w = stylish::io::Ansi::new(Fixed); stylish::write!(w, "{:s}", d).is_ok() && I::flush(&mut w).is_ok() && w.finish().is_ok() })),
        ("io::Plain", counted(|| { let mut w = stylish::io::Plain::new(Fixed); let r = stylish::writeln!(w, "{:s}", d).is_ok(); w.into_inner(); r })),
        ("user's own writer", counted(|| F::write_fmt(&mut Own, stylish::format_args!("{:s}", d)).is_ok())),
        ("user's own byte-stream writer", counted(|| I::write_fmt(&mut Own, stylish::format_args!("{:s}", d)).is_ok())),
        ("trait object", counted(|| { let mut w = stylish::html(Fixed); let e: &mut dyn F = &mut w; let r = stylish::write!(e, "{0:s}{0:(bold)s}", d).is_ok(); r && w.finish().is_ok() })),
    ]
}

fn check(n: &Node, l: &mut Local) -> Result<(), Violation> {
    for (name, (ok, k, bytes)) in guard(&|| n.show(), || runs(n))? {
        l.traces += 1;
        if k != 0 { return Err(Violation::new(format!("rendering through {name} allocates {k} times, {bytes} bytes"), n.show()).repro(n.repro(""))) }
        if !ok { return Err(Violation::new(format!("rendering through {name} fails"), n.show()).repro(n.repro(""))) }
    }
    Ok(())
}

fn direct(c: &Check) {
    // writes of every style after every style, straight to the writers
    c.par("every pair of styles, written directly", 867, |i, l| {
        use stylish::io::Write as I;
        use stylish::Write as F;
        for j in 0..867 {
            let (s, t) = (space::style(i), space::style(j));
            let show = || format!("\"a<\" in [{}], \"é\" in [{}]", space::show(s), space::show(t));
            let all = guard(&show, || [
                ("Ansi", counted(|| { let mut w = stylish::ansi(Fixed); F::write_str(&mut w, "a<", s).is_ok() && F::write_char(&mut w, 'é', t).is_ok() && w.finish().is_ok() })),
                ("Html", counted(|| { let mut w = stylish::html(Fixed); F::write_str(&mut w, "a<", s).is_ok() && F::write_char(&mut w, 'é', t).is_ok() && w.finish().is_ok() })),
                ("Plain", counted(|| { let mut w = stylish::plain(Fixed); let r = F::write_str(&mut w, "a<", s).is_ok() && F::write_char(&mut w, 'é', t).is_ok(); w.into_inner(); r })),
                ("io::Ansi", counted(|| { let mut w = stylish::io::ansi(Fixed); I::write_all(&mut w, b"a<", s).is_ok() && I::write(&mut w, b"b", t).is_ok() && w.finish().is_ok() })),
                ("io::Plain", counted(|| { let mut w = stylish::io::plain(Fixed); let r = I::write_all(&mut w, b"a<", s).is_ok() && I::write(&mut w, b"b", t).is_ok(); w.into_inner(); r })),
            ])?;
            l.states += 1;
            for (name, (ok, k, bytes)) in all {
                l.traces += 1;
                l.transitions += 2;
                if k != 0 { return Err(Violation::new(format!("writing to {name} allocates {k} times, {bytes} bytes"), show())) }
                if !ok { return Err(Violation::new(format!("writing to {name} fails"), show())) }
            }
        }
        Ok(())
    });
    let lens = space::lengths(c.pick(300, 2000), c.pick(1 << 16, 1 << 20));
    c.par("text lengths", lens.len(), |i, l| {
        for k in 0..3 {
            let mut t = space::text_of(lens[i]);
            if k == 1 { t = t.replace('a', "&").replace('z', "\"") }
            if k == 2 { t = "<".repeat(lens[i]) }
            let t: &'static str = Box::leak(t.into_boxed_str());
            l.states += 1;
            let n = Node::Many(vec![Node::Text(t).into(), Node::Styled(1, t).into(), Node::With(2, Node::Std(t).into()).into()]);
            check(&n, l)?;
            // SAFETY: leaked just above, no other reference left
            drop(n);
            drop(unsafe { Box::from_raw(t as *const str as *mut str) });
        }
        Ok(())
    });
}

/// Restylings of every kind, applied while rendering.
fn restylings(c: &Check) {
    use stylish::{Background, Color, Display, Foreground, Formatter, Intensity, Restyle, StyleDiff};
    struct With<R>(R, &'static str);
    impl<R: Restyle> Display for With<R> {
        fn fmt(&self, f: &mut Formatter<'_>) -> stylish::Result {
            f.with(&self.0).write_str("a")?;
            stylish::write!(f.with(&self.0), "{:(fg=red)}{:?}", 1, "x")?;
            let mut g = f.with(&self.0);
            g.with(&self.0).write_str("&")
        }
    }
    fn one<R: Restyle>(name: &'static str, r: R, l: &mut Local) -> Result<(), Violation> {
        l.states += 1;
        let show = || format!("a value that restyles its formatter by {name}");
        let v = With(r, name);
        for (w, (ok, k, bytes)) in guard(&show, || runs(&v))? {
            l.traces += 1;
            if k != 0 { return Err(Violation::new(format!("rendering through {w} allocates {k} times, {bytes} bytes"), show())) }
            if !ok { return Err(Violation::new(format!("rendering through {w} fails"), show())) }
        }
        // applied without a writer
        let (_, k, bytes) = guard(&show, || counted(|| { for s in space::all() { std::hint::black_box(Style::default().with(s).with(&v.0).diff_from(s)); } true }))?;
        let (_, base, base_bytes) = counted(|| { for s in space::all() { std::hint::black_box(s); } true });
        if (k, bytes) != (base, base_bytes) { return Err(Violation::new(format!("applying it allocates {} times", k - base), show())) }
        Ok(())
    }
    let (fg, bg) = (Foreground(Color::Red), Background(Color::Blue));
    let mut diff = StyleDiff::default();
    diff.foreground = Some(Color::Green);
    c.par("restylings of every kind", 1, |_, l| {
        one("Foreground", fg, l)?;
        one("Background", bg, l)?;
        one("Intensity", Intensity::Bold, l)?;
        one("a Style", space::style(400), l)?;
        one("a StyleDiff", diff, l)?;
        one("()", (), l)?;
        one("None", None::<Foreground>, l)?;
        one("Some", Some(fg), l)?;
        one("Some of Some", Some(Some((fg, bg))), l)?;
        one("a pair", (fg, bg), l)?;
        one("a triple", (fg, bg, Intensity::Faint), l)?;
        one("nested tuples", ((fg, (bg, diff)), ((), Some(Intensity::Bold)), (fg, bg)), l)?;
        one("a box", Box::new(fg), l)?;
        one("a boxed trait object", Box::new(fg) as Box<dyn Restyle + Send>, l)?;
        one("a reference to a trait object", &fg as &dyn Restyle, l)?;
        one("a box of a pair of boxes", Box::new((Box::new(fg), Box::new(bg) as Box<dyn Restyle>)), l)?;
        Ok(())
    });
    let lens: Vec<usize> = (0..=c.pick(300, 3000)).chain([1023, 1024, 1025, 4096, 65_535, 65_536, 65_537]).collect();
    c.par("slices of restylings", lens.len(), |i, l| {
        let n = lens[i];
        let colours: Vec<Foreground> = (0..n).map(|k| Foreground(space::style(k * 51 % 867).foreground)).collect();
        let styles: Vec<Style> = (0..n).map(|k| space::style(k * 7 % 867)).collect();
        let boxes: Vec<Box<dyn Restyle>> = (0..n).map(|k| if k % 2 == 0 { Box::new(Intensity::Bold) as Box<dyn Restyle> } else { Box::new(Background(Color::Cyan)) }).collect();
        let options: Vec<Option<(Intensity, Foreground)>> = (0..n).map(|k| (k % 3 == 0).then_some((Intensity::Faint, Foreground(Color::White)))).collect();
        one("a slice of colours", &colours[..], l)?;
        one("a slice of styles", &styles[..], l)?;
        one("a slice of boxes", &boxes[..], l)?;
        one("a slice of options", &options[..], l)?;
        one("a boxed slice", colours.into_boxed_slice(), l)?;
        one("a pair of slices", (&styles[..n / 2], &boxes[n / 2..]), l)
    });
}

/// A sink of fixed size that refuses the n-th call and all later ones.
struct Refuse(Cell<u32>);
impl Refuse {
    fn call(&self) -> bool { match self.0.get() { 0 => false, n => { self.0.set(n - 1); true } } }
}
impl std::fmt::Write for Refuse {
    fn write_str(&mut self, s: &str) -> std::fmt::Result { if self.call() { put(s.as_bytes()); Ok(()) } else { Err(std::fmt::Error) } }
}
impl stylish::Write for Refuse {
    fn write_str(&mut self, s: &str, _: Style) -> stylish::Result { if self.call() { put(s.as_bytes()); Ok(()) } else { Err(std::fmt::Error) } }
}
/// Passes everything on, except that it refuses to do so after a while.
struct OwnIo(Refuse);
impl stylish::io::Write for OwnIo {
    fn write(&mut self, s: &[u8], _: Style) -> std::io::Result<usize> { if self.0.call() { Ok(s.len()) } else { Err(std::io::ErrorKind::BrokenPipe.into()) } }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
impl std::io::Write for OwnIo {
    fn write(&mut self, s: &[u8]) -> std::io::Result<usize> { if self.0.call() { Ok(s.len()) } else { Err(std::io::ErrorKind::BrokenPipe.into()) } }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}

/// Renderings that fail at any of the calls of the sink, and go on to the next
/// one. The sinks' errors take no memory, and are passed on as they are.
fn failing(n: &Node, l: &mut Local) -> Result<(), Violation> {
    use stylish::Write as F;
    // making an error out of a failing value may allocate on byte streams
    let value_fails = !n.denote(space::style(0), &mut prog::Cells::new());
    for k in 0..40 {
        let sink = || Refuse(Cell::new(k));
        let all = guard(&|| n.show(), || [
            ("Ansi", counted(|| { let mut w = stylish::Ansi::new(sink()); let r = stylish::write!(w, "{:(bold)s}", n).is_ok() & stylish::write!(w, "x").is_ok(); w.finish().is_ok() && r })),
            ("Html", counted(|| { let mut w = stylish::Html::new(sink()); let r = stylish::write!(w, "{:(bold)s}", n).is_ok() & stylish::write!(w, "x").is_ok(); w.finish().is_ok() && r })),
            ("Plain", counted(|| { let mut w = stylish::Plain::new(sink()); let r = stylish::write!(w, "{:(bold)s}", n).is_ok() & stylish::write!(w, "x").is_ok(); w.into_inner(); r })),
            ("user's own writer", counted(|| { let mut w = sink(); F::write_fmt(&mut w, stylish::format_args!("{:(bold)s}", n)).is_ok() & F::write_fmt(&mut w, stylish::format_args!("x")).is_ok() })),
            ("io::Ansi", counted(|| { let mut w = stylish::io::Ansi::new(OwnIo(sink())); let r = stylish::write!(w, "{:(bold)s}", n).is_ok() & stylish::write!(w, "x").is_ok(); w.finish().is_ok() && r })),
            ("io::Plain", counted(|| { let mut w = stylish::io::Plain::new(OwnIo(sink())); let r = stylish::write!(w, "{:(bold)s}", n).is_ok() & stylish::write!(w, "x").is_ok(); w.into_inner(); r })),
            ("user's own byte-stream writer", counted(|| { let mut w = OwnIo(sink()); let r = stylish::io::Write::write_fmt(&mut w, stylish::format_args!("{:(bold)s}", n)).is_ok(); r })),
        ])?;
        let mut done = true;
        for (name, (ok, a, bytes)) in all {
            l.traces += 1;
            done &= ok;
            if a != 0 && !(value_fails && (name.starts_with("io") || name.contains("byte"))) { return Err(Violation::new(format!("rendering through {name} into a sink that refuses all but {k} calls allocates {a} times, {bytes} bytes"), n.show()).repro(n.repro(""))) }
        }
        if done { break }
    }
    Ok(())
}

fn main() {
    let c = Check::start("C17", "model_checking");
    // the counter counts
    assert_eq!(counted(|| { drop(std::hint::black_box(Box::new(7u64))); true }), (true, 1, 8));
    // the attributed strings of the alphabet are made on first use
    for n in prog::full(false, false).leaves.iter() { let _ = stylish::plain::format!("{:s}", **n); }
    let count = |n: &Node, l: &mut Local| { l.states += 1; l.transitions += n.size() as u64; check(n, l)?; if l.states == 77 { l.sample(|| n.show()) } Ok(()) };
    prog::full(false, false).programs(&c, "all programs over the full alphabet", c.pick(5, 6), count);
    prog::small(false, false).programs(&c, "all programs over the small alphabet", c.pick(7, 8), count);
    let deep = prog::deep(c.pick(500, 4000), false);
    c.par("deep and wide programs", deep.len(), |i, l| check(&deep[i], l));
    prog::specs(&c, "values", 70_000, false, count);
    direct(&c);
    restylings(&c);
    prog::full(false, false).programs(&c, "programs into sinks that refuse", c.pick(3, 4), |n, l| { l.states += 1; failing(n, l) });
    prog::full(true, false).programs(&c, "failing programs into sinks that refuse", c.pick(3, 4), |n, l| { l.states += 1; failing(n, l) });
    c.finish(
        "states: distinct formatter programs; transitions: formatter operations; traces: renderings into sinks of fixed size with the allocator counting",
        &["allocations are counted by a global allocator on the rendering thread", "on byte streams, renderings of values that fail are outside: reporting an I/O error may allocate"],
    )
}
