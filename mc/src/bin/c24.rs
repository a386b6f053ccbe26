//! C24: independent renderings never influence each other.
use std::cell::RefCell;
use std::fmt;
use std::io;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, Condvar, Mutex};

use mc::report::{guard, Check, Local, Violation};
use mc::space;
use stylish::{Display, Formatter, Style};

thread_local! { static HOOK: RefCell<Option<Box<dyn FnMut()>>> = const { RefCell::new(None) } }

/// A point at which something else may happen: every call of a sink and the
/// middle of every displayed value.
fn point() {
    // (not at the end of a thread)
    let Ok(h) = HOOK.try_with(|h| h.borrow_mut().take()) else { return };
    if let Some(mut h) = h {
        h();
        HOOK.with(|x| { let mut x = x.borrow_mut(); if x.is_none() { *x = Some(h) } });
    }
}
fn hook(h: Option<Box<dyn FnMut()>>) { HOOK.with(|x| *x.borrow_mut() = h) }

#[derive(Default, Clone)]
struct Sink(Vec<u8>);
impl io::Write for Sink {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        point();
        self.0.extend_from_slice(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
impl fmt::Write for Sink {
    fn write_str(&mut self, b: &str) -> fmt::Result {
        point();
        self.0.extend_from_slice(b.as_bytes());
        Ok(())
    }
}

struct V;
impl Display for V {
    fn fmt(&self, f: &mut Formatter<'_>) -> stylish::Result {
        f.write_str("p")?;
        point();
        stylish::write!(f, "{:>3(fg=red)}{:?}{:(bold)s}", 5, D, U)?;
        stylish::Write::write_str(f, "w", space::style(20))
    }
}
struct U;
impl Display for U {
    fn fmt(&self, f: &mut Formatter<'_>) -> stylish::Result {
        point();
        f.with(stylish::Background(stylish::Color::Blue)).write_str("u")?;
        f.write_str("v")
    }
}
struct D;
impl fmt::Debug for D {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("d")?;
        point();
        f.write_str("e")
    }
}
/// Fails or panics half-way.
struct Bad(bool);
impl Display for Bad {
    fn fmt(&self, f: &mut Formatter<'_>) -> stylish::Result {
        f.with(stylish::Intensity::Bold).write_str("x")?;
        point();
        if self.0 { panic!("value panics") }
        Err(stylish::Error)
    }
}

const KINDS: [&str; 6] = ["Ansi", "Html", "Plain", "io::Ansi", "io::Plain", "String"];
enum Any {
    A(stylish::Ansi<Sink>),
    H(stylish::Html<Sink>),
    P(stylish::Plain<Sink>),
    IA(stylish::io::Ansi<Sink>),
    IP(stylish::io::Plain<Sink>),
    S(stylish::String),
}

fn b(i: usize) -> Style { space::basis()[i] }

impl Any {
    fn new(k: usize) -> Any {
        match k {
            0 => Any::A(stylish::Ansi::new(Sink::default())),
            1 => Any::H(stylish::Html::new(Sink::default())),
            2 => Any::P(stylish::Plain::new(Sink::default())),
            3 => Any::IA(stylish::io::Ansi::new(Sink::default())),
            4 => Any::IP(stylish::io::Plain::new(Sink::default())),
            _ => Any::S(stylish::String::new()),
        }
    }
    fn text(&mut self, t: &str, s: Style) -> bool {
        use stylish::io::Write as I;
        use stylish::Write as F;
        match self {
            Any::A(w) => F::write_str(w, t, s).is_ok(),
            Any::H(w) => F::write_str(w, t, s).is_ok(),
            Any::P(w) => F::write_str(w, t, s).is_ok(),
            Any::IA(w) => I::write_all(w, t.as_bytes(), s).is_ok(),
            Any::IP(w) => I::write_all(w, t.as_bytes(), s).is_ok(),
            Any::S(w) => F::write_str(w, t, s).is_ok(),
        }
    }
    fn value(&mut self, v: &dyn Display) -> bool {
        use stylish::Write as _;
        match self {
            Any::A(w) => stylish::write!(w, "{:s}|", v).is_ok(),
            Any::H(w) => stylish::write!(w, "{:s}|", v).is_ok(),
            Any::P(w) => stylish::write!(w, "{:s}|", v).is_ok(),
            Any::IA(w) => stylish::write!(w, "{:s}|", v).is_ok(),
            Any::IP(w) => stylish::write!(w, "{:s}|", v).is_ok(),
            Any::S(w) => stylish::write!(w, "{:s}|", v).is_ok(),
        }
    }
    fn finish(self) -> Vec<u8> {
        match self {
            Any::A(w) => w.finish().map_or(b"finish failed".to_vec(), |s| s.0),
            Any::H(w) => w.finish().map_or(b"finish failed".to_vec(), |s| s.0),
            Any::P(w) => w.into_inner().0,
            Any::IA(w) => w.finish().map_or(b"finish failed".to_vec(), |s| s.0),
            Any::IP(w) => w.into_inner().0,
            Any::S(w) => {
                let mut h = stylish::Html::new(Sink::default());
                let ok = stylish::write!(h, "{:s}", w).is_ok();
                let mut v = h.finish().map_or(b"finish failed".to_vec(), |s| s.0);
                if !ok { v.extend(b"failed") }
                v
            }
        }
    }
}

const OPS: usize = 9;
fn op_name(i: usize) -> &'static str {
    ["write red", "write empty blue", "write é< red,blue,faint", "write default", "display a value",
     "display a failing value", "display a panicking value", "convenience functions", "write bold newline"][i]
}

/// One rendering: an optional writer and what came out so far.
struct One {
    kind: usize,
    script: Vec<usize>,
    pc: usize,
    w: Option<Any>,
    out: Vec<u8>,
}

impl One {
    fn new(kind: usize, script: &[usize]) -> One { One { kind, script: script.to_vec(), pc: 0, w: None, out: vec![] } }
    fn steps(&self) -> usize { self.script.len() + 2 }
    fn step(&mut self) {
        let pc = self.pc;
        self.pc += 1;
        if pc == 0 { self.w = Some(Any::new(self.kind)); return }
        if pc == self.script.len() + 1 {
            let w = self.w.take().unwrap();
            self.out.extend(w.finish());
            return;
        }
        let w = self.w.as_mut().unwrap();
        let ok = match self.script[pc - 1] {
            0 => w.text("a", b(1)),
            1 => w.text("", b(3)),
            2 => w.text("é<", b(4)),
            3 => w.text("b", b(0)),
            4 => w.value(&V),
            5 => !w.value(&Bad(false)),
            6 => catch_unwind(AssertUnwindSafe(|| w.value(&Bad(true)))).is_err(),
            7 => {
                let (x, y, z) = (stylish::ansi::format!("{:s}", V), stylish::html::format!("{:s}", V), stylish::plain::format!("{:s}", V));
                let s = stylish::format!("{:(fg=green)s}", V);
                self.out.extend(format!("{x}/{y}/{z}/").bytes());
                w.value(&s)
            }
            _ => w.text("\n", b(2)),
        };
        if !ok { self.out.extend(b"(unexpected result)") }
    }
    fn alone(kind: usize, script: &[usize]) -> Vec<u8> {
        let mut o = One::new(kind, script);
        while o.pc < o.steps() { o.step() }
        o.out
    }
    fn show(kind: usize, script: &[usize]) -> String {
        format!("{}: {}", KINDS[kind], script.iter().map(|&i| op_name(i)).collect::<Vec<_>>().join(", "))
    }
}

/// All merges of sequences of these lengths.
fn merges(lens: &[usize]) -> Vec<Vec<u8>> {
    fn go(left: &mut Vec<usize>, cur: &mut Vec<u8>, out: &mut Vec<Vec<u8>>) {
        if left.iter().all(|&x| x == 0) { out.push(cur.clone()); return }
        for i in 0..left.len() {
            if left[i] > 0 {
                left[i] -= 1;
                cur.push(i as u8);
                go(left, cur, out);
                cur.pop();
                left[i] += 1;
            }
        }
    }
    let mut out = Vec::new();
    go(&mut lens.to_vec(), &mut Vec::new(), &mut out);
    out
}

fn differ(what: &str, parts: &[(usize, &[usize])], order: &str, i: usize, got: &[u8], want: &[u8]) -> Violation {
    Violation::new(
        format!("{what}: rendering {} of {} gives {:?} instead of {:?}", i + 1, parts.len(), String::from_utf8_lossy(got), String::from_utf8_lossy(want)),
        format!("{}\norder: {order}", parts.iter().map(|p| One::show(p.0, p.1)).collect::<Vec<_>>().join("\n")),
    )
}

type Table = std::collections::HashMap<(usize, Vec<usize>), Vec<u8>>;

fn merged(parts: &[(usize, &[usize])], ms: &[Vec<u8>], table: &Table, l: &mut Local) -> Result<(), Violation> {
    for m in ms {
        let show = || format!("{}\norder: {m:?}", parts.iter().map(|p| One::show(p.0, p.1)).collect::<Vec<_>>().join("\n"));
        let outs = guard(&show, || {
            let mut ones: Vec<One> = parts.iter().map(|p| One::new(p.0, p.1)).collect();
            for &i in m { ones[i as usize].step() }
            ones.into_iter().map(|o| o.out).collect::<Vec<_>>()
        })?;
        l.traces += 1;
        l.transitions += m.len() as u64;
        for (i, o) in outs.iter().enumerate() {
            let want = &table[&(parts[i].0, parts[i].1.to_vec())];
            if o != want { return Err(differ("interleaved on one thread", parts, &format!("{m:?}"), i, o, want)) }
        }
    }
    l.states += 1;
    Ok(())
}

/// Two threads that run one at a time; `plan` says after how many points to
/// hand over.
struct Baton { m: Mutex<(usize, [bool; 2], Vec<usize>, usize)>, c: Condvar }
impl Baton {
    fn hand_over(&self, me: usize) {
        let mut g = self.m.lock().unwrap();
        // count down the current slice
        if let Some(&left) = g.2.get(g.3) {
            if left > 0 { let i = g.3; g.2[i] -= 1; return }
            g.3 += 1;
        } else { return }
        if g.1[1 - me] { return } // the other one is done
        g.0 = 1 - me;
        self.c.notify_all();
        while g.0 != me { g = self.c.wait(g).unwrap() }
    }
    fn start(&self, me: usize) {
        let mut g = self.m.lock().unwrap();
        while g.0 != me { g = self.c.wait(g).unwrap() }
    }
    fn done(&self, me: usize) {
        let mut g = self.m.lock().unwrap();
        g.1[me] = true;
        g.0 = 1 - me;
        self.c.notify_all();
    }
}

fn threads(parts: [(usize, &[usize]); 2], first: usize, plan: &[usize], table: &Table, l: &mut Local) -> Result<(), Violation> {
    let show = || format!("{}\nthread {first} first, handing over after {plan:?} points", parts.iter().map(|p| One::show(p.0, p.1)).collect::<Vec<_>>().join("\n"));
    let outs = guard(&show, || {
        let baton = Arc::new(Baton { m: Mutex::new((first, [false; 2], plan.to_vec(), 0)), c: Condvar::new() });
        std::thread::scope(|s| {
            let hs: Vec<_> = (0..2).map(|me| {
                let baton = baton.clone();
                let p = parts[me];
                s.spawn(move || {
                    baton.start(me);
                    let bt = baton.clone();
                    hook(Some(Box::new(move || bt.hand_over(me))));
                    let r = catch_unwind(AssertUnwindSafe(|| {
                        let mut o = One::new(p.0, p.1);
                        while o.pc < o.steps() { o.step(); point() }
                        o.out
                    }));
                    hook(None);
                    baton.done(me);
                    r.unwrap_or_else(|_| b"panic".to_vec())
                })
            }).collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect::<Vec<_>>()
        })
    })?;
    l.traces += 1;
    l.states += 1;
    for (i, o) in outs.iter().enumerate() {
        let want = &table[&(parts[i].0, parts[i].1.to_vec())];
        if o != want { return Err(differ("on two threads", &parts, &format!("thread {first} first, handing over after {plan:?} points"), i, o, want)) }
    }
    Ok(())
}

fn points(kind: usize, script: &[usize]) -> usize {
    use std::cell::Cell;
    use std::rc::Rc;
    let n = Rc::new(Cell::new(0));
    let m = n.clone();
    hook(Some(Box::new(move || m.set(m.get() + 1))));
    let mut o = One::new(kind, script);
    while o.pc < o.steps() { o.step(); point() }
    hook(None);
    n.get()
}

/// A value that renders another one, which renders another one, and so on,
/// and then shows a digest of what that gave. In `flat` the digest is known
/// beforehand and nothing is nested.
struct Nest { depth: usize, kind: usize, flat: Option<u64> }

fn digest(b: &[u8]) -> u64 {
    b.iter().fold(0xcbf29ce484222325u64, |h, &b| (h ^ b as u64).wrapping_mul(0x100000001b3))
}

/// Which way level `depth` is rendered; kinds above 6 mix them.
fn way(kind: usize, depth: usize) -> usize {
    match kind { 0..=6 => kind, 7 => depth % 7, 8 => depth * 3 % 7, _ => depth * 5 / 2 % 7 }
}

fn nest(depth: usize, kind: usize, flat: Option<u64>) -> Vec<u8> {
    let v = Nest { depth, kind, flat };
    match way(kind, depth) {
        0 => stylish::ansi::format!("{:(fg=red)s}|", v).into_bytes(),
        1 => stylish::html::format!("{:(bold)s}|", v).into_bytes(),
        2 => stylish::plain::format!("{:(bold)s}|{}", v, depth).into_bytes(),
        3 => stylish::html::format!("{:s}", stylish::format!("{:(bg=blue)s}|", v)).into_bytes(),
        4 => {
            let mut w = stylish::io::Ansi::new(Sink::default());
            let ok = stylish::write!(w, "{:(fg=green)s}|", v).is_ok();
            let mut o = w.finish().map_or(b"finish failed".to_vec(), |s| s.0);
            if !ok { o.extend(b"failed") }
            o
        }
        5 => {
            use stylish::ToAnsiString;
            v.to_ansi_string().into_bytes()
        }
        _ => {
            let mut w = stylish::Html::new(Sink::default());
            let ok = w.write_fmt(stylish::format_args!("{:(faint)s}|", v)).is_ok();
            let mut o = w.finish().map_or(b"finish failed".to_vec(), |s| s.0);
            if !ok { o.extend(b"failed") }
            o
        }
    }
}

impl Display for Nest {
    fn fmt(&self, f: &mut Formatter<'_>) -> stylish::Result {
        f.write_str("<")?;
        f.with(stylish::Intensity::Bold).write_str("é")?;
        let d = match self.flat {
            Some(d) => d,
            None if self.depth == 0 => 0,
            None => digest(&nest(self.depth - 1, self.kind, None)),
        };
        stylish::write!(f, "{:>17(fg=yellow)x}", d)?;
        f.with(stylish::Background(stylish::Color::Cyan)).write_str("z")?;
        f.write_str(">")
    }
}

/// Where code may happen to run.
const PLACES: [&str; 7] = ["in a destructor while the thread unwinds", "in a destructor while the thread unwinds within a destructor that runs while it unwinds",
    "in the destructor of a thread-local value", "on a thread called main", "on a thread with another name", "on a thread without a name, started by a thread", "just after a panic was caught"];

struct InDrop<F: FnMut()>(F);
impl<F: FnMut()> Drop for InDrop<F> { fn drop(&mut self) { (self.0)() } }

fn unwinding(f: &mut dyn FnMut()) {
    let r = catch_unwind(AssertUnwindSafe(|| {
        let _in = InDrop(f);
        std::panic::resume_unwind(Box::new("unwinds"))
    }));
    let _: Result<(), _> = r;
}

fn at_place(p: usize, mut f: Box<dyn FnMut() + Send>) {
    thread_local! { static LAST: RefCell<Option<InDrop<Box<dyn FnMut() + Send>>>> = const { RefCell::new(None) } }
    match p {
        0 => unwinding(&mut || { assert!(std::thread::panicking()); f() }),
        1 => unwinding(&mut || unwinding(&mut f)),
        2 => std::thread::spawn(move || LAST.with(|l| *l.borrow_mut() = Some(InDrop(f)))).join().unwrap(),
        3 => std::thread::Builder::new().name("main".into()).spawn(f).unwrap().join().unwrap(),
        4 => std::thread::Builder::new().name("stylish \u{1b}[0m".into()).spawn(f).unwrap().join().unwrap(),
        5 => std::thread::spawn(|| std::thread::spawn(f).join().unwrap()).join().unwrap(),
        _ => { unwinding(&mut || ()); f() }
    }
}

fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

/// Accepts a number of writes.
struct Few(u32);
impl Few {
    fn one(&mut self) -> bool { if self.0 == 0 { return false } self.0 -= 1; true }
}
impl io::Write for Few {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> { if self.one() { Ok(b.len()) } else { Err(io::ErrorKind::Other.into()) } }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
impl fmt::Write for Few {
    fn write_str(&mut self, _: &str) -> fmt::Result { if self.one() { Ok(()) } else { Err(fmt::Error) } }
}
impl stylish::Write for Few {
    fn write_str(&mut self, _: &str, _: Style) -> stylish::Result { if self.one() { Ok(()) } else { Err(stylish::Error) } }
}

/// The same small rendering `n` times; which one went other than the first.
fn short(kind: usize, value: usize, how: usize, n: usize) -> Option<usize> {
    use stylish::io::Write as _;
    use stylish::Write as _;
    let s = stylish::format!("a{:(fg=red)}", "b");
    let left = [u32::MAX, 0, 1][how];
    let mut first = None;
    for i in 0..n {
        macro_rules! go {
            ($new:expr, $end:expr) => {{
                let mut w = $new;
                let ok = match value {
                    0 => stylish::write!(w, "{:s}", s).is_ok(),
                    1 => stylish::write!(w, "{:s}", U).is_ok(),
                    2 => stylish::write!(w, "{:>3(bold)}", 7).is_ok(),
                    _ => stylish::write!(w, "{:(fg=blue)s}", stylish::format_args!("a{:(bold)}", 'c')).is_ok(),
                };
                (ok, $end(w))
            }};
        }
        let r = match kind {
            0 => go!(stylish::Ansi::new(Few(left)), |w: stylish::Ansi<Few>| w.finish().is_ok()),
            1 => go!(stylish::Html::new(Few(left)), |w: stylish::Html<Few>| w.finish().is_ok()),
            2 => go!(stylish::Plain::new(Few(left)), |w: stylish::Plain<Few>| w.into_inner().0 == 0),
            3 => go!(stylish::io::Ansi::new(Few(left)), |w: stylish::io::Ansi<Few>| w.finish().is_ok()),
            4 => go!(stylish::io::Plain::new(Few(left)), |w: stylish::io::Plain<Few>| w.into_inner().0 == 0),
            _ => go!(Few(left), |w: Few| w.0 == 0),
        };
        match first { None => first = Some(r), Some(f) => if f != r { return Some(i) } }
    }
    None
}

/// What a program may ask about its surroundings: the answers depend on this.
/// 0 is the truth.
static WORLD: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
const WORLDS: [&str; 8] = ["as it is", "every variable is 1, everything is a terminal, much later", "every variable is 0, nothing is a terminal, at the beginning of time", "no variable is set, everything is a terminal", "every variable is empty",
    "in the panic hook", "at the exit of the process", "on the main thread while it unwinds"];
fn world() -> usize { WORLD.load(std::sync::atomic::Ordering::SeqCst) }

mod surroundings {
    use std::ffi::{c_char, c_int, c_long, CStr};
    extern "C" {
        static environ: *const *const c_char;
        fn syscall(n: c_long, ...) -> c_long;
    }
    /// In place of the C library's.
    #[no_mangle]
    unsafe extern "C" fn getenv(name: *const c_char) -> *const c_char {
        match super::world() {
            0 => {
                let name = CStr::from_ptr(name).to_bytes();
                let mut e = environ;
                while !e.is_null() && !(*e).is_null() {
                    let s = CStr::from_ptr(*e).to_bytes();
                    if s.starts_with(name) && s.get(name.len()) == Some(&b'=') { return (*e).add(name.len() + 1) }
                    e = e.add(1);
                }
                std::ptr::null()
            }
            1 => c"1".as_ptr(),
            2 => c"0".as_ptr(),
            3 => std::ptr::null(),
            _ => c"".as_ptr(),
        }
    }
    #[no_mangle]
    unsafe extern "C" fn isatty(fd: c_int) -> c_int {
        match super::world() {
            0 => { let mut t = [0u64; 32]; (syscall(16, fd as c_long, 0x5401 as c_long, t.as_mut_ptr()) == 0) as c_int }
            1 | 3 => 1,
            _ => 0,
        }
    }
    #[no_mangle]
    unsafe extern "C" fn clock_gettime(clock: c_int, t: *mut [i64; 2]) -> c_int {
        match super::world() {
            1 => { *t = [4_000_000_000, 999_999_999]; 0 }
            2 => { *t = [0, 0]; 0 }
            _ => syscall(228, clock as c_long, t) as c_int,
        }
    }
}

/// What a rendering gives in a process of its own, where nothing else happens
/// before, during or after it.
fn fresh(kind: usize, script: &[usize], world: usize) -> Result<Vec<u8>, Violation> {
    let show = || format!("{}, in a process of its own, {}", One::show(kind, script), WORLDS[world]);
    let exe = std::env::current_exe().expect("own path");
    let out = std::process::Command::new(exe).arg("alone").arg(world.to_string()).arg(kind.to_string())
        .args(script.iter().map(|s| s.to_string())).env_remove("MC_JOURNAL").output().expect("own process");
    if !out.status.success() { return Err(Violation::new(format!("the process ends with {}", out.status), show())) }
    match String::from_utf8_lossy(&out.stdout).strip_prefix("ok ") {
        Some(h) => Ok(unhex(h)),
        None => Err(Violation::new("panic", show())),
    }
}

fn tell(r: Option<Vec<u8>>) {
    use io::Write;
    let text = match r {
        Some(o) => format!("ok {}", o.iter().map(|b| format!("{b:02x}")).collect::<String>()),
        None => "panic".into(),
    };
    let mut out = io::stdout();
    out.write_all(text.as_bytes()).and_then(|()| out.flush()).expect("output");
}

/// The process is somewhere unusual when it renders.
fn elsewhere(n: Vec<usize>) {
    static WHAT: Mutex<Vec<usize>> = Mutex::new(Vec::new());
    fn go() {
        let n = WHAT.lock().unwrap().clone();
        tell(catch_unwind(AssertUnwindSafe(|| One::alone(n[1], &n[2..]))).ok())
    }
    extern "C" fn at_exit() { go() }
    extern "C" { fn atexit(f: extern "C" fn()) -> std::ffi::c_int; }
    *WHAT.lock().unwrap() = n.clone();
    match n[0] {
        5 => {
            std::panic::set_hook(Box::new(|_| go()));
            let _ = catch_unwind(|| panic!("so that the hook runs"));
        }
        // SAFETY: the function uses nothing that is gone by then
        6 => unsafe { atexit(at_exit); },
        _ => unwinding(&mut go),
    }
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    if args.first().map(|a| a == "alone") == Some(true) {
        std::panic::set_hook(Box::new(|_| {}));
        let n: Vec<usize> = args[1..].iter().map(|a| a.parse().unwrap()).collect();
        if n[0] >= 5 { return elsewhere(n) }
        WORLD.store(n[0], std::sync::atomic::Ordering::SeqCst);
        let r = catch_unwind(AssertUnwindSafe(|| One::alone(n[1], &n[2..])));
        WORLD.store(0, std::sync::atomic::Ordering::SeqCst);
        return tell(r.ok());
    }
    let c = Check::start("C24", "model_checking");
    // what each gives alone, each in a new process
    let table = Mutex::new(Table::new());
    let len = 2;
    let mut scripts: Vec<Vec<usize>> = Vec::new();
    for i in 0..OPS { for j in 0..OPS { scripts.push(vec![i, j]) } }
    let long: Vec<Vec<usize>> = vec![vec![0, 4, 2], vec![4, 1, 3], vec![2, 6, 0], vec![5, 2, 7], vec![7, 0, 8, 4]];
    let each: Vec<&Vec<usize>> = scripts.iter().chain(&long).collect();
    c.par("each rendering in a process of its own", 6 * each.len(), |i, l| {
        let (k, s) = (i % 6, each[i / 6]);
        let out = fresh(k, s, 0)?;
        l.traces += 1;
        table.lock().unwrap().insert((k, s.clone()), out);
        Ok(())
    });
    let table = &table.into_inner().unwrap();
    // and when the rest of the world is another
    let asked: Vec<_> = long.iter().chain(scripts.iter().step_by(c.pick(5, 1))).collect();
    c.par("each rendering in a process of its own, in other surroundings", 6 * 7 * asked.len(), |i, l| {
        let (k, w, s) = (i % 6, 1 + i / 6 % 7, asked[i / 42]);
        // (a panic hook may not panic itself)
        if w == 5 && s.contains(&6) { return Ok(()) }
        let out = fresh(k, s, w)?;
        l.traces += 1;
        l.states += 1;
        let want = &table[&(k, s.clone())];
        if out != *want { return Err(differ(WORLDS[w], &[(k, s)], "alone", 0, &out, want)) }
        Ok(())
    });
    // single renderings again, after all the others
    c.par("each rendering again, on fresh threads", 6, |k, l| {
        for s in scripts.iter().chain(&long) {
            let got = guard(&|| One::show(k, s), || One::alone(k, s))?;
            l.traces += 1;
            l.states += 1;
            if got != table[&(k, s.clone())] { return Err(differ("alone, later", &[(k, s)], "alone", 0, &got, &table[&(k, s.clone())])) }
        }
        Ok(())
    });
    // each in unusual places, in whole or in part
    c.par("each rendering at unusual places", 6 * PLACES.len(), |t, l| {
        let (k, p) = (t % 6, t / 6);
        for s in scripts.iter().chain(&long) {
            for from in 0..s.len() + 2 {
                for to in from + 1..s.len() + 3 {
                    let show = || format!("{} (steps {from}..{to} {})", One::show(k, s), PLACES[p]);
                    let got = guard(&show, || {
                        let mut o = One::new(k, s);
                        while o.pc < from { o.step() }
                        let o = Arc::new(Mutex::new(o));
                        let o2 = o.clone();
                        at_place(p, Box::new(move || { let mut o = o2.lock().unwrap_or_else(|e| e.into_inner()); while o.pc < to { o.step() } }));
                        let mut o = o.lock().unwrap_or_else(|e| e.into_inner());
                        while o.pc < o.steps() { o.step() }
                        std::mem::take(&mut o.out)
                    })?;
                    l.traces += 1;
                    l.states += 1;
                    if got != table[&(k, s.clone())] { return Err(differ(&format!("steps {from}..{to} {}", PLACES[p]), &[(k, s)], "alone", 0, &got, &table[&(k, s.clone())])) }
                }
            }
        }
        Ok(())
    });
    let ms = merges(&[len + 2, len + 2]);
    let n = scripts.len();
    // quick: half of all, by symmetry the pairs (x, y) and (y, x) have the same merges
    c.par("two writers, all merges of all scripts of two operations", 36 * n, |t, l| {
        let (k, s) = (t % 36, t / 36);
        let (k1, k2) = (k / 6, k % 6);
        for s2 in 0..n {
            if (k1, s) > (k2, s2) { continue }
            merged(&[(k1, &scripts[s]), (k2, &scripts[s2])], &ms, table, l)?;
            if l.states == 3000 { l.sample(|| format!("{} | {}", One::show(k1, &scripts[s]), One::show(k2, &scripts[s2]))) }
        }
        Ok(())
    });
    let ms3: Vec<_> = merges(&[4, 4, 4]);
    let tri: [&[usize]; 4] = [&[0, 4], &[4, 2], &[5, 0], &[2, 3]];
    c.par("three writers, all merges", 216, |t, l| {
        let k = [t / 36, t / 6 % 6, t % 6];
        for r in 0..c.pick(1, 4) {
            merged(&[(k[0], tri[r]), (k[1], tri[(r + 1) % 4]), (k[2], tri[(r + 2) % 4])], &ms3, table, l)?;
        }
        Ok(())
    });
    let ms4 = merges(&[5, 5]);
    c.par("two writers, all merges of longer scripts", 36 * 16, |t, l| {
        let (k, s) = (t / 16, t % 16);
        merged(&[(k / 6, &long[s / 4]), (k % 6, &long[s % 4])], &ms4, table, l)
    });
    // inside another rendering: at every point of the outer one, a whole inner one
    c.par("a rendering inside another, at every point", 36, |k, l| {
        let (k1, k2) = (k / 6, k % 6);
        for s1 in scripts.iter().chain(&long) {
            let n = points(k1, s1);
            for s2 in long.iter().chain(&scripts[..c.pick(10, 81)]) {
                for at in 0..n {
                    let parts = [(k1, &s1[..]), (k2, &s2[..])];
                    let show = || format!("{}\ninside it at point {at}: {}", One::show(k1, s1), One::show(k2, s2));
                    let inner = std::rc::Rc::new(RefCell::new(Vec::new()));
                    let outer = guard(&show, || {
                        let (i2, s2) = (inner.clone(), s2.clone());
                        let mut left = at;
                        hook(Some(Box::new(move || {
                            if left == 0 { *i2.borrow_mut() = One::alone(k2, &s2) }
                            left = left.wrapping_sub(1);
                        })));
                        let mut o = One::new(k1, s1);
                        while o.pc < o.steps() { o.step(); point() }
                        o.out
                    });
                    hook(None);
                    let outer = outer?;
                    l.traces += 1;
                    l.states += 1;
                    let order = format!("the second inside the first at point {at}");
                    if outer != table[&(k1, s1.clone())] { return Err(differ("nested", &parts, &order, 0, &outer, &table[&(k1, s1.clone())])) }
                    if *inner.borrow() != table[&(k2, s2.clone())] { return Err(differ("nested", &parts, &order, 1, &inner.borrow(), &table[&(k2, s2.clone())])) }
                }
            }
        }
        Ok(())
    });
    // two threads, switched at every point
    c.par("two threads, all schedules with up to two switches", 36 * 2, |t, l| {
        let (k1, k2, first) = (t / 12, t / 2 % 6, t % 2);
        for s1 in &long[..c.pick(1, 5)] {
            for s2 in &long[1..c.pick(2, 5)] {
                let (n1, n2) = (points(k1, s1), points(k2, s2));
                let (na, nb) = if first == 0 { (n1, n2) } else { (n2, n1) };
                for a in 0..na {
                    threads([(k1, s1), (k2, s2)], first, &[a], table, l)?;
                    for b in 0..nb {
                        threads([(k1, s1), (k2, s2)], first, &[a, b], table, l)?;
                    }
                }
            }
        }
        Ok(())
    });
    // writers that move from thread to thread
    c.par("two writers on two threads, all merges, moving between threads", 36, |t, l| {
        use std::sync::mpsc::channel;
        let (k1, k2) = (t / 6, t % 6);
        std::thread::scope(|s| {
            let (back, from) = channel();
            let to: Vec<_> = (0..2).map(|_| {
                let (tx, rx) = channel::<One>();
                let back = back.clone();
                s.spawn(move || for mut o in rx { let r = catch_unwind(AssertUnwindSafe(|| { o.step(); o })); if back.send(r.ok()).is_err() { break } });
                tx
            }).collect();
            for m in &ms {
                for mask in [0b01010101u8, 0b00110011, 0b00001111, 0b01101001, 0b11100100, 0b10000001].into_iter().take(c.pick(3, 6)) {
                    let parts: [(usize, &[usize]); 2] = [(k1, &[0, 4]), (k2, &[4, 2])];
                    let mut ones: Vec<Option<One>> = parts.iter().map(|p| Some(One::new(p.0, p.1))).collect();
                    for (i, &w) in m.iter().enumerate() {
                        let o = ones[w as usize].take().unwrap();
                        to[(mask >> i & 1) as usize].send(o).unwrap();
                        ones[w as usize] = from.recv().unwrap();
                        if ones[w as usize].is_none() { return Err(Violation::new("panic", format!("{parts:?} {m:?} on threads {mask:08b}"))) }
                    }
                    l.traces += 1;
                    l.states += 1;
                    l.transitions += m.len() as u64;
                    for (i, o) in ones.into_iter().enumerate() {
                        let (o, want) = (o.unwrap().out, &table[&(parts[i].0, parts[i].1.to_vec())]);
                        if o != *want { return Err(differ("moving between threads", &parts, &format!("{m:?} on threads {mask:08b}"), i, &o, want)) }
                    }
                }
            }
            Ok(())
        })
    });
    // renderings started by what is rendered, to any depth
    let depths = space::lengths(c.pick(300, 700), c.pick(2048, 16384));
    c.par("renderings inside each other, to any depth", 10, |kind, l| {
        // the references, from the inside out without any nesting
        let top = *depths.last().unwrap();
        let mut flat: Vec<Vec<u8>> = Vec::new();
        let mut d = 0;
        for depth in 0..=top {
            let o = guard(&|| format!("value {depth} of kind {kind}, not nested"), || nest(depth, kind, Some(d)))?;
            d = digest(&o);
            flat.push(o);
        }
        for &depth in &depths {
            let show = || format!("{depth} renderings inside each other, each showing a digest of the next, through ways {:?}.. (inmost first)",
                (0..7).map(|i| ["ansi::format!", "html::format!", "plain::format!", "format!", "io::Ansi", "to_ansi_string", "Html"][way(kind, i)]).collect::<Vec<_>>());
            let got = guard(&show, || nest(depth, kind, None))?;
            l.traces += depth as u64 + 1;
            l.states += 1;
            if got != flat[depth] {
                return Err(Violation::new(format!("nested renderings give {:?} instead of {:?}", String::from_utf8_lossy(&got), String::from_utf8_lossy(&flat[depth])), show()));
            }
        }
        Ok(())
    });
    // a great many renderings, all open at once, and one after the other
    let n = c.pick(140_000, 600_000);
    c.par("a great many writers open at once", 6, |kind, l| {
        let script: &[usize] = &[2, 4];
        let want = &table[&(kind, script.to_vec())];
        let show = || format!("{n} times {} (each operation on all of them in turn)", One::show(kind, script));
        let bad = guard(&show, || {
            let mut ones: Vec<One> = (0..n).map(|_| One::new(kind, script)).collect();
            for _ in 0..script.len() + 2 { for o in &mut ones { o.step() } }
            ones.iter().position(|o| o.out != *want).map(|i| (i, ones[i].out.clone()))
        })?;
        l.traces += n as u64;
        l.states += 1;
        if let Some((i, got)) = bad { return Err(Violation::new(format!("rendering {i} gives {:?} instead of {:?}", String::from_utf8_lossy(&got), String::from_utf8_lossy(want)), show())) }
        Ok(())
    });
    c.par("a great many renderings one after the other", 6, |kind, l| {
        for i in 0..n {
            let script: &[usize] = [&[2usize, 4][..], &[0, 2], &[5, 0], &[7, 0, 8, 4]][if i % 977 == 5 { 3 } else { i % 3 }];
            let got = guard(&|| format!("rendering {i}: {}", One::show(kind, script)), || One::alone(kind, script))?;
            let want = &table[&(kind, script.to_vec())];
            l.traces += 1;
            if got != *want { return Err(differ(&format!("after {i} others"), &[(kind, script)], "one after the other", 0, &got, want)) }
        }
        l.states += 1;
        Ok(())
    });
    // millions of short ones, most of which fail, on one thread
    let m = c.pick(1usize << 22, 1 << 25) + 3;
    c.par("millions of short renderings", 6 * 4 * 3, |t, l| {
        let (kind, value, how) = (t % 6, t / 6 % 4, t / 24);
        let show = || format!("{m} times {} to {} that {}", ["an attributed string", "a value in two styles", "a number", "format arguments"][value], KINDS[kind], ["accepts it", "fails at once", "fails at the second write"][how]);
        let odd = guard(&show, || short(kind, value, how, m))?;
        if let Some(i) = odd { return Err(Violation::new(format!("rendering {i} reports something else than the first"), show())) }
        l.traces += m as u64;
        l.states += 1;
        for k in 0..6 {
            for s in &long {
                let got = guard(&show, || One::alone(k, s))?;
                if got != table[&(k, s.clone())] { return Err(differ(&format!("after {}", show()), &[(k, s)], "alone", 0, &got, &table[&(k, s.clone())])) }
            }
        }
        Ok(())
    });
    c.par("a great many threads, one after the other", 6, |kind, l| {
        let script: &[usize] = &[2, 4];
        let want = &table[&(kind, script.to_vec())];
        let mut moving = One::new(kind, &long[0].repeat(c.pick(40, 200)));
        let still = guard(&|| One::show(kind, &moving.script), || One::alone(kind, &moving.script))?;
        for i in 0..moving.steps() {
            let show = || format!("thread {i}: {}; and one step of a rendering passed from thread to thread", One::show(kind, script));
            let (got, back) = guard(&show, || std::thread::scope(|s| s.spawn(move || {
                let mut m = moving;
                m.step();
                (One::alone(kind, script), m)
            }).join().unwrap()))?;
            moving = back;
            l.traces += 1;
            if got != *want { return Err(differ(&format!("on thread {i}"), &[(kind, script)], "alone", 0, &got, want)) }
        }
        if moving.out != still { return Err(differ("passed from thread to thread", &[(kind, &moving.script)], "alone", 0, &moving.out, &still)) }
        l.states += 1;
        Ok(())
    });
    c.finish(
        "states: combinations of renderings (and schedules of two threads); transitions: operations; traces: interleavings, nestings and thread schedules run on the real writers, every output compared with what the same operations gave alone",
        &["threads are switched where a sink is called, a value is displayed, or an operation ends; the library uses no synchronisation of its own that could be switched inside"],
    )
}
