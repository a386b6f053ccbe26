//! Support for generated programs that exercise the formatting macros.
use std::collections::HashSet;
use std::fmt;
use std::io::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};

use stylish::{Background, Color, Foreground, Intensity, Restyle, Style};

/// Records the calls it gets as styled characters.
#[derive(Default, Clone, PartialEq, Debug)]
pub struct Rec(pub Vec<(char, Style)>);

impl stylish::Write for Rec {
    fn write_str(&mut self, s: &str, style: Style) -> stylish::Result {
        self.0.extend(s.chars().map(|c| (c, style)));
        Ok(())
    }
}

impl Rec {
    pub fn empty() -> Self {
        Self(Vec::new())
    }

    pub fn text(&self) -> String {
        self.0.iter().map(|c| c.0).collect()
    }
}

impl fmt::Display for Rec {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        let mut i = 0;
        while i < self.0.len() {
            let s = self.0[i].1;
            let j = (i..self.0.len()).find(|&j| self.0[j].1 != s).unwrap_or(self.0.len());
            let t: String = self.0[i..j].iter().map(|c| c.0).collect();
            write!(f, "{:?}{{{:?} on {:?}, {:?}}}", t, s.foreground, s.background, s.intensity)?;
            i = j;
        }
        Ok(())
    }
}

#[derive(Default)]
pub struct Ctx {
    id: usize,
    pub evaluations: u64,
    outcomes: HashSet<u64>,
    fails: Vec<(usize, String)>,
    trace: Option<std::fs::File>,
}

fn hash(bytes: &[u8], mut h: u64) -> u64 {
    for &b in bytes {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    h
}

fn short(s: &str) -> String {
    if s.chars().count() <= 400 { s.to_string() } else { format!("{}… ({} bytes)", s.chars().take(400).collect::<String>(), s.len()) }
}

impl Ctx {
    pub fn new() -> Self {
        Self::default()
    }

    pub fn at(&mut self, id: usize) {
        self.id = id;
        if let Some(t) = &mut self.trace {
            writeln!(t, "{id}").unwrap();
        }
    }

    pub fn fail(&mut self, what: impl Into<String>) {
        if self.fails.len() < 20 {
            self.fails.push((self.id, what.into()));
        }
    }

    pub fn check(&mut self, ok: bool, what: impl FnOnce() -> String) {
        self.evaluations += 1;
        if !ok {
            self.fail(what());
        }
    }

    pub fn outcome(&mut self, bytes: &[u8]) {
        if self.outcomes.len() < 500_000 {
            self.outcomes.insert(hash(bytes, 0xcbf29ce484222325));
        }
    }

    /// Texts must be equal.
    pub fn eq(&mut self, got: &str, want: &str) {
        self.evaluations += 1;
        self.outcome(got.as_bytes());
        if got != want {
            self.fail(format!("got {:?}, expected {:?}", short(got), short(want)));
        }
    }

    /// Rendering in style `base` must give exactly `want`, every character
    /// in `style`.
    pub fn same(&mut self, args: stylish::Arguments<'_>, want: fmt::Arguments<'_>, base: Style, style: Style) {
        let got = render(base, args);
        let want = want.to_string();
        self.evaluations += 1;
        let got = match got {
            Ok(got) => got,
            Err(_) => return self.fail(format!("returned an error, expected {:?}", short(&want))),
        };
        let text = got.text();
        self.outcome(text.as_bytes());
        if text != want {
            return self.fail(format!("got {:?}, expected {:?}", short(&text), short(&want)));
        }
        if let Some((c, s)) = got.0.iter().find(|c| c.1 != style) {
            self.fail(format!("character {c:?} of {:?} has style {s:?}, expected {style:?}", short(&text)));
        }
    }

    /// Rendering in style `base` must give exactly the styled characters.
    pub fn rec(&mut self, args: stylish::Arguments<'_>, base: Style, want: &Rec) {
        self.evaluations += 1;
        match render(base, args) {
            Ok(got) => {
                if got != *want {
                    self.fail(format!("in context {base:?} got {}, expected {}", short(&got.to_string()), short(&want.to_string())));
                }
                self.outcome(got.to_string().as_bytes());
            }
            Err(_) => self.fail("returned an error"),
        }
    }
}

pub fn render(base: Style, args: stylish::Arguments<'_>) -> Result<Rec, fmt::Error> {
    struct Within<'a>(Style, &'a stylish::Arguments<'a>);
    impl stylish::Display for Within<'_> {
        fn fmt(&self, f: &mut stylish::Formatter<'_>) -> stylish::Result {
            stylish::Display::fmt(self.1, &mut f.with(self.0))
        }
    }
    let mut rec = Rec::default();
    stylish::Write::write_fmt(&mut rec, stylish::format_args!("{:s}", Within(base, &args)))?;
    Ok(rec)
}

/// The text a value renders to.
pub fn text(args: stylish::Arguments<'_>) -> String {
    match render(Style::default(), args) {
        Ok(r) => r.text(),
        Err(_) => "(error)".into(),
    }
}

pub fn done(c: &mut Ctx) {
    let fails: Vec<String> = c.fails.iter().map(|(i, w)| {
        let mut o = String::new();
        for ch in w.chars() {
            match ch {
                '"' => o.push_str("\\\""),
                '\\' => o.push_str("\\\\"),
                ch if (ch as u32) < 0x20 || ch == '\u{7f}' => o.push_str(&format!("\\u{:04x}", ch as u32)),
                ch => o.push(ch),
            }
        }
        format!("[{i},\"{o}\"]")
    }).collect();
    println!("\nRESULT {{\"evaluations\":{},\"distinct\":{},\"fails\":[{}]}}", c.evaluations, c.outcomes.len(), fails.join(","));
}

pub fn main(groups: &[fn(&mut Ctx)]) {
    std::panic::set_hook(Box::new(|_| {}));
    let mut c = Ctx::new();
    c.trace = std::env::var_os("MC_TRACE").map(|p| std::fs::File::create(p).unwrap());
    for g in groups {
        if let Err(e) = catch_unwind(AssertUnwindSafe(|| g(&mut c))) {
            c.fail(format!("panic: {}", crate::report::panic_text(&e)));
        }
    }
    done(&mut c);
}

pub const COLORS: [Color; 17] = [
    Color::Black, Color::Red, Color::Green, Color::Yellow, Color::Blue, Color::Magenta, Color::Cyan, Color::White,
    Color::Default, Color::BrightBlack, Color::BrightRed, Color::BrightGreen, Color::BrightYellow, Color::BrightBlue,
    Color::BrightMagenta, Color::BrightCyan, Color::BrightWhite,
];
pub const INTENSITIES: [Intensity; 3] = [Intensity::Normal, Intensity::Bold, Intensity::Faint];

/// A style from indices into the tables above.
pub fn st(fg: usize, bg: usize, i: usize) -> Style {
    let mut s = Style::default();
    s.foreground = COLORS[fg];
    s.background = COLORS[bg];
    s.intensity = INTENSITIES[i];
    s
}

/// Aspects named by an attribute list, by index.
pub type Named = (Option<usize>, Option<usize>, Option<usize>);

pub fn apply(s: Style, n: Named) -> Style {
    let mut s = s;
    if let Some(i) = n.0 { s.foreground = COLORS[i] }
    if let Some(i) = n.1 { s.background = COLORS[i] }
    if let Some(i) = n.2 { s.intensity = INTENSITIES[i] }
    s
}

pub fn all_styles() -> Vec<Style> {
    let mut v = Vec::new();
    for f in 0..17 { for b in 0..17 { for i in 0..3 { v.push(st(f, b, i)) } } }
    v
}

/// Styles that differ from one another in every aspect.
pub fn bases() -> [Style; 4] {
    [st(8, 8, 0), st(1, 4, 1), st(16, 9, 2), st(2, 8, 1)]
}

/// Two styles in which values are rendered.
pub fn two() -> [Style; 2] {
    [st(8, 8, 0), st(5, 12, 2)]
}

/// A value that shows everything its formatter tells it.
pub struct Probe;

impl Probe {
    fn show(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        let (w, p, plus, minus, alt, zero, fill) =
            (f.width(), f.precision(), f.sign_plus(), f.sign_minus(), f.alternate(), f.sign_aware_zero_pad(), f.fill());
        let align = f.align().map(|a| match a {
            fmt::Alignment::Left => '<',
            fmt::Alignment::Center => '^',
            fmt::Alignment::Right => '>',
        });
        f.write_fmt(format_args!("[{w:?},{p:?},{plus},{minus},{alt},{zero},{fill:?},{align:?}]"))?;
        f.pad("é~x")?;
        f.write_char('|')?;
        f.pad_integral(true, "0q", "7f")?;
        f.write_str("|")?;
        f.pad_integral(false, "0q", "7f")
    }
}
use fmt::Write as _;

macro_rules! each { ($m:ident) => { $m! { Display Debug Octal LowerHex UpperHex Pointer Binary LowerExp UpperExp } } }
macro_rules! probe { ($($t:ident)*) => { $(impl fmt::$t for Probe {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str(stringify!($t))?; self.show(f) }
})* } }
each!(probe);

/// Text a value may write that looks like what std itself writes, or like
/// something with a meaning elsewhere.
pub const RAW: [&str; 44] = [
    "", "0", "00", "0000", "-0", "+0", "-", "+", "+inf", "inf", "-inf", "+NaN", "NaN", "1e5", "1E5", "+1.50", "0.0", "1.", "e", "E-7",
    "0x", "0x0", "0b1", "0o7", " ", "  ", "  5", "5  ", "\n", "x\n", "\r\n", "\t", "é", "漢字", "{", "}", "{}", "(bold)", "\"", "'q'", "<&>", "None", "\0", "\u{301}",
];

/// Writes its text as it is, in one piece, in characters, or twice.
#[derive(Clone, Copy)]
pub struct Raw(pub &'static str, pub u8);

macro_rules! raw { ($($t:ident)*) => { $(impl fmt::$t for Raw {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self.1 {
            0 => f.write_str(self.0),
            1 => self.0.chars().try_for_each(|c| f.write_char(c)),
            _ => { f.write_fmt(format_args!("{}", self.0))?; f.write_str(self.0) }
        }
    }
})* } }
each!(raw);

/// A value that can be formatted in every way.
#[derive(Clone, Copy, PartialEq)]
pub struct All;

macro_rules! all { ($($t:ident)*) => { $(impl fmt::$t for All {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("all") }
})* } }
each!(all);

impl stylish::Display for All {
    fn fmt(&self, f: &mut stylish::Formatter<'_>) -> stylish::Result {
        f.write_str("all")
    }
}

#[derive(Debug, Clone)]
#[allow(dead_code)]
pub struct Rec2 {
    a: i32,
    b: Option<&'static str>,
    c: (u8, f32),
}

macro_rules! values {
    ($($v:ident($t:ty): $($tr:ident)*;)*) => {
        /// A value of one of many types, formatting like that type.
        pub enum V { $($v($t)),* }
        values!(@ Display [$($v: $($tr)*;)*]); values!(@ Debug [$($v: $($tr)*;)*]); values!(@ Octal [$($v: $($tr)*;)*]);
        values!(@ LowerHex [$($v: $($tr)*;)*]); values!(@ UpperHex [$($v: $($tr)*;)*]); values!(@ Pointer [$($v: $($tr)*;)*]);
        values!(@ Binary [$($v: $($tr)*;)*]); values!(@ LowerExp [$($v: $($tr)*;)*]); values!(@ UpperExp [$($v: $($tr)*;)*]);
    };
    (@ $want:ident [$($v:ident: $($tr:ident)*;)*]) => {
        impl fmt::$want for V {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                match self { $(V::$v(x) => values!(@@ $want x f [$($tr)*]),)* }
            }
        }
    };
    (@@ $want:ident $x:ident $f:ident [$($tr:ident)*]) => {{
        let _ = &$x;
        values!(@pick $want $x $f $($tr)*)
    }};
    (@pick Display $x:ident $f:ident Display $($r:ident)*) => { fmt::Display::fmt($x, $f) };
    (@pick Debug $x:ident $f:ident Debug $($r:ident)*) => { fmt::Debug::fmt($x, $f) };
    (@pick Octal $x:ident $f:ident Octal $($r:ident)*) => { fmt::Octal::fmt($x, $f) };
    (@pick LowerHex $x:ident $f:ident LowerHex $($r:ident)*) => { fmt::LowerHex::fmt($x, $f) };
    (@pick UpperHex $x:ident $f:ident UpperHex $($r:ident)*) => { fmt::UpperHex::fmt($x, $f) };
    (@pick Pointer $x:ident $f:ident Pointer $($r:ident)*) => { fmt::Pointer::fmt($x, $f) };
    (@pick Binary $x:ident $f:ident Binary $($r:ident)*) => { fmt::Binary::fmt($x, $f) };
    (@pick LowerExp $x:ident $f:ident LowerExp $($r:ident)*) => { fmt::LowerExp::fmt($x, $f) };
    (@pick UpperExp $x:ident $f:ident UpperExp $($r:ident)*) => { fmt::UpperExp::fmt($x, $f) };
    (@pick $w:ident $x:ident $f:ident $o:ident $($r:ident)*) => { values!(@pick $w $x $f $($r)*) };
    (@pick $w:ident $x:ident $f:ident) => { unreachable!() };
}

values! {
    I8(i8): Display Debug Octal LowerHex UpperHex Binary LowerExp UpperExp;
    U16(u16): Display Debug Octal LowerHex UpperHex Binary LowerExp UpperExp;
    I32(i32): Display Debug Octal LowerHex UpperHex Binary LowerExp UpperExp;
    U64(u64): Display Debug Octal LowerHex UpperHex Binary LowerExp UpperExp;
    I128(i128): Display Debug Octal LowerHex UpperHex Binary LowerExp UpperExp;
    F32(f32): Display Debug LowerExp UpperExp;
    F64(f64): Display Debug LowerExp UpperExp;
    Str(&'static str): Display Debug;
    Char(char): Display Debug;
    Bool(bool): Display Debug;
    Unit(()): Debug;
    List(Vec<i32>): Debug;
    Struct(Rec2): Debug;
    Nested(Vec<Option<Rec2>>): Debug;
    Map(std::collections::BTreeMap<&'static str, (u8, char)>): Debug;
    Ptr(*const u8): Pointer Debug;
    Slice(*const [u8]): Pointer;
    Probe(Probe): Display Debug Octal LowerHex UpperHex Pointer Binary LowerExp UpperExp;
    Raw(Raw): Display Debug Octal LowerHex UpperHex Pointer Binary LowerExp UpperExp;
}

/// Values of types that have the trait named by a format string's type letters.
pub fn values(ty: &str) -> Vec<V> {
    let ints = || vec![V::I8(-1), V::I8(0), V::U16(0xabc), V::I32(i32::MIN), V::I32(7), V::U64(u64::MAX), V::I128(-12345678901234567890)];
    let floats = || vec![V::F64(0.0), V::F64(-0.0), V::F64(1234.5678), V::F64(-1e300), V::F64(f64::NAN), V::F64(f64::NEG_INFINITY), V::F64(5e-324), V::F32(0.1), V::F32(1e20)];
    let words = || vec![V::Str(""), V::Str("a"), V::Str("héllo wörld"), V::Str("日\n\"\\"), V::Char('é'), V::Char('\''), V::Bool(true)];
    let mut v = vec![V::Probe(Probe)];
    match ty {
        "" => { v.extend(ints()); v.extend(floats()); v.extend(words()) }
        "?" | "x?" | "X?" => {
            let r = Rec2 { a: -171, b: Some("q"), c: (200, 1.5) };
            v.extend(ints()); v.extend(floats()); v.extend(words());
            v.extend([V::Unit(()), V::List(vec![]), V::List(vec![1, -20, 300]), V::Struct(r.clone()),
                      V::Nested(vec![None, Some(r)]), V::Map([("k", (255, 'z')), ("é", (0, '\t'))].into()),
                      V::Ptr(0x1234 as *const u8)]);
        }
        "o" | "x" | "X" | "b" => v.extend(ints()),
        "e" | "E" => { v.extend(ints()); v.extend(floats()) }
        "p" => v.extend([V::Ptr(0x1234 as *const u8), V::Ptr(std::ptr::null()), V::Ptr(!0usize as *const u8),
                         V::Slice(std::ptr::slice_from_raw_parts(0x10 as *const u8, 3))]),
        _ => unreachable!(),
    }
    v
}

/// Values that write texts of their own making.
pub fn raws(_: &str) -> Vec<V> {
    RAW.iter().flat_map(|t| (0..3).map(|k| V::Raw(Raw(t, k)))).collect()
}

/// A value that restyles part of its own output.
pub struct Own;

impl stylish::Display for Own {
    fn fmt(&self, f: &mut stylish::Formatter<'_>) -> stylish::Result {
        f.write_str("o")?;
        f.with(Foreground(Color::Yellow)).write_str("y")?;
        f.with((Background(Color::Cyan), Intensity::Faint)).write_str("c")?;
        f.write_str("w")
    }
}

/// What `Own` renders to in a style.
pub fn own(s: Style) -> Vec<(char, Style)> {
    let mut y = s;
    y.foreground = Color::Yellow;
    let mut c = s;
    c.background = Color::Cyan;
    c.intensity = Intensity::Faint;
    vec![('o', s), ('y', y), ('c', c), ('w', s)]
}

pub fn run_of(t: &str, s: Style) -> Vec<(char, Style)> {
    t.chars().map(|c| (c, s)).collect()
}

#[allow(unused)]
fn _restyle(_: &dyn Restyle) {}

/// A few of the values.
pub fn few(ty: &str) -> Vec<V> {
    values(ty).into_iter().step_by(4).take(4).collect()
}

/// A byte sink for programs without the standard library.
#[derive(Default)]
pub struct Bytes(Vec<u8>);

impl Bytes {
    pub fn empty() -> Self {
        Self(Vec::new())
    }

    pub fn text(&self) -> String {
        String::from_utf8(self.0.clone()).unwrap()
    }
}

impl std::io::Write for Bytes {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.0.extend_from_slice(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

/// Results at an ordinary call site.
#[cfg(feature = "full")]
pub mod site {
    pub fn attributes() -> String {
        stylish::html::format!("{:(fg=red)}{:(bg=blue)}{:(bold)}{:(faint,fg=default,bg=brightcyan)}{:()}{:(normal)}", 1, 2, 3, 4, 5, 6)
    }
    pub fn ansi() -> String {
        stylish::ansi::format!("{:(fg=red)}", 1)
    }
    pub fn nested() -> String {
        stylish::ansi::format!("{:(fg=red)s}", stylish::format_args!("{}x", 1))
    }
    pub fn string() -> String {
        stylish::html::format!("{:s}", stylish::format!("{:(bold)}", 1))
    }
    pub fn io() -> String {
        let mut w = stylish::io::Ansi::new(Vec::new());
        stylish::write!(w, "{:(bold)}{}\n", 1, 3).unwrap();
        String::from_utf8(w.finish().unwrap()).unwrap()
    }
}
