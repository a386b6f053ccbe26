//! Prints what the library renders under one combination of features, one
//! line per experiment. Without the feature `std` (`alloc`) this program
//! brings the panic handler (the allocator) itself, so it does not link when
//! the library pulls in the standard library (the allocation library).
#![cfg_attr(not(feature = "std"), no_std)]
#![cfg_attr(not(feature = "std"), no_main)]
#![allow(dead_code, unused)]

#[cfg(feature = "alloc")]
extern crate alloc;

use core::fmt::{self, Write as _};
use stylish::{Background, Color, Foreground, Intensity, Restyle, Style, StyleDiff};

#[cfg(not(feature = "std"))]
mod bare {
    #[link(name = "c")]
    #[link(name = "gcc_s")]
    extern "C" {
        pub fn write(fd: i32, p: *const u8, n: usize) -> isize;
        pub fn abort() -> !;
        pub fn malloc(n: usize) -> *mut u8;
        pub fn free(p: *mut u8);
    }
    #[panic_handler]
    fn panic(_: &core::panic::PanicInfo) -> ! {
        unsafe { abort() }
    }
    #[no_mangle]
    pub extern "C" fn rust_eh_personality() {}
    #[no_mangle]
    pub extern "C" fn main(_: i32, _: *const *const u8) -> i32 {
        super::go();
        0
    }
    #[cfg(feature = "alloc")]
    mod heap {
        struct Heap;
        unsafe impl core::alloc::GlobalAlloc for Heap {
            unsafe fn alloc(&self, l: core::alloc::Layout) -> *mut u8 {
                super::malloc(l.size().max(16))
            }
            unsafe fn dealloc(&self, p: *mut u8, _: core::alloc::Layout) {
                super::free(p)
            }
        }
        #[global_allocator]
        static HEAP: Heap = Heap;
    }
}

#[cfg(feature = "std")]
fn main() {
    go()
}

fn out(s: &[u8]) {
    #[cfg(feature = "std")]
    std::io::Write::write_all(&mut std::io::stdout(), s).unwrap();
    #[cfg(not(feature = "std"))]
    {
        let mut at = 0;
        while at < s.len() {
            let n = unsafe { bare::write(1, s[at..].as_ptr(), s.len() - at) };
            if n <= 0 {
                unsafe { bare::abort() }
            }
            at += n as usize;
        }
    }
}

/// Which of the pairs of styles.
const STEP: usize = if option_env!("PROBE_ALL").is_some() { 1 } else { 31 };

/// What was rendered: the start of it, its length and a hash.
#[derive(Clone)]
struct Sum {
    hash: u64,
    len: usize,
    head: [u8; 300],
}

impl Sum {
    fn new() -> Self {
        Sum { hash: 0xcbf29ce484222325, len: 0, head: [0; 300] }
    }
    fn byte(&mut self, b: u8) {
        self.hash = (self.hash ^ b as u64).wrapping_mul(0x100000001b3);
        if self.len < self.head.len() {
            self.head[self.len] = b;
        }
        self.len += 1;
    }
    fn style(&mut self, s: Style) {
        let n = number(s);
        self.byte(n as u8);
        self.byte((n >> 8) as u8);
    }
    fn say(&self, key: &str) {
        self.say2(key, "")
    }
    fn say2(&self, key: &str, n: &str) {
        out(key.as_bytes());
        if n != "" {
            out(b", ");
            out(n.as_bytes());
        }
        let mut line = Line([0; 64], 0);
        write!(line, "\t{}\t{:016x}\t", self.len, self.hash).unwrap();
        out(&line.0[..line.1]);
        for b in &self.head[..self.len.min(self.head.len())] {
            let hex = b"0123456789abcdef";
            out(&[hex[(b >> 4) as usize], hex[(b & 15) as usize]]);
        }
        out(b"\n");
    }
}

struct Line([u8; 64], usize);
impl fmt::Write for Line {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        for b in s.bytes() {
            self.0[self.1] = b;
            self.1 += 1;
        }
        Ok(())
    }
}

impl fmt::Write for Sum {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        for b in s.bytes() {
            self.byte(b);
        }
        Ok(())
    }
}

#[cfg(feature = "std")]
impl std::io::Write for Sum {
    fn write(&mut self, s: &[u8]) -> std::io::Result<usize> {
        for &b in s {
            self.byte(b);
        }
        Ok(s.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

const COLORS: [Color; 17] = [
    Color::Default, Color::Black, Color::Red, Color::Green, Color::Yellow, Color::Blue, Color::Magenta, Color::Cyan,
    Color::White, Color::BrightBlack, Color::BrightRed, Color::BrightGreen, Color::BrightYellow, Color::BrightBlue,
    Color::BrightMagenta, Color::BrightCyan, Color::BrightWhite,
];
const INTENSITIES: [Intensity; 3] = [Intensity::Normal, Intensity::Bold, Intensity::Faint];

fn style(i: usize) -> Style {
    Style::default()
        .with(Foreground(COLORS[i % 17]))
        .with(Background(COLORS[i / 17 % 17]))
        .with(INTENSITIES[i / 289])
}

fn number(s: Style) -> u16 {
    let f = COLORS.iter().position(|c| *c == s.foreground).unwrap();
    let b = COLORS.iter().position(|c| *c == s.background).unwrap();
    let i = INTENSITIES.iter().position(|c| *c == s.intensity).unwrap();
    (f * 51 + b * 3 + i) as u16
}

/// A user's own writer that notes the style of everything.
struct Tap(Sum);
impl stylish::Write for Tap {
    fn write_str(&mut self, s: &str, style: Style) -> stylish::Result {
        for b in s.bytes() {
            self.0.byte(b);
            self.0.style(style);
        }
        Ok(())
    }
}
#[cfg(feature = "std")]
impl stylish::io::Write for Tap {
    fn write(&mut self, s: &[u8], style: Style) -> stylish::io::Result<usize> {
        for &b in s {
            self.0.byte(b);
            self.0.style(style);
        }
        Ok(s.len())
    }
    fn flush(&mut self) -> stylish::io::Result<()> {
        Ok(())
    }
}

/// A user's own type.
struct Own(usize);
impl stylish::Display for Own {
    fn fmt(&self, f: &mut stylish::Formatter<'_>) -> stylish::Result {
        f.write_str("<")?;
        f.with(style(self.0 * 37 % 867)).write_str("a&\"")?;
        if self.0 > 0 {
            stylish::Display::fmt(&&Own(self.0 - 1), &mut f.with(Foreground(COLORS[self.0 % 17])))?;
        }
        f.with((Intensity::Bold, Background(Color::Blue))).write_char('é')?;
        f.write_str(">")
    }
}

macro_rules! each {
    ($go:ident) => {{
        $go!("tap", { Tap(Sum::new()) }, |w: Tap| w.0);
        #[cfg(feature = "ansi")]
        $go!("ansi", { stylish::Ansi::new(Sum::new()) }, |w: stylish::Ansi<Sum>| w.finish().unwrap());
        #[cfg(feature = "ansi")]
        $go!("ansi fn", { stylish::ansi(Sum::new()) }, |w: stylish::Ansi<Sum>| w.finish().unwrap());
        #[cfg(feature = "html")]
        $go!("html", { stylish::Html::new(Sum::new()) }, |w: stylish::Html<Sum>| w.finish().unwrap());
        #[cfg(feature = "html")]
        $go!("html fn", { stylish::html(Sum::new()) }, |w: stylish::Html<Sum>| w.finish().unwrap());
        #[cfg(feature = "plain")]
        $go!("plain", { stylish::Plain::new(Sum::new()) }, |w: stylish::Plain<Sum>| w.into_inner());
        #[cfg(feature = "plain")]
        $go!("plain fn", { stylish::plain(Sum::new()) }, |w: stylish::Plain<Sum>| w.into_inner());
    }};
}

#[cfg(feature = "std")]
macro_rules! each_io {
    ($go:ident) => {{
        $go!("io tap", { Tap(Sum::new()) }, |w: Tap| w.0);
        #[cfg(feature = "ansi")]
        $go!("io ansi", { stylish::io::Ansi::new(Sum::new()) }, |w: stylish::io::Ansi<Sum>| w.finish().unwrap());
        #[cfg(feature = "ansi")]
        $go!("io ansi fn", { stylish::io::ansi(Sum::new()) }, |w: stylish::io::Ansi<Sum>| w.finish().unwrap());
        #[cfg(feature = "plain")]
        $go!("io plain", { stylish::io::Plain::new(Sum::new()) }, |w: stylish::io::Plain<Sum>| w.into_inner());
        #[cfg(feature = "plain")]
        $go!("io plain fn", { stylish::io::plain(Sum::new()) }, |w: stylish::io::Plain<Sum>| w.into_inner());
    }};
}

const TEXTS: [&str; 8] = ["x", "", "<b>&amp;'\"/\\", "\u{1b}[31m", "é€𝄞", "\n\r\t\0", "long text that goes on", "%{}"];

fn histories() {
    // many pairs of styles, on every output
    macro_rules! go {
        ($n:expr, $new:block, $end:expr) => {{
            use stylish::Write as _;
            let mut w = $new;
            for a in 0..867 {
                for b in (a % STEP..867).step_by(STEP) {
                    w.write_str("x", style(a)).unwrap();
                    w.write_char('y', style(b)).unwrap();
                }
            }
            ($end)(w).say(concat!("pairs of styles, ", $n));
            let mut w = $new;
            for k in 0..TEXTS.len() * 7 {
                w.write_str(TEXTS[k % TEXTS.len()], style(k * 101 % 867)).unwrap();
                (&mut w).write_str(TEXTS[k / 7], style(k * 57 % 867)).unwrap();
            }
            ($end)(w).say(concat!("texts, ", $n));
            ($end)($new).say(concat!("nothing, ", $n));
        }};
    }
    each!(go);
    #[cfg(feature = "std")]
    {
        macro_rules! go {
            ($n:expr, $new:block, $end:expr) => {{
                use stylish::io::Write as _;
                let mut w = $new;
                for a in 0..867 {
                    for b in (a % STEP..867).step_by(STEP) {
                        assert_eq!(w.write(b"x", style(a)).unwrap(), 1);
                        w.write_all("y".as_bytes(), style(b)).unwrap();
                    }
                }
                w.flush().unwrap();
                ($end)(w).say(concat!("pairs of styles, ", $n));
                let mut w = $new;
                for k in 0..TEXTS.len() * 7 {
                    w.write_all(TEXTS[k % TEXTS.len()].as_bytes(), style(k * 101 % 867)).unwrap();
                    (&mut w).write_all(TEXTS[k / 7].as_bytes(), style(k * 57 % 867)).unwrap();
                }
                ($end)(w).say(concat!("texts, ", $n));
                ($end)($new).say(concat!("nothing, ", $n));
            }};
        }
        each_io!(go);
    }
}

fn restyling() {
    let mut s = Sum::new();
    fn all(s: &mut Sum, r: impl Restyle) {
        for i in 0..867 {
            s.style(r.apply(style(i)));
            s.style(style(i).with(&r));
        }
    }
    for c in COLORS {
        all(&mut s, Foreground(c));
        all(&mut s, Background(c));
        all(&mut s, Some(Foreground(c)));
        all(&mut s, (Foreground(c), Background(c)));
        all(&mut s, (Foreground(c), Intensity::Bold, Background(c)));
        all(&mut s, &[Foreground(c), Foreground(Color::Red)][..]);
    }
    for i in INTENSITIES {
        all(&mut s, i);
    }
    all(&mut s, ());
    all(&mut s, None::<Style>);
    for a in (0..867).step_by(STEP) {
        all(&mut s, style(a));
        all(&mut s, style(a).diff_from(style(a * 7 % 867)));
        all(&mut s, StyleDiff::default());
    }
    s.say("restyling");
    #[cfg(feature = "alloc")]
    {
        let mut s = Sum::new();
        let v: alloc::vec::Vec<alloc::boxed::Box<dyn Restyle>> = alloc::vec![
            alloc::boxed::Box::new(Foreground(Color::Red)), alloc::boxed::Box::new(Intensity::Faint), alloc::boxed::Box::new(())];
        all(&mut s, &v[..]);
        all(&mut s, alloc::boxed::Box::new(Background(Color::Cyan)));
        s.say("restyling, boxed");
    }
}

#[cfg(feature = "alloc")]
fn strings() {
    use stylish::Write as _;
    let mut t = stylish::String::new();
    for k in 0..200 {
        t.write_str(TEXTS[k % TEXTS.len()], style(k * 101 % 867)).unwrap();
        t.write_char('-', style(k % 5)).unwrap();
    }
    let u = t.clone();
    t = u;
    let mut d = Sum::new();
    write!(d, "{:?}", stylish::String::default().clone()).unwrap();
    #[cfg(feature = "macros")]
    {
        macro_rules! go {
            ($n:expr, $new:block, $end:expr) => {{
                let mut w = $new;
                stylish::Write::write_fmt(&mut w, stylish::format_args!("{:s}|{:(fg=red,bold)s}", t, &t)).unwrap();
                ($end)(w).say(concat!("strings, ", $n));
            }};
        }
        each!(go);
    }
}

/// Everything the outputs can do with some arguments.
#[cfg(feature = "macros")]
fn text(key: &str, with: &dyn Fn(&mut dyn FnMut(stylish::Arguments<'_>))) {
    macro_rules! go {
        ($n:expr, $new:block, $end:expr) => {{
            use stylish::Write as _;
            let mut w = $new;
            with(&mut |a| w.write_fmt(a).unwrap());
            with(&mut |a| stylish::write!(w, "[{:s}]", a).unwrap());
            with(&mut |a| stylish::writeln!(w, "[{:(fg=red)s}]{}", a, 1).unwrap());
            stylish::writeln!(w, concat!("{", "}"), 2).unwrap();
            stylish::writeln!(w).unwrap();
            ($end)(w).say2(key, $n);
        }};
    }
    each!(go);
    #[cfg(feature = "std")]
    {
        macro_rules! go {
            ($n:expr, $new:block, $end:expr) => {{
                use stylish::io::Write as _;
                let mut w = $new;
                with(&mut |a| w.write_fmt(a).unwrap());
                with(&mut |a| stylish::write!(w, "[{:s}]", a).unwrap());
                with(&mut |a| stylish::writeln!(w, "[{:(fg=red)s}]{}", a, 1).unwrap());
                stylish::writeln!(w, concat!("{", "}"), 2).unwrap();
                stylish::writeln!(w).unwrap();
                ($end)(w).say2(key, $n);
            }};
        }
        each_io!(go);
    }
    #[cfg(feature = "alloc")]
    with(&mut |a| {
        let s = stylish::format!("{:s}", a);
        with(&mut |a| {
            let t = stylish::format(a);
            let mut w = Tap(Sum::new());
            stylish::write!(&mut stylish_write(&mut w), "{:s}{:s}", s, t).unwrap();
            w.0.say2(key, "format");
            use stylish::ToStylishString as _;
            let mut w = Tap(Sum::new());
            stylish::write!(&mut stylish_write(&mut w), "{:s}{:s}", s.to_stylish_string(), Own(4).to_stylish_string()).unwrap();
            w.0.say2(key, "to_stylish_string");
        });
        #[cfg(feature = "ansi")]
        {
            use stylish::ToAnsiString as _;
            say(key, "ansi::format!", stylish::ansi::format!("{:s}", a));
            with(&mut |a| say(key, "ansi::format", stylish::ansi::format(a)));
            say(key, "to_ansi_string", s.to_ansi_string());
        }
        #[cfg(feature = "html")]
        {
            use stylish::ToHtmlString as _;
            say(key, "html::format!", stylish::html::format!("{:s}", a));
            with(&mut |a| say(key, "html::format", stylish::html::format(a)));
            say(key, "to_html_string", s.to_html_string());
        }
        #[cfg(feature = "plain")]
        {
            use stylish::ToPlainString as _;
            say(key, "plain::format!", stylish::plain::format!("{:s}", a));
            with(&mut |a| say(key, "plain::format", stylish::plain::format(a)));
            say(key, "to_plain_string", s.to_plain_string());
        }
    });
}

#[cfg(feature = "macros")]
fn formatting() {
    macro_rules! text {
        ($k:expr, $($a:tt)*) => { text($k, &|sink| sink(stylish::format_args!($($a)*))) };
    }
    text!("literal", "a{{b}}c");
    text!("display", "{}{}{0}", 1, "é<");
    text!("debug", "{:?}{:#?}", "a\n\"", (1, [Some(2.5)]));
    text!("traits", "{:o}{:x}{:X}{:b}{:e}{:E}{:x?}{:X?}", 8, 10, 10, 2, 10.0, 10.0, 10, 10);
    text!("pointer", "{:p}", 16 as *const ());
    text!("options", "{:<5}|{:^5}|{:>5}|{:+}|{:#x}|{:05}|{:.1}|{:^+#08.1?}|{:>3}", 1, 2, 3, 4, 5, 6, 7.77, 9.0, "é");
    text!("options of debug", "{:<5?}|{:^5?}|{:>5?}|{:+?}|{:#x?}|{:05?}|{:.1?}|{:#05X?}", 1, 2, 3, 4, [5], 6, 7.77, [170]);
    text!("named", "{a}{b:?}{a:>4}", a = 1, b = 'x');
    text!("attributes", "{:(fg=red)}{:(bg=brightblue)}{:(bold)}{:(faint,fg=default,bg=cyan)}{:()}{:(normal)?}", 1, 2, 3, 4, 5, 6);
    text!("all together", "{0:>+08.2(fg=green,bold)?}{n:#(bg=black)x}{0}", 1.5, n = 255);
    text!("own", "{:s}{:(fg=red)s}{:(bold)s}", Own(0), Own(3), &Own(9));
    text!("nested", "a{:(fg=blue)s}b", stylish::format_args!("c{:(faint)s}d{}", stylish::format_args!("{:(bg=red,normal)}", 1), 2));
    text!("special", "<{}>&\u{1b}{{\"'", "<&>\"'/");
    text!("empty literal", "");
    text!("no text", "{:(fg=red)}{:(bold)?}", "", format_args!(""));
    let captured = 3;
    text!("captured", "{captured}{captured:>4?}{captured:(bold)}");
}

#[cfg(all(feature = "alloc", feature = "macros"))]
fn say(key: &str, n: &str, s: alloc::string::String) {
    let mut w = Sum::new();
    w.write_str(&s).unwrap();
    w.say2(key, n);
}

#[cfg(feature = "macros")]
struct Only<'a>(&'a mut Tap);
#[cfg(feature = "macros")]
impl Only<'_> {
    fn write_fmt(&mut self, a: stylish::Arguments<'_>) -> stylish::Result {
        stylish::Write::write_fmt(self.0, a)
    }
}
/// (a `Tap` has two kinds of `write_fmt` when there is an `io` module)
#[cfg(feature = "macros")]
fn stylish_write(t: &mut Tap) -> Only<'_> {
    Only(t)
}

fn go() {
    histories();
    restyling();
    #[cfg(feature = "alloc")]
    strings();
    #[cfg(feature = "macros")]
    formatting();
    out(b"done\n");
}
