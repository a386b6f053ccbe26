//! Programs of nested formatter operations: a value of `Node` is displayed by
//! running it on the real `Formatter`; `denote` says what it has to show.
use core::fmt::Write as _;
use std::sync::Arc;

use stylish::{Background, Color, Display, Foreground, Formatter, Intensity, Restyle, Style, StyleDiff};

use crate::report::{Check, Local, Violation};
use crate::space;
use crate::specs::{Val, SPECS, V, VALS};

#[derive(Debug)]
pub enum Node {
    /// `f.write_str`
    Text(&'static str),
    /// `stylish::Write::write_str(f, text, style)`
    Styled(usize, &'static str),
    /// `stylish::Write::write_char(f, c, style)`
    Char(usize, char),
    /// `core::fmt::Write::write_fmt(f, ..)`, several pieces
    Std(&'static str),
    /// `core::fmt::Write::write_char`
    StdChar(char),
    /// standard values through `stylish::write!`
    Num(usize),
    /// an attributed string
    Attr(usize),
    /// a value of all formatting traits with one of the specifications
    Spec(usize, Val),
    /// returns an error
    Fail,
    With(usize, Arc<Node>),
    Mac(usize, Arc<Node>),
    Seq(Arc<Node>, Arc<Node>),
    Mac2(usize, Arc<Node>, Arc<Node>),
    /// many children, for wide programs
    Many(Vec<Arc<Node>>),
}

pub const N_STYLES: usize = 3;
pub fn wstyle(i: usize) -> Style {
    match i {
        0 => Style::default(),
        1 => space::mk(Color::Green, Color::Default, Intensity::Bold),
        _ => space::mk(Color::Default, Color::BrightRed, Intensity::Faint),
    }
}

pub const N_WITH: usize = 9;

fn diff1() -> StyleDiff {
    let mut d = StyleDiff::default();
    d.background = Some(Color::Cyan);
    d.intensity = Some(Intensity::Normal);
    d
}

fn with<R>(i: usize, f: impl FnOnce(&dyn Restyle) -> R) -> R {
    match i {
        0 => f(&Foreground(Color::Red)),
        1 => f(&Background(Color::Blue)),
        2 => f(&Intensity::Bold),
        3 => f(&Intensity::Faint),
        4 => f(&(Foreground(Color::Default), Intensity::Normal)),
        5 => f(&()),
        6 => f(&Style::default()),
        7 => f(&diff1()),
        _ => f(&wstyle(1)),
    }
}

fn with_src(i: usize) -> String {
    match i {
        0 => "stylish::Foreground(stylish::Color::Red)".into(),
        1 => "stylish::Background(stylish::Color::Blue)".into(),
        2 => "stylish::Intensity::Bold".into(),
        3 => "stylish::Intensity::Faint".into(),
        4 => "(stylish::Foreground(stylish::Color::Default), stylish::Intensity::Normal)".into(),
        5 => "()".into(),
        6 => "stylish::Style::default()".into(),
        7 => "(stylish::Background(stylish::Color::Cyan), stylish::Intensity::Normal)".into(),
        _ => space::src(wstyle(1)),
    }
}

/// The reference for `with`, not using `Restyle`.
fn with_ref(i: usize, s: Style) -> Style {
    let mut r = s;
    match i {
        0 => r.foreground = Color::Red,
        1 => r.background = Color::Blue,
        2 => r.intensity = Intensity::Bold,
        3 => r.intensity = Intensity::Faint,
        4 => { r.foreground = Color::Default; r.intensity = Intensity::Normal }
        5 => {}
        6 => r = space::style(0),
        7 => { r.background = Color::Cyan; r.intensity = Intensity::Normal }
        _ => r = wstyle(1),
    }
    r
}

pub const ATTRS: [&[(usize, &str)]; 3] = [
    &[],
    &[(1, "p"), (0, "q"), (1, ""), (2, "é")],
    &[(0, "r"), (2, "s"), (2, "t")],
];

fn attr(i: usize) -> &'static stylish::String {
    use std::sync::OnceLock;
    static S: [OnceLock<stylish::String>; 3] = [const { OnceLock::new() }; 3];
    S[i].get_or_init(|| {
        use stylish::Write as _;
        let mut s = stylish::String::new();
        for &(st, t) in ATTRS[i] {
            s.write_str(t, wstyle(st)).unwrap();
        }
        s
    })
}

/// A standard value that shows every option its formatter has.
#[derive(Clone, Copy)]
pub struct Opts;
impl Opts {
    fn go(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        let flag = |b, c| if b { c } else { '.' };
        let (p, m, a, z) = (f.sign_plus(), f.sign_minus(), f.alternate(), f.sign_aware_zero_pad());
        let (w, pr, fill) = (f.width(), f.precision(), f.fill());
        let al = match f.align() {
            None => '.',
            Some(core::fmt::Alignment::Left) => '<',
            Some(core::fmt::Alignment::Center) => '^',
            Some(core::fmt::Alignment::Right) => '>',
        };
        f.write_char('(')?;
        for c in [flag(p, '+'), flag(m, '-'), flag(a, '#'), flag(z, '0'), al, fill] { f.write_char(c)? }
        f.write_fmt(core::format_args!("{},{}", w.map_or(-1, |w| w as i64), pr.map_or(-1, |w| w as i64)))?;
        // hexadecimal debug output is not an option one can ask for
        core::fmt::Debug::fmt(&[171u8], f)?;
        f.write_char(')')
    }
}
impl core::fmt::Display for Opts { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { self.go(f) } }
impl core::fmt::Debug for Opts { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { self.go(f) } }
impl core::fmt::LowerHex for Opts { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { self.go(f) } }

fn opts_text() -> &'static str {
    static T: std::sync::OnceLock<String> = std::sync::OnceLock::new();
    T.get_or_init(|| std::format!("{0}{0:?}{0:<+#08.3x}{0:X?}{0}", Opts))
}

thread_local! {
    /// whether `Node::Fail` panics instead of returning an error
    pub static FAIL_PANICS: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

pub const N_NUM: usize = 7;
pub const N_MAC: usize = 14;
/// allocates by design: goes through an attributed string
pub const MAC_VIA_STRING: usize = 13;
pub const N_MAC2: usize = 4;

impl Display for Node {
    fn fmt(&self, f: &mut Formatter<'_>) -> stylish::Result {
        match self {
            Node::Text(t) => f.write_str(t),
            Node::Styled(s, t) => stylish::Write::write_str(f, t, wstyle(*s)),
            Node::Char(s, c) => stylish::Write::write_char(f, *c, wstyle(*s)),
            Node::Std(t) => core::fmt::Write::write_fmt(f, core::format_args!("{t}{:>3}.", 7)),
            Node::StdChar(c) => core::fmt::Write::write_char(f, *c),
            Node::Num(0) => stylish::write!(f, "{:>4}", 42),
            Node::Num(1) => stylish::write!(f, "{:^+6(fg=red)}|", 5),
            Node::Num(2) => stylish::write!(f, "{0:#06(bold)x}{{{0}}}", 171),
            Node::Num(3) => stylish::write!(f, "{:.1(bg=default)}{:?}", 2.25, "q\"é"),
            Node::Num(4) => stylish::write!(f, "literal {{}} only"),
            Node::Num(5) => stylish::write!(f, "{:(fg=red)}{:(bold)}", "", "y"),
            Node::Num(_) => stylish::write!(f, "{0}{0:?}{0:<+#08.3x}{0:X?}{0}", Opts),
            Node::Attr(i) => attr(*i).fmt(f),
            Node::Spec(i, v) => (SPECS[*i].with)(&V(*v), &mut |a| f.write_fmt(a)),
            Node::Fail if FAIL_PANICS.with(|p| p.get()) => panic!("displayed value panics"),
            Node::Fail => Err(stylish::Error),
            Node::With(r, n) => with(*r, |r| n.fmt(&mut f.with(r))),
            Node::Seq(a, b) => {
                a.fmt(f)?;
                b.fmt(f)
            }
            Node::Many(v) => v.iter().try_for_each(|n| n.fmt(f)),
            Node::Mac(k, n) => {
                let n: &Node = n;
                match k {
                    0 => stylish::write!(f, "{:s}", n),
                    1 => stylish::write!(f, "{:(fg=red)s}", n),
                    2 => stylish::write!(f, "a{:(bold)s}b", n),
                    3 => stylish::write!(f, "{0:(bg=blue)s}{0:s}", n),
                    4 => stylish::write!(f, "{x:(fg=default,normal)s}", x = n),
                    5 => stylish::write!(f, "{:>+#07.1s}", n),
                    6 => stylish::write!(f, "{:(bg=green)s}", stylish::format_args!("<{:(fg=blue)s}>", n)),
                    7 => f.with(Intensity::Faint).write_fmt(stylish::format_args!("{n:s}.")),
                    8 => stylish::writeln!(f, "{:(bg=default)s}", n),
                    9 => stylish::Write::write_fmt(f, stylish::format_args!("{:s}", &&n)),
                    10 => {
                        let d: &dyn Display = n;
                        stylish::write!(f, "{:^9(bold)s}", d)
                    }
                    11 => {
                        let mut g = f.with(Foreground(Color::Yellow));
                        n.fmt(&mut g)?;
                        g.write_str("k")?;
                        stylish::Write::write_str(&mut g, "l", wstyle(0))?;
                        n.fmt(&mut g.with(Foreground(Color::Default)))
                    }
                    12 => {
                        let mut g: &mut Formatter<'_> = f;
                        stylish::Write::write_str(&mut g, "m", wstyle(2))?;
                        let w: &mut dyn stylish::Write = g;
                        w.write_fmt(stylish::format_args!("{:s}n", n))
                    }
                    _ => {
                        use stylish::Write as _;
                        let mut s = stylish::String::new();
                        let r = stylish::write!(s, "{:s}", n);
                        s.fmt(f)?;
                        r
                    }
                }
            }
            Node::Mac2(k, a, b) => {
                let (a, b): (&Node, &Node) = (a, b);
                match k {
                    0 => stylish::write!(f, "{:s}{:s}", a, b),
                    1 => stylish::write!(f, "{:(fg=red)s} {:(bold)s}", a, b),
                    2 => stylish::write!(f, "{1:s}{0:(bg=blue)s}", a, b),
                    _ => stylish::write!(f, "{b:s}{a:(faint)s}{b:(fg=green)s}", a = a, b = b),
                }
            }
        }
    }
}

pub type Cells = Vec<(char, Style)>;

fn put(out: &mut Cells, t: &str, s: Style) {
    out.extend(t.chars().map(|c| (c, s)));
}

impl Node {
    /// What displaying the program in a context of style `ctx` shows;
    /// `false`: it then fails.
    pub fn denote(&self, ctx: Style, out: &mut Cells) -> bool {
        let fg = |c| { let mut s = ctx; s.foreground = c; s };
        let bg = |c| { let mut s = ctx; s.background = c; s };
        let int = |i| { let mut s = ctx; s.intensity = i; s };
        match self {
            Node::Text(t) => put(out, t, ctx),
            Node::Styled(s, t) => put(out, t, wstyle(*s)),
            Node::Char(s, c) => out.push((*c, wstyle(*s))),
            Node::Std(t) => { put(out, t, ctx); put(out, "  7.", ctx) }
            Node::StdChar(c) => out.push((*c, ctx)),
            Node::Num(0) => put(out, "  42", ctx),
            Node::Num(1) => { put(out, "  +5  ", fg(Color::Red)); put(out, "|", ctx) }
            Node::Num(2) => { put(out, "0x00ab", int(Intensity::Bold)); put(out, "{171}", ctx) }
            Node::Num(3) => { put(out, &format!("{:.1}", 2.25), bg(Color::Default)); put(out, "\"q\\\"é\"", ctx) }
            Node::Num(4) => put(out, "literal {} only", ctx),
            Node::Num(5) => put(out, "y", int(Intensity::Bold)),
            Node::Num(_) => put(out, opts_text(), ctx),
            Node::Attr(i) => for &(s, t) in ATTRS[*i] { put(out, t, wstyle(s)) },
            Node::Spec(i, v) => {
                let mut text = String::new();
                let panics = FAIL_PANICS.with(|p| p.replace(false));
                let ok = (SPECS[*i].std)(&V(*v), &mut text).is_ok();
                FAIL_PANICS.with(|p| p.set(panics));
                put(out, &text, SPECS[*i].style(ctx));
                return ok;
            }
            Node::Fail => return false,
            Node::With(r, n) => return n.denote(with_ref(*r, ctx), out),
            Node::Seq(a, b) => return a.denote(ctx, out) && b.denote(ctx, out),
            Node::Many(v) => return v.iter().all(|n| n.denote(ctx, out)),
            Node::Mac(k, n) => {
                match k {
                    0 | 5 | 9 => return n.denote(ctx, out),
                    1 => return n.denote(fg(Color::Red), out),
                    2 => {
                        put(out, "a", ctx);
                        if !n.denote(int(Intensity::Bold), out) { return false }
                        put(out, "b", ctx);
                    }
                    3 => return n.denote(bg(Color::Blue), out) && n.denote(ctx, out),
                    4 => { let mut s = ctx; s.foreground = Color::Default; s.intensity = Intensity::Normal; return n.denote(s, out) }
                    6 => {
                        let o = bg(Color::Green);
                        put(out, "<", o);
                        let mut i = o;
                        i.foreground = Color::Blue;
                        if !n.denote(i, out) { return false }
                        put(out, ">", o);
                    }
                    7 => {
                        if !n.denote(int(Intensity::Faint), out) { return false }
                        put(out, ".", int(Intensity::Faint));
                    }
                    8 => {
                        if !n.denote(bg(Color::Default), out) { return false }
                        put(out, "\n", ctx);
                    }
                    10 => return n.denote(int(Intensity::Bold), out),
                    11 => {
                        let y = fg(Color::Yellow);
                        if !n.denote(y, out) { return false }
                        put(out, "k", y);
                        put(out, "l", wstyle(0));
                        return n.denote(fg(Color::Default), out);
                    }
                    12 => {
                        put(out, "m", wstyle(2));
                        if !n.denote(ctx, out) { return false }
                        put(out, "n", ctx);
                    }
                    _ => return n.denote(space::style(0), out),
                }
            }
            Node::Mac2(k, a, b) => match k {
                0 => return a.denote(ctx, out) && b.denote(ctx, out),
                1 => {
                    if !a.denote(fg(Color::Red), out) { return false }
                    put(out, " ", ctx);
                    return b.denote(int(Intensity::Bold), out);
                }
                2 => return b.denote(ctx, out) && a.denote(bg(Color::Blue), out),
                _ => return b.denote(ctx, out) && a.denote(int(Intensity::Faint), out) && b.denote(fg(Color::Green), out),
            },
        }
        true
    }

    /// The same program; children are shared.
    pub fn share(&self) -> Node {
        match self {
            Node::Text(t) => Node::Text(t),
            Node::Styled(s, t) => Node::Styled(*s, t),
            Node::Char(s, c) => Node::Char(*s, *c),
            Node::Std(t) => Node::Std(t),
            Node::StdChar(c) => Node::StdChar(*c),
            Node::Num(n) => Node::Num(*n),
            Node::Attr(n) => Node::Attr(*n),
            Node::Spec(i, v) => Node::Spec(*i, *v),
            Node::Fail => Node::Fail,
            Node::With(r, n) => Node::With(*r, n.clone()),
            Node::Mac(k, n) => Node::Mac(*k, n.clone()),
            Node::Seq(a, b) => Node::Seq(a.clone(), b.clone()),
            Node::Mac2(k, a, b) => Node::Mac2(*k, a.clone(), b.clone()),
            Node::Many(v) => Node::Many(v.clone()),
        }
    }

    pub fn size(&self) -> usize {
        match self {
            Node::With(_, n) | Node::Mac(_, n) => 1 + n.size(),
            Node::Seq(a, b) | Node::Mac2(_, a, b) => 1 + a.size() + b.size(),
            Node::Many(v) => 1 + v.iter().map(|n| n.size()).sum::<usize>(),
            _ => 1,
        }
    }

    /// Body of a `fmt` function (variable `f`) that does the same.
    fn src(&self) -> String {
        let val = |n: &Node| format!("&D(|f| {{ {} }})", n.src());
        match self {
            Node::Text(t) => format!("f.write_str({t:?})"),
            Node::Styled(s, t) => format!("stylish::Write::write_str(f, {t:?}, {})", space::src(wstyle(*s))),
            Node::Char(s, c) => format!("stylish::Write::write_char(f, {c:?}, {})", space::src(wstyle(*s))),
            Node::Std(t) => format!("core::fmt::Write::write_fmt(f, core::format_args!(\"{{}}{{:>3}}.\", {t:?}, 7))"),
            Node::StdChar(c) => format!("core::fmt::Write::write_char(f, {c:?})"),
            Node::Num(k) => [
                "stylish::write!(f, \"{:>4}\", 42)",
                "stylish::write!(f, \"{:^+6(fg=red)}|\", 5)",
                "stylish::write!(f, \"{0:#06(bold)x}{{{0}}}\", 171)",
                "stylish::write!(f, \"{:.1(bg=default)}{:?}\", 2.25, \"q\\\"é\")",
                "stylish::write!(f, \"literal {{}} only\")",
                "stylish::write!(f, \"{:(fg=red)}{:(bold)}\", \"\", \"y\")",
                "stylish::write!(f, \"{0}{0:?}{0:<+#08.3x}{0:X?}{0}\", [171u8, 1])",
            ][*k].into(),
            Node::Attr(i) => {
                let mut s = "let mut s = stylish::String::new();".to_string();
                for &(st, t) in ATTRS[*i] {
                    s += &format!(" stylish::Write::write_str(&mut s, {t:?}, {}).unwrap();", space::src(wstyle(st)));
                }
                s + " stylish::Display::fmt(&s, f)"
            }
            Node::Spec(i, v) => {
                let v = match v { Val::Int(x) => format!("{x}"), Val::Float(x) => format!("{x:?}f64"), Val::Str(x) => format!("{x:?}"), v => format!("/* mc/src/specs.rs: */ V({v:?})") };
                format!("stylish::write!(f, {:?}, {v})", SPECS[*i].text)
            }
            Node::Fail => "Err(stylish::Error)".into(),
            Node::With(r, n) => format!("let f = &mut f.with({}); {}", with_src(*r), n.src()),
            Node::Seq(a, b) => format!("{{ {} }}?; {}", a.src(), b.src()),
            Node::Many(v) => v.iter().take(50).map(|n| format!("{{ {} }}?; ", n.src())).collect::<String>() + "Ok(())",
            Node::Mac(k, n) => {
                let v = val(n);
                match k {
                    0 => format!("stylish::write!(f, \"{{:s}}\", {v})"),
                    1 => format!("stylish::write!(f, \"{{:(fg=red)s}}\", {v})"),
                    2 => format!("stylish::write!(f, \"a{{:(bold)s}}b\", {v})"),
                    3 => format!("stylish::write!(f, \"{{0:(bg=blue)s}}{{0:s}}\", {v})"),
                    4 => format!("stylish::write!(f, \"{{x:(fg=default,normal)s}}\", x = {v})"),
                    5 => format!("stylish::write!(f, \"{{:>+#07.1s}}\", {v})"),
                    6 => format!("stylish::write!(f, \"{{:(bg=green)s}}\", stylish::format_args!(\"<{{:(fg=blue)s}}>\", {v}))"),
                    7 => format!("f.with(stylish::Intensity::Faint).write_fmt(stylish::format_args!(\"{{:s}}.\", {v}))"),
                    8 => format!("stylish::writeln!(f, \"{{:(bg=default)s}}\", {v})"),
                    9 => format!("stylish::Write::write_fmt(f, stylish::format_args!(\"{{:s}}\", &&{v}))"),
                    10 => format!("let d: &dyn stylish::Display = {v}; stylish::write!(f, \"{{:^9(bold)s}}\", d)"),
                    11 => format!("let n = {v}; let mut g = f.with(stylish::Foreground(stylish::Color::Yellow)); stylish::Display::fmt(n, &mut g)?; g.write_str(\"k\")?; stylish::Write::write_str(&mut g, \"l\", stylish::Style::default())?; stylish::Display::fmt(n, &mut g.with(stylish::Foreground(stylish::Color::Default)))"),
                    12 => format!("let mut g = f; stylish::Write::write_str(&mut g, \"m\", {})?; let w: &mut dyn stylish::Write = g; w.write_fmt(stylish::format_args!(\"{{:s}}n\", {v}))", space::src(wstyle(2))),
                    _ => format!("let mut s = stylish::String::new(); let r = {{ use stylish::Write as _; stylish::write!(s, \"{{:s}}\", {v}) }}; stylish::Display::fmt(&s, f)?; r"),
                }
            }
            Node::Mac2(k, a, b) => {
                let (a, b) = (val(a), val(b));
                match k {
                    0 => format!("stylish::write!(f, \"{{:s}}{{:s}}\", {a}, {b})"),
                    1 => format!("stylish::write!(f, \"{{:(fg=red)s}} {{:(bold)s}}\", {a}, {b})"),
                    2 => format!("stylish::write!(f, \"{{1:s}}{{0:(bg=blue)s}}\", {a}, {b})"),
                    _ => format!("stylish::write!(f, \"{{b:s}}{{a:(faint)s}}{{b:(fg=green)s}}\", a = {a}, b = {b})"),
                }
            }
        }
    }

    /// A stand-alone program around `body`, in which `value` is displayed.
    pub fn repro(&self, body: &str) -> String {
        if self.size() > 60 {
            return String::from("// program too large to print as source");
        }
        format!(
            "struct D<F>(F);\nimpl<F: Fn(&mut stylish::Formatter<'_>) -> stylish::Result> stylish::Display for D<F> {{\n    \
             fn fmt(&self, f: &mut stylish::Formatter<'_>) -> stylish::Result {{ (self.0)(f) }}\n}}\n\
             fn d<F: Fn(&mut stylish::Formatter<'_>) -> stylish::Result>(f: F) -> D<F> {{ D(f) }}\n\
             fn main() {{\n    let value = d(|f: &mut stylish::Formatter<'_>| {{ {} }});\n    {body}\n}}\n",
            self.src().replace("&D(|f| ", "&d(|f: &mut stylish::Formatter<'_>| ")
        )
    }

    pub fn show(&self) -> String {
        let s = format!("{self:?}");
        if s.len() > 3000 {
            format!("{}.. (size {})", s.chars().take(1500).collect::<String>(), self.size())
        } else {
            s
        }
    }
}

/// What programs are made of.
pub struct Alphabet {
    pub leaves: Vec<Arc<Node>>,
    pub withs: Vec<usize>,
    pub macs: Vec<usize>,
    pub seq: bool,
    pub mac2: Vec<usize>,
}

pub fn full(fail: bool, via_string: bool) -> Alphabet {
    let mut leaves = vec![Node::Text("x"), Node::Text(""), Node::Text("é\n")];
    leaves.extend((0..N_STYLES).map(|s| Node::Styled(s, "w")));
    leaves.extend([Node::Styled(1, ""), Node::Char(1, 'ç'), Node::Std("s"), Node::StdChar('漢')]);
    leaves.extend((0..N_NUM).map(Node::Num));
    leaves.extend((0..ATTRS.len()).map(Node::Attr));
    if fail { leaves.push(Node::Fail) }
    Alphabet {
        leaves: leaves.into_iter().map(Arc::new).collect(),
        withs: (0..N_WITH).collect(),
        macs: (0..N_MAC).filter(|&k| via_string || k != MAC_VIA_STRING).collect(),
        seq: true,
        mac2: (0..N_MAC2).collect(),
    }
}

pub fn small(fail: bool, via_string: bool) -> Alphabet {
    let mut leaves = vec![Node::Text("x"), Node::Styled(1, "w"), Node::Num(1), Node::Attr(1)];
    if fail { leaves.push(Node::Fail) }
    Alphabet {
        leaves: leaves.into_iter().map(Arc::new).collect(),
        withs: vec![0, 2, 4, 6],
        macs: [2, 3, 6, 11, MAC_VIA_STRING].into_iter().filter(|&k| via_string || k != MAC_VIA_STRING).collect(),
        seq: true,
        mac2: vec![3],
    }
}

impl Alphabet {
    fn unary(&self, n: &Arc<Node>, out: &mut dyn FnMut(Node) -> Result<(), Violation>) -> Result<(), Violation> {
        for &w in &self.withs { out(Node::With(w, n.clone()))? }
        for &m in &self.macs { out(Node::Mac(m, n.clone()))? }
        Ok(())
    }
    fn binary(&self, a: &Arc<Node>, b: &Arc<Node>, out: &mut dyn FnMut(Node) -> Result<(), Violation>) -> Result<(), Violation> {
        if self.seq { out(Node::Seq(a.clone(), b.clone()))? }
        for &m in &self.mac2 { out(Node::Mac2(m, a.clone(), b.clone()))? }
        Ok(())
    }

    /// Runs `f` on every program of size 1..=`max`.
    pub fn programs(&self, c: &Check, section: &str, max: usize, f: impl Fn(&Node, &mut Local) -> Result<(), Violation> + Sync) {
        let mut by_size: Vec<Vec<Arc<Node>>> = vec![vec![], self.leaves.clone()];
        c.par(&format!("{section}, size 1"), by_size[1].len(), |i, l| f(&by_size[1][i], l));
        for size in 2..=max {
            // tasks: children of unary constructors, then left children of binary ones
            let mut tasks: Vec<(Arc<Node>, Option<usize>)> =
                by_size[size - 1].iter().map(|n| (n.clone(), None)).collect();
            for left in 1..size - 1 {
                tasks.extend(by_size[left].iter().map(|n| (n.clone(), Some(size - 1 - left))));
            }
            let chunk = 16;
            c.par(&format!("{section}, size {size}"), tasks.len().div_ceil(chunk), |t, l| {
                for (n, right) in &tasks[t * chunk..tasks.len().min((t + 1) * chunk)] {
                    let mut go = |n: Node| f(&n, l);
                    match right {
                        None => self.unary(n, &mut go)?,
                        Some(r) => for b in &by_size[*r] { self.binary(n, b, &mut go)? },
                    }
                }
                Ok(())
            });
            if size < max {
                let mut all = Vec::new();
                for (n, right) in &tasks {
                    let mut go = |n: Node| { all.push(Arc::new(n)); Ok(()) };
                    match right {
                        None => self.unary(n, &mut go).unwrap(),
                        Some(r) => for b in &by_size[*r] { self.binary(n, b, &mut go).unwrap() },
                    }
                }
                by_size.push(all);
            }
        }
    }
}

/// Deep and wide programs: every constructor repeated to each depth, cycles of
/// constructors, and long sequences.
pub fn deep(max_depth: usize, via_string: bool) -> Vec<Arc<Node>> {
    let leaf: Arc<Node> = Arc::new(Node::Seq(Arc::new(Node::Text("x")), Arc::new(Node::Num(1))));
    let mut v = Vec::new();
    let mut depths: Vec<usize> = (4..=20).collect();
    let mut d = 31;
    while d <= max_depth { depths.extend([d, d + 1, d + 2]); d = d * 2 + 1 }
    let single: Vec<usize> = [0usize, 1, 2, 4, 5, 6, 7, 8, 9, 10, 12, MAC_VIA_STRING].into_iter()
        .filter(|&k| via_string || k != MAC_VIA_STRING).collect();
    for &d in &depths {
        let cyc = |step: &dyn Fn(usize, Arc<Node>) -> Node| {
            let mut n = leaf.clone();
            for i in 0..d { n = Arc::new(step(i, n)) }
            // something after the nest, to see what leaks out of it
            Arc::new(Node::Seq(n, Arc::new(Node::Text("z"))))
        };
        for w in 0..N_WITH { v.push(cyc(&|_, n| Node::With(w, n))) }
        for &m in &single { v.push(cyc(&|_, n| Node::Mac(m, n))) }
        v.push(cyc(&|i, n| Node::With(i % N_WITH, n)));
        v.push(cyc(&|i, n| Node::With((i * 5 + 3) % N_WITH, n)));
        v.push(cyc(&|i, n| Node::Mac(single[i % single.len()], n)));
        v.push(cyc(&|i, n| if i % 2 == 0 { Node::With(i % N_WITH, n) } else { Node::Mac(single[i / 2 % single.len()], n) }));
        v.push(cyc(&|i, n| Node::Seq(Arc::new(Node::Styled(i % 3, "w")), n)));
        v.push(cyc(&|i, n| Node::Seq(Arc::new(Node::With(i % N_WITH, n)), Arc::new(Node::Text("y")))));
    }
    for len in space::lengths(40, 4096) {
        let leaves = full(false, via_string).leaves;
        v.push(Arc::new(Node::Many((0..len).map(|i| leaves[i % leaves.len()].clone()).collect())));
        v.push(Arc::new(Node::Many((0..len).map(|i| Arc::new(Node::With(i % N_WITH, leaves[i * 3 % leaves.len()].clone()))).collect())));
        v.push(Arc::new(Node::Mac(2, Arc::new(Node::Many((0..len).map(|_| leaves[0].clone()).collect())))));
    }
    v
}

/// Values made of texts of odd characters: every text of up to three, whole,
/// in and between styles, and every two written one after the other.
pub fn odd(c: &Check, section: &str, f: impl Fn(&Node, &mut Local) -> Result<(), Violation> + Sync) {
    use crate::hist::ODD;
    let mut chars = ODD.to_vec();
    chars.extend(["<", "}", "%", "\""]);
    let n = chars.len();
    let text = |i: &[usize]| -> &'static str { Box::leak(i.iter().map(|&i| chars[i]).collect::<String>().into_boxed_str()) };
    c.par(&format!("{section}, texts of up to 3 of {n} odd characters"), n * n, |task, l| {
        let (x, y) = (task / n, task % n);
        for z in 0..=n {
            let t = if z < n { text(&[x, y, z]) } else if y == 0 { text(&[x]) } else { text(&[x, y]) };
            let k = x + y + z;
            f(&Node::Text(t), l)?;
            f(&Node::Styled(1 + k % 2, t), l)?;
            f(&Node::Many(vec![Arc::new(Node::Styled(1 + (k + 1) % 2, "s")), Arc::new(Node::With(k % N_WITH, Arc::new(Node::Text(t))))]), l)?;
            f(&Node::Seq(Arc::new(Node::Styled(k % 3, t)), Arc::new(Node::Text("e"))), l)?;
            // more of it: a line that ends like this
            f(&Node::With(k % N_WITH, Arc::new(Node::Seq(Arc::new(Node::Text("one line")), Arc::new(Node::Text(t))))), l)?;
        }
        // in two writes
        for (s, t) in [(0, 0), (0, 1), (1, 0), (1, 1), (1, 2), (2, 1)] {
            f(&Node::Seq(Arc::new(Node::Styled(s, text(&[x]))), Arc::new(Node::Styled(t, text(&[y])))), l)?;
            f(&Node::Many(vec![Arc::new(Node::Styled(s, text(&[x, y]))), Arc::new(Node::Styled(t, text(&[y, x]))), Arc::new(Node::Styled(s, text(&[x])))]), l)?;
        }
        Ok(())
    });
}

/// Every specification of the table up to a width, on values of all kinds,
/// alone and in different surroundings.
pub fn specs(c: &Check, section: &str, width: usize, fail: bool, f: impl Fn(&Node, &mut Local) -> Result<(), Violation> + Sync) {
    let of: Vec<usize> = (0..SPECS.len()).filter(|&i| SPECS[i].width <= width).collect();
    c.par(&format!("{section}, {} format specifications with values of all kinds", of.len()), of.len(), |k, l| {
        let i = of[k];
        for (j, &v) in VALS.iter().enumerate() {
            if v.fails() && !fail { continue }
            let n = Arc::new(Node::Spec(i, v));
            f(&n, l)?;
            f(&match (i + j) % 4 {
                0 => Node::With((i + j) / 4 % N_WITH, n),
                1 => Node::Many(vec![Arc::new(Node::Styled(1 + j % 2, "s")), n, Arc::new(Node::Text("e"))]),
                2 => Node::Mac([1, 2, 3, 6, 7, 8][(i + j) / 4 % 6], n),
                _ => Node::Mac2((i + j) / 4 % N_MAC2, n, Arc::new(Node::Spec((i + 7 * j) % 99, Val::Pieces))),
            }, l)?;
        }
        Ok(())
    });
}

/// A writer that records what it is given.
#[derive(Default, Clone, Debug)]
pub struct Rec {
    pub cells: Cells,
}

impl stylish::Write for Rec {
    fn write_str(&mut self, s: &str, style: Style) -> stylish::Result {
        put(&mut self.cells, s, style);
        Ok(())
    }
}

pub fn show_cells(c: &Cells) -> String {
    let mut o = String::new();
    let mut last = None;
    for (ch, s) in c.iter().take(300) {
        if last != Some(*s) {
            if last.is_some() { o.push_str("\" ") }
            o.push_str(&format!("[{}]\"", space::show(*s)));
            last = Some(*s);
        }
        o.extend(ch.escape_debug());
    }
    if last.is_some() { o.push('"') }
    if c.len() > 300 { o.push_str(&format!(".. ({} characters)", c.len())) }
    o
}
