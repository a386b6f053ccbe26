//! Every format specification of a table, applied to values of all kinds, as
//! programs. The table only has one monomorphic instance of each, so that the
//! specifications can be combined with everything else at little cost.
use core::fmt;

use stylish::{Arguments, Color, Intensity, Style};

/// A value with all formatting traits of the standard library.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Val {
    Int(i64),
    Float(f64),
    Str(&'static str),
    /// writes in every way a formatter offers
    Pieces,
    /// the same, failing before its `n`th write
    Fail(usize),
}

impl Val {
    fn pieces(f: &mut fmt::Formatter<'_>, fail: usize) -> fmt::Result {
        use core::fmt::Write;
        for i in 0..=5 {
            if i == fail {
                if crate::prog::FAIL_PANICS.with(|p| p.get()) { panic!("displayed value panics") }
                return Err(fmt::Error);
            }
            match i {
                0 => f.write_str("s<")?,
                1 => f.write_char('ç')?,
                2 => f.write_fmt(core::format_args!("{:>3}&{:x}", 1, 170))?,
                3 => f.pad("pad")?,
                4 => f.pad_integral(true, "0y", "12")?,
                _ => f.debug_struct("S").field("a", &Some("b\"")).field("c", &1.5).finish()?,
            }
        }
        Ok(())
    }
}

macro_rules! traits {
    ($($t:ident $int:tt $float:tt $str:tt;)*) => { $(
        impl fmt::$t for V {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                match self.0 {
                    Val::Int(i) => traits!(@ $t $int, i, f, "i"),
                    Val::Float(x) => traits!(@ $t $float, x, f, "x"),
                    Val::Str(s) => traits!(@ $t $str, s, f, s),
                    Val::Pieces => Val::pieces(f, 9),
                    Val::Fail(n) => Val::pieces(f, n),
                }
            }
        }
    )* };
    (@ $t:ident 1, $v:expr, $f:expr, $s:expr) => { fmt::$t::fmt(&$v, $f) };
    (@ $t:ident 0, $v:expr, $f:expr, $s:expr) => { $f.pad($s) };
}
/// `Val` with the traits; its own `Debug` is for showing cases.
#[derive(Clone, Copy)]
pub struct V(pub Val);
traits! {
    Display 1 1 1; Debug 1 1 1; Octal 1 0 0; LowerHex 1 0 0; UpperHex 1 0 0; Pointer 0 0 0; Binary 1 0 0; LowerExp 1 1 0; UpperExp 1 1 0;
}

pub struct Spec {
    pub text: &'static str,
    pub width: usize,
    /// which of three attribute lists it has
    pub attrs: usize,
    pub with: fn(&V, &mut dyn FnMut(Arguments<'_>) -> stylish::Result) -> stylish::Result,
    pub std: fn(&V, &mut dyn fmt::Write) -> fmt::Result,
}

impl Spec {
    pub fn style(&self, mut c: Style) -> Style {
        match self.attrs {
            0 => {}
            1 => c.foreground = Color::Red,
            _ => { c.background = Color::Blue; c.intensity = Intensity::Bold }
        }
        c
    }
}

macro_rules! s {
    ($ours:literal, $std:literal, $width:literal, $attrs:literal) => {
        Spec {
            text: $ours,
            width: $width,
            attrs: $attrs,
            with: |v, f| f(stylish::format_args!($ours, *v)),
            std: |v, w| w.write_fmt(core::format_args!($std, *v)),
        }
    };
}
include!("specs_table.rs");

pub const VALS: [Val; 16] = [
    Val::Int(171), Val::Int(-5), Val::Int(0), Val::Float(2.25), Val::Float(-1.0e20), Val::Str("é<&"), Val::Str(""), Val::Str("longer than seven"), Val::Pieces,
    Val::Fail(0), Val::Fail(1), Val::Fail(2), Val::Fail(3), Val::Fail(4), Val::Fail(5), Val::Float(f64::NAN),
];

impl Val {
    pub fn fails(&self) -> bool { matches!(self, Val::Fail(_)) }
}
