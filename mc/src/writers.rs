//! The writers under test behind one interface.
use std::fmt::Debug;

use stylish::{Display, Formatter, Style, Write as _};

use crate::tap::Tap;

/// One styled piece, displayed through a formatter.
pub struct Piece<'a>(pub &'a str, pub Style);

impl Display for Piece<'_> {
    fn fmt(&self, f: &mut Formatter<'_>) -> stylish::Result {
        f.with(self.1).write_str(self.0)
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Api {
    /// write_str / write_all
    Whole,
    /// write_char for every character / write in a loop
    Fine,
    /// through write_fmt
    Fmt,
    /// through a trait object
    Dyn,
}

pub const APIS: [Api; 4] = [Api::Whole, Api::Fine, Api::Fmt, Api::Dyn];

pub trait W: Clone + Debug + Sized + Send + Sync {
    const NAME: &'static str;
    /// constructor expression for reproducers
    const NEW: &'static str;
    const IO: bool;
    fn new() -> Self;
    fn put(&mut self, api: Api, s: &str, st: Style) -> Result<(), String>;
    /// ends the output; what was written can be taken from the tap
    fn end(self) -> Result<(), String>;
}

fn e<E: Debug>(r: Result<(), E>) -> Result<(), String> {
    r.map_err(|e| format!("unexpected error {e:?}"))
}

macro_rules! fmt_put {
    () => {
        fn put(&mut self, api: Api, s: &str, st: Style) -> Result<(), String> {
            match api {
                Api::Whole => e(self.write_str(s, st)),
                Api::Fine => {
                    for c in s.chars() {
                        e(self.write_char(c, st))?
                    }
                    Ok(())
                }
                Api::Fmt => e(stylish::write!(self, "{:s}", Piece(s, st))),
                Api::Dyn => {
                    let d: &mut dyn stylish::Write = self;
                    e(d.write_str(s, st))
                }
            }
        }
    };
}

macro_rules! io_put {
    () => {
        fn put(&mut self, api: Api, s: &str, st: Style) -> Result<(), String> {
            use stylish::io::Write as _;
            match api {
                Api::Whole => e(self.write_all(s.as_bytes(), st)),
                Api::Fine => {
                    let mut b = s.as_bytes();
                    loop {
                        let n = self.write(b, st).map_err(|e| format!("unexpected error {e:?}"))?;
                        if n > b.len() { return Err(format!("write returned {n} for {} bytes", b.len())); }
                        b = &b[n..];
                        if b.is_empty() { return Ok(()); }
                        if n == 0 { return Err("write returned 0 although the sink takes everything".into()); }
                    }
                }
                Api::Fmt => e(stylish::write!(self, "{:s}", Piece(s, st))),
                Api::Dyn => {
                    let d: &mut dyn stylish::io::Write = self;
                    e(d.write_all(s.as_bytes(), st))
                }
            }
        }
    };
}

impl W for stylish::Ansi<Tap> {
    const NAME: &'static str = "Ansi";
    const NEW: &'static str = "stylish::Ansi::new(std::string::String::new())";
    const IO: bool = false;
    fn new() -> Self { Self::new(Tap) }
    fmt_put!();
    fn end(self) -> Result<(), String> { self.finish().map(|_| ()).map_err(|e| format!("finish failed: {e:?}")) }
}

impl W for stylish::io::Ansi<Tap> {
    const NAME: &'static str = "io::Ansi";
    const NEW: &'static str = "stylish::io::Ansi::new(std::vec::Vec::<u8>::new())";
    const IO: bool = true;
    fn new() -> Self { Self::new(Tap) }
    io_put!();
    fn end(self) -> Result<(), String> { self.finish().map(|_| ()).map_err(|e| format!("finish failed: {e:?}")) }
}

impl W for stylish::Html<Tap> {
    const NAME: &'static str = "Html";
    const NEW: &'static str = "stylish::Html::new(std::string::String::new())";
    const IO: bool = false;
    fn new() -> Self { Self::new(Tap) }
    fmt_put!();
    fn end(self) -> Result<(), String> { self.finish().map(|_| ()).map_err(|e| format!("finish failed: {e:?}")) }
}

impl W for stylish::Plain<Tap> {
    const NAME: &'static str = "Plain";
    const NEW: &'static str = "stylish::Plain::new(std::string::String::new())";
    const IO: bool = false;
    fn new() -> Self { Self::new(Tap) }
    fmt_put!();
    fn end(self) -> Result<(), String> { self.into_inner(); Ok(()) }
}

impl W for stylish::io::Plain<Tap> {
    const NAME: &'static str = "io::Plain";
    const NEW: &'static str = "stylish::io::Plain::new(std::vec::Vec::<u8>::new())";
    const IO: bool = true;
    fn new() -> Self { Self::new(Tap) }
    io_put!();
    fn end(self) -> Result<(), String> { self.into_inner(); Ok(()) }
}

/// A write operation of a history.
#[derive(Clone, Debug)]
pub struct Op {
    pub api: Api,
    pub text: String,
    pub style: Style,
}

impl Op {
    pub fn new(api: Api, text: &str, style: Style) -> Self {
        Op { api, text: text.to_string(), style }
    }
}

pub fn clip(s: &str) -> String {
    if s.chars().count() <= 60 { format!("{s:?}") }
    else { format!("{:?}.. ({} bytes)", s.chars().take(40).collect::<String>(), s.len()) }
}

pub fn show_ops(name: &str, ops: &[Op]) -> String {
    let skip = ops.len().saturating_sub(60);
    let mut o = format!("{name}:");
    if skip > 0 { o.push_str(&format!(" ({skip} earlier writes);")); }
    for op in &ops[skip..] {
        o.push_str(&format!(" {:?} {} in [{}];", op.api, clip(&op.text), crate::space::show(op.style)));
    }
    o
}

/// A stand-alone test of the history (prints the output).
pub fn repro_ops<T: W>(ops: &[Op]) -> String {
    let mut o = format!(
        "#[test]\nfn replay() {{\n    use stylish::{}Write as _;\n    let mut w = {};\n",
        if T::IO { "io::" } else { "" }, T::NEW
    );
    for op in ops.iter().rev().take(60).rev() {
        let st = crate::space::src(op.style);
        if T::IO {
            o.push_str(&format!("    w.write_all({:?}.as_bytes(), {st}).unwrap();\n", op.text));
        } else if op.api == Api::Fine {
            o.push_str(&format!("    for c in {:?}.chars() {{ w.write_char(c, {st}).unwrap(); }}\n", op.text));
        } else {
            o.push_str(&format!("    w.write_str({:?}, {st}).unwrap();\n", op.text));
        }
    }
    let fin = if T::NAME.contains("Plain") { "w.into_inner()" } else { "w.finish().unwrap()" };
    if T::IO {
        o.push_str(&format!("    println!(\"{{:?}}\", std::string::String::from_utf8_lossy(&{fin}));\n}}\n"));
    } else {
        o.push_str(&format!("    println!(\"{{:?}}\", {fin});\n}}\n"));
    }
    o
}
