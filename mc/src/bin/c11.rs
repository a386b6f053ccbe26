//! C11: all convenience entry points produce the same rendering.
use mc::prog::{self, Cells, Node, Rec};
use mc::report::{guard, Check, Local, Violation};
use stylish::{Arguments, ToAnsiString, ToHtmlString, ToPlainString, ToStylishString};

/// Everything that renders the same arguments as one kind of output; the
/// arguments are made anew for each.
fn kinds(args: &mut dyn FnMut(&mut dyn FnMut(Arguments<'_>))) -> Vec<(&'static str, &'static str, Vec<u8>)> {
    let mut v: Vec<(&str, &str, Vec<u8>)> = Vec::new();
    macro_rules! add {
        ($kind:literal, $($name:literal => |$a:ident| $e:expr;)*) => {
            $( args(&mut |$a| { let r: Vec<u8> = $e; v.push(($kind, $name, r)) }); )*
        };
    }
    macro_rules! fmt_writer {
        ($make:expr, $end:ident, $call:expr) => {{
            let mut w = $make;
            let r: stylish::Result = $call(&mut w);
            let mut o: Vec<u8> = fmt_writer!(@end $end w);
            if r.is_err() { o.extend(b"(failed)") }
            o
        }};
        (@end finish $w:ident) => { $w.finish().expect("finish").into_bytes() };
        (@end into_inner $w:ident) => { $w.into_inner().into_bytes() };
    }
    macro_rules! io_writer {
        ($make:expr, $end:ident, $call:expr) => {{
            let mut w = $make;
            let r: std::io::Result<()> = $call(&mut w);
            let mut o: Vec<u8> = io_writer!(@end $end w);
            if r.is_err() { o.extend(b"(failed)") }
            o
        }};
        (@end finish $w:ident) => { $w.finish().expect("finish") };
        (@end into_inner $w:ident) => { $w.into_inner() };
    }
    use stylish::io::Write as I;
    use stylish::Write as F;
    add! { "ANSI",
        "ansi::format" => |a| stylish::ansi::format(a).into_bytes();
        "ansi::format!(\"{:s}\", arguments)" => |a| stylish::ansi::format!("{:s}", a).into_bytes();
        "Ansi::new, inherent write_fmt, finish" => |a| fmt_writer!(stylish::Ansi::new(String::new()), finish, |w: &mut stylish::Ansi<String>| w.write_fmt(a));
        "stylish::ansi, Write::write_fmt, finish" => |a| fmt_writer!(stylish::ansi(String::new()), finish, |w: &mut stylish::Ansi<String>| F::write_fmt(w, a));
        "Ansi::default, write! through a reference" => |a| fmt_writer!(stylish::Ansi::<String>::default(), finish, |w: &mut stylish::Ansi<String>| { let d: &mut dyn F = w; stylish::write!(d, "{:s}", a) });
        "arguments.to_ansi_string" => |a| a.to_ansi_string().into_bytes();
        "through an attributed string" => |a| stylish::ansi::format!("{:s}", stylish::format(a)).into_bytes();
        "through an attributed string, to_ansi_string" => |a| stylish::format!("{:s}", a).to_ansi_string().into_bytes();
        "through to_stylish_string" => |a| a.to_stylish_string().to_ansi_string().into_bytes();
        "through write! to an attributed string" => |a| { let mut s = stylish::String::new(); stylish::write!(s, "{:s}", a).unwrap(); stylish::ansi::format!("{:s}", s).into_bytes() };
        "Ansi over a &mut String" => |a| { let mut s = String::new(); let mut w = stylish::Ansi::new(&mut s); w.write_fmt(a).unwrap(); w.finish().unwrap(); s.into_bytes() };
    }
    add! { "HTML",
        "html::format" => |a| stylish::html::format(a).into_bytes();
        "html::format!(\"{:s}\", arguments)" => |a| stylish::html::format!("{:s}", a).into_bytes();
        "Html::new, inherent write_fmt, finish" => |a| fmt_writer!(stylish::Html::new(String::new()), finish, |w: &mut stylish::Html<String>| w.write_fmt(a));
        "stylish::html, Write::write_fmt, finish" => |a| fmt_writer!(stylish::html(String::new()), finish, |w: &mut stylish::Html<String>| F::write_fmt(w, a));
        "Html::default, write! through a reference" => |a| fmt_writer!(stylish::Html::<String>::default(), finish, |w: &mut stylish::Html<String>| { let d: &mut dyn F = w; stylish::write!(d, "{:s}", a) });
        "arguments.to_html_string" => |a| a.to_html_string().into_bytes();
        "through an attributed string" => |a| stylish::html::format!("{:s}", stylish::format(a)).into_bytes();
        "through an attributed string, to_html_string" => |a| stylish::format!("{:s}", a).to_html_string().into_bytes();
        "through to_stylish_string" => |a| a.to_stylish_string().to_html_string().into_bytes();
        "Html over a &mut String" => |a| { let mut s = String::new(); let mut w = stylish::Html::new(&mut s); w.write_fmt(a).unwrap(); w.finish().unwrap(); s.into_bytes() };
    }
    add! { "plain text",
        "plain::format" => |a| stylish::plain::format(a).into_bytes();
        "plain::format!(\"{:s}\", arguments)" => |a| stylish::plain::format!("{:s}", a).into_bytes();
        "Plain::new, inherent write_fmt, into_inner" => |a| fmt_writer!(stylish::Plain::new(String::new()), into_inner, |w: &mut stylish::Plain<String>| w.write_fmt(a));
        "stylish::plain, Write::write_fmt, into_inner" => |a| fmt_writer!(stylish::plain(String::new()), into_inner, |w: &mut stylish::Plain<String>| F::write_fmt(w, a));
        "Plain::default, write! through a reference" => |a| fmt_writer!(stylish::Plain::<String>::default(), into_inner, |w: &mut stylish::Plain<String>| { let d: &mut dyn F = w; stylish::write!(d, "{:s}", a) });
        "arguments.to_plain_string" => |a| a.to_plain_string().into_bytes();
        "through an attributed string" => |a| stylish::plain::format!("{:s}", stylish::format(a)).into_bytes();
        "through an attributed string, to_plain_string" => |a| stylish::format!("{:s}", a).to_plain_string().into_bytes();
        "io::Plain::new, inherent write_fmt" => |a| io_writer!(stylish::io::Plain::new(Vec::new()), into_inner, |w: &mut stylish::io::Plain<Vec<u8>>| w.write_fmt(a));
        "stylish::io::plain, Write::write_fmt" => |a| io_writer!(stylish::io::plain(Vec::new()), into_inner, |w: &mut stylish::io::Plain<Vec<u8>>| I::write_fmt(w, a));
        "io::Plain::default, write! through a reference" => |a| io_writer!(stylish::io::Plain::<Vec<u8>>::default(), into_inner, |w: &mut stylish::io::Plain<Vec<u8>>| { let d: &mut dyn I = w; stylish::write!(d, "{:s}", a) });
        "io::Plain through an attributed string" => |a| io_writer!(stylish::io::plain(Vec::new()), into_inner, |w: &mut stylish::io::Plain<Vec<u8>>| stylish::write!(w, "{:s}", stylish::format!("{:s}", a)));
    }
    add! { "byte-stream ANSI",
        "io::Ansi::new, inherent write_fmt, finish" => |a| io_writer!(stylish::io::Ansi::new(Vec::new()), finish, |w: &mut stylish::io::Ansi<Vec<u8>>| w.write_fmt(a));
        "stylish::io::ansi, Write::write_fmt, finish" => |a| io_writer!(stylish::io::ansi(Vec::new()), finish, |w: &mut stylish::io::Ansi<Vec<u8>>| I::write_fmt(w, a));
        "io::Ansi::default, write! through a reference" => |a| io_writer!(stylish::io::Ansi::<Vec<u8>>::default(), finish, |w: &mut stylish::io::Ansi<Vec<u8>>| { let d: &mut dyn I = w; stylish::write!(d, "{:s}", a) });
        "io::Ansi over a &mut Vec" => |a| { let mut s = Vec::new(); let mut w = stylish::io::Ansi::new(&mut s); w.write_fmt(a).unwrap(); w.finish().unwrap(); s };
    }
    v
}

fn agree(all: &[(&'static str, &'static str, Vec<u8>)], show: &dyn Fn() -> String) -> Result<(), Violation> {
    for (i, (kind, name, out)) in all.iter().enumerate() {
        if let Some(first) = all[..i].iter().find(|x| x.0 == *kind) {
            if first.2 != *out {
                return Err(Violation::new(
                    format!("{kind}: {name} gives {:?}, {} gives {:?}", String::from_utf8_lossy(out), first.1, String::from_utf8_lossy(&first.2)), show()));
            }
        }
    }
    Ok(())
}

fn value(n: &Node, l: &mut Local) -> Result<(), Violation> {
    if !n.denote(mc::space::style(0), &mut Cells::new()) { return Ok(()) }
    let show = || n.show();
    let all = guard(&show, || kinds(&mut |f| f(stylish::format_args!("{:s}", n))))?;
    l.traces += all.len() as u64;
    agree(&all, &show).map_err(|v| v.repro(n.repro("")))?;
    // on the value itself
    let (a, h, p, s) = guard(&show, || (n.to_ansi_string(), n.to_html_string(), n.to_plain_string(), n.to_stylish_string()))?;
    let get = |k: &str| all.iter().find(|x| x.0 == k).unwrap().2.clone();
    let (ra, rh, rp) = (get("ANSI"), get("HTML"), get("plain text"));
    let cells = |s: &stylish::String| { let mut r = Rec::default(); let _ = stylish::write!(&mut r as &mut dyn stylish::Write, "{:s}", s); r.cells };
    let t = guard(&show, || stylish::format!("{:s}", n))?;
    if a.as_bytes() != ra || h.as_bytes() != rh || p.as_bytes() != rp || cells(&s) != cells(&t) {
        return Err(Violation::new(format!("conversion traits give {a:?}, {h:?}, {p:?}, {}", prog::show_cells(&cells(&s))), show()).repro(n.repro("")));
    }
    // a line: writing with a newline, and writing and then a line feed
    let lines = guard(&show, || {
        let mut v = Vec::new();
        for nl in [true, false] {
            macro_rules! line {
                ($w:expr, $end:expr) => {{
                    let mut w = $w;
                    stylish::write!(w, "1{:s}", n).unwrap();
                    if nl {
                        stylish::writeln!(w).unwrap();
                        stylish::writeln!(w, "{:(fg=red)s}", n).unwrap();
                        stylish::writeln!(w, "{:s}2", n).unwrap();
                        stylish::writeln!(w,).unwrap();
                    } else {
                        stylish::write!(w, "\n").unwrap();
                        stylish::write!(w, "{:(fg=red)s}", n).unwrap();
                        stylish::write!(w, "\n").unwrap();
                        stylish::write!(w, "{:s}2", n).unwrap();
                        stylish::write!(w, "\n").unwrap();
                        stylish::write!(w, "\n").unwrap();
                    }
                    v.push($end(w));
                }};
            }
            line!(stylish::ansi(String::new()), |w: stylish::Ansi<String>| w.finish().unwrap().into_bytes());
            line!(stylish::html(String::new()), |w: stylish::Html<String>| w.finish().unwrap().into_bytes());
            line!(stylish::plain(String::new()), |w: stylish::Plain<String>| w.into_inner().into_bytes());
            line!(stylish::io::ansi(Vec::new()), |w: stylish::io::Ansi<Vec<u8>>| w.finish().unwrap());
            line!(stylish::io::plain(Vec::new()), |w: stylish::io::Plain<Vec<u8>>| w.into_inner());
            use stylish::Write as _;
            line!(stylish::String::new(), |w: stylish::String| stylish::html::format!("{:s}", w).into_bytes());
        }
        v
    })?;
    l.traces += 12;
    for k in 0..6 {
        if lines[k] != lines[k + 6] {
            return Err(Violation::new(format!("writeln! gives {:?}, write! and line feeds {:?}", String::from_utf8_lossy(&lines[k]), String::from_utf8_lossy(&lines[k + 6])), show()).repro(n.repro("")));
        }
    }
    Ok(())
}

/// Writing lines to a formatter, inside contexts of all kinds, and through
/// references and trait objects.
fn in_formatter(n: &Node, l: &mut Local) -> Result<(), Violation> {
    if !n.denote(mc::space::style(0), &mut Cells::new()) { return Ok(()) }
    let show = || n.show();
    struct Ln<'a>(&'a Node, usize, u8);
    impl stylish::Display for Ln<'_> {
        fn fmt(&self, f: &mut stylish::Formatter<'_>) -> stylish::Result {
            let n = self.0;
            match (self.2, self.1) {
                (0, 0) => stylish::write!(f, "\n"),
                (0, 1) => stylish::writeln!(f),
                (0, 2) => stylish::writeln!(f,),
                (0, 3) => f.write_str("\n"),
                (0, 4) => stylish::writeln!(f, ""),
                (0, 5) => stylish::writeln!(&mut *f,),
                (0, _) => stylish::writeln!(f, "",),
                (1, 0) => stylish::write!(f, "a{:(bold)s}{}\n", n, 1),
                (1, 1) => stylish::writeln!(f, "a{:(bold)s}{}", n, 1),
                (1, 2) => stylish::writeln!(f, "a{:(bold)s}{}", n, 1,),
                (1, 3) => f.write_fmt(stylish::format_args!("a{:(bold)s}{}\n", n, 1)),
                (1, 4) => { stylish::write!(f, "a{:(bold)s}{}", n, 1)?; stylish::writeln!(f) }
                (1, 5) => { f.write_str("a")?; stylish::writeln!(f, "{:(bold)s}{}", n, 1) }
                (1, _) => { stylish::write!(f, "a{:(bold)s}{}", n, 1)?; stylish::writeln!(f,) }
                (_, k) => {
                    // both, within one more context
                    { let f = &mut f.with(stylish::Foreground(stylish::Color::Green)); Ln(n, k, 0).fmt(f)?; Ln(n, k, 1).fmt(f)?; }
                    Ln(n, k, 0).fmt(&mut f.with(stylish::Intensity::Bold))?;
                    Ln(n, k, 1).fmt(f)
                }
            }
        }
    }
    for what in 0..3u8 {
        let all = guard(&show, || {
            let mut v: Vec<(&'static str, &'static str, Vec<u8>)> = Vec::new();
            const NAMES: [&str; 7] = ["write! with \\n", "writeln!(f) (1)", "writeln!(f,) (2)", "write_str/write_fmt (3)", "writeln! (4)", "writeln! (5)", "writeln! (6)"];
            for k in 0..7 {
                let x = Ln(n, k, what);
                v.push(("ANSI", NAMES[k], stylish::ansi::format!("{:s}{:(fg=red)s}{:(bg=blue,bold)s}.", x, x, x).into_bytes()));
                v.push(("HTML", NAMES[k], stylish::html::format!("{:s}{:(fg=red)s}{:(bg=blue,bold)s}.", x, x, x).into_bytes()));
                v.push(("plain", NAMES[k], stylish::plain::format!("{:s}{:(fg=red)s}{:(bg=blue,bold)s}.", x, x, x).into_bytes()));
                v.push(("attributed", NAMES[k], stylish::html::format!("{:(fg=red)s}{:(normal)s}", stylish::format!("{:s}", x), x).into_bytes()));
            }
            v
        })?;
        l.traces += all.len() as u64;
        agree(&all, &show).map_err(|v| v.repro(n.repro("")))?;
    }
    Ok(())
}

/// A sequence of writes and one format string with the pieces joined.
fn joined(a: &Node, b: &Node, l: &mut Local) -> Result<(), Violation> {
    let d = mc::space::style(0);
    if !a.denote(d, &mut Cells::new()) || !b.denote(d, &mut Cells::new()) { return Ok(()) }
    let show = || format!("{} and {}", a.show(), b.show());
    let outs = guard(&show, || {
        let mut v = Vec::new();
        for one in [true, false] {
            macro_rules! both {
                ($w:expr, $end:expr) => {{
                    let mut w = $w;
                    if one {
                        stylish::write!(w, "<{:s}{:(fg=blue,bold)s}{{{:(bg=red)s}{:s}", a, b, b, a).unwrap();
                    } else {
                        stylish::write!(w, "<").unwrap();
                        stylish::write!(w, "{:s}", a).unwrap();
                        stylish::write!(w, "{:(fg=blue,bold)s}", b).unwrap();
                        stylish::write!(w, "{{").unwrap();
                        stylish::write!(w, "{:(bg=red)s}{:s}", b, a).unwrap();
                    }
                    v.push($end(w));
                }};
            }
            both!(stylish::ansi(String::new()), |w: stylish::Ansi<String>| w.finish().unwrap().into_bytes());
            both!(stylish::html(String::new()), |w: stylish::Html<String>| w.finish().unwrap().into_bytes());
            both!(stylish::plain(String::new()), |w: stylish::Plain<String>| w.into_inner().into_bytes());
            both!(stylish::io::ansi(Vec::new()), |w: stylish::io::Ansi<Vec<u8>>| w.finish().unwrap());
            both!(stylish::io::plain(Vec::new()), |w: stylish::io::Plain<Vec<u8>>| w.into_inner());
            use stylish::Write as _;
            both!(stylish::String::new(), |w: stylish::String| stylish::html::format!("{:s}", w).into_bytes());
        }
        v
    })?;
    l.traces += 12;
    for k in 0..6 {
        if outs[k] != outs[k + 6] {
            return Err(Violation::new(format!("one format string gives {:?}, several writes {:?}", String::from_utf8_lossy(&outs[k]), String::from_utf8_lossy(&outs[k + 6])), show()));
        }
    }
    Ok(())
}

/// A sink that writes down how it is called.
#[derive(Default)]
struct Log(Vec<(&'static str, Vec<u8>)>);
impl std::fmt::Write for Log {
    fn write_str(&mut self, s: &str) -> std::fmt::Result { self.0.push(("write_str", s.as_bytes().into())); Ok(()) }
    fn write_char(&mut self, c: char) -> std::fmt::Result { self.0.push(("write_char", c.to_string().into())); Ok(()) }
}
impl std::io::Write for Log {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { let n = b.len().min(3); self.0.push(("write", b[..n].into())); Ok(n) }
    fn flush(&mut self) -> std::io::Result<()> { self.0.push(("flush", vec![])); Ok(()) }
}

/// However an adaptor is made and called, it uses its sink in the same way.
fn sinks(n: &Node, l: &mut Local) -> Result<(), Violation> {
    if !n.denote(mc::space::style(0), &mut Cells::new()) { return Ok(()) }
    use stylish::io::Write as I;
    use stylish::Write as F;
    let show = || n.show();
    macro_rules! adaptor {
        ($name:literal, $tr:path, $end:expr, $($how:literal => $new:expr;)*) => {{
            let mut first: Option<(String, Vec<(&'static str, Vec<u8>)>)> = None;
            $( for call in 0..4 {
                let mut w = $new;
                let log = guard(&show, || {
                    let ok = match call {
                        0 => w.write_fmt(stylish::format_args!("{:s}", n)).is_ok(),
                        1 => <_ as $tr>::write_fmt(&mut w, stylish::format_args!("{:s}", n)).is_ok(),
                        2 => stylish::write!(w, "{:s}", n).is_ok(),
                        _ => { let d: &mut dyn $tr = &mut w; d.write_fmt(stylish::format_args!("{:s}", n)).is_ok() }
                    };
                    let mut log: Log = $end(w);
                    if !ok { log.0.push(("(error)", vec![])) }
                    // how the text is cut into writes does not matter
                    let mut all: Vec<(&'static str, Vec<u8>)> = Vec::new();
                    for (call, b) in log.0 {
                        let call = if call.starts_with("write") { "write" } else { call };
                        match all.last_mut() { Some(x) if x.0 == "write" && call == "write" => x.1.extend(b), _ => all.push((call, b)) }
                    }
                    all
                })?;
                l.traces += 1;
                let name = format!("{}, {}", $how, ["inherent write_fmt", "write_fmt of the trait", "write!", "write_fmt of a trait object"][call]);
                match &first {
                    None => first = Some((name, log)),
                    Some((other, f)) => if *f != log {
                        let text = |x: &Vec<(&'static str, Vec<u8>)>| x.iter().take(40).map(|c| format!("{}({:?})", c.0, String::from_utf8_lossy(&c.1))).collect::<Vec<_>>().join(" ");
                        return Err(Violation::new(format!("{}: {name} calls the sink {}, {other} {}", $name, text(&log), text(f)), show()).repro(n.repro("")));
                    }
                }
            } )*
        }};
    }
    l.states += 1;
    adaptor!("Ansi", F, |w: stylish::Ansi<Log>| w.finish().unwrap(), "Ansi::new" => stylish::Ansi::new(Log::default()); "ansi" => stylish::ansi(Log::default()); "Ansi::default" => stylish::Ansi::<Log>::default(););
    adaptor!("Html", F, |w: stylish::Html<Log>| w.finish().unwrap(), "Html::new" => stylish::Html::new(Log::default()); "html" => stylish::html(Log::default()); "Html::default" => stylish::Html::<Log>::default(););
    adaptor!("Plain", F, |w: stylish::Plain<Log>| w.into_inner(), "Plain::new" => stylish::Plain::new(Log::default()); "plain" => stylish::plain(Log::default()); "Plain::default" => stylish::Plain::<Log>::default(););
    adaptor!("io::Ansi", I, |w: stylish::io::Ansi<Log>| w.finish().unwrap(), "Ansi::new" => stylish::io::Ansi::new(Log::default()); "ansi" => stylish::io::ansi(Log::default()); "Ansi::default" => stylish::io::Ansi::<Log>::default(););
    adaptor!("io::Plain", I, |w: stylish::io::Plain<Log>| w.into_inner(), "Plain::new" => stylish::io::Plain::new(Log::default()); "plain" => stylish::io::plain(Log::default()); "Plain::default" => stylish::io::Plain::<Log>::default(););
    Ok(())
}

/// Values of every kind of type: without size, unsized, behind pointers, big.
fn types(c: &Check) {
    use stylish::{Color, Display, Foreground, Formatter, Intensity};
    fn body(f: &mut Formatter<'_>, n: usize) -> stylish::Result {
        f.write_str("<")?;
        stylish::write!(f.with(Foreground(Color::Red)), "{}", n)?;
        f.with(Intensity::Bold).write_str("é&\n")?;
        f.write_str(">")
    }
    struct Unit;
    struct Tuple((), [u64; 0], std::marker::PhantomData<str>);
    #[repr(align(64))] struct Aligned;
    struct Byte(u8);
    struct Big<const N: usize>([u8; N]);
    struct Slice([u16]);
    struct Text(str);
    enum Never {}
    enum One { It }
    struct Lifetime<'a>(&'a mut u8);
    struct Call<F: Fn() -> usize>(F);
    impl Display for Unit { fn fmt(&self, f: &mut Formatter<'_>) -> stylish::Result { body(f, 0) } }
    impl Display for Tuple { fn fmt(&self, f: &mut Formatter<'_>) -> stylish::Result { let _ = (&self.0, &self.2); body(f, self.1.len()) } }
    impl Display for Aligned { fn fmt(&self, f: &mut Formatter<'_>) -> stylish::Result { body(f, self as *const _ as usize % 64) } }
    impl Display for Byte { fn fmt(&self, f: &mut Formatter<'_>) -> stylish::Result { body(f, self.0 as usize) } }
    impl<const N: usize> Display for Big<N> { fn fmt(&self, f: &mut Formatter<'_>) -> stylish::Result { body(f, self.0.iter().map(|b| *b as usize).sum()) } }
    impl Display for Slice { fn fmt(&self, f: &mut Formatter<'_>) -> stylish::Result { body(f, self.0.len()) } }
    impl Display for Text { fn fmt(&self, f: &mut Formatter<'_>) -> stylish::Result { f.write_str(&self.0)?; body(f, self.0.len()) } }
    impl Display for Never { fn fmt(&self, _: &mut Formatter<'_>) -> stylish::Result { match *self {} } }
    impl Display for One { fn fmt(&self, f: &mut Formatter<'_>) -> stylish::Result { match self { One::It => body(f, 1) } } }
    impl Display for Lifetime<'_> { fn fmt(&self, f: &mut Formatter<'_>) -> stylish::Result { body(f, *self.0 as usize) } }
    impl<F: Fn() -> usize> Display for Call<F> { fn fmt(&self, f: &mut Formatter<'_>) -> stylish::Result { body(f, (self.0)()) } }
    fn slice(x: &[u16]) -> &Slice { unsafe { &*(x as *const [u16] as *const Slice) } }
    fn text(x: &str) -> &Text { unsafe { &*(x as *const str as *const Text) } }

    fn one<T: Display + ?Sized>(name: &str, x: &T, l: &mut Local) -> Result<(), Violation> {
        l.states += 1;
        let show = || format!("a value of type {name} ({} bytes)", std::mem::size_of_val(x));
        let mut all = guard(&show, || kinds(&mut |f| f(stylish::format_args!("{:s}", x))))?;
        guard(&show, || {
            all.push(("ANSI", "to_ansi_string of the value", x.to_ansi_string().into_bytes()));
            all.push(("HTML", "to_html_string of the value", x.to_html_string().into_bytes()));
            all.push(("plain text", "to_plain_string of the value", x.to_plain_string().into_bytes()));
            let s = x.to_stylish_string();
            all.push(("ANSI", "through to_stylish_string of the value", s.to_ansi_string().into_bytes()));
            all.push(("HTML", "through to_stylish_string of the value", s.to_html_string().into_bytes()));
            all.push(("plain text", "through to_stylish_string of the value", s.to_plain_string().into_bytes()));
            let s: stylish::String = stylish::format!("{:s}{:s}", x, x);
            let t = x.to_ansi_string();
            let _ = t;
            all.push(("HTML twice", "an attributed string", s.to_html_string().into_bytes()));
            all.push(("HTML twice", "format!", stylish::html::format!("{:s}{0:s}", x).into_bytes()));
            all.push(("HTML twice", "html of a named argument", stylish::html::format!("{a:s}{a:s}", a = x).into_bytes()));
        })?;
        l.traces += all.len() as u64;
        agree(&all, &show)?;
        // none of them is empty or cut short
        for (kind, how, out) in &all {
            if !out.contains(&b'<') && !String::from_utf8_lossy(out).contains("&lt;") { return Err(Violation::new(format!("{kind}: {how} gives {:?}", String::from_utf8_lossy(out)), show())) }
        }
        Ok(())
    }
    /// The same value behind pointers: all renderings are those of the value.
    fn behind<T: Display>(name: &str, x: T, l: &mut Local) -> Result<(), Violation> {
        one(name, &x, l)?;
        one(&format!("&{name}"), &&x, l)?;
        one(&format!("&&&{name}"), &&&&x, l)?;
        let want = (x.to_ansi_string(), x.to_html_string(), x.to_plain_string());
        let d: &dyn Display = &x;
        one(&format!("dyn Display over {name}"), d, l)?;
        one(&format!("&dyn Display over {name}"), &d, l)?;
        let same = |how: &str, got: (String, String, String)| if got == want { Ok(()) } else {
            Err(Violation::new(format!("{how} gives {got:?}, the value itself {want:?}"), format!("a value of type {name}")))
        };
        same("a reference", { let r = &x; (r.to_ansi_string(), r.to_html_string(), r.to_plain_string()) })?;
        same("a trait object", { let r: &dyn Display = &x; (r.to_ansi_string(), r.to_html_string(), r.to_plain_string()) })?;
        let b: Box<dyn Display + '_> = Box::new(x);
        same("a boxed trait object", (b.as_ref().to_ansi_string(), b.as_ref().to_html_string(), b.as_ref().to_plain_string()))?;
        one(&format!("Box<dyn Display> over {name}"), b.as_ref(), l)
    }
    c.par("values of every kind of type", 1, |_, l| {
        behind("a unit struct", Unit, l)?;
        behind("a struct of nothing", Tuple((), [], std::marker::PhantomData), l)?;
        behind("an aligned unit struct", Aligned, l)?;
        for b in [0, 1, 255] { behind("one byte", Byte(b), l)?; }
        behind("[u8; 0]", Big([0; 0]), l)?;
        behind("[u8; 1]", Big([1; 1]), l)?;
        behind("[u8; 7]", Big([1; 7]), l)?;
        behind("[u8; 8]", Big([1; 8]), l)?;
        behind("[u8; 16]", Big([1; 16]), l)?;
        behind("[u8; 17]", Big([1; 17]), l)?;
        behind("[u8; 63]", Big([1; 63]), l)?;
        behind("[u8; 64]", Big([1; 64]), l)?;
        behind("[u8; 65]", Big([1; 65]), l)?;
        behind("[u8; 128]", Big([1; 128]), l)?;
        behind("[u8; 256]", Big([1; 256]), l)?;
        behind("[u8; 1000]", Big([1; 1000]), l)?;
        behind("[u8; 4096]", Big([1; 4096]), l)?;
        behind("[u8; 65536]", Big([1; 65536]), l)?;
        behind("an enum of one variant", One::It, l)?;
        behind("a closure without captures", Call(|| 5), l)?;
        let k = 6usize;
        behind("a closure with a capture", Call(|| k), l)?;
        let mut b = 9;
        behind("a mutable borrow", Lifetime(&mut b), l)?;
        // a value that is nowhere but behind a reference
        for n in 0..5 {
            one("a slice", slice(&[7; 5][..n]), l)?;
            one("a reference to a slice", &slice(&[7; 5][..n]), l)?;
            one("a text", text(&"aé&<"[..[0, 1, 3, 4, 5][n]]), l)?;
        }
        let none: Vec<Never> = vec![];
        for x in &none { one("a value there is none of", x, l)?; }
        Ok(())
    });
}

fn main() {
    let c = Check::start("C11", "model_checking");
    let count = |n: &Node, l: &mut Local| { l.states += 1; l.transitions += n.size() as u64; value(n, l)?; if l.states == 77 { l.sample(|| n.show()) } Ok(()) };
    prog::full(false, true).programs(&c, "values, full alphabet", c.pick(4, 5), count);
    prog::small(false, true).programs(&c, "values, small alphabet", c.pick(5, 6), count);
    prog::full(false, true).programs(&c, "lines in a formatter", c.pick(2, 3), |n, l| { l.states += 1; in_formatter(n, l) });
    prog::odd(&c, "values", count);
    prog::specs(&c, "values", 300, false, count);
    prog::full(false, true).programs(&c, "calls of the sink", c.pick(3, 4), sinks);
    prog::specs(&c, "calls of the sink", 40, false, sinks);
    let deep = prog::deep(c.pick(100, 1000), true);
    c.par("deep and wide values", deep.len(), |i, l| value(&deep[i], l));
    let leaves = prog::full(false, true).leaves;
    let nodes = std::sync::Mutex::new(leaves.iter().map(|n| n.share()).collect::<Vec<_>>());
    prog::full(false, true).programs(&c, "pieces", 2, |n, _| { if n.size() > 1 { nodes.lock().unwrap().push(n.share()) } Ok(()) });
    let mut nodes = nodes.into_inner().unwrap();
    nodes.sort_by_key(|n| n.show());
    c.par("pairs of values in one format string and in several writes", nodes.len(), |i, l| {
        for b in &nodes { l.states += 1; joined(&nodes[i], b, l)?; }
        Ok(())
    });
    mc::entries::agree(&c, false);
    types(&c);
    mc::entries::huge(&c, &[mc::entries::Kind::Ansi, mc::entries::Kind::Html, mc::entries::Kind::Plain]);
    c.finish(
        "states: values (formatter programs) and pairs of values; transitions: formatter operations; traces: renderings through one of the entry points, compared within each kind of output",
        &["alphabets of programs are those of mc/src/prog.rs"],
    )
}
