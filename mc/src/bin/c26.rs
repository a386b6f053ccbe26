//! C26: functions returning strings panic exactly when a displayed value
//! returns an error, and otherwise return the whole text.
use mc::prog::{self, Cells, Node, Rec};
use mc::report::{guard, panic_text, Check, Local, Violation};
use mc::space;
use stylish::{Display, ToAnsiString, ToHtmlString, ToPlainString, ToStylishString};

type Entry = (&'static str, fn(&dyn Display) -> Out);

enum Out {
    Ansi(String),
    Html(String),
    Plain(String),
    Cells(Cells),
}

fn cells(s: stylish::String) -> Out {
    let mut r = Rec::default();
    let w: &mut dyn stylish::Write = &mut r;
    stylish::write!(w, "{:s}", s).unwrap();
    Out::Cells(r.cells)
}

const ENTRIES: &[Entry] = &[
    ("stylish::format", |v| cells(stylish::format(stylish::format_args!("{:s}", v)))),
    ("stylish::format!", |v| cells(stylish::format!("{:s}", v))),
    ("to_stylish_string", |v| cells(v.to_stylish_string())),
    ("ansi::format", |v| Out::Ansi(stylish::ansi::format(stylish::format_args!("{:s}", v)))),
    ("ansi::format!", |v| Out::Ansi(stylish::ansi::format!("{:s}", v))),
    ("to_ansi_string", |v| Out::Ansi(v.to_ansi_string())),
    ("html::format", |v| Out::Html(stylish::html::format(stylish::format_args!("{:s}", v)))),
    ("html::format!", |v| Out::Html(stylish::html::format!("{:s}", v))),
    ("to_html_string", |v| Out::Html(v.to_html_string())),
    ("plain::format", |v| Out::Plain(stylish::plain::format(stylish::format_args!("{:s}", v)))),
    ("plain::format!", |v| Out::Plain(stylish::plain::format!("{:s}", v))),
    ("to_plain_string", |v| Out::Plain(v.to_plain_string())),
];

fn right(out: &Out, want: &Cells) -> Result<(), String> {
    match out {
        Out::Cells(c) => if c == want { Ok(()) } else { Err(format!("records {}", prog::show_cells(c))) },
        Out::Plain(s) => if s.chars().eq(want.iter().map(|c| c.0)) { Ok(()) } else { Err(format!("returns {s:?}")) },
        Out::Ansi(s) => {
            let mut shown = Vec::new();
            let mut vt = mc::vt::Vt::new(false);
            vt.feed(s.as_bytes(), &mut shown).map_err(|e| format!("returns {s:?}: {e}"))?;
            if shown.iter().map(|x| (x.0, x.1)).eq(want.iter().map(|c| (c.0, mc::vt::rendition(c.1)))) && vt.now == mc::vt::PLAIN { Ok(()) }
            else { Err(format!("returns {s:?}")) }
        }
        Out::Html(s) => {
            let mut doc = mc::html::Doc::new();
            let mut shown = Vec::new();
            doc.feed(s.as_bytes(), &mut shown).map_err(|e| format!("returns {s:?}: {e}"))?;
            if doc.settled() && doc.open.is_none() && shown.len() == want.len()
                && shown.iter().zip(want).all(|(x, c)| x.0 == c.0 && x.1 == mc::html::expect(c.1)) { Ok(()) }
            else { Err(format!("returns {s:?}")) }
        }
    }
}

fn judge(name: &str, show: &dyn Fn() -> String, got: Result<Out, String>, ok: bool, want: &Cells) -> Result<(), Violation> {
    match (got, ok) {
        (Err(_), false) => Ok(()),
        (Err(e), true) => Err(Violation::new(format!("{name} panics ({e}) although no displayed value fails"), show())),
        (Ok(o), false) => Err(Violation::new(format!("{name} returns {} although a displayed value returned an error", match &o {
            Out::Ansi(s) | Out::Html(s) | Out::Plain(s) => format!("{s:?}"),
            Out::Cells(c) => prog::show_cells(c),
        }), show())),
        (Ok(o), true) => right(&o, want).map_err(|e| Violation::new(format!("{name} {e} instead of {}", prog::show_cells(want)), show())),
    }
}

fn run(f: impl FnOnce() -> Out, show: &dyn Fn() -> String) -> Result<Result<Out, String>, Violation> {
    // journalled by guard; the panic is what is looked at here
    guard(show, || std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|e| panic_text(&e)))
}

fn value(n: &Node, l: &mut Local) -> Result<(), Violation> {
    let mut want = Cells::new();
    let ok = n.denote(space::style(0), &mut want);
    if !ok { l.nontrivial += 1 }
    for (name, f) in ENTRIES {
        l.traces += 1;
        let show = || format!("{name} of {}", n.show());
        let got = run(|| f(n), &show)?;
        judge(name, &show, got, ok, &want).map_err(|v| v.repro(n.repro("println!(\"{:?}\", stylish::plain::format!(\"{:s}\", value));")))?;
    }
    // nothing is left behind
    let after = stylish::plain::format!("{:(fg=red)}{:s}", 1, stylish::format_args!("2"));
    if after != "12" { return Err(Violation::new(format!("a later rendering gives {after:?}"), n.show())) }
    Ok(())
}

/// Fails in its `at`th write, of standard formatting.
#[derive(Clone, Copy)]
struct Std { at: usize, of: usize }

impl Std {
    fn go(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        for i in 0..self.of {
            if i == self.at { return Err(std::fmt::Error) }
            match i % 3 {
                0 => f.write_str("s")?,
                1 => std::fmt::Write::write_char(f, 'ç')?,
                _ => f.write_fmt(format_args!("{}{}", 1, 2))?,
            }
        }
        if self.at == self.of { Err(std::fmt::Error) } else { Ok(()) }
    }
}
macro_rules! std_traits { ($($t:ident)*) => { $( impl std::fmt::$t for Std { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { self.go(f) } } )* } }
std_traits!(Display Debug Octal LowerHex UpperHex Pointer Binary LowerExp UpperExp);

/// The same, of styled formatting.
#[derive(Clone, Copy)]
struct Styled(Std);
impl Display for Styled {
    fn fmt(&self, f: &mut stylish::Formatter<'_>) -> stylish::Result {
        for i in 0..self.0.of {
            if i == self.0.at { return Err(stylish::Error) }
            match i % 3 {
                0 => f.write_str("s")?,
                1 => f.with(stylish::Intensity::Bold).write_str("ç")?,
                _ => stylish::write!(f, "{}{:(fg=red)}", 1, 2)?,
            }
        }
        if self.0.at == self.0.of { Err(stylish::Error) } else { Ok(()) }
    }
}

/// Format strings with a value that may fail at each place.
fn templates(s: Std) -> Vec<(String, Vec<(&'static str, Result<Out, String>)>)> {
    let mut v = Vec::new();
    macro_rules! t {
        ($($lit:literal, $($a:expr),*;)*) => { $( {
            let show = || format!("{:?} with a value failing at write {} of {}", $lit, s.at, s.of);
            let mut o: Vec<(&'static str, Result<Out, String>)> = Vec::new();
            macro_rules! one { ($name:literal, $e:expr) => { o.push(($name, run(|| $e, &show).unwrap_or_else(|v| Err(v.what)))) } }
            one!("stylish::format!", cells(stylish::format!($lit, $($a),*)));
            one!("stylish::format", cells(stylish::format(stylish::format_args!($lit, $($a),*))));
            one!("ansi::format!", Out::Ansi(stylish::ansi::format!($lit, $($a),*)));
            one!("html::format!", Out::Html(stylish::html::format!($lit, $($a),*)));
            one!("plain::format!", Out::Plain(stylish::plain::format!($lit, $($a),*)));
            one!("args.to_stylish_string", cells(stylish::format_args!($lit, $($a),*).to_stylish_string()));
            one!("args.to_ansi_string", Out::Ansi(stylish::format_args!($lit, $($a),*).to_ansi_string()));
            one!("args.to_html_string", Out::Html(stylish::format_args!($lit, $($a),*).to_html_string()));
            one!("args.to_plain_string", Out::Plain(stylish::format_args!($lit, $($a),*).to_plain_string()));
            v.push((show(), o));
        } )* };
    }
    let y = Styled(s);
    t! {
        "{}", s;
        "{:?}", s;
        "{:x?}", s;
        "{:X?}", s;
        "{:#?}", s;
        "{:o}", s;
        "{:x}", s;
        "{:X}", s;
        "{:p}", s;
        "{:b}", s;
        "{:e}", s;
        "{:E}", s;
        "{:s}", y;
        "{:>9}", s;
        "{:+#09.2}", s;
        "{:(fg=red)}", s;
        "{:(bold)s}", y;
        "{:(bold)?}", s;
        "{}b", s;
        "a{}", s;
        "a{:(fg=red)}b", s;
        "a{:(fg=red)s}b", y;
        "{}{}", s, 1;
        "{}{}", 1, s;
        "{1}{0}", 1, s;
        "{1:s}{0}", 1, y;
        "{0}{0:(bold)}", s;
        "{:s}", stylish::format_args!("a{}b", s);
        "{:s}c", stylish::format_args!("a{:s}", stylish::format_args!("{:(fg=blue)s}b", y));
    }
    // no argument at all
    t! {
        "", ;
        "a{{}}", ;
    }
    v
}

/// Whether each of the templates uses the value, in their order.
fn uses(i: usize) -> bool { i < 29 }

fn main() {
    let c = Check::start("C26", "fault_enumeration");
    let sizes = c.pick(12, 40);
    let mut cases = Vec::new();
    for of in 0..sizes { for at in 0..=of + 1 { cases.push(Std { at, of }) } }
    c.par("values failing at each of their writes, in every kind of placeholder and place", cases.len(), |i, l| {
        let s = cases[i];
        // what the same gives with std, for the text of those that do not fail
        let all = templates(s);
        for (k, (show, outs)) in all.iter().enumerate() {
            let ok = !uses(k) || s.at > s.of;
            let mut first: Option<String> = None;
            for (name, got) in outs {
                l.traces += 1;
                if !ok { l.nontrivial += 1 }
                match (got, ok) {
                    (Err(_), false) => {}
                    (Err(e), true) => return Err(Violation::new(format!("{name} panics ({e}) although no displayed value fails"), show.clone())),
                    (Ok(_), false) => return Err(Violation::new(format!("{name} returns although a displayed value returned an error"), show.clone())),
                    (Ok(o), true) => {
                        let text: String = match o {
                            Out::Plain(s) => s.clone(),
                            Out::Cells(c) => c.iter().map(|c| c.0).collect(),
                            Out::Ansi(s) => { let mut v = Vec::new(); mc::vt::Vt::new(false).feed(s.as_bytes(), &mut v).map_err(|e| Violation::new(e, show.clone()))?; v.iter().map(|c| c.0).collect() }
                            Out::Html(s) => { let mut v = Vec::new(); mc::html::Doc::new().feed(s.as_bytes(), &mut v).map_err(|e| Violation::new(e, show.clone()))?; v.iter().map(|c| c.0).collect() }
                        };
                        let f = first.get_or_insert_with(|| text.clone());
                        if *f != text { return Err(Violation::new(format!("{name} gives the text {text:?}, {} {f:?}", outs[0].0), show.clone())) }
                    }
                }
            }
            if i == 3 && k == 20 { l.sample(|| show.clone()) }
        }
        l.states += 1;
        Ok(())
    });
    let go = |n: &Node, l: &mut Local| { l.states += 1; l.transitions += n.size() as u64; value(n, l)?; if l.states == 77 { l.sample(|| n.show()) } Ok(()) };
    prog::full(true, true).programs(&c, "values, full alphabet", c.pick(4, 5), go);
    prog::small(true, true).programs(&c, "values, small alphabet", c.pick(5, 6), go);
    prog::odd(&c, "values", go);
    prog::specs(&c, "values", 300, true, go);
    // an error at the bottom of deep and at each place of wide values
    let fail = std::sync::Arc::new(Node::Fail);
    let leaves = prog::full(false, true).leaves;
    let lens = space::lengths(c.pick(40, 120), c.pick(1024, 4096));
    c.par("errors in wide values", lens.len(), |i, l| {
        let len = lens[i];
        let mut places: Vec<usize> = (0..len.min(40)).collect();
        places.extend([len / 2, len.saturating_sub(1), len]);
        for p in places {
            let n = Node::Many((0..len).map(|k| if k == p { fail.clone() } else { leaves[k % leaves.len()].clone() }).collect());
            value(&n, l)?;
        }
        Ok(())
    });
    let deep = prog::deep(c.pick(100, 1000), true);
    c.par("errors below deep values", deep.len(), |i, l| {
        value(&deep[i], l)?;
        value(&Node::Seq(deep[i].clone(), fail.clone()), l)?;
        let mut n = fail.clone();
        for k in 0..(4 + i % 200) {
            n = std::sync::Arc::new(match k % 4 { 0 => Node::With(k % prog::N_WITH, n), 1 => Node::Mac(2, n), 2 => Node::Seq(leaves[k % leaves.len()].clone(), n), _ => Node::Mac(11, n) });
        }
        value(&n, l)
    });
    mc::entries::agree(&c, false);
    c.finish(
        "states: values; transitions: formatter operations; traces: calls of a function, macro or trait method returning a string, each judged against whether some displayed value returns an error; nontrivial: calls in which one does",
        &["alphabets of programs are those of mc/src/prog.rs", "values pass on the errors they get, as std requires of them"],
    )
}
