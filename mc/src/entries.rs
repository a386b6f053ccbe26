//! Whole outputs through every way to make one, judged as a whole.
use stylish::io::Write as IoWrite;
use stylish::{Display, Formatter, Style, ToAnsiString, ToHtmlString, ToPlainString, ToStylishString, Write as FmtWrite};

use crate::hist::ODD;
use crate::report::{guard, Check, Violation};
use crate::space;
use crate::writers::{show_ops, Api, Op, Piece, APIS};

/// Where the texts of the writes lie in memory.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Layout {
    /// each somewhere else
    Apart,
    /// all in one buffer, one after the other in time
    Same,
    /// one behind the other in memory
    Row,
    /// one before the other in memory
    Back,
}

thread_local! { static LAYOUT: std::cell::Cell<Layout> = const { std::cell::Cell::new(Layout::Apart) } }

/// Calls `f` with every write and its text, lying where it should.
fn lay<E>(ops: &[Op], mut f: impl FnMut(&Op, &str) -> Result<(), E>) -> Result<(), E> {
    match LAYOUT.get() {
        Layout::Apart => for o in ops { f(o, &o.text)? },
        Layout::Same => {
            let mut buffer = String::with_capacity(ops.iter().map(|o| o.text.len()).max().unwrap_or(0));
            for o in ops {
                buffer.clear();
                buffer.push_str(&o.text);
                f(o, &buffer)?;
            }
        }
        Layout::Row => {
            let all: String = ops.iter().map(|o| o.text.as_str()).collect();
            let mut at = 0;
            for o in ops {
                f(o, &all[at..at + o.text.len()])?;
                at += o.text.len();
            }
        }
        Layout::Back => {
            let all: String = ops.iter().rev().map(|o| o.text.as_str()).collect();
            let mut end = all.len();
            for o in ops {
                f(o, &all[end - o.text.len()..end])?;
                end -= o.text.len();
            }
        }
    }
    Ok(())
}

/// A value that displays the writes one after the other.
pub struct List<'a>(pub &'a [Op]);

impl Display for List<'_> {
    fn fmt(&self, f: &mut Formatter<'_>) -> stylish::Result {
        lay(self.0, |o, text| match o.api {
            Api::Whole => f.with(o.style).write_str(text),
            Api::Fine => {
                let mut g = f.with(o.style);
                text.chars().try_for_each(|c| core::fmt::Write::write_char(&mut g, c))
            }
            Api::Fmt => f.write_fmt(stylish::format_args!("{:s}", Piece(text, o.style))),
            Api::Dyn => { let d: &mut dyn FmtWrite = f; d.write_str(text, o.style) }
        })
    }
}

fn direct<T: FmtWrite>(w: &mut T, ops: &[Op]) {
    lay(ops, |o, text| match o.api {
        Api::Whole => w.write_str(text, o.style),
        Api::Fine => text.chars().try_for_each(|c| w.write_char(c, o.style)),
        Api::Fmt => stylish::write!(w, "{:s}", Piece(text, o.style)),
        Api::Dyn => { let d: &mut dyn FmtWrite = w; d.write_str(text, o.style) }
    }).expect("write")
}

fn bytes<T: IoWrite>(w: &mut T, ops: &[Op]) {
    lay(ops, |o, text| match o.api {
        Api::Whole => w.write_all(text.as_bytes(), o.style),
        Api::Fine => {
            let mut b = text.as_bytes();
            while !b.is_empty() { b = &b[w.write(b, o.style).expect("write")..] }
            Ok(())
        }
        Api::Fmt => stylish::write!(w, "{:s}", Piece(text, o.style)),
        Api::Dyn => { let d: &mut dyn IoWrite = w; d.write_all(text.as_bytes(), o.style) }
    }).expect("write")
}

fn attributed(ops: &[Op]) -> stylish::String {
    let mut s = stylish::String::new();
    direct(&mut s, ops);
    s
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind { Ansi, Html, Plain }

pub type Entry = (&'static str, fn(&[Op]) -> Vec<u8>);

macro_rules! common {
    ($m:ident, $W:ident, $to:ident, $end:ident) => {
        vec![
            (concat!(stringify!($m), " writer, direct writes"), (|ops| { let mut w = stylish::$W::new(String::new()); direct(&mut w, ops); end!(w.$end()).into_bytes() }) as fn(&[Op]) -> Vec<u8>),
            (concat!("stylish::", stringify!($m), "(), direct writes by reference"), |ops| { let mut s = String::new(); let mut w = stylish::$m(&mut s); direct(&mut &mut w, ops); end!(w.$end()); s.into_bytes() }),
            (concat!(stringify!($m), " default writer, one write!"), |ops| { let mut w = stylish::$W::<String>::default(); stylish::write!(w, "{:s}", List(ops)).expect("write!"); end!(w.$end()).into_bytes() }),
            (concat!(stringify!($m), "::format!"), |ops| stylish::$m::format!("{:s}", List(ops)).into_bytes()),
            (concat!(stringify!($m), "::format"), |ops| stylish::$m::format(stylish::format_args!("{:s}", List(ops))).into_bytes()),
            (concat!("value.", stringify!($to)), |ops| List(ops).$to().into_bytes()),
            (concat!("arguments.", stringify!($to)), |ops| stylish::format_args!("{:s}", List(ops)).$to().into_bytes()),
            (concat!("attributed string written directly, ", stringify!($to)), |ops| attributed(ops).$to().into_bytes()),
            (concat!("attributed string written directly, ", stringify!($m), "::format!"), |ops| stylish::$m::format!("{:s}", attributed(ops)).into_bytes()),
            (concat!("format!, ", stringify!($to)), |ops| stylish::format!("{:s}", List(ops)).$to().into_bytes()),
            (concat!("to_stylish_string, cloned, to ", stringify!($m)), |ops| stylish::$m::format!("{:s}", &List(ops).to_stylish_string().clone()).into_bytes()),
            (concat!(stringify!($m), "::format! of the pieces"), |ops| match ops {
                [] => stylish::$m::format!("").into_bytes(),
                [a] => stylish::$m::format!("{:s}", Piece(&a.text, a.style)).into_bytes(),
                [a, b] => stylish::$m::format!("{:s}{:s}", Piece(&a.text, a.style), Piece(&b.text, b.style)).into_bytes(),
                [a, b, c] => stylish::$m::format!("{:s}{1:s}{c:s}", Piece(&a.text, a.style), Piece(&b.text, b.style), c = Piece(&c.text, c.style)).into_bytes(),
                [a, b, rest @ ..] => stylish::$m::format!("{a:s}{b:s}{rest:s}", a = Piece(&a.text, a.style), b = Piece(&b.text, b.style), rest = List(rest)).into_bytes(),
            }),
        ]
    };
}
macro_rules! end { ($w:ident.finish()) => { $w.finish().expect("finish") }; ($w:ident.into_inner()) => { $w.into_inner() }; }
use end;

pub fn entries(k: Kind) -> Vec<Entry> {
    match k {
        Kind::Ansi => {
            let mut v: Vec<Entry> = common!(ansi, Ansi, to_ansi_string, finish);
            v.extend([
                ("byte-stream ANSI writer, direct writes", (|ops: &[Op]| { let mut w = stylish::io::Ansi::new(Vec::new()); bytes(&mut w, ops); w.finish().expect("finish") }) as fn(&[Op]) -> Vec<u8>),
                ("stylish::io::ansi(), one write!", |ops| { let mut w = stylish::io::ansi(Vec::new()); stylish::write!(w, "{:s}", List(ops)).expect("write!"); w.finish().expect("finish") }),
                ("stylish::io::ansi(), attributed string", |ops| { let mut w = stylish::io::ansi(Vec::new()); stylish::write!(w, "{:s}", attributed(ops)).expect("write!"); w.finish().expect("finish") }),
            ]);
            v
        }
        Kind::Html => common!(html, Html, to_html_string, finish),
        Kind::Plain => {
            let mut v: Vec<Entry> = common!(plain, Plain, to_plain_string, into_inner);
            v.extend([
                ("byte-stream plain writer, direct writes", (|ops: &[Op]| { let mut w = stylish::io::Plain::new(Vec::new()); bytes(&mut w, ops); w.into_inner() }) as fn(&[Op]) -> Vec<u8>),
                ("stylish::io::plain(), one write!", |ops| { let mut w = stylish::io::plain(Vec::new()); stylish::write!(w, "{:s}", List(ops)).expect("write!"); w.into_inner() }),
            ]);
            v
        }
    }
}

pub type Judge = fn(&[u8], &[Op]) -> Result<(), String>;

/// The characters with their styles, as a terminal shows them.
pub fn ansi(out: &[u8], ops: &[Op]) -> Result<(), String> {
    use crate::vt::{rendition, Vt, PLAIN};
    for exclusive in [false, true] {
        let (mut v, mut shown) = (Vt::new(exclusive), Vec::new());
        v.feed(out, &mut shown)?;
        if !v.settled() || v.now != PLAIN { return Err(format!("leaves the terminal in {:?}", v.now)) }
        if !shown.iter().copied().eq(ops.iter().flat_map(|o| o.text.chars().map(|c| (c, rendition(o.style))))) {
            return Err(format!("a terminal shows {shown:?}"));
        }
    }
    Ok(())
}

pub fn html(out: &[u8], ops: &[Op]) -> Result<(), String> {
    let shown = crate::html::render(out)?;
    if !shown.iter().cloned().eq(ops.iter().flat_map(|o| o.text.chars().map(|c| (c, crate::html::expect(o.style))))) {
        return Err(format!("a page shows {shown:?}"));
    }
    Ok(())
}

pub fn plain(out: &[u8], ops: &[Op]) -> Result<(), String> {
    let want: String = ops.iter().map(|o| o.text.as_str()).collect();
    if out != want.as_bytes() { return Err("the text is different".into()) }
    Ok(())
}

/// The text in each of these ways between other texts.
fn around(text: &str, k: usize, b: &[Style]) -> [Vec<Op>; 6] {
    let a = APIS[k % 4];
    let op = |t: &str, s: Style| Op::new(a, t, s);
    [
        vec![op(text, b[0])],
        vec![op(text, b[1 + k % 7])],
        vec![op("q", b[0]), op(text, b[1 + k % 7])],
        vec![op(text, b[4]), op("r", b[0])],
        vec![op("q", b[4]), op(text, b[0]), op("r", b[2])],
        vec![op("q", b[2]), op(text, b[3]), op(text, b[3]), op("r", b[2])],
    ]
}

/// Every text of odd characters up to the length given, and texts of many
/// lengths, through every entry point.
pub fn explore(c: &Check, k: Kind, len: usize, judge: Judge) {
    let es = entries(k);
    let b = space::basis();
    let mut chars = ODD.to_vec();
    if k != Kind::Ansi { chars.push("\x1b") }
    if k != Kind::Ansi { chars.extend(["<", ">", "'", "\""]) }
    let n = chars.len();
    let case = |ops: &[Op], l: &mut crate::report::Local| -> Result<(), Violation> {
        for (name, f) in &es {
            l.traces += 1;
            let show = || show_ops(name, ops);
            let out = guard(&show, || f(ops))?;
            l.outcome(&out);
            judge(&out, ops).map_err(|e| Violation::new(format!("{name}: {} of the output {:?}", e, String::from_utf8_lossy(&out)), show()))?;
        }
        Ok(())
    };
    c.par(&format!("all texts of up to {len} of {n} odd characters, through {} entry points, {k:?}", es.len()), n * n, |t, l| {
        let mut texts = vec![format!("{}{}", chars[t / n], chars[t % n])];
        if t % n == 0 { texts.push(chars[t / n].into()) }
        if t == 0 { texts.push(String::new()) }
        let mut last = vec![texts[0].clone()];
        for _ in 2..len {
            last = last.iter().flat_map(|x| chars.iter().map(move |c| format!("{x}{c}"))).collect();
            texts.extend(last.iter().cloned());
        }
        for (i, x) in texts.iter().enumerate() {
            // all surroundings for the short ones
            let all = around(x, i + t, &b);
            if x.chars().count() <= 2 { for a in &all { case(a, l)? } } else { case(&all[(i + t) % 6], l)?; case(&all[(i + t + 1 + (i + t) / 6 % 5) % 6], l)? }
        }
        if t == 7 { l.sample(|| format!("{:?}", texts[0])) }
        Ok(())
    });
    let ls = space::lengths(c.pick(300, 1300), c.pick(1 << 16, 1 << 20));
    c.par(&format!("text lengths with odd ends, through {} entry points, {k:?}", es.len()), ls.len(), |i, l| {
        let body = space::text_of(ls[i]);
        for (j, odd) in ["", "\n", "\r\n", " ", "\0", "&", "é", "🦀", "\u{feff}"].iter().enumerate() {
            if ls[i] > 5000 && (i + j) % 3 != 0 { continue }
            for x in [format!("{body}{odd}"), format!("{odd}{body}")] {
                case(&around(&x, i + j, &b)[(i + j) % 6], l)?;
            }
        }
        Ok(())
    });
    // every change of style
    c.par(&format!("every style to every style, through {} entry points, {k:?}", es.len()), 867, |i, l| {
        for j in 0..867 {
            if !c.thorough() && (i + j) % 3 != 0 { continue }
            case(&[Op::new(APIS[j % 4], "a", space::style(i)), Op::new(APIS[i % 4], "b", space::style(j))], l)?;
        }
        Ok(())
    });
}

/// Every entry point gives the same bytes as the first, for the same characters
/// however they are cut.
pub fn agree(c: &Check, cuts: bool) {
    let b = space::basis();
    for k in [Kind::Ansi, Kind::Html, Kind::Plain] {
        let es = entries(k);
        let mut chars = ODD.to_vec();
        chars.extend(["<", ">", "\x1b", "[", "m"]);
        let n = chars.len();
        c.par(&format!("texts of up to 3 of {n} odd characters{}, {} entry points give the same, {k:?}", if cuts { ", cut everywhere" } else { "" }, es.len()), n * n, |t, l| {
            let (x, y) = (chars[t / n], chars[t % n]);
            for (zi, z) in chars.iter().copied().chain([""]).enumerate() {
                let rest = [y, z].concat();
                let first = [x, y].concat();
                let (s0, s, s1) = [(b[0], b[4], b[0]), (b[4], b[2], b[6]), (b[4], b[4], b[4]), (b[2], b[0], b[3]), (b[0], b[3], b[3])][(zi + t) % 5];
                let pre = Op::new(Api::Whole, "q", s0);
                let post = Op::new(Api::Whole, "r", s1);
                let whole = vec![pre.clone(), Op::new(Api::Whole, &[x, y, z].concat(), s), post.clone()];
                let want = guard(&|| show_ops(es[0].0, &whole), || (es[0].1)(&whole))?;
                let mut forms = vec![whole.clone()];
                if cuts {
                    for parts in [vec![x, y, z], vec![x, rest.as_str()], vec![first.as_str(), z]] {
                        let api = APIS[(zi + t + parts.len()) % 4];
                        let mut ops = vec![pre.clone()];
                        ops.extend(parts.iter().filter(|p| !p.is_empty()).map(|p| Op::new(api, p, s)));
                        ops.push(post.clone());
                        forms.push(ops);
                    }
                } else {
                    let mut w = whole.clone();
                    for o in &mut w { o.api = APIS[1 + (zi + t) % 3] }
                    forms.push(w);
                }
                for ops in &forms {
                    for (name, f) in &es {
                        l.traces += 1;
                        let got = guard(&|| show_ops(name, ops), || f(ops))?;
                        if got != want {
                            return Err(Violation::new(format!("{name} gives {:?}, while {} of the same characters gives {:?}", String::from_utf8_lossy(&got), es[0].0, String::from_utf8_lossy(&want)),
                                format!("{}\nversus {}", show_ops(name, ops), show_ops(es[0].0, &whole))));
                        }
                    }
                }
            }
            Ok(())
        });
    }
}

/// Where a text lies makes no difference.
pub fn memory(c: &Check, kinds: &[Kind]) {
    let b = space::basis();
    let ops: Vec<Op> = ["a", "b<", " ", "\n", "é", ""].iter().flat_map(|t| [b[0], b[4], b[2], b[3]].map(|s| Op::new(Api::Whole, t, s))).collect();
    let n = ops.len();
    for k in kinds {
        let es = entries(*k);
        c.par(&format!("all texts of three writes by where they lie in memory, {} entry points, {k:?}", es.len()), n * n, |t, l| {
            for last in 0..=n {
                let mut case = vec![ops[t / n].clone(), ops[t % n].clone()];
                if last < n { case.push(ops[last].clone()) }
                // some are longer
                if (t + last) % 5 == 0 { for o in &mut case { o.text = o.text.repeat(9) } }
                for (i, o) in case.iter_mut().enumerate() { o.api = APIS[[0, 3, 0, 2, 0, 1][(t + last + i) % 6]] }
                for (name, f) in &es {
                    let show = |m: Layout| show_ops(&format!("{name} (texts {})", match m {
                        Layout::Apart => "apart in memory", Layout::Same => "in the same buffer, each written over the one before",
                        Layout::Row => "one behind the other in memory", Layout::Back => "one before the other in memory",
                    }), &case);
                    let want = guard(&|| show(Layout::Apart), || f(&case))?;
                    for m in [Layout::Same, Layout::Row, Layout::Back] {
                        l.traces += 1;
                        LAYOUT.set(m);
                        let got = guard(&|| show(m), || f(&case));
                        LAYOUT.set(Layout::Apart);
                        let got = got?;
                        if got != want {
                            return Err(Violation::new(format!("the output is {:?}, but {:?} with the texts elsewhere in memory", String::from_utf8_lossy(&got), String::from_utf8_lossy(&want)), show(m)));
                        }
                    }
                }
            }
            l.states += 1;
            Ok(())
        });
    }
    huge(c, kinds);
}

/// A text of millions of bytes comes out as a short one does.
pub fn huge(c: &Check, kinds: &[Kind]) {
    const MARK: &str = "\u{2042}";
    let b = space::basis();
    for k in kinds {
        let es = entries(*k);
        let top = c.pick(24u32, 26);
        // around every multiple of 1024 the same special character, in all alignments
        let specials: [(&str, usize); 15] = [("&", 0), ("<", 0), (">", 0), ("'", 0), ("\"", 0), ("\n", 0), (" ", 0), ("\0", 0), ("é", 0), ("é", 1),
            ("\u{feff}", 0), ("\u{feff}", 2), ("🦀", 1), ("🦀", 3), ("&🦀", 0)];
        c.par(&format!("texts of more than 2^{top} bytes, {} entry points, {k:?}", es.len()), specials.len(), |t, l| {
            let (x, shift) = specials[t];
            let (mut big, mut esc) = (String::with_capacity((1 << top) + 64), String::new());
            let escaped: String = if *k == Kind::Html { String::from_utf8((es[3].1)(&[Op::new(Api::Whole, x, b[0])])).unwrap() } else { x.into() };
            while big.len() < (1 << top) + 8 {
                let pad = 1024 - 6 - shift - big.len() % 1024;
                for s in [&mut big, &mut esc] { s.extend(std::iter::repeat_n('x', pad)) }
                for _ in 0..12 / x.len() + 1 { big.push_str(x); esc.push_str(&escaped) }
            }
          for (ei, (name, f)) in es.iter().enumerate() {
            let op = |text: &str, s: Style| Op::new(APIS[[0, 2, 3][(ei + t) % 3]], text, s);
            let parts: Vec<Vec<Op>> = match (ei + t) % 2 {
                0 => vec![vec![op("q", b[2]), op(MARK, b[4]), op("y", b[3]), op("z", b[0])], vec![op(MARK, b[0]), op("r", b[4])]],
                _ => vec![vec![op(MARK, b[4]), op("r", b[4]), op("s", b[0]), op("t", b[2])], vec![op("q", b[4]), op("p", b[0]), op(MARK, b[0]), op(MARK, b[2])]],
            };
            for ops in parts {
                let show = || show_ops(name, &ops) + &format!("\nwhere {MARK} is a text of {} bytes: x, and {x:?} a few times around multiples of 1024", big.len());
                let small = guard(&show, || f(&ops))?;
                let want = String::from_utf8_lossy(&small).replace(MARK, &esc);
                let real: Vec<Op> = ops.iter().map(|o| if o.text == MARK { Op::new(o.api, &big, o.style) } else { o.clone() }).collect();
                let got = guard(&show, || f(&real))?;
                l.traces += 1;
                if got != want.as_bytes() {
                    let at = got.iter().zip(want.as_bytes()).take_while(|(a, b)| a == b).count();
                    let part = |x: &[u8]| String::from_utf8_lossy(&x[at.saturating_sub(8).min(x.len())..(at + 24).min(x.len())]).into_owned();
                    return Err(Violation::new(format!("the output has {} bytes, expected {}; at byte {at} it is {:?}, expected {:?}", got.len(), want.len(), part(&got), part(want.as_bytes())), show()));
                }
            }
          }
            l.states += 1;
            Ok(())
        });
    }
}
