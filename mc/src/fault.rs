//! Sinks whose every call asks the explorer what happens, and the writers over
//! them as operations of a history.
use std::cell::RefCell;
use std::fmt;
use std::io;
use std::sync::Arc;

use stylish::Style;

use crate::choice::choose;
use crate::prog::Node;
use crate::space;

/// Payload by which an error of the sink is recognised.
#[derive(Debug, PartialEq)]
pub struct Mark(pub u32);
impl fmt::Display for Mark {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("mark")
    }
}
impl std::error::Error for Mark {}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Menu {
    /// short writes and interruptions
    Benign,
    /// also errors and refusals
    Hard,
    /// every failure there is, nothing benign
    Kinds,
}

/// What a byte sink does with a call.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Act {
    Take(usize),
    Interrupt,
    Refuse,
    Fail(io::ErrorKind),
    Os(i32),
}

/// Failures a sink can report, beyond the usual three, for the runs that try
/// them all.
pub const KINDS: &[Act] = {
    use io::ErrorKind::*;
    &[
        Act::Fail(NotFound), Act::Fail(PermissionDenied), Act::Fail(ConnectionRefused), Act::Fail(ConnectionReset),
        Act::Fail(ConnectionAborted), Act::Fail(NotConnected), Act::Fail(AddrInUse), Act::Fail(AddrNotAvailable),
        Act::Fail(BrokenPipe), Act::Fail(AlreadyExists), Act::Fail(WouldBlock), Act::Fail(InvalidInput),
        Act::Fail(InvalidData), Act::Fail(TimedOut), Act::Fail(WriteZero), Act::Fail(UnexpectedEof),
        Act::Fail(Unsupported), Act::Fail(OutOfMemory), Act::Fail(Other), Act::Fail(StorageFull),
        Act::Fail(HostUnreachable), Act::Fail(NetworkUnreachable), Act::Fail(NetworkDown), Act::Fail(NotSeekable),
        Act::Fail(QuotaExceeded), Act::Fail(FileTooLarge), Act::Fail(ResourceBusy), Act::Fail(ReadOnlyFilesystem),
        Act::Fail(ArgumentListTooLong), Act::Fail(Deadlock), Act::Fail(IsADirectory), Act::Fail(NotADirectory),
        Act::Fail(StaleNetworkFileHandle), Act::Fail(DirectoryNotEmpty), Act::Fail(ExecutableFileBusy), Act::Fail(TooManyLinks),
        Act::Os(28), Act::Os(11), Act::Os(32), Act::Os(5), Act::Os(9999),
    ]
};
const USUAL: &[Act] = &[Act::Fail(io::ErrorKind::WouldBlock), Act::Fail(io::ErrorKind::BrokenPipe), Act::Fail(io::ErrorKind::Other)];

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Failed {
    Error(u32, io::ErrorKind),
    Os(i32),
    Zero,
}

pub struct Log {
    pub menu: Menu,
    /// deterministic behaviour instead of choices: (bytes per call, every
    /// which call is interrupted)
    pub policy: Option<(usize, usize)>,
    pub bytes: Vec<u8>,
    pub calls: u32,
    pub failed: Option<Failed>,
    pub called_after: bool,
    pub acts: Vec<(usize, Act)>,
    pub last_offer: Vec<u8>,
    pub flushes: u32,
}

thread_local! {
    static LOG: RefCell<Log> = const { RefCell::new(Log {
        menu: Menu::Benign, policy: None, bytes: Vec::new(), calls: 0, failed: None,
        called_after: false, acts: Vec::new(), last_offer: Vec::new(), flushes: 0,
    }) }
}

pub fn reset(menu: Menu, policy: Option<(usize, usize)>) {
    log(|l| {
        l.menu = menu;
        l.policy = policy;
        l.bytes.clear();
        l.calls = 0;
        l.failed = None;
        l.called_after = false;
        l.acts.clear();
        l.last_offer.clear();
        l.flushes = 0;
    })
}

pub fn log<R>(f: impl FnOnce(&mut Log) -> R) -> R {
    LOG.with(|l| f(&mut l.borrow_mut()))
}

const MENU: usize = 9;
fn menu(m: Menu, len: usize, out: &mut [Act; MENU]) -> usize {
    let mut n = 0;

    let mut add = |a: Act, n: &mut usize| {
        if !out[..*n].contains(&a) { out[*n] = a; *n += 1 }
    };
    add(Act::Take(len), &mut n);
    add(Act::Interrupt, &mut n);
    if len > 1 {
        add(Act::Take(1), &mut n);
        add(Act::Take(len - 1), &mut n);
        add(Act::Take(len / 2), &mut n);
    }
    if m == Menu::Hard {
        if len > 0 { add(Act::Refuse, &mut n) }
        for &a in USUAL { add(a, &mut n) }
    }
    n
}

/// Decides a call with `len` bytes on offer.
fn decide(buf: &[u8]) -> io::Result<usize> {
    let (m, policy, calls) = log(|l| {
        if l.failed.is_some() { l.called_after = true }
        l.calls += 1;
        l.last_offer.clear();
        l.last_offer.extend_from_slice(buf);
        (l.menu, l.policy, l.calls)
    });
    let act = match policy {
        Some((k, int)) => {
            if int > 0 && calls as usize % int == 0 { Act::Interrupt } else { Act::Take(buf.len().min(k)) }
        }
        None if m == Menu::Kinds => match choose(1 + KINDS.len() as u16) {
            0 => Act::Take(buf.len()),
            k => KINDS[k as usize - 1],
        },
        None => {
            let mut acts = [Act::Interrupt; MENU];
            let n = menu(m, buf.len(), &mut acts);
            acts[choose(n as u16) as usize]
        }
    };
    log(|l| {
        if policy.is_none() { l.acts.push((buf.len(), act)) }
        match act {
            Act::Take(n) => Ok(n),
            Act::Interrupt => Err(io::Error::new(io::ErrorKind::Interrupted, Mark(calls))),
            Act::Refuse => { l.failed = Some(Failed::Zero); Ok(0) }
            Act::Fail(k) => {
                l.failed = Some(Failed::Error(calls, k));
                Err(io::Error::new(k, Mark(calls)))
            }
            Act::Os(n) => {
                l.failed = Some(Failed::Os(n));
                Err(io::Error::from_raw_os_error(n))
            }
        }
    })
}

/// A byte sink.
#[derive(Clone, Copy, Debug, Default)]
pub struct Sink;

impl io::Write for Sink {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let n = decide(buf)?;
        log(|l| l.bytes.extend_from_slice(&buf[..n]));
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        log(|l| l.flushes += 1);
        Ok(())
    }
}

/// A user's own byte-stream writer, which has only the required methods.
#[derive(Clone, Copy, Debug, Default)]
pub struct Own;

impl stylish::io::Write for Own {
    fn write(&mut self, buf: &[u8], style: Style) -> io::Result<usize> {
        let n = decide(buf)?;
        let i = space::index(style) as u16;
        log(|l| for &b in &buf[..n] { l.bytes.extend([b, (i >> 8) as u8, i as u8]) });
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        log(|l| l.flushes += 1);
        Ok(())
    }
}

/// A formatting sink: every call may fail, having taken nothing or a part.
#[derive(Clone, Copy, Debug, Default)]
pub struct FmtSink;

fn fmt_decide(s: &str, take: &mut dyn FnMut(&str)) -> fmt::Result {
    log(|l| {
        if l.failed.is_some() { l.called_after = true }
        l.calls += 1;
    });
    let half = (0..=s.len() / 2).rev().find(|&i| s.is_char_boundary(i)).unwrap();
    let c = choose(if half > 0 { 3 } else { 2 });
    let n = [s.len(), 0, half][c as usize];
    take(&s[..n]);
    log(|l| {
        l.acts.push((s.len(), if c == 0 { Act::Take(n) } else { Act::Fail(io::ErrorKind::Other) }));
        if c != 0 {
            l.failed = Some(Failed::Error(l.calls, io::ErrorKind::Other));
            return Err(fmt::Error);
        }
        Ok(())
    })
}

impl fmt::Write for FmtSink {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        fmt_decide(s, &mut |t| log(|l| l.bytes.extend_from_slice(t.as_bytes())))
    }
}

/// A user's own attributed writer.
#[derive(Clone, Copy, Debug, Default)]
pub struct OwnFmt;

impl stylish::Write for OwnFmt {
    fn write_str(&mut self, s: &str, style: Style) -> fmt::Result {
        let i = space::index(style) as u16;
        fmt_decide(s, &mut |t| log(|l| for &b in t.as_bytes() { l.bytes.extend([b, (i >> 8) as u8, i as u8]) }))
    }
}

#[derive(Clone, Debug)]
pub enum Op {
    All(&'static str, Style),
    /// by characters on formatting writers, `write_all` through `dyn` on the others
    Chars(&'static str, Style),
    /// a single low-level write, repeated for the rest
    Raw(&'static str, Style),
    Fmt(Arc<Node>),
    Flush,
}

impl Op {
    pub fn show(&self) -> String {
        match self {
            Op::All(t, s) => format!("write_all {} in [{}]", crate::writers::clip(t), space::show(*s)),
            Op::Chars(t, s) => format!("write_char/dyn write_all {} in [{}]", crate::writers::clip(t), space::show(*s)),
            Op::Raw(t, s) => format!("write {} in [{}]", crate::writers::clip(t), space::show(*s)),
            Op::Fmt(n) => format!("write_fmt of {}", n.show()),
            Op::Flush => "flush".into(),
        }
    }
}

pub fn show_run(name: &str, ops: &[Op]) -> String {
    let mut s = format!("{name}:");
    for o in ops { s += &format!(" {};", o.show()) }
    log(|l| {
        s += "\nsink:";
        for (len, a) in l.acts.iter().take(200) {
            match a {
                Act::Take(n) if n == len => s += &format!(" takes all {len};"),
                Act::Take(n) => s += &format!(" takes {n} of {len};"),
                a => s += &format!(" {a:?} ({len} offered);"),
            }
        }
        s += &format!("\nreceived: {:?}", String::from_utf8_lossy(&l.bytes[..l.bytes.len().min(2000)]));
    });
    s
}

/// A byte-stream writer under test.
pub trait IoW: stylish::io::Write + Sized {
    const NAME: &'static str;
    fn make() -> Self;
    fn end(self) -> io::Result<()>;
    fn fmt_(&mut self, n: &Node) -> io::Result<()>;
}

impl IoW for stylish::io::Ansi<Sink> {
    const NAME: &'static str = "io::Ansi";
    fn make() -> Self { Self::new(Sink) }
    fn end(self) -> io::Result<()> { self.finish().map(|_| ()) }
    fn fmt_(&mut self, n: &Node) -> io::Result<()> { stylish::write!(self, "{:s}", n) }
}
impl IoW for stylish::io::Plain<Sink> {
    const NAME: &'static str = "io::Plain";
    fn make() -> Self { Self::new(Sink) }
    fn end(self) -> io::Result<()> { self.into_inner(); Ok(()) }
    fn fmt_(&mut self, n: &Node) -> io::Result<()> { stylish::write!(self, "{:s}", n) }
}
impl IoW for Own {
    const NAME: &'static str = "user's own io::Write";
    fn make() -> Self { Own }
    fn end(self) -> io::Result<()> { Ok(()) }
    fn fmt_(&mut self, n: &Node) -> io::Result<()> { stylish::io::Write::write_fmt(self, stylish::format_args!("{:s}", n)) }
}

/// A formatting writer under test.
pub trait FmtW: stylish::Write + Sized {
    const NAME: &'static str;
    fn make() -> Self;
    fn end(self) -> fmt::Result;
    /// through the writer's own method where it has one
    fn fmt_(&mut self, n: &Node) -> fmt::Result;
}

impl FmtW for stylish::Ansi<FmtSink> {
    const NAME: &'static str = "Ansi";
    fn make() -> Self { Self::new(FmtSink) }
    fn fmt_(&mut self, n: &Node) -> fmt::Result { stylish::write!(self, "{:s}", n) }
    fn end(self) -> fmt::Result { self.finish().map(|_| ()) }
}
impl FmtW for stylish::Html<FmtSink> {
    const NAME: &'static str = "Html";
    fn make() -> Self { Self::new(FmtSink) }
    fn fmt_(&mut self, n: &Node) -> fmt::Result { stylish::write!(self, "{:s}", n) }
    fn end(self) -> fmt::Result { self.finish().map(|_| ()) }
}
impl FmtW for stylish::Plain<FmtSink> {
    const NAME: &'static str = "Plain";
    fn make() -> Self { Self::new(FmtSink) }
    fn fmt_(&mut self, n: &Node) -> fmt::Result { stylish::write!(self, "{:s}", n) }
    fn end(self) -> fmt::Result { self.into_inner(); Ok(()) }
}
impl FmtW for OwnFmt {
    const NAME: &'static str = "user's own Write";
    fn make() -> Self { OwnFmt }
    fn fmt_(&mut self, n: &Node) -> fmt::Result { stylish::Write::write_fmt(self, stylish::format_args!("{:s}", n)) }
    fn end(self) -> fmt::Result { Ok(()) }
}

/// All sequences of 1..=`depth` indices below `n`, as tasks of one first
/// element each.
pub fn seqs(first: usize, n: usize, depth: usize, f: &mut dyn FnMut(&[usize]) -> Result<(), crate::report::Violation>) -> Result<(), crate::report::Violation> {
    fn go(v: &mut Vec<usize>, n: usize, depth: usize, f: &mut dyn FnMut(&[usize]) -> Result<(), crate::report::Violation>) -> Result<(), crate::report::Violation> {
        f(v)?;
        if v.len() < depth {
            for i in 0..n {
                v.push(i);
                go(v, n, depth, f)?;
                v.pop();
            }
        }
        Ok(())
    }
    if depth == 0 { return Ok(()) }
    go(&mut vec![first], n, depth, f)
}
