//! C28: byte-stream writers pass any bytes through, valid UTF-8 or not.
use mc::hist::ODD;
use mc::report::{guard, Check, Local, Violation};
use mc::space;
use mc::tap::{self, Tap};
use mc::vt::{self, Vt};
use stylish::io::Write;
use stylish::{io, Style};

#[derive(Clone, Copy, PartialEq, Debug)]
enum How { Write, All, Ref, Dyn }
const HOWS: [How; 4] = [How::Write, How::All, How::Ref, How::Dyn];

type Op<'a> = (&'a [u8], Style, How);

fn put<W: Write>(w: &mut W, op: Op) -> Result<(), String> {
    let (b, s, how) = op;
    let r = match how {
        How::Write => {
            let mut rest = b;
            loop {
                let n = w.write(rest, s).map_err(|e| format!("fails with {e:?}"))?;
                if n > rest.len() { return Err(format!("write returns {n} for {} bytes", rest.len())) }
                if n == 0 && !rest.is_empty() { return Err("write takes nothing although the sink takes everything".into()) }
                rest = &rest[n..];
                if rest.is_empty() { return Ok(()) }
            }
        }
        How::All => w.write_all(b, s),
        How::Ref => w.by_ref().by_ref().write_all(b, s),
        How::Dyn => { let d: &mut dyn Write = w; d.write_all(b, s) }
    };
    r.map_err(|e| format!("fails with {e:?}"))
}

fn show(name: &str, ops: &[Op]) -> String {
    let skip = ops.len().saturating_sub(40);
    format!("{name}:{}", ops[skip..].iter().map(|(b, s, h)| format!(" {h:?} {:?} in [{}];", &b[..b.len().min(60)].escape_ascii().to_string(), space::show(*s))).collect::<String>())
}

fn bad(what: String, name: &str, ops: &[Op]) -> Violation {
    let kind = if name == "io::Ansi" { "ansi" } else { "plain" };
    let mut src = format!("use stylish::io::Write;\nlet mut w = stylish::io::{kind}(Vec::new());\n");
    for (b, s, _) in ops { src += &format!("w.write_all(b\"{}\", {}).unwrap();\n", b[..b.len().min(2000)].escape_ascii(), space::src(*s)) }
    Violation::new(format!("{name}: {what}"), show(name, ops)).repro(src)
}

fn ansi(ops: &[Op], l: &mut Local) -> Result<(), Violation> {
    l.traces += 1;
    let r = guard(&|| show("io::Ansi", ops), || -> Result<(), (usize, String)> {
        tap::clear();
        let mut w = io::Ansi::new(Tap);
        let mut terms = [Vt::new(false), Vt::new(true)];
        let mut none = Vec::new();
        let mut codes = |b: &[u8], want: Option<vt::Rendition>| -> Result<(), String> {
            for t in &mut terms {
                none.clear();
                t.feed(b, &mut none)?;
                if !none.is_empty() { return Err(format!("adds {:?} to the bytes", b.escape_ascii().to_string())) }
                if !t.settled() { return Err("the bytes come in the middle of an escape code".into()) }
                if let Some(want) = want { if t.now != want { return Err(format!("the bytes are in {:?} instead of {want:?}", t.now)) } }
            }
            Ok(())
        };
        for (i, op) in ops.iter().enumerate() {
            put(&mut w, *op).and_then(|()| tap::drain(|b| match b.strip_suffix(op.0) {
                None => Err(format!("the sink receives {:?}", b.escape_ascii().to_string())),
                Some(c) => codes(c, (!op.0.is_empty()).then(|| vt::rendition(op.1))),
            })).map_err(|e| (i, e))?;
        }
        let n = ops.len();
        w.finish().map_err(|e| (n, format!("finish fails with {e:?}")))?;
        tap::drain(|b| codes(b, Some(vt::PLAIN))).map_err(|e| (n, format!("finish: {e}")))
    })?;
    r.map_err(|(i, e)| bad(format!("step {i}: {e}"), "io::Ansi", ops))
}

fn plain(ops: &[Op], l: &mut Local) -> Result<(), Violation> {
    l.traces += 1;
    let r = guard(&|| show("io::Plain", ops), || -> Result<(), (usize, String)> {
        tap::clear();
        let mut w = io::Plain::new(Tap);
        for (i, op) in ops.iter().enumerate() {
            put(&mut w, *op).and_then(|()| tap::drain(|b| if b == op.0 { Ok(()) } else { Err(format!("the sink receives {:?}", b.escape_ascii().to_string())) })).map_err(|e| (i, e))?;
        }
        w.into_inner();
        tap::drain(|b| if b.is_empty() { Ok(()) } else { Err((ops.len(), "ending the output writes something".into())) })
    })?;
    r.map_err(|(i, e)| bad(format!("step {i}: {e}"), "io::Plain", ops))
}

fn both(ops: &[Op], l: &mut Local) -> Result<(), Violation> {
    l.transitions += ops.len() as u64;
    ansi(ops, l)?;
    plain(ops, l)
}

/// Bytes with a role in UTF-8, line ends or escape codes.
const BYTES: [u8; 16] = [b'a', 0, b'\n', b'\r', 0x1b, b'[', b'm', b';', 0x7f, 0x80, 0xbf, 0xc3, 0xa9, 0xe2, 0xf0, 0xff];

fn main() {
    let c = Check::start("C28", "model_checking");
    let b = space::basis();
    c.par("all buffers of one and two bytes", 256, |i, l| {
        let x = i as u8;
        for s in &b {
            for how in HOWS { both(&[(&[x], b[0], how), (&[x, x], *s, how), (&[x], *s, how), (&[x], b[0], how)], l)? }
        }
        for y in 0..=255u8 {
            let t = [x, y];
            let s = b[1 + (y as usize % 7)];
            l.states += 1;
            both(&[(&t, b[0], How::All), (&t, s, HOWS[y as usize % 4]), (&[x], s, How::All), (&[y], b[2], How::Write), (&[y], b[0], How::All)], l)?;
        }
        if i == 0xc3 { l.sample(|| show("io::Ansi", &[(&[0xc3], b[1], How::All), (&[0xa9], b[0], How::Write)])) }
        Ok(())
    });
    // every string over the special bytes, with every way to cut it, each cut with and without a change of style
    let len = c.pick(4, 5);
    c.par(&format!("all buffers of up to {len} special bytes and their cuts"), BYTES.len() * BYTES.len(), |task, l| {
        let n = BYTES.len();
        let mut idx = vec![task / n, task % n];
        loop {
            let t: Vec<u8> = idx.iter().map(|&i| BYTES[i]).collect();
            l.states += 1;
            // a cut after each byte: none, in the same style, with another style
            let cuts = t.len() - 1;
            for mut k in 0..3usize.pow(cuts as u32) {
                let mut ops: Vec<Op> = Vec::new();
                let (mut from, mut s) = (0, 1 + task % 3);
                for p in 1..=cuts {
                    if k % 3 > 0 {
                        ops.push((&t[from..p], b[s], HOWS[(p + k) % 4]));
                        from = p;
                        if k % 3 == 2 { s = (s * 3 + 1) % 8 }
                    }
                    k /= 3;
                }
                ops.push((&t[from..], b[s], How::All));
                both(&ops, l)?;
            }
            if idx.len() < len { idx.push(0); continue }
            loop {
                let Some(x) = idx.last_mut() else { unreachable!() };
                *x += 1;
                if *x < n { break }
                idx.pop();
                if idx.len() == 2 { break }
            }
            if idx.len() == 2 { break }
        }
        Ok(())
    });
    // every style after every basis style, with bytes that are not text
    c.par("all styles", space::N, |i, l| {
        l.states += 1;
        for &s in &b {
            both(&[(b"\xff", s, How::All), (b"\xc3", space::style(i), How::Write), (b"\xa9\x1b", space::style((i * 7 + 3) % 867), How::All), (b"", s, How::Write), (b"\x80", s, How::Ref)], l)?;
        }
        Ok(())
    });
    let ls = space::lengths(c.pick(1300, 5000), c.pick(1 << 16, 1 << 20));
    c.par("buffer lengths", ls.len(), |i, l| {
        let n = ls[i];
        l.states += 1;
        let texts: [Vec<u8>; 5] = [
            vec![0xff; n], vec![b'a'; n], (0..n).map(|k| (k * 31 + n) as u8).collect(),
            (0..n).map(|k| if k + 1 == n { 0xe2 } else { b'b' }).collect(), (0..n).map(|k| "é".as_bytes()[k % 2]).collect(),
        ];
        for (k, t) in texts.iter().enumerate() {
            both(&[(t, b[0], HOWS[k % 4]), (t, b[4], HOWS[i % 4]), (t, b[4], How::Write), (b"", b[1], How::All), (t, b[6], How::All)], l)?;
        }
        Ok(())
    });
    c.par("bytes of odd characters, cut in the middle", ODD.len() * ODD.len(), |i, l| {
        let t = [ODD[i / ODD.len()], ODD[i % ODD.len()]].concat();
        let t = t.as_bytes();
        for p in 0..=t.len() { for q in p..=t.len() { for k in 0..4 {
            both(&[(&t[..p], b[k], How::All), (&t[p..q], b[(k * 3 + 1) % 8], How::Write), (&t[q..], b[k], How::Dyn)], l)?;
        } } }
        Ok(())
    });
    c.finish(
        "states: distinct buffers (and styles); transitions: writes; traces: histories on the real writers, each step checked: what the sink receives ends in exactly the bytes given, after nothing but complete escape codes that lead a terminal to the style asked for",
        &["the sink takes everything it is given (others: C18 to C20)"],
    )
}
