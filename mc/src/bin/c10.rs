//! C10: nested styling composes outermost to innermost and never leaks.
use mc::prog::{self, Cells, Node, Rec};
use mc::report::{guard, Check, Local, Violation};
use mc::space;
use stylish::{Style, Write};

fn check(n: &Node, l: &mut Local) -> Result<(), Violation> {
    let mut want: Cells = Vec::new();
    let ok = n.denote(space::style(0), &mut want);
    let (r, rec) = guard(&|| n.show(), || {
        let mut rec = Rec::default();
        let r = stylish::write!(rec, "{:s}", n);
        (r, rec)
    })?;
    l.traces += 1;
    if rec.cells != want || r.is_ok() != ok {
        return Err(Violation::new(
            format!("shows {} ({}), should show {} ({})", prog::show_cells(&rec.cells),
                if r.is_ok() { "ok" } else { "error" }, prog::show_cells(&want), if ok { "ok" } else { "error" }),
            n.show(),
        ).repro(n.repro("println!(\"{:?}\", stylish::ansi::format!(\"{:s}\", value));")));
    }
    Ok(())
}

/// The scopes of a formatter as a state machine: all sequences of entering,
/// leaving and writing on the real formatter, against a stack of styles.
fn scopes(c: &Check) {
    use stylish::{Background, Color, Foreground, Formatter, Intensity};
    #[derive(Clone, Copy, Debug, PartialEq)]
    enum Op { Enter(u8), EnterArgs(u8), Leave, Text, Styled(u8), Num, Std }
    const OPS: [Op; 12] = [Op::Text, Op::Enter(0), Op::Enter(1), Op::Enter(2), Op::Enter(3), Op::EnterArgs(0), Op::EnterArgs(1),
        Op::Leave, Op::Styled(0), Op::Styled(1), Op::Num, Op::Std];
    fn inner(s: Style, k: u8) -> Style {
        let mut s = s;
        match k {
            0 => s.foreground = Color::Red,
            1 => s.background = Color::Blue,
            2 => s.intensity = Intensity::Bold,
            _ => s = prog::wstyle(0),
        }
        s
    }
    struct Rest<'a>(std::cell::Cell<&'a [Op]>);
    impl stylish::Display for Rest<'_> {
        fn fmt(&self, f: &mut Formatter<'_>) -> stylish::Result {
            // runs until its scope is left, returns with the rest
            loop {
                let ops = self.0.get();
                let Some((op, rest)) = ops.split_first() else { return Ok(()) };
                self.0.set(rest);
                match op {
                    Op::Leave => return Ok(()),
                    Op::Text => f.write_str("t")?,
                    Op::Styled(s) => stylish::Write::write_str(f, "s", prog::wstyle(*s as usize))?,
                    Op::Num => stylish::write!(f, "{:>2(fg=green)}{:?}", 1, "d")?,
                    Op::Std => core::fmt::Write::write_str(f, "u")?,
                    Op::Enter(0) => self.fmt(&mut f.with(Foreground(Color::Red)))?,
                    Op::Enter(1) => self.fmt(&mut f.with(Background(Color::Blue)))?,
                    Op::Enter(2) => self.fmt(&mut f.with(Intensity::Bold))?,
                    Op::Enter(_) => self.fmt(&mut f.with(Style::default()))?,
                    Op::EnterArgs(0) => stylish::write!(f, "{:+#09.3(fg=red)s}", self)?,
                    Op::EnterArgs(_) => stylish::write!(f, "{:<8(bg=blue)s}", self)?,
                }
            }
        }
    }
    fn want(ops: &mut &[Op], ctx: Style, out: &mut Cells) {
        while let Some((op, rest)) = ops.split_first() {
            *ops = rest;
            match op {
                Op::Leave => return,
                Op::Text => out.push(('t', ctx)),
                Op::Styled(s) => out.push(('s', prog::wstyle(*s as usize))),
                Op::Num => {
                    let mut g = ctx;
                    g.foreground = Color::Green;
                    out.extend([(' ', g), ('1', g), ('"', ctx), ('d', ctx), ('"', ctx)]);
                }
                Op::Std => out.push(('u', ctx)),
                Op::Enter(k) | Op::EnterArgs(k) => want(ops, inner(ctx, *k), out),
            }
        }
    }
    let n = OPS.len();
    let depth = c.pick(6, 7);
    c.par(&format!("all enter/leave/write sequences to depth {depth}"), n * n, |t, l| {
        let mut idx = vec![0; depth - 2];
        loop {
            let mut ops = vec![OPS[t % n], OPS[t / n]];
            ops.extend(idx.iter().map(|&i| OPS[i]));
            l.transitions += depth as u64;
            l.traces += 1;
            let mut w: Cells = Vec::new();
            let mut rest = &ops[..];
            while !rest.is_empty() { want(&mut rest, Style::default(), &mut w) }
            let (r, rec) = guard(&|| format!("{ops:?}"), || {
                let mut rec = Rec::default();
                let prog = Rest(std::cell::Cell::new(&ops));
                let mut r = Ok(());
                while !prog.0.get().is_empty() { r = stylish::write!(rec, "{:s}", prog); }
                (r, rec)
            })?;
            if r.is_err() || rec.cells != w {
                return Err(Violation::new(format!("shows {} instead of {}", prog::show_cells(&rec.cells), prog::show_cells(&w)),
                    format!("formatter operations {ops:?}")));
            }
            let mut p = idx.len();
            loop {
                if p == 0 { break }
                p -= 1;
                idx[p] += 1;
                if idx[p] < n { p = 99; break }
                idx[p] = 0;
            }
            if p != 99 { break }
        }
        Ok(())
    });
}

fn main() {
    let c = Check::start("C10", "model_checking");
    let count = |n: &Node, l: &mut Local| { l.states += 1; l.transitions += n.size() as u64; check(n, l)?; if l.states == 77 { l.sample(|| n.show()) } Ok(()) };
    prog::full(true, true).programs(&c, "all programs over the full alphabet", c.pick(5, 6), count);
    prog::small(true, true).programs(&c, "all programs over the small alphabet", c.pick(7, 8), count);
    let deep = prog::deep(c.pick(1000, 8000), true);
    c.par("deep and wide programs", deep.len(), |i, l| check(&deep[i], l));
    prog::odd(&c, "values", count);
    prog::specs(&c, "values", 300, true, count);
    scopes(&c);
    c.finish(
        "states: distinct formatter programs enumerated; transitions: formatter operations executed; traces: complete runs on the real formatter compared with the denotation, character by character with style",
        &["alphabets of programs are those of mc/src/prog.rs"],
    )
}
