//! C08: a style difference is exact, minimal and round-trips.
use mc::report::{guard, Check, Violation};
use mc::space::{self, ci, ii};
use stylish::{Style, StyleDiff};

fn main() {
    let c = Check::start("C08", "model_checking");
    c.par("all ordered pairs of styles", 867, |i, l| {
        let old = space::style(i);
        l.states += 1;
        for j in 0..867 {
            let new = space::style(j);
            let desc = || format!("difference of [{}] from [{}]", space::show(new), space::show(old));
            let (d, back, applied_elsewhere) = guard(&desc, || {
                let d = new.diff_from(old);
                (d, old.with(d), Style::default().with(old).with(d))
            })?;
            l.transitions += 1;
            let (cf, cb, int) = (ci(new.foreground), ci(new.background), ii(new.intensity));
            let want = (
                (ci(old.foreground) != cf).then_some(cf),
                (ci(old.background) != cb).then_some(cb),
                (ii(old.intensity) != int).then_some(int),
            );
            let rep = || format!("let d = {}.diff_from({});\nassert_eq!({}.with(d), {});", space::src(new), space::src(old), space::src(old), space::src(new));
            if (d.foreground.map(ci), d.background.map(ci), d.intensity.map(ii)) != want {
                return Err(Violation::new(format!("is {d:?}, but the aspects that differ are numbers {want:?}"), desc()).repro(rep()));
            }
            if !space::same(back, new) || !space::same(applied_elsewhere, new) {
                return Err(Violation::new(format!("applied to the original gives [{}]", space::show(back)), desc()).repro(rep()));
            }
            if i == j && d != StyleDiff::default() {
                return Err(Violation::new("a style differs from itself", desc()).repro(rep()));
            }
        }
        if i == 9 { l.sample(|| format!("all 867 differences from [{}]", space::show(old))) }
        Ok(())
    });
    // walking through styles by differences alone arrives where direct styling does
    c.par("chains of differences", 867, |i, l| {
        let a = space::style(i);
        for b in space::basis() {
            for k in 0..c.pick(200, 867) {
                let e = space::style((k * 13 + i) % 867);
                let desc = || format!("from [{}] over [{}] to [{}]", space::show(a), space::show(b), space::show(e));
                let got = guard(&desc, || a.with(b.diff_from(a)).with(e.diff_from(b)))?;
                l.traces += 1;
                if !space::same(got, e) {
                    return Err(Violation::new(format!("arrives at [{}]", space::show(got)), desc()));
                }
            }
        }
        Ok(())
    });
    c.finish(
        "states: all 867 styles; transitions: all ordered pairs, difference compared aspect by aspect and applied back; traces: chains of two differences",
        &[],
    )
}
