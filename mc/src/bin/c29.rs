//! C29: styles and their parts are equal exactly when every aspect is, and
//! default values are the terminal's defaults.
use mc::report::{guard, Check, Violation};
use mc::space::{self, ci, ii, COLORS, INTENSITIES};
use stylish::{Background, Color, Foreground, Intensity, Style, StyleDiff};

fn pair<T: PartialEq + Copy + std::fmt::Debug>(a: T, b: T, want: bool) -> Result<(), Violation> {
    let desc = || format!("{a:?} compared with {b:?}");
    let got = guard(&desc, || [a == b, !(a != b), b == a, &a == &b, Some(a) == Some(b), (a, ()) == (b, ()), [a, b] == [b, b]])?;
    if got != [want; 7] {
        return Err(Violation::new(format!("they are {}, but say {got:?}", if want { "equal" } else { "different" }), desc())
            .repro(format!("assert!({}({a:?} == {b:?}));", if want { "" } else { "!" })));
    }
    Ok(())
}

/// The `i`th difference: every aspect left alone or set to any value.
fn diff(i: usize) -> StyleDiff {
    let mut d = StyleDiff::default();
    d.foreground = (i / 72 > 0).then(|| COLORS[i / 72 - 1]);
    d.background = (i / 4 % 18 > 0).then(|| COLORS[i / 4 % 18 - 1]);
    d.intensity = (i % 4 > 0).then(|| INTENSITIES[i % 4 - 1]);
    d
}

#[allow(clippy::clone_on_copy)]
fn main() {
    let c = Check::start("C29", "model_checking");
    c.par("colours and intensities", 17, |i, l| {
        let x = COLORS[i];
        l.states += 1;
        for (j, &y) in COLORS.iter().enumerate() {
            l.transitions += 3;
            pair(x, y, i == j)?;
            pair(Foreground(x), Foreground(y), i == j)?;
            pair(Background(x), Background(y), i == j)?;
        }
        for (k, &m) in INTENSITIES.iter().enumerate() {
            for (n, &o) in INTENSITIES.iter().enumerate() {
                l.transitions += 1;
                pair(m, o, k == n)?;
            }
        }
        Ok(())
    });
    c.par("all ordered pairs of styles", space::N, |i, l| {
        let x = space::style(i);
        l.states += 1;
        let desc = || format!("copies of [{}]", space::show(x));
        let copies = guard(&desc, || { let y = x; [y, x.clone(), std::borrow::ToOwned::to_owned(&x), Some(x).clone().unwrap()] })?;
        if copies.iter().any(|&y| !space::same(x, y)) || space::index(x) != i {
            return Err(Violation::new("a copy differs", desc()));
        }
        for j in 0..space::N {
            l.transitions += 1;
            pair(x, space::style(j), i == j)?;
        }
        if i == 100 { l.sample(|| format!("[{}] compared with all 867 styles", space::show(x))) }
        Ok(())
    });
    c.par("all ordered pairs of differences", 18 * 18 * 4, |i, l| {
        let x = diff(i);
        l.states += 1;
        let y = x.clone();
        if (y.foreground.map(ci), y.background.map(ci), y.intensity.map(ii)) != (x.foreground.map(ci), x.background.map(ci), x.intensity.map(ii)) {
            return Err(Violation::new("a copy differs", format!("{x:?}")));
        }
        for j in 0..18 * 18 * 4 {
            l.transitions += 1;
            pair(x, diff(j), i == j)?;
        }
        Ok(())
    });
    c.par("default values", 1, |_, l| {
        l.traces += 7;
        let err = |what: &str| Err(Violation::new("is not the default colour or the normal intensity", what));
        if !matches!(Color::default(), Color::Default) { return err("Color::default()") }
        if !matches!(Intensity::default(), Intensity::Normal) { return err("Intensity::default()") }
        if space::index(Style::default()) != 0 { return err("Style::default()") }
        if !matches!(Foreground::default().0, Color::Default) { return err("Foreground::default()") }
        if !matches!(Background::default().0, Color::Default) { return err("Background::default()") }
        let d = StyleDiff::default();
        if d.foreground.is_some() || d.background.is_some() || d.intensity.is_some() {
            return Err(Violation::new("changes something", "StyleDiff::default()"));
        }
        Ok(())
    });
    c.finish("states: all colours, styles and differences; transitions: all ordered pairs of each, compared in seven ways; traces: default values", &[])
}
