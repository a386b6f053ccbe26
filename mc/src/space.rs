//! The finite style space, simplest first.
use stylish::{Color, Intensity, Style};

pub const COLORS: [Color; 17] = [
    Color::Default, Color::Black, Color::Red, Color::Green, Color::Yellow, Color::Blue,
    Color::Magenta, Color::Cyan, Color::White, Color::BrightBlack, Color::BrightRed,
    Color::BrightGreen, Color::BrightYellow, Color::BrightBlue, Color::BrightMagenta,
    Color::BrightCyan, Color::BrightWhite,
];
pub const INTENSITIES: [Intensity; 3] = [Intensity::Normal, Intensity::Bold, Intensity::Faint];
pub const N: usize = 17 * 17 * 3;

pub fn mk(fg: Color, bg: Color, i: Intensity) -> Style {
    let mut s = Style::default();
    s.foreground = fg;
    s.background = bg;
    s.intensity = i;
    s
}

/// Position of a colour in `COLORS`, not relying on its equality.
pub fn ci(c: Color) -> usize {
    use Color::*;
    match c {
        Default => 0, Black => 1, Red => 2, Green => 3, Yellow => 4, Blue => 5, Magenta => 6,
        Cyan => 7, White => 8, BrightBlack => 9, BrightRed => 10, BrightGreen => 11,
        BrightYellow => 12, BrightBlue => 13, BrightMagenta => 14, BrightCyan => 15,
        BrightWhite => 16,
        _ => panic!("unknown colour {c:?}"),
    }
}

pub fn ii(i: Intensity) -> usize {
    match i {
        Intensity::Normal => 0, Intensity::Bold => 1, Intensity::Faint => 2,
        _ => panic!("unknown intensity {i:?}"),
    }
}

/// The number of a style, for which `style(index(s))` has the same aspects.
pub fn index(s: Style) -> usize {
    ci(s.foreground) * 51 + ci(s.background) * 3 + ii(s.intensity)
}

/// Equal in all aspects, not relying on the library's equality.
pub fn same(a: Style, b: Style) -> bool {
    index(a) == index(b)
}

/// The `i`th of the 867 styles; 0 is the default one.
pub fn style(i: usize) -> Style {
    assert!(i < N);
    mk(COLORS[i / 51], COLORS[i / 3 % 17], INTENSITIES[i % 3])
}

pub fn all() -> Vec<Style> {
    (0..N).map(style).collect()
}

/// Eight styles that differ from each other in one, two and three aspects.
pub fn basis() -> Vec<Style> {
    use Color::*;
    use Intensity::*;
    vec![
        mk(Default, Default, Normal),
        mk(Red, Default, Normal),
        mk(Default, Default, Bold),
        mk(Default, Blue, Normal),
        mk(Red, Blue, Faint),
        mk(BrightGreen, Default, Bold),
        mk(BrightGreen, Blue, Bold),
        mk(Default, Default, Faint),
    ]
}

/// Rust source text of a style, for reproducers.
pub fn src(s: Style) -> String {
    let mut parts = Vec::new();
    if ci(s.foreground) != 0 {
        parts.push(format!("stylish::Foreground(stylish::Color::{:?})", s.foreground));
    }
    if ci(s.background) != 0 {
        parts.push(format!("stylish::Background(stylish::Color::{:?})", s.background));
    }
    if ii(s.intensity) != 0 {
        parts.push(format!("stylish::Intensity::{:?}", s.intensity));
    }
    format!(
        "stylish::Style::default(){}",
        parts.iter().map(|p| format!(".with({p})")).collect::<String>()
    )
}

pub fn show(s: Style) -> String {
    let mut parts = Vec::new();
    if ci(s.foreground) != 0 {
        parts.push(format!("fg={:?}", s.foreground));
    }
    if ci(s.background) != 0 {
        parts.push(format!("bg={:?}", s.background));
    }
    if ii(s.intensity) != 0 {
        parts.push(format!("{:?}", s.intensity));
    }
    if parts.is_empty() { "default".into() } else { parts.join(",") }
}

/// Lengths at which size-dependent shortcuts would sit.
pub fn lengths(max_dense: usize, max: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..=max_dense).collect();
    let mut p = 1;
    while p <= max {
        for d in [p - 1, p, p + 1] {
            if d > max_dense { v.push(d) }
        }
        p *= 2;
    }
    v.sort();
    v.dedup();
    v
}

/// A text of exactly `n` bytes mixing one- to four-byte characters.
pub fn text_of(n: usize) -> String {
    const PAT: [char; 9] = ['a', 'é', 'b', '漢', ' ', '🦀', '\n', 'z', '\u{301}'];
    let mut s = String::with_capacity(n);
    let mut i = 0;
    while s.len() < n {
        let c = PAT[i % PAT.len()];
        s.push(if s.len() + c.len_utf8() <= n { c } else { '.' });
        i += 1;
    }
    s
}
