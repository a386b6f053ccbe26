//! Reference reader for the HTML output: flat spans, CSS declarations,
//! character references.
use stylish::{Color, Intensity, Style};

#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
pub struct Css {
    pub color: Option<String>,
    pub background: Option<String>,
    pub weight: Option<String>,
}

fn css_color(c: Color) -> Option<String> {
    Some(match c {
        Color::Black => "black",
        Color::Red => "red",
        Color::Green => "green",
        Color::Yellow => "yellow",
        Color::Blue => "blue",
        Color::Magenta => "magenta",
        Color::Cyan => "cyan",
        Color::White => "white",
        Color::BrightBlack => "gray",
        Color::BrightRed => "#af0000",
        Color::BrightGreen => "#00ff00",
        Color::BrightYellow => "#ffff00",
        Color::BrightBlue => "#0000ff",
        Color::BrightMagenta => "#ff00ff",
        Color::BrightCyan => "#00ffff",
        Color::BrightWhite => "#ffffff",
        _ => return None,
    }.to_string())
}

pub fn css(s: Style) -> Css {
    Css {
        color: css_color(s.foreground),
        background: css_color(s.background),
        weight: match s.intensity {
            Intensity::Bold => Some("bolder".into()),
            Intensity::Faint => Some("lighter".into()),
            _ => None,
        },
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Doc {
    /// declarations of the open span
    pub open: Option<Css>,
    /// bytes of an unfinished character
    tail: Vec<u8>,
}

impl Doc {
    pub fn new() -> Self {
        Doc { open: None, tail: Vec::new() }
    }

    pub fn settled(&self) -> bool {
        self.tail.is_empty()
    }

    /// Reads one chunk. A tag or character reference split over two chunks is
    /// put back together.
    pub fn feed(&mut self, bytes: &[u8], out: &mut Vec<(char, Option<Css>)>) -> Result<(), String> {
        let mut data = std::mem::take(&mut self.tail);
        data.extend_from_slice(bytes);
        let text = std::str::from_utf8(&data).map_err(|e| e.to_string())?;
        let mut rest = text;
        while let Some(c) = rest.chars().next() {
            match c {
                '<' => {
                    let Some(end) = rest.find('>') else { break };
                    let tag = &rest[1..end];
                    rest = &rest[end + 1..];
                    self.tag(tag)?;
                }
                '&' => {
                    let Some(end) = rest.find(';') else { break };
                    let c = reference(&rest[1..end])?;
                    rest = &rest[end + 1..];
                    out.push((c, self.open.clone()));
                }
                '>' | '"' | '\'' => return Err(format!("unescaped {c:?} in text")),
                _ => {
                    out.push((c, self.open.clone()));
                    rest = &rest[c.len_utf8()..];
                }
            }
        }
        self.tail = rest.as_bytes().to_vec();
        Ok(())
    }

    fn tag(&mut self, tag: &str) -> Result<(), String> {
        if tag == "/span" {
            return match self.open.take() {
                Some(_) => Ok(()),
                None => Err("</span> without an open span".into()),
            };
        }
        let Some(attrs) = tag.strip_prefix("span ") else {
            return Err(format!("unexpected tag <{tag}>"));
        };
        if self.open.is_some() {
            return Err("span inside a span".into());
        }
        let Some(value) = attrs.trim().strip_prefix("style=") else {
            return Err(format!("unexpected attributes in <{tag}>"));
        };
        let quoted = |q: char| value.len() >= 2 && value.starts_with(q) && value.ends_with(q);
        let value = if quoted('"') || quoted('\'') {
            &value[1..value.len() - 1]
        } else {
            if value.contains([' ', '"', '\'', '=', '`', '\t', '\n']) {
                return Err(format!("malformed attribute value in <{tag}>"));
            }
            value
        };
        let mut css = Css::default();
        for decl in value.split(';') {
            let Some((name, val)) = decl.split_once(':') else {
                return Err(format!("malformed declaration {decl:?}"));
            };
            let slot = match name.trim() {
                "color" => &mut css.color,
                "background-color" => &mut css.background,
                "font-weight" => &mut css.weight,
                _ => return Err(format!("unexpected property {name:?}")),
            };
            if slot.is_some() {
                return Err(format!("{name} declared twice"));
            }
            *slot = Some(val.trim().to_string());
        }
        self.open = Some(css);
        Ok(())
    }
}

impl Default for Doc {
    fn default() -> Self {
        Self::new()
    }
}

fn reference(name: &str) -> Result<char, String> {
    let code = |r: Result<u32, _>| r.ok().and_then(char::from_u32);
    match name {
        "amp" => Some('&'),
        "lt" => Some('<'),
        "gt" => Some('>'),
        "quot" => Some('"'),
        "apos" => Some('\''),
        n => {
            if let Some(h) = n.strip_prefix("#x").or(n.strip_prefix("#X")) {
                code(u32::from_str_radix(h, 16))
            } else if let Some(d) = n.strip_prefix('#') {
                code(d.parse())
            } else {
                None
            }
        }
    }
    .ok_or_else(|| format!("unknown character reference &{name};"))
}

pub fn expect(s: Style) -> Option<Css> {
    if crate::space::index(s) == 0 { None } else { Some(css(s)) }
}

/// Reads a complete document, which has to be balanced.
pub fn render(bytes: &[u8]) -> Result<Vec<(char, Option<Css>)>, String> {
    let mut out = Vec::new();
    let mut doc = Doc::new();
    doc.feed(bytes, &mut out)?;
    if !doc.settled() {
        return Err("output ends inside a tag or character reference".into());
    }
    if doc.open.is_some() {
        return Err("span left open".into());
    }
    Ok(out)
}
