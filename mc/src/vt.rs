//! Reference terminal: text with SGR sequences in, styled characters out.
//!
//! Follows ECMA-48/xterm: bold (1) and faint (2) are separate attributes, both
//! cleared by 22; ESC inside an unfinished control sequence abandons it. The
//! `exclusive` flavour instead keeps a single intensity (as some terminals do).
//! Anything that is not SGR is an error.
use stylish::{Color, Intensity, Style};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Rendition {
    pub fg: u8, // 0 default, 1..=16
    pub bg: u8,
    pub bold: bool,
    pub faint: bool,
}

pub const PLAIN: Rendition = Rendition { fg: 0, bg: 0, bold: false, faint: false };

pub fn color_index(c: Color) -> u8 {
    crate::space::ci(c) as u8
}

pub fn rendition(s: Style) -> Rendition {
    Rendition {
        fg: color_index(s.foreground),
        bg: color_index(s.background),
        bold: matches!(s.intensity, Intensity::Bold),
        faint: matches!(s.intensity, Intensity::Faint),
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
enum State {
    Ground,
    Esc,
    Csi(Vec<u8>),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Vt {
    pub now: Rendition,
    exclusive: bool,
    state: State,
    pending: Vec<u8>, // incomplete UTF-8
    pending_style: Rendition,
    bytewise: bool,
}

impl Vt {
    pub fn new(exclusive: bool) -> Self {
        Vt { now: PLAIN, exclusive, state: State::Ground, pending: Vec::new(), pending_style: PLAIN, bytewise: false }
    }

    /// Shows every byte of text as a character of its own.
    pub fn bytewise(exclusive: bool) -> Self {
        Vt { bytewise: true, ..Vt::new(exclusive) }
    }

    pub fn settled(&self) -> bool {
        self.state == State::Ground && self.pending.is_empty()
    }

    /// Feeds bytes; each completed character goes to `out` with its rendition.
    pub fn feed(&mut self, bytes: &[u8], out: &mut Vec<(char, Rendition)>) -> Result<(), String> {
        let mut i = 0;
        while i < bytes.len() {
            let b = bytes[i];
            match &mut self.state {
                State::Ground => {
                    if b == 0x1b {
                        if !self.pending.is_empty() {
                            return Err("escape code inside a character".into());
                        }
                        self.state = State::Esc;
                    } else if b < 0x80 || self.bytewise {
                        if !self.pending.is_empty() {
                            return Err("truncated character".into());
                        }
                        out.push((b as char, self.now));
                    } else {
                        self.pending.push(b);
                        if self.pending.len() > 1 && self.pending_style != self.now {
                            return Err("style changes inside a character".into());
                        }
                        self.pending_style = self.now;
                        match std::str::from_utf8(&self.pending) {
                            Ok(s) => {
                                out.push((s.chars().next().unwrap(), self.now));
                                self.pending.clear();
                            }
                            Err(e) if e.error_len().is_none() => {}
                            Err(_) => return Err("invalid UTF-8".into()),
                        }
                    }
                }
                State::Esc => match b {
                    b'[' => self.state = State::Csi(Vec::new()),
                    0x1b => {}
                    _ => return Err(format!("escape code that is not SGR: ESC {:?}", b as char)),
                },
                State::Csi(params) => match b {
                    0x1b => self.state = State::Esc,
                    b'0'..=b'9' | b';' => params.push(b),
                    b'm' => {
                        let params = std::mem::take(params);
                        self.state = State::Ground;
                        self.sgr(&params)?;
                    }
                    _ => return Err(format!("escape code that is not SGR: CSI ending in {:?}", b as char)),
                },
            }
            i += 1;
        }
        Ok(())
    }

    fn sgr(&mut self, params: &[u8]) -> Result<(), String> {
        let text = std::str::from_utf8(params).unwrap();
        for p in text.split(';') {
            let code: u32 = if p.is_empty() { 0 } else { p.parse().map_err(|_| format!("bad SGR parameter {p}"))? };
            match code {
                0 => self.now = PLAIN,
                1 => {
                    self.now.bold = true;
                    if self.exclusive { self.now.faint = false }
                }
                2 => {
                    self.now.faint = true;
                    if self.exclusive { self.now.bold = false }
                }
                22 => { self.now.bold = false; self.now.faint = false }
                30..=37 => self.now.fg = (code - 30) as u8 + 1,
                39 => self.now.fg = 0,
                40..=47 => self.now.bg = (code - 40) as u8 + 1,
                49 => self.now.bg = 0,
                90..=97 => self.now.fg = (code - 90) as u8 + 9,
                100..=107 => self.now.bg = (code - 100) as u8 + 9,
                _ => return Err(format!("unknown SGR code {code}")),
            }
        }
        Ok(())
    }
}

/// Renders a complete output on both flavours, which have to agree, and
/// requires it to end settled.
pub fn render(bytes: &[u8]) -> Result<(Vec<(char, Rendition)>, Rendition), String> {
    let mut a = Vec::new();
    let mut vt = Vt::new(false);
    vt.feed(bytes, &mut a)?;
    if !vt.settled() {
        return Err("output ends inside an escape code or character".into());
    }
    let mut b = Vec::new();
    let mut vt2 = Vt::new(true);
    vt2.feed(bytes, &mut b)?;
    if a != b || vt.now != vt2.now {
        return Err("terminals with separate and with exclusive bold/faint show different styles".into());
    }
    Ok((a, vt.now))
}

#[cfg(test)]
mod tests {
    use super::*;
    #[test]
    fn basics() {
        let (v, end) = render(b"a\x1b[31;22;1mb\x1b[0mc").unwrap();
        assert_eq!(v[0], ('a', PLAIN));
        assert_eq!(v[1], ('b', Rendition { fg: 2, bg: 0, bold: true, faint: false }));
        assert_eq!(v[2], ('c', PLAIN));
        assert_eq!(end, PLAIN);
        assert!(render(b"\x1b[1m\x1b[2ma").is_err());
        assert!(render(b"\x1b[3").is_err());
        assert!(render(b"\x1b[2J").is_err());
        assert!(render("\x1b[3\x1b[31m漢".as_bytes()).is_ok());
    }
}
