//! Errors of the code under test as uniform records.
use crate::{cap, J};
use tedium::error::{BoundsError, LengthError, WidthError};
use tedium::parse::error::*;

#[derive(Clone, Debug)]
pub struct E {
    pub k: &'static str,
    pub x: i64,
    pub y: i64,
    pub z: i64,
    pub b: Vec<u8>,
    pub s: Vec<Vec<u8>>,
    /// the words of its message that may be facts
    pub m: Vec<String>,
    /// those of the errors it gives as its sources, from the outside in
    pub src: Vec<Vec<String>>,
}

impl E {
    pub fn k(k: &'static str) -> E {
        E { k, x: 0, y: 0, z: 0, b: vec![], s: vec![], m: vec![], src: vec![] }
    }
    pub fn none() -> E {
        E::k("-")
    }
    pub fn panic() -> E {
        E::k("panic")
    }
    pub fn j(&self) -> J {
        J::O(vec![
            ("k".into(), J::s(self.k)),
            ("x".into(), J::I(self.x)),
            ("y".into(), J::I(self.y)),
            ("z".into(), J::I(self.z)),
            ("b".into(), J::bytes_of(&self.b)),
            ("s".into(), J::A(self.s.iter().map(|t| J::bytes_of(t)).collect())),
            ("m".into(), J::A(self.m.iter().map(|t| J::s(t)).collect())),
            ("src".into(), J::A(self.src.iter().map(|w| J::A(w.iter().map(|t| J::s(t)).collect())).collect())),
        ])
    }
}

/// The words of a message that are numbers or hexadecimal dumps; a number in
/// 0x notation loses its leading zeros.
pub fn words(s: &str) -> Vec<String> {
    let c: Vec<char> = s.chars().collect();
    let (mut out, mut i) = (vec![], 0);
    while i < c.len() {
        let at = i;
        let word = |x: char| x.is_ascii_alphanumeric() || x == '_';
        if c[i] == '-' && c.get(i + 1).is_some_and(|x| x.is_ascii_digit()) && (i == 0 || !word(c[i - 1])) {
            i += 1;
        }
        while i < c.len() && word(c[i]) {
            i += 1;
        }
        if i == at {
            i += 1;
            continue;
        }
        let w: String = c[at..i].iter().collect();
        let digits = w.strip_prefix("0x").or(w.strip_prefix('-')).unwrap_or(&w);
        if digits.chars().all(|x| x.is_ascii_hexdigit()) {
            out.push(match w.strip_prefix("0x") {
                Some(h) => format!("0x{}", h.trim_start_matches('0')),
                None => w,
            });
        }
    }
    out
}
pub fn said<T: std::fmt::Display>(e: &T) -> Vec<String> {
    words(&format!("{e}"))
}
/// the floats a message mentions, by their bits
pub fn said_f64<T: std::fmt::Display>(e: &T) -> Vec<String> {
    format!("{e}")
        .split(|c: char| c.is_whitespace() || "(),".contains(c))
        .filter(|w| !w.is_empty())
        .filter_map(|w| w.parse::<f64>().ok())
        .map(|x| format!("{:016x}", x.to_bits()))
        .collect()
}
/// the words as a record field
pub fn said_j<T: std::fmt::Display>(e: &T) -> J {
    J::A(said(e).iter().map(|w| J::s(w)).collect())
}

fn numbers(s: &str) -> Vec<u64> {
    let mut out = vec![];
    let mut cur = String::new();
    for c in s.chars().chain(" ".chars()) {
        if c.is_ascii_digit() {
            cur.push(c)
        } else if !cur.is_empty() {
            out.push(cur.parse().unwrap_or(u64::MAX));
            cur.clear();
        }
    }
    out
}

/// TagError keeps its fields private: the offending tag and the legal tags
/// are read off its Debug form, and the tag again off its Display form.
pub fn tag<T: TagType>(err: &TagError<T>, w: usize) -> E {
    let dbg = format!("{err:?}");
    // drop the quoted type name
    let mut parts = dbg.split('"');
    let head = parts.next().unwrap_or("");
    let _ty = parts.next();
    let tail = parts.collect::<Vec<_>>().join("\"");
    let be = |n: u64| n.to_be_bytes()[8 - w..].to_vec();
    let hn = numbers(&head.replace("u8", "").replace("u16", "").replace("u32", ""));
    let tn = numbers(&tail);
    let (actual, legal) = match hn.split_first() {
        Some((a, rest)) => (Some(*a), if rest.is_empty() { tn } else { rest.to_vec() }),
        None => match tn.split_first() {
            Some((a, rest)) => (Some(*a), rest.to_vec()),
            None => (None, vec![]),
        },
    };
    let shown = format!("{err}");
    let hex = format!("{:#0width$x}", actual.unwrap_or(0), width = w * 2);
    let mut s: Vec<Vec<u8>> = legal.into_iter().map(be).collect();
    s.sort();
    s.dedup();
    E {
        x: w as i64,
        y: shown.contains(&hex) as i64,
        b: actual.map(be).unwrap_or_default(),
        s,
        m: words(&shown),
        ..E::k("tag")
    }
}

pub fn bounds_i64(k: &'static str, e: &BoundsError<i64>) -> E {
    let b = |n: &i64| n.to_be_bytes().to_vec();
    let m = said(e);
    let f = |x, p: &i64, q: &i64| E { m: m.clone(), x, b: b(p), s: vec![b(q)], ..E::k(k) };
    match e {
        BoundsError::Underflow { min, val } => f(1, min, val),
        BoundsError::Overflow { max, val } => f(2, max, val),
        BoundsError::InvalidBounds { min, max } => f(3, min, max),
        BoundsError::IllegalNegative { min, val } => f(4, min, val),
        BoundsError::Failed(_) => E { x: 5, ..E::k(k) },
    }
}

/// 128-bit bounds: the values are shown as 16 bytes.
pub fn bounds_i128(k: &'static str, e: &BoundsError<i128>) -> E {
    let b = |n: &i128| n.to_be_bytes().to_vec();
    let m = said(e);
    let f = |x, p: &i128, q: &i128| E { m: m.clone(), x, b: b(p), s: vec![b(q)], ..E::k(k) };
    match e {
        BoundsError::Underflow { min, val } => f(1, min, val),
        BoundsError::Overflow { max, val } => f(2, max, val),
        BoundsError::InvalidBounds { min, max } => f(3, min, max),
        BoundsError::IllegalNegative { min, val } => f(4, min, val),
        BoundsError::Failed(_) => E { x: 5, ..E::k(k) },
    }
}

pub fn bounds_f64(k: &'static str, e: &BoundsError<f64>) -> E {
    let b = |n: &f64| n.to_bits().to_be_bytes().to_vec();
    let m = said_f64(e);
    let f = |x, p: &f64, q: &f64| E { m: m.clone(), x, b: b(p), s: vec![b(q)], ..E::k(k) };
    match e {
        BoundsError::Underflow { min, val } => f(1, min, val),
        BoundsError::Overflow { max, val } => f(2, max, val),
        BoundsError::InvalidBounds { min, max } => f(3, min, max),
        BoundsError::IllegalNegative { min, val } => f(4, min, val),
        BoundsError::Failed(_) => E { x: 5, ..E::k(k) },
    }
}

pub fn width(e: &WidthError) -> E {
    let (z, x, y) = match e {
        WidthError::TooWide { limit, actual } => (1, *limit, *actual),
        WidthError::WrongWidth { exact, actual } => (2, *exact, *actual),
        WidthError::InvalidWidth { actual, .. } => (3, 0, *actual),
    };
    E { x: cap(x), y: cap(y), z, m: said(e), ..E::k("width") }
}

pub fn length(e: &LengthError) -> E {
    let (z, x, y) = match e {
        LengthError::TooLong { limit, actual } => (1, *limit, *actual),
        LengthError::WrongLength { exact, actual } => (2, *exact, *actual),
    };
    E { x: cap(x), y: cap(y), z, m: said(e), ..E::k("length") }
}

fn floats(e: &ParseError) -> bool {
    matches!(e, ParseError::External(ExternalError::FloatRangeViolation(_)))
}
pub fn parse(e: &ParseError) -> E {
    let m = match e {
        ParseError::External(x @ ExternalError::FloatRangeViolation(_)) => said_f64(x),
        e => said(e),
    };
    E { m, src: sources(e, floats(e)), ..facts(e) }
}

fn sources(e: &(dyn std::error::Error + 'static), floats: bool) -> Vec<Vec<String>> {
    let (mut out, mut at) = (vec![], e.source());
    while let Some(x) = at {
        out.push(if floats { said_f64(&x) } else { said(&x) });
        at = x.source();
    }
    out
}
/// what a failed decoding says, itself and through its sources
pub fn decode(e: &tedium::conv::error::DecodeError, p: &ParseError) -> E {
    let m = if floats(p) { said_f64(e) } else { said(e) };
    E { m, src: sources(e, floats(p)), ..facts(p) }
}

fn facts(e: &ParseError) -> E {
    match e {
        ParseError::Window(w) => match *w {
            WindowError::ConsumeWouldExceedLimit { offset, requested, limit } => {
                E { x: cap(offset), y: cap(requested), z: cap(limit), ..E::k("consume") }
            }
            WindowError::OpenWouldExceedBuffer { bytes_left, request } => {
                E { x: cap(bytes_left), y: cap(request), z: 1, ..E::k("open") }
            }
            WindowError::OpenWouldExceedWindow { limit, request } => {
                E { x: cap(limit), y: cap(request), z: 2, ..E::k("open") }
            }
            WindowError::CloseWithResidue { residual } => E { x: cap(residual), ..E::k("residue") },
            WindowError::CloseWithoutWindow => E::k("nowindow"),
            WindowError::OffsetOverflow { excess } => E { x: cap(excess), ..E::k("overflow") },
        },
        ParseError::Internal(InternalError::NoValidTags) => E::k("notags"),
        ParseError::Internal(InternalError::SliceCoerceFailure(_)) => E::k("coerce"),
        ParseError::Token(t) => match t {
            TokenError::InvalidBoolean(b) => E { x: *b as i64, ..E::k("bool") },
            TokenError::InvalidTagU8(t) => tag(t, 1),
            TokenError::InvalidTagU16(t) => tag(t, 2),
            TokenError::InvalidTagU30(t) => tag(t, 4),
            TokenError::NonTerminating(v) => E { b: v.clone(), ..E::k("nonterm") },
            TokenError::NonNullPaddingByte { padding } => E { b: padding.clone(), ..E::k("pad") },
        },
        ParseError::External(x) => match x {
            ExternalError::UncoercableString(_) => E::k("utf8"),
            ExternalError::IntRangeViolation(b) => bounds_i64("irange", b),
            ExternalError::FloatRangeViolation(b) => bounds_f64("frange", b),
            ExternalError::WidthViolation(w) => width(w),
            ExternalError::LengthViolation(l) => length(l),
            ExternalError::GenericError(_) => E::k("generic"),
        },
    }
}
