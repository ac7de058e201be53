//! Errors made by hand, and the errors they are converted into.
use tedium::conv::error::DecodeError;
use tedium::error::{BoundsError, LengthError, WidthError};
use tedium::parse::cleanup::InvariantError;
use tedium::parse::error::*;
use vh::err::{self, E};
use vh::{obj, quiet, J};

fn i64_of(b: &[u8]) -> i64 {
    i64::from_be_bytes(b.try_into().expect("DRIVER: number"))
}
fn f64_of(b: &[u8]) -> f64 {
    f64::from_be_bytes(b.try_into().expect("DRIVER: double"))
}
fn be(b: &[u8]) -> u32 {
    b.iter().fold(0, |a, x| a << 8 | *x as u32)
}

fn bounds<T: std::fmt::Debug>(x: i64, b: T, v: T) -> BoundsError<T> {
    match x {
        1 => BoundsError::Underflow { min: b, val: v },
        2 => BoundsError::Overflow { max: b, val: v },
        3 => BoundsError::InvalidBounds { min: b, max: v },
        4 => BoundsError::IllegalNegative { min: b, val: v },
        _ => BoundsError::from(u8::try_from(300i64).unwrap_err()),
    }
}
fn length(t: &J) -> LengthError {
    let (x, actual) = (t.int("x") as usize, t.int("y") as usize);
    if t.int("z") == 1 { LengthError::TooLong { limit: x, actual } } else { LengthError::WrongLength { exact: x, actual } }
}
const VALID: [usize; 3] = [1, 2, 4];
fn width(t: &J) -> WidthError {
    let (x, actual) = (t.int("x") as usize, t.int("y") as usize);
    match t.int("z") {
        1 => WidthError::TooWide { limit: x, actual },
        2 => WidthError::WrongWidth { exact: x, actual },
        _ => WidthError::InvalidWidth { valid: VALID.to_vec().leak(), actual },
    }
}
fn window(t: &J) -> WindowError {
    let (x, y, z) = (t.int("x") as usize, t.int("y") as usize, t.int("z") as usize);
    match t.str("op") {
        "consume" => WindowError::ConsumeWouldExceedLimit { offset: x, requested: y, limit: z },
        "open" if z == 1 => WindowError::OpenWouldExceedBuffer { bytes_left: x, request: y },
        "open" => WindowError::OpenWouldExceedWindow { limit: x, request: y },
        "residue" => WindowError::CloseWithResidue { residual: x },
        "nowindow" => WindowError::CloseWithoutWindow,
        "overflow" => WindowError::OffsetOverflow { excess: x },
        o => panic!("DRIVER: fault {o}"),
    }
}
fn tag<T: TagType>(a: T, legal: Vec<T>, way: &str) -> ParseError
where
    T: Into<TagError<T>>,
{
    match way {
        "from" if legal.is_empty() => { let e: TagError<T> = a.into(); e.into() }
        "typed" => TagError::with_type::<String>(a, Some(legal)).into(),
        "promote" => T::promote(TagError::new(a, "some type", Some(legal))),
        _ => TagError::new(a, "some type", Some(legal)).into(),
    }
}

fn make(t: &J, way: &str) -> ParseError {
    let b = t.bytes("b");
    let s: Vec<Vec<u8>> = t.at("s").arr().iter().map(|x| x.as_bytes()).collect();
    match t.str("op") {
        "notags" => ParseError::Internal(InternalError::NoValidTags),
        "coerce" => { let e = <[u8; 3]>::try_from(&b[..0]).map_err(InternalError::from).unwrap_err(); e.into() }
        "bool" => ParseError::from(TokenError::InvalidBoolean(t.int("x") as u8)),
        "nonterm" => ParseError::Token(TokenError::NonTerminating(b)),
        "pad" => ParseError::from(TokenError::NonNullPaddingByte { padding: b }),
        "tag" => match b.len() {
            1 => tag(b[0], s.iter().map(|x| x[0]).collect(), way),
            2 => tag(be(&b) as u16, s.iter().map(|x| be(x) as u16).collect(), way),
            _ => tag(be(&b), s.iter().map(|x| be(x)).collect(), way),
        },
        "irange" => ParseError::from(bounds(t.int("x"), i64_of(&b), i64_of(&s[0]))),
        "frange" => ParseError::from(bounds(t.int("x"), f64_of(&b), f64_of(&s[0]))),
        "length" if way == "reify" => ParseError::reify(length(t)),
        "length" if way == "box" => ParseError::from(Box::new(length(t)) as Box<dyn std::error::Error + Send + Sync>),
        "length" => ParseError::from(length(t)),
        "width" => ParseError::External(ExternalError::from(width(t))),
        "utf8" => ParseError::from(String::from_utf8(b).expect_err("DRIVER: text")),
        _ => ParseError::Window(window(t)),
    }
}

fn decode(e: DecodeError) -> E {
    let _ = format!("{e:?}");
    match &e {
        DecodeError::Parse(p) => err::decode(&e, p),
        DecodeError::Invariant(i) => {
            let own = match i {
                InvariantError::ErrorUnexpected(p) | InvariantError::ErrorKindUnexpected(p) => err::decode(&e, p),
                InvariantError::ErrorCaseUnexpected(w) => err::decode(&e, &ParseError::Window(*w)),
            };
            let _ = format!("{i:?}");
            own
        }
        _ => E::k("other"),
    }
}

pub fn step(t: &J) -> J {
    let e = quiet(|| match t.str("v") {
        "inv" => decode(InvariantError::ErrorUnexpected(make(t, "")).into()),
        "invkind" => decode(InvariantError::ErrorKindUnexpected(make(t, "")).into()),
        "invcase" if matches!(t.str("op"), "consume" | "open" | "residue" | "nowindow" | "overflow") => {
            decode(InvariantError::ErrorCaseUnexpected(window(t)).into())
        }
        "dec" => decode(make(t, "").into()),
        v => err::parse(&make(t, v)),
    });
    obj! { "e": e.unwrap_or(E::panic()).j() }
}
