//! Ways of obtaining and reading ranged numbers.
use crate::steps;
use std::convert::TryFrom;
use tedium::error::BoundsError;
use tedium::{Decode, Encode, RangedFloat, RangedInt};
use vh::{obj, quiet, J};

fn fields(j: J) -> Vec<(String, J)> {
    match j {
        J::O(f) => f,
        _ => panic!("DRIVER: fields"),
    }
}
fn wide(n: i128) -> J {
    J::from(n.to_be_bytes().to_vec())
}
fn number(t: &J, k: &str) -> i128 {
    i128::from_be_bytes(t.bytes(k).try_into().expect("DRIVER: number"))
}
fn er(k: &str, x: i64, b: J, s: J, m: J) -> J {
    obj! { "k": k, "x": x, "b": b, "s": s, "m": m }
}
fn noerr(k: &str) -> J {
    er(k, 0, J::A(vec![]), J::A(vec![]), J::A(vec![]))
}
fn ierr<T: std::fmt::Debug + std::fmt::Display + Into<i128> + Copy>(e: BoundsError<T>) -> J {
    let _ = format!("{e:?}");
    let m = vh::err::said_j(&e);
    let p = |x: i64, a: &T, b: &T| er("irange", x, wide((*a).into()), wide((*b).into()), m.clone());
    match &e {
        BoundsError::Underflow { min, val } => p(1, min, val),
        BoundsError::Overflow { max, val } => p(2, max, val),
        BoundsError::InvalidBounds { min, max } => p(3, min, max),
        BoundsError::IllegalNegative { min, val } => p(4, min, val),
        BoundsError::Failed(_) => noerr("failed"),
    }
}
fn ferr(e: BoundsError<f64>) -> J {
    let _ = format!("{e:?} {e}");
    let f = |x: &f64| J::from(x.to_be_bytes().to_vec());
    let m = J::A(vh::err::said_f64(&e).into_iter().map(J::from).collect());
    match &e {
        BoundsError::Underflow { min, val } => er("frange", 1, f(min), f(val), m.clone()),
        BoundsError::Overflow { max, val } => er("frange", 2, f(max), f(val), m.clone()),
        BoundsError::InvalidBounds { min, max } => er("frange", 3, f(min), f(max), m.clone()),
        _ => noerr("other"),
    }
}

/// conversions into a primitive: [name, ok, value]
macro_rules! into {
    ($o:ident, $x:ident, from: $($f:ty),*) => { $(
        $o.push(match quiet(|| <$f>::from($x)) {
            Ok(n) => obj! { "p": stringify!($f), "ok": true, "b": wide(n as i128) },
            Err(_) => obj! { "p": stringify!($f), "ok": false, "b": J::A(vec![]) },
        });
    )* };
    ($o:ident, $x:ident, try: $($f:ty),*) => { $(
        $o.push(match quiet(|| <$f>::try_from($x)) {
            Ok(Ok(n)) => obj! { "p": stringify!($f), "ok": true, "b": wide(n as i128) },
            Ok(Err(_)) => obj! { "p": stringify!($f), "ok": false, "b": J::A(vec![]) },
            Err(_) => obj! { "p": stringify!($f), "ok": false, "b": J::A(vec![0i64.into()]) },
        });
    )* };
}
macro_rules! all_into {
    ($o:ident, $x:ident, u8) => { into!($o, $x, from: u8, u16, i16, u32, i32, u64, i64, usize, isize); into!($o, $x, try: i8) };
    ($o:ident, $x:ident, i8) => { into!($o, $x, from: i8, i16, i32, i64, isize); into!($o, $x, try: u8, u16, u32, u64, usize) };
    ($o:ident, $x:ident, u16) => { into!($o, $x, from: u32, i32, u64, i64, usize, isize); into!($o, $x, try: i8, u8, i16) };
    ($o:ident, $x:ident, i16) => { into!($o, $x, from: i16, i32, i64, isize); into!($o, $x, try: i8, u8, u16, u32, u64, usize) };
    ($o:ident, $x:ident, u32) => { into!($o, $x, from: u32, i32, u64, i64, usize, isize); into!($o, $x, try: i8, u8, i16, u16) };
    ($o:ident, $x:ident, i32) => { into!($o, $x, from: i32, i64, isize); into!($o, $x, try: i8, u8, i16, u16, u32, u64, usize) };
}

macro_rules! int_type {
    ($t:ident, $I:ident, $lo:literal, $hi:literal) => {{
        type T = RangedInt<$I, { $lo }, { $hi }>;
        let signed = <$I>::MIN as i128 != 0;
        let t: &J = $t;
        let n = number(t, "n");
        macro_rules! via {
            ($P:ty) => { match <$P>::try_from(n) {
                Ok(p) => Some(quiet(|| T::try_from(p).map_err(ierr))),
                Err(_) => None,
            } };
        }
        let r: Option<Result<Result<T, J>, String>> = match (t.str("v"), t.str("p")) {
            ("try", "u8") => via!(u8),
            ("try", "i8") => via!(i8),
            ("try", "u16") => via!(u16),
            ("try", "i16") => via!(i16),
            ("try", "u32") => via!(u32),
            ("try", "i32") => via!(i32),
            ("try", "u64") => via!(u64),
            ("try", "i64") => via!(i64),
            ("try", "usize") => via!(usize),
            ("try", "isize") => via!(isize),
            ("i32", _) => i32::try_from(n).ok().map(|p| quiet(|| T::try_from_i32(p).map_err(ierr))),
            ("i32!", _) => i32::try_from(n).ok().map(|p| quiet(|| Ok(T::from_i32(p)))),
            ("raw", _) => <$I>::try_from(n).ok().map(|p| quiet(|| T::try_from_underlying(p).map_err(ierr))),
            ("raw!", _) => <$I>::try_from(n).ok().map(|p| quiet(|| Ok(T::from_underlying(p)))),
            ("dec", _) => <$I>::try_from(n).ok().map(|p| quiet(|| {
                T::try_decode::<_, tedium::ByteParser>(p.to_be_bytes()).map_err(|e| match e {
                    tedium::conv::error::DecodeError::Parse(tedium::ParseError::External(
                        tedium::parse::error::ExternalError::IntRangeViolation(e))) => ierr(e),
                    _ => noerr("other"),
                })
            })),
            ("default", _) => Some(quiet(|| Ok(T::default()))),
            ("min", _) => Some(quiet(|| Ok(T::min_val()))),
            ("max", _) => Some(quiet(|| Ok(T::max_val()))),
            x => panic!("DRIVER: ranged integer {x:?}"),
        };
        let base = vec![("lo".to_string(), wide($lo)), ("hi".to_string(), wide($hi)),
                        ("w".to_string(), J::I(std::mem::size_of::<$I>() as i64)), ("sg".to_string(), J::B(signed))];
        let mut out = match r {
            None => vec![("got".to_string(), J::s("skip"))],
            Some(Err(_)) => vec![("got".to_string(), J::s("panic")), ("e".to_string(), noerr("panic"))],
            Some(Ok(Err(e))) => vec![("got".to_string(), J::s("err")), ("e".to_string(), e)],
            Some(Ok(Ok(x))) => {
                let num = |r: Result<i128, String>| r.map(wide).unwrap_or(J::A(vec![]));
                let mut o = Vec::new();
                all_into!(o, x, $I);
                let m = number(t, "n2");
                let other = i32::try_from(m).ok().and_then(|m| quiet(|| T::try_from_i32(m)).ok()).and_then(|y| y.ok());
                let c = other.map(|y| crate::list::compare(&x, &y)).unwrap_or((false, 9, 9, false));
                let text = |f: &dyn Fn() -> String| quiet(|| f()).unwrap_or_default();
                let v = fields(obj! {
                    "got": "ok", "v": num(quiet(|| x.to_i32() as i128)), "u": num(quiet(|| x.to_underlying() as i128)),
                    "into": J::A(o), "enc": quiet(|| x.to_bytes()).unwrap_or_default(),
                    "fx": text(&|| format!("{x:08x}")), "fu": text(&|| format!("{x:08X}")),
                    "fb": text(&|| format!("{x:032b}")), "fo": text(&|| format!("{x:011o}")),
                    "eq": c.0, "cmp": c.1, "pcmp": c.2, "hash": c.3,
                });
                v
            }
        };
        out.extend(base);
        J::O(out)
    }};
}

macro_rules! int_types {
    ($t:ident; $($k:literal => $I:ident $lo:literal $hi:literal),* $(,)?) => {
        match $t.int("ty") { $($k => int_type!($t, $I, $lo, $hi),)* x => panic!("DRIVER: ranged type {x}") }
    };
}

/// The bounds check itself, with bounds known only when it runs.
fn bound(t: &J) -> J {
    let (n, lo, hi) = (number(t, "n"), number(t, "lo"), number(t, "hi"));
    let mut r = None;
    macro_rules! go {
        ($($name:literal: $T:ty, $U:ty, $X:ty);* $(;)?) => { match t.str("v") {
            $($name => if let (Ok(n), Ok(lo), Ok(hi)) = (<$T>::try_from(n), <$U>::try_from(lo), <$U>::try_from(hi)) {
                r = Some(quiet(|| BoundsError::<$X>::restrict::<$T, $U>(n, lo, hi).map(|x| x as i128).map_err(ierr)));
            },)*
            x => panic!("DRIVER: bound {x}"),
        } };
    }
    go! {
        "u8": u8, i32, i32; "i8": i8, i8, i64; "u16": u16, u16, i128; "i16": i16, i32, i128;
        "u32": u32, i32, i32; "i32": i32, i32, i64; "u64": u64, i32, i64; "i64": i64, i16, i32;
        "usize": usize, u32, i128; "isize": isize, i64, i128; "i128": i128, i64, i128;
    }
    match r {
        None => obj! { "got": "skip" },
        Some(Err(_)) => obj! { "got": "panic" },
        Some(Ok(Err(e))) => obj! { "got": "err", "e": e },
        Some(Ok(Ok(x))) => obj! { "got": "ok", "v": wide(x) },
    }
}

fn fbound(t: &J) -> J {
    let f = |k: &str| f64::from_be_bytes(t.bytes(k).try_into().expect("DRIVER: double"));
    let (n, lo, hi) = (f("n"), f("lo"), f("hi"));
    let r = match t.str("v") {
        "f64" => quiet(|| BoundsError::restrict_float(n, lo, hi).map_err(ferr)),
        _ if (n as f32) as f64 == n => quiet(|| BoundsError::restrict_float(n as f32, lo, hi).map_err(ferr)),
        _ => return obj! { "got": "skip" },
    };
    match r {
        Err(_) => obj! { "got": "panic" },
        Ok(Err(e)) => obj! { "got": "err", "e": e },
        Ok(Ok(x)) => obj! { "got": "ok", "v": x.to_be_bytes().to_vec() },
    }
}

pub fn int_session(s: &J) -> J {
    steps(s, |t| if t.str("op") == "bound" { bound(t) } else { int_types! { t;
        0 => u8 0 255, 1 => u8 5 10, 2 => u8 1 255, 3 => u8 0 0, 4 => u8 1000 1200, 5 => i8 -128 127,
        6 => i8 -10 -3, 7 => i8 3 130, 8 => i8 -5 0, 9 => u16 0 65535, 10 => u16 300 60000, 11 => u16 65000 66000,
        12 => i16 -32768 32767, 13 => i16 -300 -200, 14 => i16 10 20000, 15 => u32 0 1073741823,
        16 => u32 1 1073741823, 17 => u32 70000 80000, 18 => i32 -1073741824 1073741823, 19 => i32 -70000 70000,
        20 => i32 -5 -5, 21 => i32 1000000 2000000, 22 => i32 -2147483648 2147483647, 23 => u32 0 2147483647,
        24 => u8 10 5, 25 => i16 3 -3, 26 => i32 -1 -2, 27 => u8 -5 300, 28 => i16 -40000 7, 29 => u16 2147483000 2147483647,
        30 => i8 0 127, 31 => u8 7 7, 32 => i32 1 1073741823, 33 => u32 100 50,
    } })
}

macro_rules! float_type {
    ($t:ident, $lo:expr, $hi:expr) => {{
        const LO: u64 = $lo;
        const HI: u64 = $hi;
        type T = RangedFloat<LO, HI>;
        let t: &J = $t;
        let x = f64::from_be_bytes(t.bytes("n").try_into().expect("DRIVER: double"));
        let y = x as f32;
        let fits = y as f64 == x || x.is_nan();
        let r: Option<Result<Result<T, J>, String>> = match t.str("v") {
            "try" => Some(quiet(|| T::try_from_f64(x).map_err(ferr))),
            "tryfrom" => Some(quiet(|| T::try_from(x).map_err(ferr))),
            "force" => Some(quiet(|| Ok(T::from_f64(x)))),
            "f32" if fits => Some(quiet(|| T::try_from(y).map_err(ferr))),
            "f32" => None,
            "dec" => Some(quiet(|| T::try_decode::<_, tedium::ByteParser>(x.to_be_bytes()).map_err(|e| match e {
                tedium::conv::error::DecodeError::Parse(tedium::ParseError::External(
                    tedium::parse::error::ExternalError::FloatRangeViolation(e))) => ferr(e),
                _ => noerr("other"),
            }))),
            "default" => Some(quiet(|| Ok(T::default()))),
            "MIN" => Some(quiet(|| Ok(T::MIN))),
            "MAX" => Some(quiet(|| Ok(T::MAX))),
            z => panic!("DRIVER: ranged float {z}"),
        };
        let be = |x: f64| J::from(x.to_be_bytes().to_vec());
        let pre = |r: Result<Result<f64, BoundsError<f64>>, String>| match r {
            Ok(Ok(v)) => obj! { "ok": true, "v": be(v) },
            _ => obj! { "ok": false, "v": J::A(vec![]) },
        };
        let mut pres = vec![pre(quiet(|| T::prevalidate_f64(x)))];
        if fits && !x.is_nan() {
            pres.push(pre(quiet(|| T::prevalidate_f32(y))));
        }
        let mut out = vec![("lo".to_string(), be(f64::from_bits(LO))), ("hi".to_string(), be(f64::from_bits(HI))),
                           ("pre".to_string(), J::A(pres))];
        match r {
            None => out.push(("got".into(), J::s("skip"))),
            Some(Err(_)) => out.extend([("got".into(), J::s("panic")), ("e".into(), noerr("panic"))]),
            Some(Ok(Err(e))) => out.extend([("got".into(), J::s("err")), ("e".into(), e)]),
            Some(Ok(Ok(v))) => {
                let f = fields(obj! {
                    "got": "ok", "v": J::A(vec![be(*v.as_f64()), be(f64::from(v)), J::from(v.to_bytes())]),
                    "valid": pre(quiet(|| v.get_validated())),
                });
                out.extend(f);
            }
        }
        J::O(out)
    }};
}

pub fn float_session(s: &J) -> J {
    steps(s, |t| if t.str("op") == "bound" { fbound(t) } else { match t.int("ty") {
        0 => float_type!(t, 0, 0x3ff0_0000_0000_0000),                              // [0, 1]
        1 => float_type!(t, 0xbff0_0000_0000_0000, 0x3ff0_0000_0000_0000),          // [-1, 1]
        2 => float_type!(t, 0xfff0_0000_0000_0000, 0x7ff0_0000_0000_0000),          // everything
        3 => float_type!(t, 0x3ff0_0000_0000_0000, 0xbff0_0000_0000_0000),          // empty
        4 => float_type!(t, 0x7ff8_0000_0000_0000, 0x3ff0_0000_0000_0000),          // not a number
        5 => float_type!(t, 0x4004_0000_0000_0000, 0x4004_0000_0000_0000),          // [2.5, 2.5]
        6 => float_type!(t, 0x8000_0000_0000_0000, 0),                              // [-0, 0]
        7 => float_type!(t, 0, 0x8000_0000_0000_0000),                              // [0, -0]
        8 => float_type!(t, 0x0000_0000_0000_0001, 0x3ff0_0000_0000_0000),          // from the smallest
        9 => float_type!(t, 0xc024_0000_0000_0000, 0xc014_0000_0000_0000),          // [-10, -5]
        10 => float_type!(t, 0x4014_0000_0000_0000, 0x4024_0000_0000_0000),         // [5, 10]
        11 => float_type!(t, 0xffef_ffff_ffff_ffff, 0x7fef_ffff_ffff_ffff),         // finite
        12 => float_type!(t, 0, 0x7ff8_0000_0000_0000),                             // up to NaN
        13 => float_type!(t, 0x3fb9_9999_9999_999a, 0x3fd3_3333_3333_3333),         // [0.1, 0.3]
        x => panic!("DRIVER: ranged float type {x}"),
    } })
}
