//! Fixed-width byte and text containers, from any source.
use crate::list::compare;
use crate::lists;
use std::borrow::Borrow;
use tedium::error::WidthError;
use tedium::{FixedBytes, FixedString};
use vh::{cap, obj, quiet, J};

fn err(e: &WidthError) -> J {
    let (k, x, y) = match e {
        WidthError::WrongWidth { exact, actual } => ("width", cap(*exact), cap(*actual)),
        WidthError::TooWide { limit, actual } => ("wide", cap(*limit), cap(*actual)),
        WidthError::InvalidWidth { actual, .. } => ("invalid", 0, cap(*actual)),
    };
    obj! { "k": k, "x": x, "y": y, "m": vh::err::said_j(e) }
}
fn none(k: &str) -> J {
    obj! { "k": k, "x": 0i64, "y": 0i64, "m": J::A(vec![]) }
}

fn rec(ok: bool, e: J, views: Vec<Vec<u8>>, hex: String, text: Vec<Vec<u8>>, utf8: bool, c: (bool, i64, i64, bool)) -> J {
    obj! { "ok": ok, "e": e, "views": lists(views), "hex": hex, "text": lists(text), "utf8": utf8,
           "eq": c.0, "cmp": c.1, "pcmp": c.2, "hash": c.3 }
}
fn failed(e: J) -> J {
    rec(false, e, vec![], String::new(), vec![], false, (false, 0, 0, false))
}

pub fn step(t: &J) -> J {
    let n = t.int("n");
    let r = match t.str("op") {
        "bytes" => crate::sized!(n, N in [0, 1, 2, 3, 4, 5, 8, 16, 20, 21, 32, 33, 64] => quiet(|| fbytes::<N>(t))),
        "string" => crate::sized!(n, N in [0, 1, 2, 3, 4, 5, 8, 16, 20, 21, 32, 33, 64] => quiet(|| fstring::<N>(t))),
        x => panic!("DRIVER: fixed op {x}"),
    };
    r.unwrap_or_else(|_| failed(none("panic")))
}

fn other<const N: usize>(t: &J) -> [u8; N] {
    let b = t.bytes("b2");
    std::array::from_fn(|i| b.get(i).copied().unwrap_or(0))
}

fn fbytes<const N: usize>(t: &J) -> J {
    let b = t.bytes("b");
    let arr: Option<[u8; N]> = b.clone().try_into().ok();
    let r: Result<FixedBytes<N>, J> = match t.str("v") {
        "slice" => FixedBytes::try_from_slice(&b).map_err(|e| err(&e)),
        "tryfrom" => FixedBytes::try_from(&b[..]).map_err(|_| none("other")),
        v => match arr {
            None => Err(none("skip")),
            Some(a) => Ok(match v {
                "array" => FixedBytes::from_array(a),
                "aref" => FixedBytes::from_array_ref(&a),
                "from" => FixedBytes::from(a),
                "fref" => FixedBytes::from(&a),
                "mut" => { let mut x = FixedBytes::from([0; N]); *x.bytes_mut() = a; x }
                v => panic!("DRIVER: fixed bytes {v}"),
            }),
        },
    };
    match r {
        Err(e) => failed(e),
        Ok(mut x) => {
            let m = x.bytes_mut().to_vec();
            #[cfg(feature = "serde")]
            assert_eq!(vh::ser::bytes(&x), m);
            let views = vec![
                m, x.bytes().to_vec(), x.to_array().to_vec(), x.to_vec(), AsRef::<[u8; N]>::as_ref(&x).to_vec(),
                AsRef::<[u8]>::as_ref(&x).to_vec(), Borrow::<[u8; N]>::borrow(&x).to_vec(),
                Borrow::<[u8]>::borrow(&x).to_vec(), Vec::<u8>::from(x), <[u8; N]>::from(x).to_vec(),
                vec![x.len() as u8],
            ];
            rec(true, none("-"), views, format!("{x:x}"), vec![], false, compare(&x, &FixedBytes::from(other::<N>(t))))
        }
    }
}

fn fstring<const N: usize>(t: &J) -> J {
    let b = t.bytes("b");
    let arr: Option<[u8; N]> = b.clone().try_into().ok();
    let text = String::from_utf8(b.clone()).ok();
    let r: Result<FixedString<N>, J> = match (t.str("v"), arr, text) {
        ("bytes", ..) => FixedString::try_from_bytes(&b).map_err(|e| err(&e)),
        ("slice", ..) => FixedString::try_from(&b[..]).map_err(|e| err(&e)),
        ("str", _, Some(s)) => FixedString::try_from(&s[..]).map_err(|e| err(&e)),
        ("string", _, Some(s)) => FixedString::try_from(s).map_err(|e| err(&e)),
        ("parse", _, Some(s)) => s.parse::<FixedString<N>>().map_err(|e| err(&e)),
        ("array", Some(a), _) => FixedString::try_from_array(&a).map_err(|_| none("utf8")),
        ("from", Some(a), _) => Ok(FixedString::from(a)),
        ("fref", Some(a), _) => Ok(FixedString::from(&a)),
        _ => Err(none("skip")),
    };
    match r {
        Err(e) => failed(e),
        Ok(x) => {
            let utf8 = x.is_valid_utf8();
            let mut text = vec![x.as_string_lossy().as_bytes().to_vec(), format!("{x}").into_bytes()];
            if utf8 {
                text.push(unsafe { x.as_str_unchecked() }.as_bytes().to_vec());
            }
            let views = vec![tedium::Encode::to_bytes(&x), vec![x.len() as u8]];
            rec(true, none("-"), views, String::new(), text, utf8, compare(&x, &FixedString::from(other::<N>(t))))
        }
    }
}
