//! The buffers underneath the parsers.
use crate::list::compare;
use crate::{lists, steps};
use std::borrow::Cow;
use std::convert::TryFrom;
use tedium::parse::buffer::{SliceBuffer, VecBuffer};
use tedium::HexString;
use vh::{cap, obj, quiet, size, J};

/// what an operation gives
fn out(b: Vec<u8>) -> (Vec<u8>, (bool, i64, i64, bool)) {
    (b, (false, 0, 0, false))
}

fn leak(b: Vec<u8>) -> &'static [u8] {
    Box::leak(b.into_boxed_slice())
}

fn slice(v: &str, b: Vec<u8>) -> SliceBuffer<'static> {
    match v {
        "static" => SliceBuffer::from_static(leak(b)),
        "from" => SliceBuffer::from(leak(b)),
        _ => SliceBuffer::new(leak(b)),
    }
}

fn vec(v: &str, b: Vec<u8>) -> VecBuffer {
    let text = String::from_utf8(b.clone()).ok();
    let hex = HexString::from(b.clone()).to_string();
    let _ = &hex;
    match (v, text) {
        ("slice", _) => VecBuffer::from(&b[..]),
        ("hex", _) => VecBuffer::from(HexString::from(b)),
        ("arr", _) if b.len() == 3 => VecBuffer::from([b[0], b[1], b[2]]),
        ("rarr", _) if b.len() == 2 => VecBuffer::from(&[b[0], b[1]]),
        #[cfg(not(feature = "hextext"))]
        ("str", Some(s)) => VecBuffer::try_from(&s[..]).unwrap(),
        #[cfg(not(feature = "hextext"))]
        ("string", Some(s)) => VecBuffer::try_from(s).unwrap(),
        #[cfg(not(feature = "hextext"))]
        ("rstring", Some(s)) => VecBuffer::try_from(&s).unwrap(),
        #[cfg(not(feature = "hextext"))]
        ("cow", Some(s)) => VecBuffer::try_from(Cow::Borrowed(&s[..])).unwrap(),
        #[cfg(feature = "hextext")]
        ("str", _) => VecBuffer::try_from(&hex[..]).unwrap(),
        #[cfg(feature = "hextext")]
        ("string" | "rstring", _) => VecBuffer::try_from(hex).unwrap(),
        #[cfg(feature = "hextext")]
        ("cow", _) => VecBuffer::try_from(Cow::Borrowed(&hex[..])).unwrap(),
        _ => VecBuffer::from(b),
    }
}

pub fn session(s: &J) -> J {
    let mut a = SliceBuffer::new(&[]);
    let mut z = VecBuffer::from(vec![]);
    let slices = s.str("ty") == "slice";
    steps(s, |t| {
        let (n, m) = (size(t.int("n")), size(t.int("m")));
        let r = quiet(|| match (slices, t.str("op")) {
            (true, "make") => { a = slice(t.str("v"), t.bytes("b")); out(vec![]) }
            (false, "make") => { z = vec(t.str("v"), t.bytes("b")); out(vec![]) }
            (true, "cut") => match a.cut_first() {
                Some((x, rest)) => { a = rest; out(vec![x]) }
                None => out(vec![]),
            },
            (true, "split") => {
                let (x, y) = a.split(n);
                let other = if t.str("v") == "head" { a = x; y } else { a = y; x };
                out(other.as_slice().to_vec())
            }
            (true, "take") => { let (x, rest) = a.take(n); a = rest; out(x.to_vec()) }
            (true, "cmp") => (vec![], compare(&a, &SliceBuffer::new(&t.bytes("b")))),
            (false, "get") => out(z.get_slice(n, m).to_vec()),
            (false, "byte") => out(vec![z.get_byte(n)]),
            (false, "clone") => { z = z.clone(); out(vec![]) }
            (false, "cmp") => (vec![], compare(&z, &VecBuffer::from(t.bytes("b")))),
            (_, o) => panic!("DRIVER: buffer {o}"),
        });
        let ok = r.is_ok();
        let (o, c) = r.unwrap_or_else(|_| out(vec![]));
        let (views, len, empty, debug) = if slices {
            (vec![a.as_slice().to_vec(), a.into_slice().to_vec(), a.clone().as_slice().to_vec()], a.len(), a.is_empty(), String::new())
        } else {
            let n = z.len();
            let all = quiet(|| z.get_slice(0, n).to_vec()).unwrap_or_default();
            let each = quiet(|| (0..n).map(|i| z.get_byte(i)).collect()).unwrap_or_default();
            (vec![all, each], n, z.is_empty(), format!("{z:?}"))
        };
        obj! { "ok": ok, "o": o, "s": lists(views), "len": cap(len), "empty": empty, "g": debug,
               "eq": c.0, "cmp": c.1, "pcmp": c.2, "hash": c.3 }
    })
}
