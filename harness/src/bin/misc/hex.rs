//! Hexadecimal conversion, comparison and printing; text as decoder input.
use crate::lists;
use std::borrow::Cow;
use tedium::error::HexConvError;
use tedium::parse::buffer::VecBuffer;
use tedium::{hex, Bytes, Decode, HexString, MemoParser, ByteParser};
use vh::{obj, quiet, J};

fn outcome(r: Result<Result<Vec<u8>, (&'static str, String)>, String>) -> J {
    match r {
        Ok(Ok(b)) => obj! { "ok": true, "b": b, "e": "-", "src": Vec::<u8>::new() },
        Ok(Err((k, s))) => obj! { "ok": false, "b": Vec::<u8>::new(), "e": k, "src": s.into_bytes() },
        Err(_) => obj! { "ok": false, "b": Vec::<u8>::new(), "e": "panic", "src": Vec::<u8>::new() },
    }
}
fn kind(e: HexConvError) -> (&'static str, String) {
    let _ = format!("{e} {e:?}");
    match e {
        HexConvError::OddParity(s) => ("odd", s),
        HexConvError::NonHex(s) => ("nonhex", s),
    }
}
fn dkind(e: tedium::conv::error::DecodeError) -> (&'static str, String) {
    match e {
        tedium::conv::error::DecodeError::Conv(e) => kind(e),
        _ => ("other", String::new()),
    }
}

fn raw(v: VecBuffer) -> Vec<u8> {
    v.get_slice(0, v.len()).to_vec()
}

pub fn step(t: &J) -> J {
    let v = t.str("v");
    match t.str("op") {
        "parse" => {
            let s = String::from_utf8(t.bytes("b")).expect("DRIVER: text");
            outcome(quiet(|| {
                let r = match v {
                    "fromhex" => HexString::from_hex(&s),
                    "fromhexs" => HexString::from_hex(s.clone()),
                    "str" => HexString::try_from(&s[..]),
                    "string" => HexString::try_from(s.clone()),
                    "box" => HexString::try_from(s.clone().into_boxed_str()),
                    "rc" => HexString::try_from(std::rc::Rc::<str>::from(&s[..])),
                    "arc" => HexString::try_from(std::sync::Arc::<str>::from(&s[..])),
                    "src" => { let x = std::rc::Rc::<str>::from(&s[..]); let y = x.clone(); let h = HexString::try_from(x); drop(y); h }
                    "sarc" => { let x = std::sync::Arc::<str>::from(&s[..]); let y = x.clone(); let h = HexString::try_from(x); drop(y); h }
                    "cow" => HexString::try_from(Cow::Borrowed(&s[..])),
                    "ocow" => HexString::try_from(Cow::<str>::Owned(s.clone())),
                    "parse" => s.parse::<HexString>(),
                    "macro" => Ok(hex!(&s)),
                    x => panic!("DRIVER: hex path {x}"),
                };
                r.map(|h| h.into_inner()).map_err(kind)
            }))
        }
        "input" => {
            let s = String::from_utf8(t.bytes("b")).expect("DRIVER: text");
            outcome(quiet(|| {
                let r = match v {
                    "str" => Bytes::try_decode::<_, ByteParser>(&s[..]),
                    "string" => Bytes::try_decode::<_, ByteParser>(s.clone()),
                    "cow" => Bytes::try_decode::<_, ByteParser>(Cow::Borrowed(&s[..])),
                    "memo" => Bytes::try_decode::<_, MemoParser>(&s[..]),
                    "hexs" => Bytes::try_decode::<_, ByteParser>(HexString::from(s.as_bytes())),
                    "vec" => Bytes::try_decode::<_, MemoParser>(s.as_bytes().to_vec()),
                    "buf" => return VecBuffer::try_from(&s[..]).map(raw).map_err(|e| dkind(e.into())),
                    x => panic!("DRIVER: hex input {x}"),
                };
                r.map(|b| b.into_vec()).map_err(dkind)
            }))
        }
        "eq" => {
            let s = String::from_utf8(t.bytes("b2")).expect("DRIVER: text");
            let h = HexString::from(t.bytes("b"));
            let r = quiet(|| {
                let c: Cow<str> = Cow::Borrowed(&s);
                let p: &str = &s;
                vec![h.eq_hex(p), h.eq_hex(&s), h.eq_hex(&c), h == p, p == h, h == s, s == h, h == c, c == h,
                     !(h != p), !(p != h), !(h != s), !(s != h)]
            });
            match r {
                Ok(v) => obj! { "ok": true, "is": J::A(v.into_iter().map(J::from).collect()) },
                Err(_) => obj! { "ok": false, "is": J::A(vec![]) },
            }
        }
        "print" => {
            let b = t.bytes("b");
            let r = quiet(|| {
                let h = crate::list::hexs(v, b);
                let d = format!("{h:?}");
                let d = d.strip_prefix("HexString(\"").and_then(|d| d.strip_suffix("\")")).unwrap_or("?").to_string();
                let x = h.to_hex();
                let back = [HexString::from_hex(&x), HexString::from_hex(x.to_uppercase()), x.parse()]
                    .into_iter().map(|r| r.map(|h| h.into_inner()).unwrap_or(vec![1, 2, 3])).collect();
                (vec![x, format!("{h}"), h.to_string(), d], back, h.eq_hex(&h.to_hex()))
            });
            match r {
                Ok((p, back, eq)) => obj! { "ok": eq, "is": J::A(p.into_iter().map(J::from).collect()), "back": lists(back) },
                Err(_) => obj! { "ok": false, "is": J::A(vec![]), "back": J::A(vec![]) },
            }
        }
        x => panic!("DRIVER: hex op {x}"),
    }
}
