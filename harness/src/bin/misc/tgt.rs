//! Every output target, written to in lockstep.
use crate::{lens, lists, steps};
use std::borrow::Borrow;
use std::io::Write;
use tedium::{Builder, HexString, MemoBuilder, StrictBuilder, Target};
use vh::{expand, groups, hex_units, obj, quiet, J};

struct All {
    v: Vec<u8>,
    s: StrictBuilder,
    m: MemoBuilder,
    h: HexString,
    k: std::io::Sink,
}

impl All {
    fn create() -> All {
        All { v: Vec::create(), s: StrictBuilder::create(), m: MemoBuilder::create(), h: HexString::create(),
              k: <std::io::Sink as Target>::create() }
    }
    fn of(b: &[u8], s: StrictBuilder, m: MemoBuilder) -> All {
        All { v: b.to_vec(), s, m, h: HexString::from(b), k: std::io::sink() }
    }
}

fn word(b: &[u8]) -> All {
    All::of(b, Builder::word(b[0]), Builder::word(b[0]))
}
fn words(b: &[u8]) -> All {
    crate::sized!(b.len(), N in [0, 1, 2, 3, 4, 8] => {
        let a = <[u8; N]>::try_from(b).unwrap();
        All::of(b, Builder::words(a), Builder::words(a))
    })
}

macro_rules! every {
    ($a:ident, $x:ident => $e:expr) => {{
        let $x = &mut $a.v; let n1: usize = $e;
        let $x = &mut $a.s; let n2: usize = $e;
        let $x = &mut $a.m; let n3: usize = $e;
        let $x = &mut $a.h; let n4: usize = $e;
        let $x = &mut $a.k; let n5: usize = $e;
        vec![n1, n2, n3, n4, n5]
    }};
}

fn look(a: &All) -> J {
    let bin = |r: Result<String, _>| match r {
        Ok(s) => obj! { "ok": true, "b": s.into_bytes() },
        Err::<_, std::string::FromUtf8Error>(e) => obj! { "ok": false, "b": e.into_bytes() },
    };
    let fin = a.m.clone().finalize();
    let bor: &[u8] = a.s.borrow();
    obj! {
        "v": &a.v,
        "views": lists(vec![a.s.clone().into_vec(), a.m.clone().into_vec(), a.h.clone().into_inner(), bor.to_vec(),
                            a.s.clone().finalize(), Vec::<u8>::from(fin.clone()), Vec::<u8>::from(a.s.clone()),
                            Vec::<u8>::from(a.m.clone()), a.h.as_bytes().to_vec(), Vec::<u8>::from(a.h.clone())]),
        "hex": J::A([a.s.clone().into_hex(), a.m.clone().into_hex(), a.h.to_hex(), format!("{}", a.h)]
                    .into_iter().map(|x| J::from(hex_units(x))).collect()),
        "bin": vec![bin(a.s.clone().into_bin()), bin(a.m.clone().into_bin())],
        "lens": lens(&[a.s.len(), a.m.len(), a.h.len(), Vec::len(&a.v)]),
        "empty": J::A(vec![a.s.is_empty().into(), a.m.is_empty().into(), a.h.is_empty().into()]),
        "md": groups(&format!("{}", a.m)), "mf": groups(&format!("{fin}")),
    }
}

type Before = (StrictBuilder, MemoBuilder, HexString);

fn keep(a: &All) -> Before {
    (a.s.clone(), a.m.clone(), a.h.clone())
}

/// the targets before a step against the targets after it
fn against(p: &Before, a: &All) -> J {
    use crate::list::{compare, ord};
    let (x, y) = (&p.0, &a.s);
    assert!((x == y) == !(x != y));
    let s = (x == y, ord(Some(x.cmp(y))), ord(x.partial_cmp(y)), true);
    let m = compare(&p.1, &a.m);
    let h = compare(&p.2, &a.h);
    let (x, y) = (&p.1.clone().finalize(), &a.m.clone().finalize());
    assert!((x == y) == !(x != y));
    let f = (x == y, ord(Some(x.cmp(y))), ord(x.partial_cmp(y)), true);
    let one = |(eq, c, p, hash): (bool, i64, i64, bool)| obj! { "eq": eq, "cmp": c, "pcmp": p, "hash": hash };
    obj! { "s": one(s), "m": one(m), "h": one(h), "f": one(f) }
}

pub fn session(s: &J) -> J {
    let mut a = All::create();
    let mut dead = false;
    steps(s, |t| {
        let b = expand(t.bytes("b"));
        let z = || vec![0usize; 5];
        let before = keep(&a);
        let r = quiet(|| match (t.str("op"), t.str("v")) {
            ("create", "new") => { a = All { m: MemoBuilder::new(), h: HexString::new(), ..All::create() }; z() }
            ("create", "default") => { a = All { m: MemoBuilder::default(), h: HexString::default(), ..All::create() }; z() }
            ("create", _) => { a = All::create(); z() }
            ("load", "word") => { a = word(&b); z() }
            ("load", "words") => { a = words(&b); z() }
            ("load", "promote") => {
                a = All::of(&b, StrictBuilder::promote(StrictBuilder::from(b.clone())), MemoBuilder::promote(b.clone()));
                z()
            }
            ("load", "slice") => { a = All::of(&b, StrictBuilder::from(&b[..]), MemoBuilder::from(&b[..])); z() }
            ("load", "empty") => { a = All::of(&[], Builder::empty(), Builder::empty()); z() }
            ("load", _) => { a = All::of(&b, StrictBuilder::from(b.clone()), MemoBuilder::from(b.clone())); z() }
            ("put", "one") => every!(a, x => x.push_one(b[0])),
            ("put", "many") => crate::sized!(b.len(), N in [0, 1, 2, 3, 4, 5, 8, 16, 20, 33] => {
                let arr = <[u8; N]>::try_from(&b[..]).unwrap();
                every!(a, x => x.push_many(arr))
            }),
            ("put", "write") => every!(a, x => x.write(&b).expect("write")),
            ("put", "writeall") => every!(a, x => { x.write_all(&b).expect("write"); b.len() }),
            ("put", "vectored") => {
                let (p, q) = b.split_at(b.len() / 2);
                every!(a, x => { x.write_all(p).expect("write"); x.write(q).expect("write") + p.len() })
            }
            ("put", _) => every!(a, x => x.push_all(&b)),
            ("hint", _) => every!(a, x => { x.anticipate(t.int("n") as usize); 0 }),
            ("mark", "zero") => every!(a, x => x.resolve_zero()),
            ("mark", "macro") => every!(a, x => tedium::resolve_zero!(x)),
            ("mark", "flush") => every!(a, x => { x.flush().expect("flush"); 0 }),
            ("mark", _) => every!(a, x => { x.resolve(); 0 }),
            (x, _) => panic!("DRIVER: tgt op {x}"),
        });
        dead |= r.is_err();
        let l = if dead { Err(String::new()) } else { quiet(|| (look(&a), against(&before, &a))) };
        match (r, l) {
            (Ok(n), Ok((l, c))) => obj! { "panic": false, "n": lens(&n), "s": l, "c": c },
            _ => obj! { "panic": true },
        }
    })
}
