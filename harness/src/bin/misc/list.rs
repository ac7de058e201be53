//! Histories of one growable container: Bytes, Sequence, HexString.
use crate::bnd::Tok;
use crate::{lists, steps};
use std::borrow::Cow;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use std::io::Write;
use tedium::{seq, Bytes, HexString, Sequence, Target};
use vh::{obj, quiet, J};

enum R {
    Ok,
    Out(Vec<u8>),
    Cmp(bool, i64, i64, bool),
}

fn hash<T: Hash>(x: &T) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}
pub fn ord(o: Option<std::cmp::Ordering>) -> i64 {
    o.map(|o| o as i64).unwrap_or(9)
}
pub fn compare<T: Eq + Ord + Hash>(a: &T, b: &T) -> (bool, i64, i64, bool) {
    assert!((a == b) == !(a != b));
    (a == b, ord(Some(a.cmp(b))), ord(a.partial_cmp(b)), hash(a) == hash(b))
}

/// arrays of a few sizes
macro_rules! arr {
    ($b:expr, $a:ident => $e:expr, $o:expr) => {
        match $b.len() {
            0 => { let $a = <[u8; 0]>::try_from(&$b[..]).unwrap(); $e }
            1 => { let $a = <[u8; 1]>::try_from(&$b[..]).unwrap(); $e }
            2 => { let $a = <[u8; 2]>::try_from(&$b[..]).unwrap(); $e }
            3 => { let $a = <[u8; 3]>::try_from(&$b[..]).unwrap(); $e }
            5 => { let $a = <[u8; 5]>::try_from(&$b[..]).unwrap(); $e }
            9 => { let $a = <[u8; 9]>::try_from(&$b[..]).unwrap(); $e }
            20 => { let $a = <[u8; 20]>::try_from(&$b[..]).unwrap(); $e }
            33 => { let $a = <[u8; 33]>::try_from(&$b[..]).unwrap(); $e }
            40 => { let $a = <[u8; 40]>::try_from(&$b[..]).unwrap(); $e }
            64 => { let $a = <[u8; 64]>::try_from(&$b[..]).unwrap(); $e }
            _ => $o,
        }
    };
}

/// An iterator with a chosen size hint.
pub struct Lazy<T>(std::vec::IntoIter<T>, (usize, Option<usize>));
impl<T> Iterator for Lazy<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        self.0.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.1
    }
}
pub const HINTS: [&str; 4] = ["none", "low", "under", "over"];
pub fn lazy<T>(v: &str, b: Vec<T>) -> Lazy<T> {
    let n = b.len();
    Lazy(b.into_iter(), match v {
        "none" => (0, None),
        "low" => (0, Some(n)),
        "under" => (0, Some(0)),
        "over" => (n + 2, Some(n + 2)),
        _ => (n, Some(n)),
    })
}

fn bytes(v: &str, b: Vec<u8>) -> Bytes {
    let mut m = b.clone();
    match v {
        "new" => { let mut x = Bytes::new(); x.extend(b); x }
        "default" => { let mut x = Bytes::default(); AsMut::<Vec<u8>>::as_mut(&mut x).extend(b); x }
        "from" => Bytes::from(b),
        "slice" => Bytes::from(&b[..]),
        "mslice" => Bytes::from(&mut m[..]),
        "box" => Bytes::from(b.into_boxed_slice()),
        "iter" => b.into_iter().collect(),
        v if HINTS.contains(&v) => lazy(v, b).collect(),
        "arr" => arr!(b, a => Bytes::from(a), Bytes::from(b)),
        "rarr" => arr!(b, a => Bytes::from(&a), Bytes::from(b)),
        "marr" => arr!(b, a => { let mut a = a; Bytes::from(&mut a) }, Bytes::from(b)),
        _ => Bytes::from_vec(b),
    }
}

pub fn hexs(v: &str, b: Vec<u8>) -> HexString {
    match v {
        "new" => { let mut x = HexString::new(); x.extend(b); x }
        "default" => { let mut x = HexString::default(); x.extend(b.iter()); x }
        "from" => HexString::from(b),
        "slice" => HexString::from(&b[..]),
        "box" => HexString::from(b.into_boxed_slice()),
        "rc" => HexString::from(std::rc::Rc::<[u8]>::from(b)),
        "arc" => HexString::from(std::sync::Arc::<[u8]>::from(b)),
        "cow" => HexString::from(Cow::Borrowed(&b[..])),
        "ocow" => HexString::from(Cow::<[u8]>::Owned(b)),
        "iter" => b.into_iter().collect(),
        "riter" => b.iter().collect(),
        v if HINTS.contains(&v) => lazy(v, b).collect(),
        "clone" => HexString::clone_from_bytes(&b),
        "bytes" => HexString::from_bytes(b),
        "sbytes" => HexString::from_bytes(&b[..]),
        "arr" => arr!(b, a => HexString::from(a), HexString::from(b)),
        "rarr" => arr!(b, a => HexString::from(&a), HexString::from(b)),
        "barr" => arr!(b, a => HexString::from(Box::new(a)), HexString::from(b)),
        "rcarr" => arr!(b, a => HexString::from(std::rc::Rc::new(a)), HexString::from(b)),
        "arcarr" => arr!(b, a => HexString::from(std::sync::Arc::new(a)), HexString::from(b)),
        "src" => { let x = std::rc::Rc::<[u8]>::from(b); let y = x.clone(); let h = HexString::from(x); drop(y); h }
        "sarc" => { let x = std::sync::Arc::<[u8]>::from(b); let y = x.clone(); let h = HexString::from(x); drop(y); h }
        "srcarr" => arr!(b, a => { let x = std::rc::Rc::new(a); let y = x.clone(); let h = HexString::from(x); drop(y); h }, HexString::from(b)),
        "sarcarr" => arr!(b, a => { let x = std::sync::Arc::new(a); let y = x.clone(); let h = HexString::from(x); drop(y); h }, HexString::from(b)),
        "ocarr" => arr!(b, a => HexString::from(Cow::<[u8; _]>::Owned(a)), HexString::from(b)),
        "carr" => arr!(b, a => HexString::from(Cow::Borrowed(&a)), HexString::from(b)),
        "target" => { let mut x = HexString::create(); x.push_all(&b); x }
        _ => HexString::from_vec(b),
    }
}

fn seq8<T: Clone>(v: &str, b: Vec<T>) -> Sequence<T> {
    match v {
        "new" => { let mut x = Sequence::new(); x.extend(b); x }
        "default" => { let mut x = Sequence::default(); x.extend(b); x }
        "from" => Sequence::from(b),
        "iter" => b.into_iter().collect(),
        v if HINTS.contains(&v) => lazy(v, b).collect(),
        "macro" => match &b[..] {
            [] => seq![],
            [x] => seq![x.clone()],
            [x, y] => seq![x.clone(), y.clone()],
            [x, y, z] => seq![x.clone(), y.clone(), z.clone(),],
            _ => Sequence::from_vec(b),
        },
        _ => Sequence::from_vec(b),
    }
}

macro_rules! session {
    ($s:expr, $init:expr, $mk:expr, $f:expr) => {{
        let mut q = $init;
        let mut dead = false;
        steps($s, |t| {
            let r = quiet(|| $f(&mut q, t));
            let ok = r.is_ok();
            let (o, c) = match r {
                Ok(R::Out(o)) => (o, (false, 0, 0, false)),
                Ok(R::Cmp(a, b, c, d)) => (vec![], (a, b, c, d)),
                _ => (vec![], (false, 0, 0, false)),
            };
            let l = if dead { Err(String::new()) } else { quiet(|| $mk(&mut q)) };
            dead |= l.is_err();
            obj! { "ok": ok, "o": o, "eq": c.0, "cmp": c.1, "pcmp": c.2, "hash": c.3,
                   "s": lists(l.unwrap_or(vec![vec![], vec![0]])) }
        })
    }};
}

/// a range of indices, in one of its forms
fn range<'a, T>(q: &'a [T], v: &str, i: usize, j: usize) -> &'a [T] {
    match v {
        "to" => &q[..j],
        "from" => &q[i..],
        "incl" => &q[i..=j],
        "all" => &q[..],
        _ => &q[i..j],
    }
}

pub fn session(s: &J) -> J {
    match s.str("ty") {
        "bytes" => session!(s, Bytes::new(), |q: &mut Bytes| {
            let r: Vec<u8> = AsRef::<Vec<u8>>::as_ref(q).clone();
            let a: Vec<u8> = AsRef::<[u8]>::as_ref(q).to_vec();
            #[cfg(feature = "serde")]
            assert_eq!(vh::ser::bytes(q), r);
            vec![r, a, q.to_vec(), (&*q).into_iter().copied().collect(), q.iter().copied().collect(),
                 (&mut *q).into_iter().map(|x| *x).collect(), q.clone().into_vec(),
                 AsMut::<[u8]>::as_mut(q).to_vec(), q.clone().into_iter().collect(), Vec::from(q.clone()),
                 Box::<[u8]>::from(q.clone()).into_vec(), q.to_owned().into_iter().rev().collect::<Vec<u8>>().into_iter().rev().collect()]
        }, |q: &mut Bytes, t: &J| {
            let (b, v) = (t.bytes("b"), t.str("v"));
            match t.str("op") {
                "load" => { *q = bytes(v, b); R::Ok }
                "extend" if v == "vec" => { AsMut::<Vec<u8>>::as_mut(q).extend_from_slice(&b); R::Ok }
                "extend" => { q.extend(lazy(v, b)); R::Ok }
                "set" => {
                    let i = t.int("i") as usize;
                    match v {
                        "vec" => AsMut::<Vec<u8>>::as_mut(q)[i] = b[0],
                        "slice" => AsMut::<[u8]>::as_mut(q)[i] = b[0],
                        "iter" => *(&mut *q).into_iter().nth(i).expect("index") = b[0],
                        _ => q[i] = b[0],
                    }
                    R::Ok
                }
                "reverse" => { q.reverse(); R::Ok }
                "pop" => { AsMut::<Vec<u8>>::as_mut(q).pop(); R::Ok }
                "take" => {
                    let x = std::mem::take(q);
                    R::Out(match v {
                        "vec" => Vec::from(x),
                        "box" => Box::<[u8]>::from(x).into_vec(),
                        "iter" => x.into_iter().collect(),
                        _ => x.into_vec(),
                    })
                }
                "range" => R::Out(range(q, v, t.int("i") as usize, t.int("j") as usize).to_vec()),
                "cmp" => { let (a, c, p, h) = compare(q, &bytes(v, b)); R::Cmp(a, c, p, h) }
                x => panic!("DRIVER: list op {x}"),
            }
        }),
        "hexs" => session!(s, HexString::new(), |q: &mut HexString| {
            vec![q.as_bytes().to_vec(), q.as_vec().clone(), q.as_mut_bytes().to_vec(), q.as_mut_vec().clone(),
                 AsRef::<[u8]>::as_ref(q).to_vec(), AsMut::<[u8]>::as_mut(q).to_vec(), q.iter().copied().collect(),
                 (&*q).into_iter().copied().collect(), q.clone().into_inner(), q.clone().into_iter().collect(),
                 Vec::from(q.clone())]
        }, |q: &mut HexString, t: &J| {
            let (b, v) = (t.bytes("b"), t.str("v"));
            assert!(q.is_empty() == (q.len() == 0) && q.len() == q.as_bytes().len());
            match t.str("op") {
                "load" => { *q = hexs(v, b); R::Ok }
                "extend" => {
                    match v {
                        "vec" => q.as_mut_vec().extend_from_slice(&b),
                        "ref" => q.extend(b.iter()),
                        "write" => { q.write_all(&b).expect("write"); q.flush().expect("flush") }
                        "target" => { q.push_all(&b); q.resolve() }
                        _ => q.extend(lazy(v, b)),
                    }
                    R::Ok
                }
                "set" => {
                    let i = t.int("i") as usize;
                    match v {
                        "vec" => q.as_mut_vec()[i] = b[0],
                        "slice" => AsMut::<[u8]>::as_mut(q)[i] = b[0],
                        _ => q.as_mut_bytes()[i] = b[0],
                    }
                    R::Ok
                }
                "reverse" => { q.as_mut_bytes().reverse(); R::Ok }
                "pop" => { q.as_mut_vec().pop(); R::Ok }
                "take" => {
                    let x = std::mem::take(q);
                    R::Out(match v { "vec" => Vec::from(x), "iter" => x.into_iter().collect(), _ => x.into_inner() })
                }
                "range" => R::Out(range(q.as_bytes(), v, t.int("i") as usize, t.int("j") as usize).to_vec()),
                "cmp" => { let (a, c, p, h) = compare(q, &hexs(v, b)); R::Cmp(a, c, p, h) }
                x => panic!("DRIVER: list op {x}"),
            }
        }),
        "seq" => seq(s, |x| x, |x: &u8| *x),
        "seqtok" => seq(s, Tok::new, |x: &Tok| *x.0),
        x => panic!("DRIVER: list type {x}"),
    }
}

fn seq<T: Clone + Eq + Ord + Hash>(s: &J, mk: fn(u8) -> T, un: impl Fn(&T) -> u8 + Copy) -> J {
    let all = move |x: &[T]| x.iter().map(un).collect::<Vec<u8>>();
    session!(s, Sequence::<T>::new(), |q: &mut Sequence<T>| {
        vec![all(q.as_slice()), all(q.as_mut_slice()), all(AsRef::<[T]>::as_ref(q)), all(AsMut::<[T]>::as_mut(q)),
             all(&q[..]), q.iter().map(un).collect(), (&*q).into_iter().map(un).collect(),
             (&mut *q).into_iter().map(|x| un(x)).collect(), all(&q.clone().into_inner()),
             q.clone().into_iter().map(|x| un(&x)).collect(), all(&Vec::from(q.clone()))]
    }, |q: &mut Sequence<T>, t: &J| {
        let v = t.str("v");
        let b = || t.bytes("b").into_iter().map(mk).collect::<Vec<T>>();
        match t.str("op") {
            "load" => { *q = seq8(v, b()); R::Ok }
            "extend" => { q.extend(lazy(v, b())); R::Ok }
            "set" => {
                let i = t.int("i") as usize;
                let x = b().remove(0);
                match v {
                    "slice" => q.as_mut_slice()[i] = x,
                    "asmut" => AsMut::<[T]>::as_mut(q)[i] = x,
                    "iter" => *(&mut *q).into_iter().nth(i).expect("index") = x,
                    _ => { let d: &mut [T] = q; d[i] = x }
                }
                R::Ok
            }
            "reverse" => { q.reverse(); R::Ok }
            "pop" => { let mut x = std::mem::take(q).into_inner(); x.pop(); *q = Sequence::from(x); R::Ok }
            "take" => {
                let x = std::mem::take(q);
                let o: Vec<T> = match v { "vec" => Vec::from(x), "iter" => x.into_iter().collect(), _ => x.into_inner() };
                R::Out(all(&o))
            }
            "range" => {
                let (i, j) = (t.int("i") as usize, t.int("j") as usize);
                R::Out(match v {
                    "index" => vec![un(&q[i])],
                    "to" => all(&q[..j]),
                    "from" => all(&q[i..]),
                    "incl" => all(&q[i..=j]),
                    "all" => all(&q[..]),
                    _ => all(&q[i..j]),
                })
            }
            "cmp" => { let (a, c, p, h) = compare(q, &seq8(v, b())); R::Cmp(a, c, p, h) }
            x => panic!("DRIVER: list op {x}"),
        }
    })
}
