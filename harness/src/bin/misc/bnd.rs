//! Histories of one bounded sequence.
use crate::steps;
use std::cell::Cell;
use tedium::error::LengthError;
use tedium::{Encode, FixSeq, LimSeq, Target};
use vh::{cap, obj, quiet, J};

thread_local!(static LIVE: Cell<i64> = const { Cell::new(0) });

/// An element that is neither Copy nor inert: it counts how many exist.
#[derive(Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Tok(pub Box<u8>);
impl Tok {
    pub fn new(x: u8) -> Tok {
        LIVE.with(|l| l.set(l.get() + 1));
        Tok(Box::new(x))
    }
    pub fn live() -> i64 {
        LIVE.with(|l| l.get())
    }
}
impl Clone for Tok {
    fn clone(&self) -> Tok {
        Tok::new(*self.0)
    }
}
impl Drop for Tok {
    fn drop(&mut self) {
        LIVE.with(|l| l.set(l.get() - 1));
    }
}
impl Encode for Tok {
    fn write_to<U: Target>(&self, buf: &mut U) -> usize {
        buf.push_one(*self.0) + buf.resolve_zero()
    }
}

/// An iterator with a chosen size hint, that may never end.
struct It {
    b: Vec<u8>,
    i: usize,
    hint: (usize, Option<usize>),
    endless: bool,
}
impl Iterator for It {
    type Item = u8;
    fn next(&mut self) -> Option<u8> {
        vh::beat();
        self.i += 1;
        if self.endless {
            if self.i > 1_000_000 {
                std::process::exit(9);
            }
            return Some((self.i % 251) as u8);
        }
        self.b.get(self.i - 1).copied()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.hint
    }
}

fn iter(v: &str, b: Vec<u8>) -> It {
    let n = b.len();
    match v {
        "none" => It { b, i: 0, hint: (0, None), endless: false },
        "low" => It { b, i: 0, hint: (0, Some(n)), endless: false },
        // hints that are wrong
        "under" => It { b, i: 0, hint: (0, Some(0)), endless: false },
        "over" => It { b, i: 0, hint: (n + 2, Some(n + 2)), endless: false },
        "endless" => It { b, i: 0, hint: (0, None), endless: true },
        "huge" => It { b, i: 0, hint: (usize::MAX, None), endless: true },
        _ => It { b, i: 0, hint: (n, Some(n)), endless: false },
    }
}

fn err(e: &LengthError) -> J {
    let (x, y, z) = match e {
        LengthError::TooLong { limit, actual } => (*limit, *actual, 1i64),
        LengthError::WrongLength { exact, actual } => (*exact, *actual, 2i64),
    };
    obj! { "k": "length", "x": cap(x), "y": cap(y), "z": z, "m": vh::err::said_j(e) }
}
fn noerr(k: &str) -> J {
    obj! { "k": k, "x": 0i64, "y": 0i64, "z": 0i64, "m": J::A(vec![]) }
}

enum R {
    Ok,
    Out(Vec<u8>),
    Err(LengthError),
}

macro_rules! history {
    ($s:expr, $Seq:ident, $n:ident, $T:ty, $mk:expr, $un:expr, $full:expr) => {{
        let s: &J = $s;
        let mk = $mk;
        let un = $un;
        let base = Tok::live();
        let mut q: $Seq<$T, $n> = $Seq::new();
        let mut out = steps(s, |t| {
            let b = t.bytes("b");
            let v = t.str("v");
            let items = || b.iter().map(|x| mk(*x)).collect::<Vec<$T>>();
            let it = |b: &[u8]| iter(v, b.to_vec()).map(|x| mk(x));
            let r = quiet(|| match t.str("op") {
                "new" if v == "default" => { q = Default::default(); R::Ok }
                "new" => { q = $Seq::new(); R::Ok }
                "extend" => { q.extend(it(&b)); R::Ok }
                "collect" => { q = it(&b).collect(); R::Ok }
                "load" => {
                    let r = match v {
                        "slice" => { let x = items(); $Seq::<$T, $n>::try_from(&x[..]) }
                        _ => $Seq::<$T, $n>::try_from(items()),
                    };
                    match r { Ok(x) => { q = x; R::Ok } Err(e) => R::Err(e) }
                }
                "force" => { $full(&mut q, items()); R::Ok }
                "set" => { q[t.int("i") as usize] = mk(b[0]); R::Ok }
                "swap" => { q.swap(t.int("i") as usize, t.int("j") as usize); R::Ok }
                "reverse" => { q.reverse(); R::Ok }
                "clone" => { let c = q.clone(); assert!(c == q); q = c; R::Ok }
                "drain" => {
                    let x = std::mem::take(&mut q);
                    let o: Vec<$T> = match v {
                        "vec" => Vec::from(x),
                        "part" => { let mut i = x.into_iter(); let mut o = Vec::new(); o.extend(i.next()); o.extend(i.next()); o }
                        "rev" => { let mut o: Vec<$T> = x.into_iter().rev().collect(); o.reverse(); o }
                        _ => x.into_iter().collect(),
                    };
                    R::Out(o.iter().map(|x| un(x)).collect())
                }
                "iter" => {
                    let o: Vec<u8> = (&q).into_iter().map(|x| un(x)).collect();
                    let i: Vec<u8> = q.iter().map(|x| un(x)).collect();
                    assert!(o == i);
                    R::Out(o)
                }
                "encode" => {
                    let mut x = vec![7u8];
                    let k = q.write_to(&mut x);
                    assert!(k + 1 == x.len() && x[0] == 7);
                    R::Out(x[1..].to_vec())
                }
                x => panic!("DRIVER: bnd op {x}"),
            });
            let (ok, o, e) = match r {
                Ok(R::Ok) => (true, vec![], noerr("-")),
                Ok(R::Out(o)) => (true, o, noerr("-")),
                Ok(R::Err(e)) => (false, vec![], err(&e)),
                Err(_) => (false, vec![], noerr("panic")),
            };
            let live = if s.str("t") == "tok" { Tok::live() - base } else { q.len() as i64 };
            let items: Vec<u8> = q.iter().map(|x| un(x)).collect();
            obj! { "ok": ok, "o": o, "e": e, "s": items, "len": q.len(), "live": live }
        });
        drop(q);
        if let J::O(f) = &mut out {
            f.push(("left".into(), J::I(Tok::live() - base)));
        }
        out
    }};
}

pub fn session(s: &J) -> J {
    let n = s.int("n");
    match (s.str("ty"), s.str("t")) {
        ("lim", "tok") => crate::sized!(n, N in [0, 1, 2, 3, 5, 17] => history!(s, LimSeq, N, Tok, Tok::new, |x: &Tok| *x.0,
            |q: &mut LimSeq<Tok, N>, v| *q = LimSeq::from_vec(v))),
        ("lim", _) => crate::sized!(n, N in [0, 1, 2, 3, 5, 17] => history!(s, LimSeq, N, u8, |x| x, |x: &u8| *x,
            |q: &mut LimSeq<u8, N>, v| *q = LimSeq::from_vec(v))),
        ("fix", "tok") => crate::sized!(n, N in [0, 1, 2, 3, 5, 17] => history!(s, FixSeq, N, Tok, Tok::new, |x: &Tok| *x.0,
            |_: &mut FixSeq<Tok, N>, _| panic!("DRIVER: no force"))),
        ("fix", _) => crate::sized!(n, N in [0, 1, 2, 3, 5, 17] => history!(s, FixSeq, N, u8, |x| x, |x: &u8| *x,
            |_: &mut FixSeq<u8, N>, _| panic!("DRIVER: no force"))),
        x => panic!("DRIVER: bnd type {x:?}"),
    }
}
