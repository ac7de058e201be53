//! Histories of one wrapper around a number.
use crate::list::compare;
use crate::steps;
use std::borrow::Borrow;
use tedium::{u30, AutoBox, Dynamic, Nullable, Padded, VPadded};
use vh::{obj, quiet, J};

/// what a step gives: everything read, the outcome of a comparison, a text
struct R {
    o: Vec<i64>,
    c: (bool, i64, i64, bool),
    d: Vec<String>,
    p: Vec<String>,
    g: String,
}
fn ok() -> R {
    R { o: vec![], c: (false, 0, 0, false), d: vec![], p: vec![], g: String::new() }
}

macro_rules! session {
    ($s:expr, $init:expr, $look:expr, $f:expr) => {{
        let mut q = $init;
        steps($s, |t| {
            let x = t.int("x") as u16;
            let r = quiet(|| $f(&mut q, t, x));
            let good = r.is_ok();
            let r = r.unwrap_or_else(|_| ok());
            let l: Vec<i64> = quiet(|| $look(&mut q)).unwrap_or_else(|_| vec![-9]);
            obj! { "ok": good, "o": J::ints(r.o), "eq": r.c.0, "cmp": r.c.1, "pcmp": r.c.2, "hash": r.c.3,
                   "d": J::A(r.d.into_iter().map(J::from).collect()), "s": J::ints(l),
                   "p": J::A(r.p.into_iter().map(J::from).collect()), "g": r.g }
        })
    }};
}

macro_rules! dynamic {
    ($s:expr, $S:ty) => {
        session!($s, Dynamic::<$S, u16>::new(0), |q: &mut Dynamic<$S, u16>| {
            vec![*AsRef::<u16>::as_ref(q) as i64, *Borrow::<u16>::borrow(q) as i64, *q.as_mut() as i64, q.into_inner() as i64,
                 q.clone().into_inner() as i64]
        }, |q: &mut Dynamic<$S, u16>, t: &J, x: u16| match t.str("op") {
            "make" => { *q = if t.str("v") == "from" { Dynamic::from(x) } else { Dynamic::new(x) }; ok() }
            "set" => { *q.as_mut() = x; ok() }
            "cmp" => R { c: compare(q, &Dynamic::new(x)), ..ok() },
            "show" => R { d: vec![format!("{q}")], p: vec![format!("{q:>9}")], g: format!("{q:?}"), ..ok() },
            "size" => R { o: vec![q.length_prefix().map(|n| Into::<usize>::into(n) as i64).unwrap_or(-1)], ..ok() },
            x => panic!("DRIVER: cell op {x}"),
        })
    };
}

pub fn session(s: &J) -> J {
    match s.str("ty") {
        "dyn8" => dynamic!(s, u8),
        "dyn16" => dynamic!(s, u16),
        "dyn30" => dynamic!(s, u30),
        "pad" => session!(s, Padded::<u16, 3>::new(0), |q: &mut Padded<u16, 3>| {
            vec![*q.as_inner() as i64, *q.as_mut_inner() as i64, q.into_inner() as i64, q.clone().into_inner() as i64]
        }, |q: &mut Padded<u16, 3>, t: &J, x: u16| match t.str("op") {
            "make" => {
                *q = match t.str("v") {
                    "from" => Padded::from(x),
                    "with" => Padded::<u16, 9>::with_padding::<3>(x),
                    _ => Padded::new(x),
                };
                ok()
            }
            "set" => { *q.as_mut_inner() = x; ok() }
            "cmp" => R { c: compare(q, &Padded::new(x)), ..ok() },
            "show" => R { d: vec![], ..ok() },
            "size" => R { o: vec![q.padding() as i64, Padded::<u16, 3>::PADDING as i64, Padded::<u16, 3>::default().into_inner() as i64], ..ok() },
            x => panic!("DRIVER: cell op {x}"),
        }),
        "vpad" => session!(s, VPadded::<u16, 2>::new(0), |q: &mut VPadded<u16, 2>| {
            vec![q.into_inner() as i64, q.clone().into_inner() as i64]
        }, |q: &mut VPadded<u16, 2>, t: &J, x: u16| match t.str("op") {
            "make" | "set" => { *q = if t.str("v") == "from" { VPadded::from(x) } else { VPadded::new(x) }; ok() }
            "cmp" => R { c: compare(q, &VPadded::new(x)), ..ok() },
            "show" => R { d: vec![format!("{q:?}")], p: vec![format!("{q:9?}")], ..ok() },
            "size" => R { o: vec![VPadded::<u16, 2>::default().into_inner() as i64], ..ok() },
            x => panic!("DRIVER: cell op {x}"),
        }),
        "null" => {
            let get = |o: Option<u16>| o.map(|x| x as i64).unwrap_or(-1);
            let put = |x: i64| if x < 0 { None } else { Some(x as u16) };
            session!(s, Nullable::<u16>::from(0), |q: &mut Nullable<u16>| {
                assert!(q.is_some() != q.is_none());
                assert!(q.is_some() == q.as_inner().is_some());
                vec![get(*q.as_inner()), get(*q.as_mut_inner()), get(q.into_inner()), get(Option::<u16>::from(*q)),
                     get(q.clone().into_inner())]
            }, |q: &mut Nullable<u16>, t: &J, x: u16| match t.str("op") {
                "make" => {
                    *q = match (t.str("v"), t.int("x")) {
                        ("value", n) if n >= 0 => Nullable::from(x),
                        ("default", n) if n < 0 => Nullable::default(),
                        (_, n) => Nullable::from(put(n)),
                    };
                    ok()
                }
                "set" => { *q.as_mut_inner() = put(t.int("x")); ok() }
                "cmp" => R { c: compare(q, &Nullable::from(put(t.int("x")))), ..ok() },
                "show" => ok(),
                "size" => R { o: vec![q.is_some() as i64], ..ok() },
                x => panic!("DRIVER: cell op {x}"),
            })
        }
        "box" => session!(s, AutoBox::<u16>::new(0), |q: &mut AutoBox<u16>| {
            vec![*q.as_inner() as i64, *q.as_mut_inner() as i64, *AsRef::<u16>::as_ref(q) as i64, *AsMut::<u16>::as_mut(q) as i64,
                 **AsRef::<Box<u16>>::as_ref(q) as i64, **q.as_mut_boxed() as i64, q.clone().into_inner() as i64,
                 *q.clone().into_box() as i64]
        }, |q: &mut AutoBox<u16>, t: &J, x: u16| match t.str("op") {
            "make" => {
                *q = match t.str("v") {
                    "from" => AutoBox::from(x),
                    "fbox" => AutoBox::from(Box::new(x)),
                    "boxed" => AutoBox::from_boxed(Box::new(x)),
                    _ => AutoBox::new(x),
                };
                ok()
            }
            "set" => {
                match t.str("v") {
                    "boxed" => *q.as_mut_boxed() = Box::new(x),
                    "asmut" => *AsMut::<u16>::as_mut(q) = x,
                    _ => *q.as_mut_inner() = x,
                }
                ok()
            }
            "cmp" => R { c: compare(q, &AutoBox::new(x)), ..ok() },
            "show" => R { d: vec![format!("{q}"), format!("{q:?}")], p: vec![format!("{q:>9}"), format!("{q:9?}")], ..ok() },
            "size" => R { o: vec![AutoBox::<u16>::default().into_inner() as i64], ..ok() },
            x => panic!("DRIVER: cell op {x}"),
        }),
        x => panic!("DRIVER: cell type {x}"),
    }
}
