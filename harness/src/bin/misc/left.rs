//! Two reports of what a parser left over.
use crate::{lists, steps};
use tedium::internal::SplitVec;
use tedium::parse::cleanup::LeftoverState;
use vh::{groups, obj, quiet, J};

type L = LeftoverState;

fn look(l: &L) -> J {
    let (k, segs) = match l {
        L::Empty => ("empty", lists(vec![])),
        L::Windowless(v) => ("flat", lists(vec![v.clone()])),
        L::Windowed(s) => ("windowed", groups(&format!("{s}"))),
    };
    obj! { "k": k, "segs": segs, "len": l.len(), "empty": l.is_empty() }
}

fn hash(s: &L) -> u64 {
    use std::hash::{Hash, Hasher};
    let mut h = std::collections::hash_map::DefaultHasher::new();
    s.hash(&mut h);
    h.finish()
}

pub fn session(s: &J) -> J {
    let mut x = vec![L::new(), L::default()];
    steps(s, |t| {
        let w = t.int("w") as usize;
        let mut left = 0;
        let r = quiet(|| match t.str("op") {
            "new" => x[w] = if t.str("v") == "default" { L::default() } else { L::new() },
            "flat" => x[w] = L::Windowless(t.bytes("b")),
            "windowed" => x[w] = L::Windowed(SplitVec::from(t.bytes("b"))),
            "append" => {
                let mut b = t.bytes("b");
                x[w].append(&mut b);
                left = b.len();
            }
            "escape" => x[w].escape_context(),
            "clone" => x[w] = x[1 - w].clone(),
            "swap" => x.swap(0, 1),
            o => panic!("DRIVER: left {o}"),
        });
        let v = quiet(|| obj! { "x": look(&x[0]), "y": look(&x[1]), "eq": x[0] == x[1], "hash": hash(&x[0]) == hash(&x[1]) });
        let panic = r.is_err() || v.is_err();
        let blank = || obj! { "k": "", "segs": lists(vec![]), "len": 0i64, "empty": false };
        let v = v.unwrap_or_else(|_| obj! { "x": blank(), "y": blank(), "eq": false, "hash": false });
        obj! { "panic": panic, "left": left, "s": v }
    })
}
