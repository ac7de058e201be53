//! Two segmented stores.
use crate::{lens, lists, steps};
use tedium::internal::SplitVec;
use vh::{expand, groups, obj, quiet, J};

type S = SplitVec<u8>;

/// "[|[1, 2]|[]|]" as lists
fn debug_groups(s: &str) -> J {
    let bad = || J::A(vec![J::A(vec![J::I(-1)])]);
    let Some(x) = s.strip_prefix("[|").and_then(|x| x.strip_suffix(']')) else { return bad() };
    let mut out = Vec::new();
    for g in x.split_terminator('|') {
        let Some(g) = g.strip_prefix('[').and_then(|g| g.strip_suffix(']')) else { return bad() };
        let v: Result<Vec<u8>, _> = if g.is_empty() { Ok(vec![]) } else { g.split(", ").map(|x| x.parse()).collect() };
        match v {
            Ok(v) => out.push(J::from(v)),
            Err(_) => return bad(),
        }
    }
    J::A(out)
}

fn look(s: &S) -> J {
    let fwd: Vec<Vec<u8>> = s.spans().map(|x| x.to_vec()).collect();
    let bwd: Vec<Vec<u8>> = s.spans().rev().map(|x| x.to_vec()).collect();
    let mut mix = Vec::new();
    let mut it = s.spans();
    let mut front = true;
    loop {
        let x = if front { it.clone().next().map(|_| it.next().unwrap()) } else { it.next_back() };
        match x {
            Some(x) => mix.push(x.to_vec()),
            None => break,
        }
        front = !front;
    }
    let (pb, pl) = s.clone().into_parts();
    let same = pb == s.clone().into_inner() && pb == Vec::<u8>::from(s.clone());
    let r: &Vec<u8> = s.as_ref();
    obj! {
        "b": r, "f": lists(fwd), "w": lists(bwd), "m": lists(mix), "len": s.len(), "empty": s.is_empty(),
        "contig": s.is_contiguous(), "bal": s.is_balanced(), "d": groups(&format!("{s}")),
        "g": debug_groups(&format!("{s:?}")), "pb": pb, "pl": lens(&pl), "same": same,
    }
}

fn blank() -> J {
    obj! { "b": J::A(vec![J::I(-1)]), "f": J::A(vec![]), "w": J::A(vec![]), "m": J::A(vec![]), "len": 0i64,
           "empty": false, "contig": false, "bal": false, "d": J::A(vec![]), "g": J::A(vec![]),
           "pb": J::A(vec![]), "pl": J::A(vec![]), "same": false }
}

fn hash(s: &S) -> u64 {
    use std::hash::{Hash, Hasher};
    let mut h = std::collections::hash_map::DefaultHasher::new();
    s.hash(&mut h);
    h.finish()
}

pub fn session(s: &J) -> J {
    let mut st = [S::new(), S::new()];
    let mut dead = false;
    steps(s, |t| {
        let w = t.int("w") as usize;
        let mut b = expand(t.bytes("b"));
        let r = quiet(|| {
            let bs: Vec<Vec<u8>> = t.get("bs").map(|x| x.arr().iter().map(|y| expand(y.as_bytes())).collect()).unwrap_or_default();
            match (t.str("op"), t.str("v")) {
                ("new", "default") => st[w] = S::default(),
                ("new", _) => st[w] = S::new(),
                ("load", "from") => st[w] = S::from(b),
                ("load", _) => st[w] = S::from_vec(b),
                ("split", _) => st[w].split(),
                ("force", _) => st[w].split_force(),
                ("cleave", _) => st[w].cleave(),
                ("push", _) => st[w].push_current(b[0]),
                ("ext", v) if crate::list::HINTS.contains(&v) => st[w].extend_current(crate::list::lazy(v, b)),
                ("ext", "iter") => st[w].extend_current(b),
                ("ext", "filter") => st[w].extend_current(b.into_iter().filter(|_| true)),
                ("ext", "append") => {
                    st[w].append_current(&mut b);
                    assert!(b.is_empty(), "the appended vector was not drained");
                }
                ("ext", _) => st[w].extend_current_from_slice(&b),
                ("concat", _) => {
                    let (x, y) = st.split_at_mut(1);
                    if w == 0 { x[0].concat(&mut y[0]) } else { y[0].concat(&mut x[0]) }
                }
                ("extend", v) => st[w].extend(crate::list::lazy(v, bs)),
                ("collect", v) => st[w] = crate::list::lazy(v, bs).collect(),
                ("clone", _) => st[w] = st[1 - w].clone(),
                ("swap", _) => st.swap(0, 1),
                (x, _) => panic!("DRIVER: seg op {x}"),
            }
        });
        dead |= r.is_err();
        let l = if dead { Err(String::new()) } else {
            quiet(|| (look(&st[0]), look(&st[1]), st[0] == st[1], hash(&st[0]) == hash(&st[1])))
        };
        dead |= l.is_err();
        match l {
            Ok((x, y, eq, h)) => obj! { "panic": false, "eq": eq, "hash": h, "s": vec![x, y] },
            Err(_) => obj! { "panic": true, "eq": false, "hash": false, "s": vec![blank(), blank()] },
        }
    })
}
