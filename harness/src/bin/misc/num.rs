//! Reading arbitrary-precision integers.
use crate::list::compare;
use num_bigint::{BigInt, BigUint, Sign};
use std::convert::TryFrom;
use tedium::{N, Z};
use vh::{obj, quiet, J};

fn wide(n: i128) -> J {
    J::from(n.to_be_bytes().to_vec())
}
fn nat(t: &J, k: &str) -> BigUint {
    BigUint::from_bytes_be(&t.bytes(k))
}
fn int(t: &J, k: &str, sg: &str) -> BigInt {
    let s = [Sign::NoSign, Sign::Plus, Sign::Minus][t.int(sg) as usize];
    BigInt::from_biguint(s, nat(t, k))
}
fn nat_j(n: &BigUint) -> J {
    obj! { "sg": (n.bits() > 0) as i64, "b": n.to_bytes_be() }
}
fn int_j(n: &BigInt) -> J {
    let (s, b) = n.to_bytes_be();
    obj! { "sg": match s { Sign::NoSign => 0i64, Sign::Plus => 1, Sign::Minus => 2 }, "b": b }
}

macro_rules! into {
    ($o:ident, $x:ident, $($f:ty),*) => { $(
        $o.push(match quiet(|| <$f>::try_from($x.clone())) {
            Ok(Ok(n)) => obj! { "p": stringify!($f), "ok": true, "b": wide(n as i128) },
            Ok(Err(_)) => obj! { "p": stringify!($f), "ok": false, "b": J::A(vec![]) },
            Err(_) => obj! { "p": stringify!($f), "ok": false, "b": J::A(vec![0i64.into()]) },
        });
    )* };
}

macro_rules! read {
    ($T:ident, $B:ident, $make:expr, $other:expr, $show:ident, $($p:ty),*) => {{
        let r = quiet(|| {
            let (n, m): ($B, $B) = ($make, $other);
            let x = $T::new(n.clone());
            let mut into = Vec::new();
            into!(into, x, $($p),*);
            let vals = vec![
                $show(x.as_inner()), $show(&x.clone().into_inner()), $show(&x.0), $show(&*x), $show(&$B::from(x.clone())),
                $show(&$T(n.clone()).0), $show(&$T::new(n.clone()).clone().0),
            ];
            let mut t = $T::default();
            let zero = $show(&t.0);
            t.0 = n.clone();
            let c = compare(&t, &$T(m));
            obj! { "ok": true, "vals": J::A(vals), "zero": zero, "into": J::A(into), "d": format!("{x}"),
                   "pad": format!("{x:>30}"), "plus": format!("{x:+}"),
                   "g": format!("{x:?}").chars().filter(|c| c.is_ascii()).collect::<String>(),
                   "bits": x.bits() as i64, "eq": c.0, "cmp": c.1, "pcmp": c.2, "hash": c.3 }
        });
        r.unwrap_or_else(|_| obj! { "ok": false })
    }};
}

pub fn step(t: &J) -> J {
    match t.str("op") {
        "nat" => read!(N, BigUint, nat(t, "b"), nat(t, "b2"), nat_j, u8, u16, u32, u64),
        "int" => read!(Z, BigInt, int(t, "b", "sg"), int(t, "b2", "sg2"), int_j, u8, u16, u32, u64, i8, i16, i32, i64),
        x => panic!("DRIVER: number {x}"),
    }
}
