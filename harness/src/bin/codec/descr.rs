//! Descriptions of the types under test: the schema of each as data, and its
//! values as flat sequences of integers (the specification's representation).
use num_bigint::{BigInt, BigUint, Sign};
use std::convert::TryFrom;
use tedium::conv::EncodeLength;
use tedium::dynamic::LenPref;
use tedium::int::Integral;
use tedium::*;
use vh::{err, obj, J};

pub struct Tok<'a> {
    pub v: &'a [i64],
    pub i: usize,
}
impl Tok<'_> {
    pub fn one(&mut self) -> i64 {
        let x = *self.v.get(self.i).unwrap_or_else(|| panic!("DRIVER: value too short {:?}", self.v));
        self.i += 1;
        x
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.one() as u8).collect()
    }
    pub fn arr<const N: usize>(&mut self) -> [u8; N] {
        let mut a = [0; N];
        a.iter_mut().for_each(|x| *x = self.one() as u8);
        a
    }
    pub fn prefixed(&mut self) -> Vec<u8> {
        let n = self.one() as usize;
        self.bytes(n)
    }
}

fn raw(o: &mut Vec<i64>, b: &[u8]) {
    o.extend(b.iter().map(|x| *x as i64));
}
fn prefixed(o: &mut Vec<i64>, b: &[u8]) {
    o.push(b.len() as i64);
    raw(o, b);
}

pub trait Descr: Sized {
    /// the schema as it appears inside other types
    fn sch() -> J;
    /// the schema in full
    fn def() -> J {
        Self::sch()
    }
    fn put(&self, o: &mut Vec<i64>);
    /// the value of these tokens; None if it cannot be built safely
    fn get(t: &mut Tok) -> Option<Self>;
    /// the announced length of a length-prefixed value
    fn prefix(&self) -> Option<J> {
        None
    }
}

impl Descr for () {
    fn sch() -> J {
        obj! {"k": "unit"}
    }
    fn put(&self, _: &mut Vec<i64>) {}
    fn get(_: &mut Tok) -> Option<Self> {
        Some(())
    }
}
impl Descr for bool {
    fn sch() -> J {
        obj! {"k": "bool"}
    }
    fn put(&self, o: &mut Vec<i64>) {
        o.push(*self as i64)
    }
    fn get(t: &mut Tok) -> Option<Self> {
        Some(t.one() != 0)
    }
}
macro_rules! ints {
    ($($t:ty),*) => {$(
        impl Descr for $t {
            #[allow(unused_comparisons)]
            fn sch() -> J {
                obj! {"k": "int", "w": std::mem::size_of::<$t>() as i64, "o": if <$t>::MIN < 0 { "i" } else { "u" }}
            }
            fn put(&self, o: &mut Vec<i64>) {
                let w = 8 * std::mem::size_of::<$t>() as u32;
                for i in (0..w / 8).rev() { o.push(((*self as i128) >> (8 * i)) as i64 & 255) }
            }
            fn get(t: &mut Tok) -> Option<Self> {
                let mut x: i128 = 0;
                for _ in 0..std::mem::size_of::<$t>() { x = x << 8 | t.one() as i128 }
                Some(x as $t)
            }
        }
    )*}
}
ints!(u8, i8, u16, i16, u32, i32, u64, i64);

impl Descr for f64 {
    fn sch() -> J {
        obj! {"k": "int", "w": 8i64, "o": "f"}
    }
    fn put(&self, o: &mut Vec<i64>) {
        self.to_bits().put(o)
    }
    fn get(t: &mut Tok) -> Option<Self> {
        Some(f64::from_bits(u64::get(t)?))
    }
}

impl<I, const MIN: i32, const MAX: i32> Descr for RangedInt<I, MIN, MAX>
where
    I: Integral + FixedLength,
    <I as TryFrom<i32>>::Error: std::fmt::Debug,
    <I as TryFrom<i64>>::Error: Into<std::num::TryFromIntError>,
{
    fn sch() -> J {
        let signed = I::try_from(-1i64).is_ok();
        obj! {"k": "rint", "w": std::mem::size_of::<I>() as i64, "s": signed,
        "lo": (MIN as i64).to_be_bytes().to_vec(), "hi": (MAX as i64).to_be_bytes().to_vec()}
    }
    fn put(&self, o: &mut Vec<i64>) {
        (self.to_i32() as i64).put(o)
    }
    fn get(t: &mut Tok) -> Option<Self> {
        let n = i32::try_from(i64::get(t)?).ok()?;
        vh::quiet(|| Self::try_from_i32(n).ok()).ok().flatten()
    }
}

impl<const A: u64, const B: u64> Descr for RangedFloat<A, B> {
    fn sch() -> J {
        obj! {"k": "rfloat", "lo": A.to_be_bytes().to_vec(), "hi": B.to_be_bytes().to_vec()}
    }
    fn put(&self, o: &mut Vec<i64>) {
        self.as_f64().put(o)
    }
    fn get(t: &mut Tok) -> Option<Self> {
        Self::try_from_f64(f64::get(t)?).ok()
    }
}

impl Descr for N {
    fn sch() -> J {
        obj! {"k": "N"}
    }
    fn put(&self, o: &mut Vec<i64>) {
        prefixed(o, &self.0.to_bytes_be())
    }
    fn get(t: &mut Tok) -> Option<Self> {
        Some(N(BigUint::from_bytes_be(&t.prefixed())))
    }
}
impl Descr for Z {
    fn sch() -> J {
        obj! {"k": "Z"}
    }
    fn put(&self, o: &mut Vec<i64>) {
        let (s, b) = self.0.to_bytes_be();
        o.push(match s {
            Sign::NoSign => 0,
            Sign::Plus => 1,
            Sign::Minus => 2,
        });
        prefixed(o, &b)
    }
    fn get(t: &mut Tok) -> Option<Self> {
        let s = match t.one() {
            0 => Sign::NoSign,
            1 => Sign::Plus,
            _ => Sign::Minus,
        };
        Some(Z(BigInt::from_bytes_be(s, &t.prefixed())))
    }
}

impl Descr for Vec<u8> {
    fn sch() -> J {
        obj! {"k": "bytes"}
    }
    fn put(&self, o: &mut Vec<i64>) {
        prefixed(o, self)
    }
    fn get(t: &mut Tok) -> Option<Self> {
        Some(t.prefixed())
    }
}
impl Descr for Bytes {
    fn sch() -> J {
        obj! {"k": "bytes"}
    }
    fn put(&self, o: &mut Vec<i64>) {
        prefixed(o, self)
    }
    fn get(t: &mut Tok) -> Option<Self> {
        Some(Bytes::from(t.prefixed()))
    }
}
impl Descr for String {
    fn sch() -> J {
        obj! {"k": "string"}
    }
    fn put(&self, o: &mut Vec<i64>) {
        prefixed(o, self.as_bytes())
    }
    fn get(t: &mut Tok) -> Option<Self> {
        String::from_utf8(t.prefixed()).ok()
    }
}
impl<const K: usize> Descr for FixedBytes<K> {
    fn sch() -> J {
        obj! {"k": "fix", "n": K as i64}
    }
    fn put(&self, o: &mut Vec<i64>) {
        raw(o, self.bytes())
    }
    fn get(t: &mut Tok) -> Option<Self> {
        Some(FixedBytes::from_array(t.arr()))
    }
}
impl<const K: usize> Descr for FixedString<K> {
    fn sch() -> J {
        obj! {"k": "fix", "n": K as i64}
    }
    fn put(&self, o: &mut Vec<i64>) {
        raw(o, &self.to_bytes())
    }
    fn get(t: &mut Tok) -> Option<Self> {
        FixedString::try_from_bytes(&t.bytes(K)).ok()
    }
}
impl<T: Descr> Descr for Option<T> {
    fn sch() -> J {
        obj! {"k": "opt", "t": T::sch()}
    }
    fn put(&self, o: &mut Vec<i64>) {
        match self {
            None => o.push(0),
            Some(x) => {
                o.push(1);
                x.put(o)
            }
        }
    }
    fn get(t: &mut Tok) -> Option<Self> {
        match t.one() {
            0 => Some(None),
            _ => Some(Some(T::get(t)?)),
        }
    }
}
impl<T: Descr + Clone> Descr for Nullable<T> {
    fn sch() -> J {
        obj! {"k": "null", "t": T::sch()}
    }
    fn put(&self, o: &mut Vec<i64>) {
        self.as_inner().put(o)
    }
    fn get(t: &mut Tok) -> Option<Self> {
        Some(Nullable::from(<Option<T> as Descr>::get(t)?))
    }
}
fn items<T: Descr>(t: &mut Tok) -> Option<Vec<T>> {
    let n = t.one();
    // every item, even after one that cannot be built
    let v: Vec<Option<T>> = (0..n).map(|_| T::get(t)).collect();
    v.into_iter().collect()
}
fn put_items<'a, T: Descr + 'a>(n: usize, v: impl Iterator<Item = &'a T>, o: &mut Vec<i64>) {
    o.push(n as i64);
    v.for_each(|x| x.put(o))
}
impl<T: Descr> Descr for Sequence<T> {
    fn sch() -> J {
        obj! {"k": "seq", "t": T::sch()}
    }
    fn put(&self, o: &mut Vec<i64>) {
        put_items(self.len(), self.iter(), o)
    }
    fn get(t: &mut Tok) -> Option<Self> {
        Some(Sequence::from_vec(items(t)?))
    }
}
impl<T: Descr, const K: usize> Descr for LimSeq<T, K> {
    fn sch() -> J {
        obj! {"k": "lim", "n": vh::cap(K), "t": T::sch()}
    }
    fn put(&self, o: &mut Vec<i64>) {
        put_items(self.len(), self.iter(), o)
    }
    fn get(t: &mut Tok) -> Option<Self> {
        LimSeq::try_from(items(t)?).ok()
    }
}
impl<T: Descr, const K: usize> Descr for FixSeq<T, K> {
    fn sch() -> J {
        obj! {"k": "fixseq", "n": vh::cap(K), "t": T::sch()}
    }
    fn put(&self, o: &mut Vec<i64>) {
        put_items(self.len(), self.iter(), o)
    }
    fn get(t: &mut Tok) -> Option<Self> {
        // built item by item, so that shorter ones can be built as well
        let v: Vec<T> = items(t)?;
        if v.len() > K {
            return None;
        }
        Some(v.into_iter().collect())
    }
}
impl<S: LenPref, T: Descr + Encode + Estimable> Descr for Dynamic<S, T> {
    fn sch() -> J {
        obj! {"k": "dyn", "p": S::LEN as i64, "t": T::sch()}
    }
    fn put(&self, o: &mut Vec<i64>) {
        AsRef::<T>::as_ref(self).put(o)
    }
    fn get(t: &mut Tok) -> Option<Self> {
        Some(Dynamic::new(T::get(t)?))
    }
    fn prefix(&self) -> Option<J> {
        Some(match self.length_prefix() {
            Ok(p) => obj! {"ok": true, "b": p.to_bytes(), "e": err::E::none().j()},
            Err(e) => obj! {"ok": false, "b": Vec::<u8>::new(), "e": err::width(&e).j()},
        })
    }
}
impl<T: Descr, const K: usize> Descr for Padded<T, K> {
    fn sch() -> J {
        obj! {"k": "pad", "n": vh::cap(K), "t": T::sch()}
    }
    fn put(&self, o: &mut Vec<i64>) {
        self.as_inner().put(o)
    }
    fn get(t: &mut Tok) -> Option<Self> {
        Some(Padded::new(T::get(t)?))
    }
}
impl<T: Descr + Clone, const K: usize> Descr for VPadded<T, K> {
    fn sch() -> J {
        obj! {"k": "vpad", "n": vh::cap(K), "t": T::sch()}
    }
    fn put(&self, o: &mut Vec<i64>) {
        self.clone().into_inner().put(o)
    }
    fn get(t: &mut Tok) -> Option<Self> {
        Some(VPadded::new(T::get(t)?))
    }
}
impl<T: Descr> Descr for AutoBox<T> {
    fn sch() -> J {
        obj! {"k": "box", "t": T::sch()}
    }
    fn put(&self, o: &mut Vec<i64>) {
        self.as_inner().put(o)
    }
    fn get(t: &mut Tok) -> Option<Self> {
        Some(AutoBox::new(T::get(t)?))
    }
}

macro_rules! fields {
    ($o:ident, $x:expr, $($f:tt),*) => { $( $x.$f.put($o); )* };
}
macro_rules! record {
    ($name:ident { $($f:tt : $t:ty),* }) => {
        impl Descr for $name {
            fn sch() -> J { obj! {"k": "ref", "n": stringify!($name)} }
            fn def() -> J {
                #[allow(unused_mut)]
                let mut v: Vec<J> = vec![];
                $( v.push(<$t as Descr>::sch()); )*
                obj! {"k": "struct", "f": J::A(v)}
            }
            #[allow(unused_variables)]
            fn put(&self, o: &mut Vec<i64>) { fields!(o, self, $($f),*); }
            #[allow(unused_variables)]
            fn get(t: &mut Tok) -> Option<Self> {
                Some($name { $( $f: <$t as Descr>::get(t)? ),* })
            }
        }
    };
}
/// what the declared tag set says, as far as the type can be asked
pub trait Tagged: Descr {
    fn queries(x: i64) -> J;
    fn tags() -> Vec<i64>;
    fn tagval(&self) -> i64;
}
macro_rules! enumeration {
    ($name:ident : $b:ty { $($v:ident = $d:expr),* }) => {
        impl Descr for $name {
            fn sch() -> J { obj! {"k": "ref", "n": stringify!($name)} }
            fn def() -> J {
                let w = std::mem::size_of::<$b>();
                obj! {"k": "enum", "w": w as i64,
                      "tags": J::A(vec![ $( J::bytes_of(&($d as u32).to_be_bytes()[4 - w..]) ),* ]),
                      "names": J::A(vec![ $( J::s(stringify!($v)) ),* ])}
            }
            #[allow(unused_assignments)]
            fn put(&self, o: &mut Vec<i64>) {
                let mut i = 0;
                $( if let $name::$v = self { o.push(i) } i += 1; )*
            }
            #[allow(unused_assignments)]
            fn get(t: &mut Tok) -> Option<Self> {
                let x = t.one();
                let mut i = 0;
                $( if i == x { return Some($name::$v) } i += 1; )*
                None
            }
        }
        impl Tagged for $name {
            fn queries(x: i64) -> J {
                use std::convert::TryFrom;
                let n = x as $b;
                let c = $name::try_from(n);
                let (ok, b, e) = match &c {
                    Ok(v) => (true, v.to_bytes(), err::E::none()),
                    Err(e) => (false, vec![], err::tag(e, std::mem::size_of::<$b>())),
                };
                obj! {"valid": $name::is_valid_tag(n), "name": $name::get_name(n).unwrap_or("-"),
                      "conv": 1i64, "ok": ok, "b": b, "e": e.j()}
            }
            fn tags() -> Vec<i64> { $name::iter_tags().map(|x| x as i64).collect() }
            fn tagval(&self) -> i64 { self.get_tagval() as i64 }
        }
    };
}
macro_rules! union {
    ($name:ident / $m:ident : $b:ty { $($d:expr => $v:ident { $($f:tt : $t:ty),* }),* }) => {
        impl Descr for $name {
            fn sch() -> J { obj! {"k": "ref", "n": stringify!($name)} }
            fn def() -> J {
                let w = std::mem::size_of::<$b>();
                let mut vs: Vec<J> = vec![];
                $( {
                    #[allow(unused_mut)]
                    let mut fs: Vec<J> = vec![];
                    $( fs.push(<$t as Descr>::sch()); )*
                    vs.push(J::A(fs));
                } )*
                obj! {"k": "union", "w": w as i64,
                      "tags": J::A(vec![ $( J::bytes_of(&($d as u32).to_be_bytes()[4 - w..]) ),* ]),
                      "names": J::A(vec![ $( J::s(stringify!($v)) ),* ]),
                      "v": J::A(vs)}
            }
            #[allow(unused_assignments, unused_variables)]
            fn put(&self, o: &mut Vec<i64>) {
                let mut i = 0;
                $( if let $name::$v(x) = self { o.push(i); fields!(o, x, $($f),*); } i += 1; )*
            }
            #[allow(unused_assignments, unused_variables)]
            fn get(t: &mut Tok) -> Option<Self> {
                let x = t.one();
                let mut i = 0;
                $( if i == x { return Some($name::$v($m::$v { $( $f: <$t as Descr>::get(t)? ),* })) } i += 1; )*
                None
            }
        }
        impl Tagged for $name {
            fn queries(x: i64) -> J {
                let n = x as $b;
                obj! {"valid": $name::is_valid_tag(n), "name": $name::get_name(n).unwrap_or("-"),
                      "conv": 0i64, "ok": false, "b": Vec::<u8>::new(), "e": err::E::none().j()}
            }
            fn tags() -> Vec<i64> { $name::iter_tags().map(|x| x as i64).collect() }
            fn tagval(&self) -> i64 { self.get_tagval() as i64 }
        }
    };
}
