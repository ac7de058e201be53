//! The types the codec checks work on.
use crate::descr::*;
use tedium::*;
use vh::{err, obj, J};

/// a bound beyond everything that fits into memory, if it is not an array
#[cfg(not(feature = "arrays"))]
pub const VAST: usize = 1 << 62;
#[cfg(feature = "arrays")]
pub const VAST: usize = 2000;

macro_rules! f {
    ($a:expr, $b:expr) => { tedium::RangedF64!($a, $b) };
}

// -- products ---------------------------------------------------------------
#[derive(Encode, Decode, Estimable, Clone, Debug, PartialEq, PartialOrd, Hash)]
pub struct Empty;
record!(Empty {});

#[derive(Encode, Decode, Estimable, Clone, Debug, PartialEq, PartialOrd, Hash)]
pub struct Single(pub u16);
record!(Single { 0: u16 });

#[derive(Encode, Decode, Estimable, Clone, Debug, PartialEq, PartialOrd, Hash)]
pub struct Wrapped {
    pub inner: Dynamic<u8, Bytes>,
}
record!(Wrapped { inner: Dynamic<u8, Bytes> });

#[derive(Encode, Decode, Estimable, Clone, Debug, PartialEq, PartialOrd, Hash)]
pub struct Pair(pub u8, pub u16);
record!(Pair { 0: u8, 1: u16 });

#[derive(Encode, Decode, FixedLength, Clone, Debug, PartialEq, PartialOrd, Hash)]
pub struct Point {
    pub x: i16,
    pub y: i16,
    pub z: u8,
}
record!(Point { x: i16, y: i16, z: u8 });

#[derive(Encode, Decode, Estimable, Clone, Debug, PartialEq, PartialOrd, Hash)]
pub struct Mixed {
    pub a: Option<u16>,
    pub b: Dynamic<u8, Sequence<Pair>>,
    pub c: bool,
    pub d: N,
    pub e: Nullable<Bytes>,
}
record!(Mixed { a: Option<u16>, b: Dynamic<u8, Sequence<Pair>>, c: bool, d: N, e: Nullable<Bytes> });

/// a reserved tail and what it is reserved for
#[derive(Encode, Decode, Estimable, Clone, Debug, PartialEq, PartialOrd, Hash)]
pub struct Signed {
    pub body: VPadded<Bytes, 4>,
    pub sig: FixedBytes<4>,
}
record!(Signed { body: VPadded<Bytes, 4>, sig: FixedBytes<4> });

#[derive(Encode, Decode, Estimable, Clone, Debug, PartialEq, PartialOrd, Hash)]
pub struct Trailer {
    pub head: u8,
    pub body: VPadded<Sequence<u16>, 2>,
    pub tail: u16,
}
record!(Trailer { head: u8, body: VPadded<Sequence<u16>, 2>, tail: u16 });

#[derive(Encode, Decode, Estimable, Clone, Debug, PartialEq, PartialOrd, Hash)]
pub struct Shell {
    pub level: i32,
    pub proto: u8,
    pub predecessor: FixedBytes<32>,
    pub timestamp: i64,
    pub validation_pass: u8,
    pub fitness: Dynamic<u30, Sequence<Dynamic<u30, Bytes>>>,
    pub context: FixedBytes<32>,
}
record!(Shell { level: i32, proto: u8, predecessor: FixedBytes<32>, timestamp: i64, validation_pass: u8,
    fitness: Dynamic<u30, Sequence<Dynamic<u30, Bytes>>>, context: FixedBytes<32> });

#[derive(Encode, Decode, Estimable, Clone, Debug, PartialEq, PartialOrd, Hash)]
pub struct Transfer {
    pub source: KeyHash,
    pub fee: N,
    pub counter: N,
    pub amount: Z,
    pub destination: Contract,
    pub parameters: Option<Params>,
}
record!(Transfer { source: KeyHash, fee: N, counter: N, amount: Z, destination: Contract, parameters: Option<Params> });

#[derive(Encode, Decode, Estimable, Clone, Debug, PartialEq, PartialOrd, Hash)]
pub struct Params {
    pub entrypoint: Dynamic<u8, LimSeq<u8, 6>>,
    pub value: Dynamic<u30, Bytes>,
}
record!(Params { entrypoint: Dynamic<u8, LimSeq<u8, 6>>, value: Dynamic<u30, Bytes> });

/// wider than a byte can count
#[derive(Encode, Decode, Estimable, Clone, Debug, PartialEq, PartialOrd, Hash)]
pub struct Broad {
    pub a: FixedBytes<255>,
    pub b: u8,
    pub c: u16,
}
record!(Broad { a: FixedBytes<255>, b: u8, c: u16 });

#[derive(Encode, Decode, Estimable, Clone, Debug, PartialEq, PartialOrd, Hash)]
pub struct Many(pub u8, pub bool, pub Option<u8>, pub i16, pub N, pub Single, pub u8, pub Sparse, pub Padded<u8, 1>, pub u64);
record!(Many { 0: u8, 1: bool, 2: Option<u8>, 3: i16, 4: N, 5: Single, 6: u8, 7: Sparse, 8: Padded<u8, 1>, 9: u64 });

// -- enumerations -----------------------------------------------------------
tedium::cstyle!(Sparse, u8, { Zero = 0, Seven = 7, Top = 255, Mid = 128 });
enumeration!(Sparse: u8 { Zero = 0, Seven = 7, Top = 255, Mid = 128 });
tedium::cstyle!(Single8, u8, { Only = 3 });
enumeration!(Single8: u8 { Only = 3 });
tedium::cstyle!(Wide, u16, { A = 1, B = 256, C = 65535 });
enumeration!(Wide: u16 { A = 1, B = 256, C = 65535 });
tedium::cstyle!(Huge, u32, { Lo = 0, Hi = 0x0102_0304, Max = 0x3fff_ffff });
enumeration!(Huge: u32 { Lo = 0, Hi = 0x0102_0304, Max = 0x3fff_ffff });

tedium::cstyle!(Lots, u8, { A = 9, B = 8, C = 7, D = 100, E = 5, F = 200, G = 3, H = 2, I = 1, J = 0, K = 17, L = 33 });
enumeration!(Lots: u8 { A = 9, B = 8, C = 7, D = 100, E = 5, F = 200, G = 3, H = 2, I = 1, J = 0, K = 17, L = 33 });

// -- unions -----------------------------------------------------------------
tedium::data!(Shape, u8, shape, {
    0 => Nothing (), 2 => Dot (pub u8, pub i16), 128 => Line { pub from : Pair, pub to : Pair },
    255 => Text (pub Dynamic<u8, String>)
});
union!(Shape / shape: u8 { 0 => Nothing {}, 2 => Dot { 0: u8, 1: i16 }, 128 => Line { from: Pair, to: Pair },
    255 => Text { 0: Dynamic<u8, String> } });

tedium::data!(WideU, u16, wideu, { 0 => Z0 (pub Z), 258 => Opt { pub o : Option<N> }, 65535 => Rest (pub Bytes) });
union!(WideU / wideu: u16 { 0 => Z0 { 0: Z }, 258 => Opt { o: Option<N> }, 65535 => Rest { 0: Bytes } });

tedium::data!(OneWay, u8, oneway, { 9 => Alone (pub Bytes) });
union!(OneWay / oneway: u8 { 9 => Alone { 0: Bytes } });

tedium::data!(Quad, u32, quad, { 7 => Small (pub u8), 65543 => Other (pub u16), 16777216 => Far { pub x : Single, pub y : bool } });
union!(Quad / quad: u32 { 7 => Small { 0: u8 }, 65543 => Other { 0: u16 }, 16777216 => Far { x: Single, y: bool } });

tedium::data!(KeyHash, u8, keyhash, { 0 => Ed (pub FixedBytes<20>), 1 => Secp (pub FixedBytes<20>), 2 => P256 (pub FixedBytes<20>) });
union!(KeyHash / keyhash: u8 { 0 => Ed { 0: FixedBytes<20> }, 1 => Secp { 0: FixedBytes<20> }, 2 => P256 { 0: FixedBytes<20> } });

tedium::data!(Contract, u8, contract, { 0 => Implicit (pub KeyHash), 1 => Originated (pub Padded<FixedBytes<20>, 1>) });
union!(Contract / contract: u8 { 0 => Implicit { 0: KeyHash }, 1 => Originated { 0: Padded<FixedBytes<20>, 1> } });

// -- recursive --------------------------------------------------------------
tedium::data!(List, u8, list, { 0 => Nil (), 1 => Cons (pub u8, pub AutoBox<List>) });
union!(List / list: u8 { 0 => Nil {}, 1 => Cons { 0: u8, 1: AutoBox<List> } });
tedium::data!(Tree, u8, tree, { 0 => Leaf (pub N), 5 => Node (pub Dynamic<u8, Sequence<AutoBox<Tree>>>) });
union!(Tree / tree: u8 { 0 => Leaf { 0: N }, 5 => Node { 0: Dynamic<u8, Sequence<AutoBox<Tree>>> } });

pub type F1 = f!(0.0, 100.0);
pub type F2 = f!(-1.5, 1.5);
pub type F3 = f!(f64::NEG_INFINITY, f64::INFINITY);
pub type F4 = f!(0.0, 0.0);
pub type F5 = f!(2.0, 1.0);
pub type F6 = f!(f64::NAN, 1.0);
pub type F7 = f!(-0.0, 0.1);
pub type F8 = f!(-100.0, -0.5);

#[macro_export]
macro_rules! registry {
    ($m:ident) => {{
        $m! {
            "unit" => (), "bool" => bool, "u8" => u8, "i8" => i8, "u16" => u16, "i16" => i16,
            "u32" => u32, "i32" => i32, "u64" => u64, "i64" => i64, "f64" => f64,
            "u30" => u30, "i31" => i31,
            "r8" => RangedInt<u8, 0, 10>, "ri8" => RangedInt<i8, -5, 5>, "r8p" => RangedInt<u8, 1, 10>,
            "r8far" => RangedInt<u8, 256, 511>, "ri8p" => RangedInt<i8, 100, 227>,
            "r16p" => RangedInt<u16, 1000, 2000>, "ri16n" => RangedInt<i16, -300, -10>,
            "r32zero" => RangedInt<u32, 0, 0>, "ri32one" => RangedInt<i32, 7, 7>,
            "ri16full" => RangedInt<i16, -32768, 32767>, "r8full" => RangedInt<u8, 0, 255>,
            "ri32wide" => RangedInt<i32, { i32::MIN }, { i32::MAX }>,
            "r32top" => RangedInt<u32, 1, { i32::MAX }>,
            "r8inv" => RangedInt<u8, 10, 5>, "ri8inv" => RangedInt<i8, 5, -5>, "ri16inv" => RangedInt<i16, -1, -2>,
            "f1" => F1, "f2" => F2, "f3" => F3, "f4" => F4, "f5" => F5, "f6" => F6, "f7" => F7, "f8" => F8,
            "N" => N, "Z" => Z, "vec" => Vec<u8>, "Bytes" => Bytes, "String" => String,
            "fb0" => FixedBytes<0>, "fb1" => FixedBytes<1>, "fb4" => FixedBytes<4>, "fb20" => FixedBytes<20>,
            "fs0" => FixedString<0>, "fs3" => FixedString<3>, "fs8" => FixedString<8>,
            "opt8" => Option<u8>, "optunit" => Option<()>, "optBytes" => Option<Bytes>, "optopt" => Option<Option<bool>>,
            "null16" => Nullable<u16>, "nullBytes" => Nullable<Bytes>, "nullopt" => Nullable<Option<u8>>,
            "seq8" => Sequence<u8>, "seq16" => Sequence<u16>, "seqN" => Sequence<N>, "seqopt" => Sequence<Option<u8>>,
            "seqdyn" => Sequence<Dynamic<u8, Bytes>>, "seqbytes" => Sequence<Bytes>, "sequnit" => Sequence<()>,
            "lim0" => LimSeq<u8, 0>, "lim3" => LimSeq<u8, 3>, "lim2x16" => LimSeq<u16, 2>, "limN" => LimSeq<N, 3>,
            "limdyn" => LimSeq<Dynamic<u8, String>, 2>,
            "fix0" => FixSeq<u8, 0>, "fix1" => FixSeq<u16, 1>, "fix3" => FixSeq<u8, 3>, "fixN" => FixSeq<N, 2>,
            "fixopt" => FixSeq<Option<u8>, 2>, "fixdyn" => FixSeq<Dynamic<u8, Bytes>, 2>,
            "d8bytes" => Dynamic<u8, Bytes>, "d16bytes" => Dynamic<u16, Bytes>, "d30bytes" => Dynamic<u30, Bytes>,
            "d8str" => Dynamic<u8, String>, "d8u16" => Dynamic<u8, u16>, "d8N" => Dynamic<u8, N>,
            "d8null" => Dynamic<u8, Nullable<u16>>, "d8seq" => Dynamic<u8, Sequence<u16>>,
            "d8lim" => Dynamic<u8, LimSeq<u8, 3>>, "d8fix" => Dynamic<u8, FixSeq<u16, 2>>,
            "d16d8" => Dynamic<u16, Dynamic<u8, Bytes>>, "d8d8seq" => Dynamic<u8, Sequence<Dynamic<u8, Bytes>>>,
            "d8unit" => Dynamic<u8, ()>, "d8vpad" => Dynamic<u8, VPadded<Bytes, 0>>, "d30N" => Dynamic<u30, N>,
            "d8signed" => Dynamic<u8, Signed>, "d8opt" => Dynamic<u8, Option<bool>>, "d30seqd" => Dynamic<u30, Sequence<Dynamic<u16, N>>>,
            "pad8" => Padded<u8, 3>, "pad0" => Padded<u16, 0>, "padpad" => Padded<Padded<u8, 1>, 2>,
            "padr" => Padded<RangedInt<u8, 1, 10>, 2>, "padfix" => Padded<FixSeq<u8, 2>, 1>, "optpad" => Option<Padded<bool, 2>>,
            "seqpad" => Sequence<Padded<u8, 1>>, "d8pad" => Dynamic<u8, Padded<u8, 2>>,
            "vpad0" => VPadded<Bytes, 0>, "vpad2" => VPadded<Bytes, 2>, "vpadu8" => VPadded<u8, 3>, "vpadseq" => VPadded<Sequence<u16>, 1>,
            "vpadvpad" => VPadded<VPadded<Bytes, 1>, 2>, "vpadnull" => VPadded<Nullable<u8>, 2>, "vpadN" => VPadded<N, 1>,
            "boxu16" => AutoBox<u16>, "boxN" => AutoBox<N>,
            "Empty" => Empty, "Single" => Single, "Wrapped" => Wrapped, "Pair" => Pair, "Point" => Point, "Mixed" => Mixed,
            "Signed" => Signed, "Trailer" => Trailer, "Shell" => Shell, "Transfer" => Transfer, "Params" => Params,
            "Sparse" => Sparse, "Single8" => Single8, "Wide" => Wide, "Huge" => Huge,
            "Shape" => Shape, "WideU" => WideU, "OneWay" => OneWay, "KeyHash" => KeyHash, "Contract" => Contract,
            "List" => List, "Tree" => Tree, "seqShape" => Sequence<Shape>, "fixWide" => FixSeq<Wide, 2>,
            "Broad" => Broad, "Many" => Many, "Lots" => Lots, "Quad" => Quad, "vpad70" => VPadded<Bytes, 70>, "pad70" => Padded<u8, 70>,
            "fix40" => FixSeq<u16, 40>, "lim40" => LimSeq<u8, 40>, "fb300" => FixedBytes<300>, "fs70" => FixedString<70>,
            "optmany" => Option<Many>, "seqMany" => Sequence<Many>, "d16Many" => Dynamic<u16, Many>, "d16lim" => Dynamic<u16, LimSeq<u8, 40>>,
            "seqbool" => Sequence<bool>, "seqi64" => Sequence<i64>, "seqf" => Sequence<F2>, "seqfb" => Sequence<FixedBytes<4>>,
            "seqr" => Sequence<RangedInt<u8, 1, 10>>, "seqfix" => Sequence<FixSeq<u8, 2>>, "seqZ" => Sequence<Z>, "seqPoint" => Sequence<Point>,
            "limbool" => LimSeq<bool, 3>, "limi64" => LimSeq<i64, 3>, "fixi32" => FixSeq<i32, 3>, "fixf" => FixSeq<F1, 2>,
            "fixbool" => FixSeq<bool, 2>, "fixpad" => FixSeq<Padded<u8, 1>, 2>, "fixfix" => FixSeq<FixSeq<u8, 2>, 2>, "fixunit" => FixSeq<Point, 2>,
            "nullN" => Nullable<N>, "nulldyn" => Nullable<Dynamic<u8, Bytes>>, "nullfb" => Nullable<FixedBytes<4>>,
            "nullPoint" => Nullable<Point>, "nullbool" => Nullable<bool>, "nullShape" => Nullable<Shape>,
            "optN" => Option<N>, "optdyn" => Option<Dynamic<u8, String>>, "optfix" => Option<FixSeq<u16, 2>>, "optPoint" => Option<Point>,
            "optnull" => Option<Nullable<u16>>, "optu64" => Option<u64>,
            "padi64" => Padded<i64, 1>, "padbool" => Padded<bool, 2>, "padfs" => Padded<FixedString<3>, 1>, "padPoint" => Padded<Point, 2>,
            "vpaddyn" => VPadded<Dynamic<u8, Bytes>, 2>, "vpadShape" => VPadded<Shape, 1>, "vpadfix" => VPadded<FixSeq<u8, 2>, 3>,
            "vpadlim" => VPadded<LimSeq<u8, 3>, 2>, "vpadopt" => VPadded<Option<u8>, 1>, "vpadstr" => VPadded<String, 1>,
            "boxBytes" => AutoBox<Bytes>, "boxseq" => AutoBox<Sequence<u8>>, "boxPoint" => AutoBox<Point>, "boxopt" => AutoBox<Option<u8>>,
            "d16str" => Dynamic<u16, String>, "d30str" => Dynamic<u30, String>, "d16N" => Dynamic<u16, N>, "d30d30" => Dynamic<u30, Dynamic<u30, Bytes>>,
            "d8Shape" => Dynamic<u8, Shape>, "d8Z" => Dynamic<u8, Z>, "d8f" => Dynamic<u8, f64>, "d16seqd16" => Dynamic<u16, Sequence<Dynamic<u16, u8>>>,
            "d8box" => Dynamic<u8, AutoBox<N>>, "d8bool" => Dynamic<u8, bool>, "d16fix" => Dynamic<u16, FixSeq<Dynamic<u8, Bytes>, 2>>,
            "limvast" => LimSeq<u64, { types::VAST }>, "limvastN" => LimSeq<N, { types::VAST }>, "fixvast" => FixSeq<Dynamic<u8, Bytes>, { types::VAST }>,
            "d8limvast" => Dynamic<u8, LimSeq<u16, { types::VAST }>>,
            "fb2" => FixedBytes<2>, "fb32" => FixedBytes<32>, "fb64" => FixedBytes<64>, "fs1" => FixedString<1>, "fs20" => FixedString<20>,
        }
    }};
}

#[cfg(feature = "relaxed")]
#[macro_export]
macro_rules! registry_relaxed {
    ($m:ident) => {{ $m! {
        "padopt" => Padded<Option<u8>, 2>, "padN" => Padded<N, 1>, "paddyn" => Padded<Dynamic<u8, Bytes>, 2>,
        "padBytes" => Padded<Bytes, 2>,
    } }};
}
#[cfg(not(feature = "relaxed"))]
#[macro_export]
macro_rules! registry_relaxed {
    ($m:ident) => {{ $m! {} }};
}
