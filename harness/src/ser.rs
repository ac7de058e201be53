//! What a value gives a serializer; byte containers give their bytes, and
//! anything else is an error.
use serde::ser::{Impossible, Serialize, Serializer};
use std::fmt::Display;

#[derive(Debug)]
pub struct NotBytes;

impl Display for NotBytes {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "not bytes")
    }
}
impl std::error::Error for NotBytes {}
impl serde::ser::Error for NotBytes {
    fn custom<T: Display>(_: T) -> Self {
        NotBytes
    }
}

struct Sink;
type No = Impossible<Vec<u8>, NotBytes>;
type Out = Result<Vec<u8>, NotBytes>;
type Never = Result<No, NotBytes>;
type S = &'static str;

macro_rules! not {
    ($($f:ident($($t:ty),*) -> $r:ty;)*) => { $(fn $f(self, $(_: $t),*) -> $r { Err(NotBytes) })* };
}

impl Serializer for Sink {
    type Ok = Vec<u8>;
    type Error = NotBytes;
    type SerializeSeq = No;
    type SerializeTuple = No;
    type SerializeTupleStruct = No;
    type SerializeTupleVariant = No;
    type SerializeMap = No;
    type SerializeStruct = No;
    type SerializeStructVariant = No;
    fn serialize_bytes(self, v: &[u8]) -> Out {
        Ok(v.to_vec())
    }
    fn serialize_some<T: ?Sized + Serialize>(self, _: &T) -> Out {
        Err(NotBytes)
    }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: S, _: &T) -> Out {
        Err(NotBytes)
    }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: S, _: u32, _: S, _: &T) -> Out {
        Err(NotBytes)
    }
    not! {
        serialize_bool(bool) -> Out; serialize_i8(i8) -> Out; serialize_i16(i16) -> Out; serialize_i32(i32) -> Out;
        serialize_i64(i64) -> Out; serialize_u8(u8) -> Out; serialize_u16(u16) -> Out; serialize_u32(u32) -> Out;
        serialize_u64(u64) -> Out; serialize_f32(f32) -> Out; serialize_f64(f64) -> Out; serialize_char(char) -> Out;
        serialize_str(&str) -> Out; serialize_none() -> Out; serialize_unit() -> Out; serialize_unit_struct(S) -> Out;
        serialize_unit_variant(S, u32, S) -> Out; serialize_seq(Option<usize>) -> Never; serialize_tuple(usize) -> Never;
        serialize_tuple_struct(S, usize) -> Never; serialize_tuple_variant(S, u32, S, usize) -> Never;
        serialize_map(Option<usize>) -> Never; serialize_struct(S, usize) -> Never;
        serialize_struct_variant(S, u32, S, usize) -> Never;
    }
}

pub fn bytes<T: Serialize>(x: &T) -> Vec<u8> {
    x.serialize(Sink).expect("serialized as bytes")
}
