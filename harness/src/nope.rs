//! What (de)serializing needs: an error which formats nothing, deserializers which serde does not have, a serializer which
//! keeps what it is given.
use core::fmt;
use validators::serde;
use validators::serde::de::{Deserializer, Visitor};

#[derive(Debug)]
pub struct Nope;
impl fmt::Display for Nope {
    fn fmt(&self, _f: &mut fmt::Formatter<'_>) -> fmt::Result {
        Ok(())
    }
}
impl std::error::Error for Nope {}
impl serde::de::Error for Nope {
    fn custom<T: fmt::Display>(_msg: T) -> Self {
        Nope
    }
    fn invalid_type(_unexp: serde::de::Unexpected, _exp: &dyn serde::de::Expected) -> Self {
        Nope
    }
    fn invalid_value(_unexp: serde::de::Unexpected, _exp: &dyn serde::de::Expected) -> Self {
        Nope
    }
}
impl serde::ser::Error for Nope {
    fn custom<T: fmt::Display>(_msg: T) -> Self {
        Nope
    }
}

/// an owned byte buffer
pub struct Buf(pub Vec<u8>);
impl<'de> Deserializer<'de> for Buf {
    type Error = Nope;
    fn deserialize_any<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value, Nope> {
        visitor.visit_byte_buf(self.0)
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit unit_struct
        newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any
    }
}

/// a format which is not made for humans
pub struct Compact(pub u128);
impl<'de> Deserializer<'de> for Compact {
    type Error = Nope;
    fn deserialize_any<V: Visitor<'de>>(self, _visitor: V) -> Result<V::Value, Nope> {
        Err(Nope)
    }
    fn deserialize_u128<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value, Nope> {
        visitor.visit_u128(self.0)
    }
    fn is_human_readable(&self) -> bool {
        false
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 f32 f64 char str string bytes byte_buf option unit unit_struct
        newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any
    }
}

/// what a value was serialized to
#[derive(Clone, Copy, PartialEq)]
pub enum Kept {
    Bool(bool),
    Signed(i128),
    Unsigned(u128),
    /// bits, and whether it was an f32
    Float(u64, bool),
    Text([u8; 64], usize),
    Bytes([u8; 64], usize),
}
fn keep(b: &[u8]) -> ([u8; 64], usize) {
    let mut o = [0u8; 64];
    let mut i = 0;
    while i < b.len() {
        o[i] = b[i];
        i += 1;
    }
    (o, b.len())
}
impl Kept {
    pub fn is_text(&self, t: &str) -> bool {
        match self {
            Kept::Text(b, n) => &b[..*n] == t.as_bytes(),
            _ => false,
        }
    }
}
pub struct Keep;
macro_rules! keeps {
    ($($f:ident $t:ty, $v:ident => $e:expr;)*) => {
        $(fn $f(self, $v: $t) -> Result<Kept, Nope> {
            Ok($e)
        })*
    };
}
type Imp = serde::ser::Impossible<Kept, Nope>;
impl serde::Serializer for Keep {
    type Ok = Kept;
    type Error = Nope;
    type SerializeSeq = Imp;
    type SerializeTuple = Imp;
    type SerializeTupleStruct = Imp;
    type SerializeTupleVariant = Imp;
    type SerializeMap = Imp;
    type SerializeStruct = Imp;
    type SerializeStructVariant = Imp;
    keeps! {
        serialize_bool bool, v => Kept::Bool(v);
        serialize_i8 i8, v => Kept::Signed(v as i128);
        serialize_i16 i16, v => Kept::Signed(v as i128);
        serialize_i32 i32, v => Kept::Signed(v as i128);
        serialize_i64 i64, v => Kept::Signed(v as i128);
        serialize_i128 i128, v => Kept::Signed(v);
        serialize_u8 u8, v => Kept::Unsigned(v as u128);
        serialize_u16 u16, v => Kept::Unsigned(v as u128);
        serialize_u32 u32, v => Kept::Unsigned(v as u128);
        serialize_u64 u64, v => Kept::Unsigned(v as u128);
        serialize_u128 u128, v => Kept::Unsigned(v);
        serialize_f32 f32, v => Kept::Float((v as f64).to_bits(), true);
        serialize_f64 f64, v => Kept::Float(v.to_bits(), false);
        serialize_str &str, v => { let (b, n) = keep(v.as_bytes()); Kept::Text(b, n) };
        serialize_bytes &[u8], v => { let (b, n) = keep(v); Kept::Bytes(b, n) };
    }
    fn serialize_char(self, _v: char) -> Result<Kept, Nope> {
        Err(Nope)
    }
    fn serialize_none(self) -> Result<Kept, Nope> {
        Err(Nope)
    }
    fn serialize_some<T: serde::Serialize + ?Sized>(self, _v: &T) -> Result<Kept, Nope> {
        Err(Nope)
    }
    fn serialize_unit(self) -> Result<Kept, Nope> {
        Err(Nope)
    }
    fn serialize_unit_struct(self, _n: &'static str) -> Result<Kept, Nope> {
        Err(Nope)
    }
    fn serialize_unit_variant(self, _n: &'static str, _i: u32, _v: &'static str) -> Result<Kept, Nope> {
        Err(Nope)
    }
    fn serialize_newtype_struct<T: serde::Serialize + ?Sized>(self, _n: &'static str, v: &T) -> Result<Kept, Nope> {
        v.serialize(self)
    }
    fn serialize_newtype_variant<T: serde::Serialize + ?Sized>(self, _n: &'static str, _i: u32, _v: &'static str, _t: &T) -> Result<Kept, Nope> {
        Err(Nope)
    }
    fn serialize_seq(self, _n: Option<usize>) -> Result<Imp, Nope> {
        Err(Nope)
    }
    fn serialize_tuple(self, _n: usize) -> Result<Imp, Nope> {
        Err(Nope)
    }
    fn serialize_tuple_struct(self, _s: &'static str, _n: usize) -> Result<Imp, Nope> {
        Err(Nope)
    }
    fn serialize_tuple_variant(self, _s: &'static str, _i: u32, _v: &'static str, _n: usize) -> Result<Imp, Nope> {
        Err(Nope)
    }
    fn serialize_map(self, _n: Option<usize>) -> Result<Imp, Nope> {
        Err(Nope)
    }
    fn serialize_struct(self, _s: &'static str, _n: usize) -> Result<Imp, Nope> {
        Err(Nope)
    }
    fn serialize_struct_variant(self, _s: &'static str, _i: u32, _v: &'static str, _n: usize) -> Result<Imp, Nope> {
        Err(Nope)
    }
    fn collect_str<T: fmt::Display + ?Sized>(self, _v: &T) -> Result<Kept, Nope> {
        Err(Nope)
    }
}

/// hands over what was serialized
impl<'de> Deserializer<'de> for Kept {
    type Error = Nope;
    fn deserialize_any<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value, Nope> {
        match self {
            Kept::Bool(v) => visitor.visit_bool(v),
            Kept::Signed(v) => visitor.visit_i128(v),
            Kept::Unsigned(v) => visitor.visit_u128(v),
            Kept::Float(v, true) => visitor.visit_f32(f64::from_bits(v) as f32),
            Kept::Float(v, false) => visitor.visit_f64(f64::from_bits(v)),
            Kept::Text(b, n) => visitor.visit_str(crate::util::st(&b[..n])),
            Kept::Bytes(b, n) => visitor.visit_bytes(&b[..n]),
        }
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit unit_struct
        newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any
    }
}
