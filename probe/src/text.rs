//! What a value of the 256-bit types is written as in a message, and read back from: the text its `Serialize` hands over, and what
//! its `Deserialize` makes of a text.
use serde::de::{self, Deserializer, Visitor};
use serde::ser::{self, Impossible, Serializer};

#[derive(Debug)]
pub struct Refused;
impl std::fmt::Display for Refused { fn fmt(&self, _: &mut std::fmt::Formatter) -> std::fmt::Result { Ok(()) } }
impl std::error::Error for Refused {}
impl ser::Error for Refused { fn custom<T: std::fmt::Display>(_: T) -> Self { Refused } }
impl de::Error for Refused { fn custom<T: std::fmt::Display>(_: T) -> Self { Refused } }

pub struct Text<'a>(pub &'a str);
impl<'de, 'a> Deserializer<'de> for Text<'a> {
    type Error = Refused;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Refused> { v.visit_str(self.0) }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit unit_struct newtype_struct seq
        tuple tuple_struct map struct enum identifier ignored_any
    }
}

pub struct Written;
macro_rules! no { ($($f:ident($($t:ty),*)),*) => { $(fn $f(self $(, _: $t)*) -> Result<String, Refused> { Err(Refused) })* } }
type I = Impossible<String, Refused>;
impl Serializer for Written {
    type Ok = String;
    type Error = Refused;
    type SerializeSeq = I;
    type SerializeTuple = I;
    type SerializeTupleStruct = I;
    type SerializeTupleVariant = I;
    type SerializeMap = I;
    type SerializeStruct = I;
    type SerializeStructVariant = I;
    fn serialize_str(self, s: &str) -> Result<String, Refused> { Ok(s.to_string()) }
    no!(serialize_bool(bool), serialize_i8(i8), serialize_i16(i16), serialize_i32(i32), serialize_i64(i64), serialize_u8(u8), serialize_u16(u16), serialize_u32(u32),
        serialize_u64(u64), serialize_f32(f32), serialize_f64(f64), serialize_char(char), serialize_bytes(&[u8]), serialize_none(), serialize_unit(),
        serialize_unit_struct(&'static str), serialize_unit_variant(&'static str, u32, &'static str));
    fn serialize_some<T: ?Sized + ser::Serialize>(self, _: &T) -> Result<String, Refused> { Err(Refused) }
    fn serialize_newtype_struct<T: ?Sized + ser::Serialize>(self, _: &'static str, _: &T) -> Result<String, Refused> { Err(Refused) }
    fn serialize_newtype_variant<T: ?Sized + ser::Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<String, Refused> { Err(Refused) }
    fn serialize_seq(self, _: Option<usize>) -> Result<I, Refused> { Err(Refused) }
    fn serialize_tuple(self, _: usize) -> Result<I, Refused> { Err(Refused) }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<I, Refused> { Err(Refused) }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<I, Refused> { Err(Refused) }
    fn serialize_map(self, _: Option<usize>) -> Result<I, Refused> { Err(Refused) }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<I, Refused> { Err(Refused) }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<I, Refused> { Err(Refused) }
}
