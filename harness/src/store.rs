//! A minimal self-describing data format for serde, as JSON would be, but without texts of numbers.
use serde::de::{self, DeserializeOwned, IntoDeserializer, MapAccess, Visitor};
use serde::ser::{self, Impossible, Serialize, SerializeStruct};
use std::fmt;

#[derive(Debug, Clone, PartialEq)]
pub enum Tok { U(u64), S(String), None, Map(usize) }
#[derive(Debug)]
pub struct No;
impl fmt::Display for No { fn fmt(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result { Ok(()) } }
impl std::error::Error for No {}
impl ser::Error for No { fn custom<T: fmt::Display>(_: T) -> Self { No } }
impl de::Error for No {
    fn custom<T: fmt::Display>(_: T) -> Self { No }
    fn invalid_type(_: de::Unexpected<'_>, _: &dyn de::Expected) -> Self { No }
    fn invalid_value(_: de::Unexpected<'_>, _: &dyn de::Expected) -> Self { No }
    fn invalid_length(_: usize, _: &dyn de::Expected) -> Self { No }
    fn unknown_variant(_: &str, _: &'static [&'static str]) -> Self { No }
}

pub fn write<T: Serialize>(v: &T) -> Result<Vec<Tok>, No> { let mut w = W(Vec::with_capacity(32)); v.serialize(&mut w)?; Ok(w.0) }
pub fn read<T: DeserializeOwned>(v: &[Tok]) -> Result<T, No> {
    let mut r = R { t: v, p: 0 };
    let x = T::deserialize(&mut r)?;
    if r.p == v.len() { Ok(x) } else { Err(No) }
}

struct W(Vec<Tok>);
type Imp = Impossible<(), No>;
impl<'a> ser::Serializer for &'a mut W {
    type Ok = (); type Error = No;
    type SerializeSeq = Imp; type SerializeTuple = Imp; type SerializeTupleStruct = Imp; type SerializeTupleVariant = Imp; type SerializeMap = Imp; type SerializeStructVariant = Imp;
    type SerializeStruct = &'a mut W;
    fn serialize_bool(self, v: bool) -> Result<(), No> { self.0.push(Tok::U(v as u64)); Ok(()) }
    fn serialize_i8(self, _: i8) -> Result<(), No> { Err(No) }
    fn serialize_i16(self, _: i16) -> Result<(), No> { Err(No) }
    fn serialize_i32(self, _: i32) -> Result<(), No> { Err(No) }
    fn serialize_i64(self, _: i64) -> Result<(), No> { Err(No) }
    fn serialize_u8(self, v: u8) -> Result<(), No> { self.0.push(Tok::U(v as u64)); Ok(()) }
    fn serialize_u16(self, v: u16) -> Result<(), No> { self.0.push(Tok::U(v as u64)); Ok(()) }
    fn serialize_u32(self, v: u32) -> Result<(), No> { self.0.push(Tok::U(v as u64)); Ok(()) }
    fn serialize_u64(self, v: u64) -> Result<(), No> { self.0.push(Tok::U(v)); Ok(()) }
    fn serialize_f32(self, _: f32) -> Result<(), No> { Err(No) }
    fn serialize_f64(self, _: f64) -> Result<(), No> { Err(No) }
    fn serialize_char(self, v: char) -> Result<(), No> { self.0.push(Tok::S(v.to_string())); Ok(()) }
    fn serialize_str(self, v: &str) -> Result<(), No> { self.0.push(Tok::S(v.to_owned())); Ok(()) }
    fn serialize_bytes(self, _: &[u8]) -> Result<(), No> { Err(No) }
    fn serialize_none(self) -> Result<(), No> { self.0.push(Tok::None); Ok(()) }
    fn serialize_some<T: ?Sized + Serialize>(self, v: &T) -> Result<(), No> { v.serialize(self) }
    fn serialize_unit(self) -> Result<(), No> { self.0.push(Tok::None); Ok(()) }
    fn serialize_unit_struct(self, _: &'static str) -> Result<(), No> { self.0.push(Tok::None); Ok(()) }
    fn serialize_unit_variant(self, _: &'static str, _: u32, v: &'static str) -> Result<(), No> { self.0.push(Tok::S(v.to_owned())); Ok(()) }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, v: &T) -> Result<(), No> { v.serialize(self) }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, k: &'static str, v: &T) -> Result<(), No> { self.0.push(Tok::Map(1)); self.0.push(Tok::S(k.to_owned())); v.serialize(self) }
    fn serialize_seq(self, _: Option<usize>) -> Result<Imp, No> { Err(No) }
    fn serialize_tuple(self, _: usize) -> Result<Imp, No> { Err(No) }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Imp, No> { Err(No) }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Imp, No> { Err(No) }
    fn serialize_map(self, _: Option<usize>) -> Result<Imp, No> { Err(No) }
    fn serialize_struct(self, _: &'static str, n: usize) -> Result<&'a mut W, No> { self.0.push(Tok::Map(n)); Ok(self) }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Imp, No> { Err(No) }
}
impl SerializeStruct for &mut W {
    type Ok = (); type Error = No;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, k: &'static str, v: &T) -> Result<(), No> { self.0.push(Tok::S(k.to_owned())); v.serialize(&mut **self) }
    fn end(self) -> Result<(), No> { Ok(()) }
}

struct R<'t> { t: &'t [Tok], p: usize }
impl<'t> R<'t> { fn next(&mut self) -> Result<&'t Tok, No> { let t = self.t.get(self.p).ok_or(No)?; self.p += 1; Ok(t) } }
struct Fields<'a, 't> { r: &'a mut R<'t>, n: usize }
impl<'de> de::Deserializer<'de> for &mut R<'_> {
    type Error = No;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, No> {
        match self.next()? {
            Tok::U(x) => v.visit_u64(*x),
            Tok::S(s) => v.visit_str(s),
            Tok::None => v.visit_none(),
            Tok::Map(n) => { let n = *n; v.visit_map(Fields { r: self, n }) }
        }
    }
    fn deserialize_option<V: Visitor<'de>>(self, v: V) -> Result<V::Value, No> {
        match self.t.get(self.p) { Some(Tok::None) => { self.p += 1; v.visit_none() } Some(_) => v.visit_some(self), None => Err(No) }
    }
    fn deserialize_newtype_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, No> { v.visit_newtype_struct(self) }
    fn deserialize_enum<V: Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], v: V) -> Result<V::Value, No> {
        match self.next()? { Tok::S(s) => v.visit_enum(s.as_str().into_deserializer()), _ => Err(No) }
    }
    serde::forward_to_deserialize_any! { bool i8 i16 i32 i64 u8 u16 u32 u64 f32 f64 char str string bytes byte_buf unit unit_struct seq tuple tuple_struct map struct identifier ignored_any }
}
impl<'de> MapAccess<'de> for Fields<'_, '_> {
    type Error = No;
    fn next_key_seed<K: de::DeserializeSeed<'de>>(&mut self, k: K) -> Result<Option<K::Value>, No> {
        if self.n == 0 { return Ok(None); }
        self.n -= 1;
        k.deserialize(&mut *self.r).map(Some)
    }
    fn next_value_seed<T: de::DeserializeSeed<'de>>(&mut self, s: T) -> Result<T::Value, No> { s.deserialize(&mut *self.r) }
}
