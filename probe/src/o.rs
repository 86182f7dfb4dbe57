//! Opaque user-supplied types and operations.
use serde::{de, ser, Deserialize, Deserializer, Serialize, Serializer};
use std::borrow::Borrow;
use std::hash::{BuildHasher, Hash, Hasher};

macro_rules! opaque { () => { loop {} } }

macro_rules! key {
    ($k:ident, $q:ident) => {
        pub struct $k(u8);
        #[repr(transparent)]
        pub struct $q(u8);
        impl Hash for $k { #[inline(never)] fn hash<H: Hasher>(&self, s: &mut H) { opaque!() } }
        impl Hash for $q { #[inline(never)] fn hash<H: Hasher>(&self, s: &mut H) { opaque!() } }
        impl PartialEq for $k { #[inline(never)] fn eq(&self, o: &Self) -> bool { opaque!() } }
        impl PartialEq for $q { #[inline(never)] fn eq(&self, o: &Self) -> bool { opaque!() } }
        impl PartialEq<$k> for $q { #[inline(never)] fn eq(&self, o: &$k) -> bool { opaque!() } }
        impl Eq for $k {}
        impl Eq for $q {}
        impl Borrow<$q> for $k { #[inline(never)] fn borrow(&self) -> &$q { opaque!() } }
        impl std::fmt::Debug for $k { #[inline(never)] fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { opaque!() } }
        impl Clone for $k { #[inline(never)] fn clone(&self) -> Self { opaque!() } }
        impl Serialize for $k {
            #[inline(never)]
            fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { opaque!() }
        }
        impl<'de> Deserialize<'de> for $k {
            #[inline(never)]
            fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> { opaque!() }
        }
    };
}
key!(KL, QL);
key!(KR, QR);

/// The hasher and hash builder.
pub struct HS(u8);
impl Hasher for HS {
    #[inline(never)]
    fn finish(&self) -> u64 { opaque!() }
    #[inline(never)]
    fn write(&mut self, b: &[u8]) { opaque!() }
}
pub struct SB(u8);
impl BuildHasher for SB {
    type Hasher = HS;
    #[inline(never)]
    fn build_hasher(&self) -> HS { opaque!() }
}
impl Clone for SB { #[inline(never)] fn clone(&self) -> Self { opaque!() } }
impl Default for SB { #[inline(never)] fn default() -> Self { opaque!() } }

// user predicates: may return either answer, and may panic
#[inline(never)]
pub fn pred_lr(l: &KL, r: &KR) -> bool { opaque!() }
#[inline(never)]
pub fn pred_op(p: &cycle_map::OptionalPair<&KL, &KR>) -> bool { opaque!() }
#[inline(never)]
pub fn pred_opv(p: cycle_map::OptionalPair<&KL, &KR>) -> bool { opaque!() }
#[inline(never)]
pub fn pred_r(r: &KR) -> bool { opaque!() }

// observation points
#[inline(never)]
pub fn sink<T>(t: T) { opaque!() }
#[inline(never)]
pub fn sink_a<T>(t: T) { opaque!() }
#[inline(never)]
pub fn sink_b<T>(t: T) { opaque!() }
/// `std::mem::forget`
#[inline(never)]
pub fn leak<T>(t: T) { opaque!() }
#[inline(never)]
pub fn hint(lo: usize, hi: Option<usize>) { opaque!() }
#[inline(never)]
pub fn exact(n: usize) { opaque!() }
#[inline(never)]
pub fn nondet() -> bool { opaque!() }

/// A user iterator with an arbitrary sequence of items.
pub struct It<T>(std::marker::PhantomData<T>);
impl<T> Iterator for It<T> {
    type Item = T;
    #[inline(never)]
    fn next(&mut self) -> Option<T> { it_next::<T>() }
    #[inline(never)]
    fn size_hint(&self) -> (usize, Option<usize>) { it_hint() }
}
#[inline(never)]
pub fn it_next<T>() -> Option<T> { opaque!() }
#[inline(never)]
pub fn it_hint() -> (usize, Option<usize>) { opaque!() }

// an arbitrary data format
pub struct E(u8);
impl std::fmt::Debug for E { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { opaque!() } }
impl std::fmt::Display for E { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { opaque!() } }
impl std::error::Error for E {}
impl ser::Error for E { #[inline(never)] fn custom<T: std::fmt::Display>(m: T) -> Self { opaque!() } }
impl de::Error for E { #[inline(never)] fn custom<T: std::fmt::Display>(m: T) -> Self { opaque!() } }
pub struct Done(u8);
pub struct Ser(u8);
pub struct SerSeq(u8);
#[inline(never)]
pub fn ser_begin(len: Option<usize>) -> Result<SerSeq, E> { opaque!() }
#[inline(never)]
pub fn ser_elem<T: ?Sized>(t: &T) -> Result<(), E> { opaque!() }
#[inline(never)]
pub fn ser_end() -> Result<Done, E> { opaque!() }
impl ser::SerializeSeq for SerSeq {
    type Ok = Done;
    type Error = E;
    fn serialize_element<T: ?Sized + Serialize>(&mut self, t: &T) -> Result<(), E> { ser_elem(t) }
    fn end(self) -> Result<Done, E> { ser_end() }
}
macro_rules! bad { ($($f:ident($($t:ty),*);)*) => { $( #[inline(never)] fn $f(self, $(_: $t),*) -> Result<Done, E> { bad_ser() } )* } }
#[inline(never)]
pub fn bad_ser<T>() -> T { opaque!() }
impl Serializer for Ser {
    type Ok = Done;
    type Error = E;
    type SerializeSeq = SerSeq;
    type SerializeTuple = ser::Impossible<Done, E>;
    type SerializeTupleStruct = ser::Impossible<Done, E>;
    type SerializeTupleVariant = ser::Impossible<Done, E>;
    type SerializeMap = ser::Impossible<Done, E>;
    type SerializeStruct = ser::Impossible<Done, E>;
    type SerializeStructVariant = ser::Impossible<Done, E>;
    bad! { serialize_bool(bool); serialize_i8(i8); serialize_i16(i16); serialize_i32(i32); serialize_i64(i64);
        serialize_u8(u8); serialize_u16(u16); serialize_u32(u32); serialize_u64(u64); serialize_f32(f32); serialize_f64(f64);
        serialize_char(char); serialize_str(&str); serialize_bytes(&[u8]); serialize_none(); serialize_unit();
        serialize_unit_struct(&'static str); serialize_unit_variant(&'static str, u32, &'static str); }
    fn serialize_some<T: ?Sized + Serialize>(self, _: &T) -> Result<Done, E> { bad_ser() }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, _: &T) -> Result<Done, E> { bad_ser() }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<Done, E> { bad_ser() }
    fn serialize_seq(self, len: Option<usize>) -> Result<SerSeq, E> { ser_begin(len) }
    fn serialize_tuple(self, _: usize) -> Result<Self::SerializeTuple, E> { bad_ser() }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeTupleStruct, E> { bad_ser() }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeTupleVariant, E> { bad_ser() }
    fn serialize_map(self, _: Option<usize>) -> Result<Self::SerializeMap, E> { bad_ser() }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeStruct, E> { bad_ser() }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeStructVariant, E> { bad_ser() }
}
pub struct De(u8);
pub struct DeSeq(u8);
#[inline(never)]
pub fn seq_next<T>() -> Result<Option<T>, E> { opaque!() }
#[inline(never)]
pub fn seq_hint() -> Option<usize> { opaque!() }
impl<'de> de::SeqAccess<'de> for DeSeq {
    type Error = E;
    fn next_element_seed<T: de::DeserializeSeed<'de>>(&mut self, seed: T) -> Result<Option<T::Value>, E> { seq_next::<T::Value>() }
    fn next_element<T: Deserialize<'de>>(&mut self) -> Result<Option<T>, E> { seq_next::<T>() }
    fn size_hint(&self) -> Option<usize> { seq_hint() }
}
#[inline(never)]
pub fn bad_de<T>() -> T { opaque!() }
macro_rules! badd { ($($f:ident)*) => { $( #[inline(never)] fn $f<V: de::Visitor<'de>>(self, v: V) -> Result<V::Value, E> { bad_de() } )* } }
impl<'de> Deserializer<'de> for De {
    type Error = E;
    fn deserialize_seq<V: de::Visitor<'de>>(self, v: V) -> Result<V::Value, E> { v.visit_seq(DeSeq(0)) }
    badd! { deserialize_any deserialize_bool deserialize_i8 deserialize_i16 deserialize_i32 deserialize_i64 deserialize_u8
        deserialize_u16 deserialize_u32 deserialize_u64 deserialize_f32 deserialize_f64 deserialize_char deserialize_str
        deserialize_string deserialize_bytes deserialize_byte_buf deserialize_option deserialize_unit deserialize_map
        deserialize_identifier deserialize_ignored_any }
    fn deserialize_unit_struct<V: de::Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, E> { bad_de() }
    fn deserialize_newtype_struct<V: de::Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, E> { bad_de() }
    fn deserialize_tuple<V: de::Visitor<'de>>(self, _: usize, v: V) -> Result<V::Value, E> { bad_de() }
    fn deserialize_tuple_struct<V: de::Visitor<'de>>(self, _: &'static str, _: usize, v: V) -> Result<V::Value, E> { bad_de() }
    fn deserialize_struct<V: de::Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], v: V) -> Result<V::Value, E> { bad_de() }
    fn deserialize_enum<V: de::Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], v: V) -> Result<V::Value, E> { bad_de() }
}
