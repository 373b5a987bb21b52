//! Compact serde format which doesn't describe itself: fields by their order,
//! variants by their number. What it reads must be asked for as it was written.

use std::fmt::Display;

use serde::de::{self, DeserializeOwned, DeserializeSeed, IntoDeserializer, Visitor};
use serde::ser::{self, Serialize};

#[derive(Debug)]
pub struct Error(String);

impl Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}

impl std::error::Error for Error {}

impl ser::Error for Error {
    fn custom<T: Display>(msg: T) -> Self {
        Self(msg.to_string())
    }
}

impl de::Error for Error {
    fn custom<T: Display>(msg: T) -> Self {
        Self(msg.to_string())
    }
}

pub fn to_bytes<T: Serialize>(value: &T) -> Result<Vec<u8>, Error> {
    let mut out = Writer(vec![]);
    value.serialize(&mut out)?;
    Ok(out.0)
}

pub fn from_bytes<T: DeserializeOwned>(bytes: &[u8]) -> Result<T, Error> {
    let mut input = Reader(bytes);
    let value = T::deserialize(&mut input)?;

    if !input.0.is_empty() {
        return Err(Error(format!("{} bytes are left", input.0.len())));
    }

    Ok(value)
}

// ------------------------------------------------------------------- writing

struct Writer(Vec<u8>);

impl Writer {
    fn len(&mut self, len: usize) {
        self.0.extend((len as u64).to_le_bytes());
    }
}

macro_rules! write_numbers {
    ($($name:ident $t:ty),*) => { $(
        fn $name(self, v: $t) -> Result<(), Error> { self.0.extend(v.to_le_bytes()); Ok(()) }
    )* }
}

impl ser::Serializer for &mut Writer {
    type Ok = ();
    type Error = Error;
    type SerializeSeq = Self;
    type SerializeTuple = Self;
    type SerializeTupleStruct = Self;
    type SerializeTupleVariant = Self;
    type SerializeMap = Self;
    type SerializeStruct = Self;
    type SerializeStructVariant = Self;

    write_numbers!(
        serialize_i8 i8, serialize_i16 i16, serialize_i32 i32, serialize_i64 i64, serialize_i128 i128,
        serialize_u8 u8, serialize_u16 u16, serialize_u32 u32, serialize_u64 u64, serialize_u128 u128,
        serialize_f32 f32, serialize_f64 f64
    );

    fn serialize_bool(self, v: bool) -> Result<(), Error> { self.0.push(v as u8); Ok(()) }
    fn serialize_char(self, v: char) -> Result<(), Error> { self.serialize_u32(v as u32) }
    fn serialize_str(self, v: &str) -> Result<(), Error> { self.serialize_bytes(v.as_bytes()) }

    fn serialize_bytes(self, v: &[u8]) -> Result<(), Error> {
        self.len(v.len());
        self.0.extend(v);
        Ok(())
    }

    fn serialize_none(self) -> Result<(), Error> { self.0.push(0); Ok(()) }
    fn serialize_some<T: ?Sized + Serialize>(self, v: &T) -> Result<(), Error> { self.0.push(1); v.serialize(self) }
    fn serialize_unit(self) -> Result<(), Error> { Ok(()) }
    fn serialize_unit_struct(self, _: &'static str) -> Result<(), Error> { Ok(()) }
    fn serialize_unit_variant(self, _: &'static str, n: u32, _: &'static str) -> Result<(), Error> { self.serialize_u32(n) }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, v: &T) -> Result<(), Error> { v.serialize(self) }

    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, n: u32, _: &'static str, v: &T) -> Result<(), Error> {
        self.0.extend(n.to_le_bytes());
        v.serialize(self)
    }

    fn serialize_seq(self, len: Option<usize>) -> Result<Self, Error> {
        self.len(len.ok_or_else(|| Error(String::from("sequence of unknown length")))?);
        Ok(self)
    }

    fn serialize_tuple(self, _: usize) -> Result<Self, Error> { Ok(self) }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Self, Error> { Ok(self) }

    fn serialize_tuple_variant(self, _: &'static str, n: u32, _: &'static str, _: usize) -> Result<Self, Error> {
        self.0.extend(n.to_le_bytes());
        Ok(self)
    }

    fn serialize_map(self, len: Option<usize>) -> Result<Self, Error> { self.serialize_seq(len) }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Self, Error> { Ok(self) }

    fn serialize_struct_variant(self, _: &'static str, n: u32, _: &'static str, _: usize) -> Result<Self, Error> {
        self.0.extend(n.to_le_bytes());
        Ok(self)
    }

    fn is_human_readable(&self) -> bool { false }
}

macro_rules! write_parts {
    ($($kind:ident $name:ident),*) => { $(
        impl ser::$kind for &mut Writer {
            type Ok = ();
            type Error = Error;

            fn $name<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Error> { v.serialize(&mut **self) }
            fn end(self) -> Result<(), Error> { Ok(()) }
        }
    )* }
}

write_parts!(SerializeSeq serialize_element, SerializeTuple serialize_element, SerializeTupleStruct serialize_field, SerializeTupleVariant serialize_field);

macro_rules! write_fields {
    ($($kind:ident),*) => { $(
        impl ser::$kind for &mut Writer {
            type Ok = ();
            type Error = Error;

            fn serialize_field<T: ?Sized + Serialize>(&mut self, _: &'static str, v: &T) -> Result<(), Error> { v.serialize(&mut **self) }
            fn end(self) -> Result<(), Error> { Ok(()) }
        }
    )* }
}

write_fields!(SerializeStruct, SerializeStructVariant);

impl ser::SerializeMap for &mut Writer {
    type Ok = ();
    type Error = Error;

    fn serialize_key<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Error> { v.serialize(&mut **self) }
    fn serialize_value<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Error> { v.serialize(&mut **self) }
    fn end(self) -> Result<(), Error> { Ok(()) }
}

// ------------------------------------------------------------------- reading

struct Reader<'a>(&'a [u8]);

impl<'a> Reader<'a> {
    fn take(&mut self, n: usize) -> Result<&'a [u8], Error> {
        if n > self.0.len() {
            return Err(Error(String::from("unexpected end")));
        }

        let (head, tail) = self.0.split_at(n);
        self.0 = tail;

        Ok(head)
    }

    fn array<const N: usize>(&mut self) -> Result<[u8; N], Error> {
        Ok(self.take(N)?.try_into().expect("length"))
    }

    fn len(&mut self) -> Result<usize, Error> {
        Ok(u64::from_le_bytes(self.array()?) as usize)
    }

    fn string(&mut self) -> Result<String, Error> {
        let n = self.len()?;
        String::from_utf8(self.take(n)?.to_vec()).map_err(|e| Error(e.to_string()))
    }
}

macro_rules! read_numbers {
    ($($name:ident $visit:ident $t:ty),*) => { $(
        fn $name<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value, Error> {
            visitor.$visit(<$t>::from_le_bytes(self.array()?))
        }
    )* }
}

/// Elements of known number.
struct Parts<'r, 'a>(&'r mut Reader<'a>, usize);

impl<'de, 'r, 'a> de::SeqAccess<'de> for Parts<'r, 'a> {
    type Error = Error;

    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> Result<Option<T::Value>, Error> {
        if self.1 == 0 {
            return Ok(None);
        }

        self.1 -= 1;
        seed.deserialize(&mut *self.0).map(Some)
    }

    fn size_hint(&self) -> Option<usize> { Some(self.1.min(4096)) }
}

impl<'de, 'r, 'a> de::MapAccess<'de> for Parts<'r, 'a> {
    type Error = Error;

    fn next_key_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> Result<Option<T::Value>, Error> {
        de::SeqAccess::next_element_seed(self, seed)
    }

    fn next_value_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> Result<T::Value, Error> {
        seed.deserialize(&mut *self.0)
    }
}

impl<'de, 'r, 'a> de::EnumAccess<'de> for &'r mut Reader<'a> {
    type Error = Error;
    type Variant = Self;

    fn variant_seed<T: DeserializeSeed<'de>>(self, seed: T) -> Result<(T::Value, Self), Error> {
        let n = u32::from_le_bytes(self.array()?);
        let value = seed.deserialize(IntoDeserializer::<Error>::into_deserializer(n))?;

        Ok((value, self))
    }
}

impl<'de, 'r, 'a> de::VariantAccess<'de> for &'r mut Reader<'a> {
    type Error = Error;

    fn unit_variant(self) -> Result<(), Error> { Ok(()) }
    fn newtype_variant_seed<T: DeserializeSeed<'de>>(self, seed: T) -> Result<T::Value, Error> { seed.deserialize(self) }
    fn tuple_variant<V: Visitor<'de>>(self, len: usize, visitor: V) -> Result<V::Value, Error> { visitor.visit_seq(Parts(self, len)) }
    fn struct_variant<V: Visitor<'de>>(self, fields: &'static [&'static str], visitor: V) -> Result<V::Value, Error> { visitor.visit_seq(Parts(self, fields.len())) }
}

impl<'de, 'r, 'a> de::Deserializer<'de> for &'r mut Reader<'a> {
    type Error = Error;

    read_numbers!(
        deserialize_i8 visit_i8 i8, deserialize_i16 visit_i16 i16, deserialize_i32 visit_i32 i32, deserialize_i64 visit_i64 i64, deserialize_i128 visit_i128 i128,
        deserialize_u8 visit_u8 u8, deserialize_u16 visit_u16 u16, deserialize_u32 visit_u32 u32, deserialize_u64 visit_u64 u64, deserialize_u128 visit_u128 u128,
        deserialize_f32 visit_f32 f32, deserialize_f64 visit_f64 f64
    );

    fn deserialize_any<V: Visitor<'de>>(self, _: V) -> Result<V::Value, Error> {
        Err(Error(String::from("the format doesn't tell what comes next")))
    }

    fn deserialize_ignored_any<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value, Error> { self.deserialize_any(visitor) }
    fn deserialize_identifier<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value, Error> { self.deserialize_any(visitor) }

    fn deserialize_bool<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value, Error> {
        match self.array::<1>()? {
            [0] => visitor.visit_bool(false),
            [1] => visitor.visit_bool(true),
            [n] => Err(Error(format!("{n} isn't a boolean"))),
        }
    }

    fn deserialize_char<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value, Error> {
        let n = u32::from_le_bytes(self.array()?);
        visitor.visit_char(char::from_u32(n).ok_or_else(|| Error(format!("{n} isn't a character")))?)
    }

    fn deserialize_str<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value, Error> { let s = self.string()?; visitor.visit_str(&s) }
    fn deserialize_string<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value, Error> { let s = self.string()?; visitor.visit_string(s) }

    fn deserialize_bytes<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value, Error> {
        let n = self.len()?;
        visitor.visit_bytes(self.take(n)?)
    }

    fn deserialize_byte_buf<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value, Error> {
        let n = self.len()?;
        visitor.visit_byte_buf(self.take(n)?.to_vec())
    }

    fn deserialize_option<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value, Error> {
        match self.array::<1>()? {
            [0] => visitor.visit_none(),
            [1] => visitor.visit_some(self),
            [n] => Err(Error(format!("{n} isn't an option"))),
        }
    }

    fn deserialize_unit<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value, Error> { visitor.visit_unit() }
    fn deserialize_unit_struct<V: Visitor<'de>>(self, _: &'static str, visitor: V) -> Result<V::Value, Error> { visitor.visit_unit() }
    fn deserialize_newtype_struct<V: Visitor<'de>>(self, _: &'static str, visitor: V) -> Result<V::Value, Error> { visitor.visit_newtype_struct(self) }

    fn deserialize_seq<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value, Error> {
        let n = self.len()?;
        visitor.visit_seq(Parts(self, n))
    }

    fn deserialize_tuple<V: Visitor<'de>>(self, len: usize, visitor: V) -> Result<V::Value, Error> { visitor.visit_seq(Parts(self, len)) }
    fn deserialize_tuple_struct<V: Visitor<'de>>(self, _: &'static str, len: usize, visitor: V) -> Result<V::Value, Error> { visitor.visit_seq(Parts(self, len)) }

    fn deserialize_map<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value, Error> {
        let n = self.len()?;
        visitor.visit_map(Parts(self, n))
    }

    fn deserialize_struct<V: Visitor<'de>>(self, _: &'static str, fields: &'static [&'static str], visitor: V) -> Result<V::Value, Error> {
        visitor.visit_seq(Parts(self, fields.len()))
    }

    fn deserialize_enum<V: Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], visitor: V) -> Result<V::Value, Error> { visitor.visit_enum(self) }

    fn is_human_readable(&self) -> bool { false }
}
