//! A compact binary format: nothing in it says what a value is, sequences, tuples and structures
//! are preceded by the number of elements they announce, and reading demands exactly that many.
use serde::de::{self, DeserializeSeed, SeqAccess, Visitor};
use serde::ser::{self, Serialize};
use std::fmt;

#[derive(Debug)]
pub struct Error(pub String);
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Error {}
impl ser::Error for Error {
    fn custom<T: fmt::Display>(m: T) -> Self {
        Error(m.to_string())
    }
}
impl de::Error for Error {
    fn custom<T: fmt::Display>(m: T) -> Self {
        Error(m.to_string())
    }
}
fn no<T>(what: &str) -> Result<T, Error> {
    Err(Error(format!("{what} not supported")))
}

pub struct Out(pub Vec<u8>);

pub fn to_bytes<T: Serialize>(x: &T) -> Result<Vec<u8>, Error> {
    let mut o = Out(Vec::new());
    x.serialize(&mut o)?;
    Ok(o.0)
}

macro_rules! ints {
    ($($n:ident $t:ty),*) => { $(fn $n(self, v: $t) -> Result<(), Error> { self.0.extend_from_slice(&(v as i128 as u64).to_le_bytes()); Ok(()) })* }
}
impl ser::Serializer for &mut Out {
    type Ok = ();
    type Error = Error;
    type SerializeSeq = Self;
    type SerializeTuple = Self;
    type SerializeTupleStruct = Self;
    type SerializeTupleVariant = ser::Impossible<(), Error>;
    type SerializeMap = ser::Impossible<(), Error>;
    type SerializeStruct = Self;
    type SerializeStructVariant = ser::Impossible<(), Error>;
    ints!(serialize_i8 i8, serialize_i16 i16, serialize_i32 i32, serialize_i64 i64, serialize_u8 u8, serialize_u16 u16, serialize_u32 u32, serialize_u64 u64);
    fn serialize_bool(self, v: bool) -> Result<(), Error> {
        self.0.push(v as u8);
        Ok(())
    }
    fn serialize_f32(self, v: f32) -> Result<(), Error> {
        self.0.extend_from_slice(&v.to_le_bytes());
        Ok(())
    }
    fn serialize_f64(self, v: f64) -> Result<(), Error> {
        self.0.extend_from_slice(&v.to_le_bytes());
        Ok(())
    }
    fn serialize_char(self, _: char) -> Result<(), Error> {
        no("char")
    }
    fn serialize_str(self, _: &str) -> Result<(), Error> {
        no("str")
    }
    fn serialize_bytes(self, _: &[u8]) -> Result<(), Error> {
        no("bytes")
    }
    fn serialize_none(self) -> Result<(), Error> {
        no("option")
    }
    fn serialize_some<T: ?Sized + Serialize>(self, _: &T) -> Result<(), Error> {
        no("option")
    }
    fn serialize_unit(self) -> Result<(), Error> {
        Ok(())
    }
    fn serialize_unit_struct(self, _: &'static str) -> Result<(), Error> {
        Ok(())
    }
    fn serialize_unit_variant(self, _: &'static str, i: u32, _: &'static str) -> Result<(), Error> {
        self.serialize_u32(i)
    }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, v: &T) -> Result<(), Error> {
        v.serialize(self)
    }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<(), Error> {
        no("variant")
    }
    fn serialize_seq(self, n: Option<usize>) -> Result<Self, Error> {
        let Some(n) = n else { return no("sequence of unknown length") };
        self.0.extend_from_slice(&(n as u32).to_le_bytes());
        Ok(self)
    }
    fn serialize_tuple(self, n: usize) -> Result<Self, Error> {
        self.serialize_seq(Some(n))
    }
    fn serialize_tuple_struct(self, _: &'static str, n: usize) -> Result<Self, Error> {
        self.serialize_seq(Some(n))
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeTupleVariant, Error> {
        no("variant")
    }
    fn serialize_map(self, _: Option<usize>) -> Result<Self::SerializeMap, Error> {
        no("map")
    }
    fn serialize_struct(self, _: &'static str, n: usize) -> Result<Self, Error> {
        self.serialize_seq(Some(n))
    }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeStructVariant, Error> {
        no("variant")
    }
}
impl ser::SerializeSeq for &mut Out {
    type Ok = ();
    type Error = Error;
    fn serialize_element<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Error> {
        v.serialize(&mut **self)
    }
    fn end(self) -> Result<(), Error> {
        Ok(())
    }
}
impl ser::SerializeTuple for &mut Out {
    type Ok = ();
    type Error = Error;
    fn serialize_element<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Error> {
        v.serialize(&mut **self)
    }
    fn end(self) -> Result<(), Error> {
        Ok(())
    }
}
impl ser::SerializeTupleStruct for &mut Out {
    type Ok = ();
    type Error = Error;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Error> {
        v.serialize(&mut **self)
    }
    fn end(self) -> Result<(), Error> {
        Ok(())
    }
}
impl ser::SerializeStruct for &mut Out {
    type Ok = ();
    type Error = Error;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, _: &'static str, v: &T) -> Result<(), Error> {
        v.serialize(&mut **self)
    }
    fn end(self) -> Result<(), Error> {
        Ok(())
    }
}

pub struct In<'a>(&'a [u8]);

pub fn from_bytes<T: de::DeserializeOwned>(b: &[u8]) -> Result<T, Error> {
    let mut i = In(b);
    let r = T::deserialize(&mut i)?;
    if i.0.is_empty() {
        Ok(r)
    } else {
        Err(Error(format!("{} bytes left over", i.0.len())))
    }
}
impl In<'_> {
    fn take<const N: usize>(&mut self) -> Result<[u8; N], Error> {
        if self.0.len() < N {
            return Err(Error("end of data".into()));
        }
        let (a, b) = self.0.split_at(N);
        self.0 = b;
        Ok(a.try_into().unwrap())
    }
    fn count(&mut self) -> Result<usize, Error> {
        Ok(u32::from_le_bytes(self.take::<4>()?) as usize)
    }
    fn items<'de, V: Visitor<'de>>(&mut self, n: usize, v: V) -> Result<V::Value, Error> {
        let mut it = Items { d: self, left: n };
        let r = v.visit_seq(&mut it)?;
        if it.left > 0 {
            return Err(Error(format!("{} elements left over", it.left)));
        }
        Ok(r)
    }
}
struct Items<'x, 'a> {
    d: &'x mut In<'a>,
    left: usize,
}
impl<'de> SeqAccess<'de> for Items<'_, '_> {
    type Error = Error;
    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> Result<Option<T::Value>, Error> {
        if self.left == 0 {
            return Ok(None);
        }
        self.left -= 1;
        s.deserialize(&mut *self.d).map(Some)
    }
    fn size_hint(&self) -> Option<usize> {
        Some(self.left)
    }
}
macro_rules! rints {
    ($($n:ident $v:ident $t:ty),*) => { $(fn $n<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        let x = u64::from_le_bytes(self.take::<8>()?);
        v.$v(x as $t)
    })* }
}
macro_rules! rno {
    ($($n:ident),*) => { $(fn $n<V: Visitor<'de>>(self, _: V) -> Result<V::Value, Error> { no(stringify!($n)) })* }
}
impl<'de> de::Deserializer<'de> for &mut In<'_> {
    type Error = Error;
    rints!(deserialize_i8 visit_i8 i8, deserialize_i16 visit_i16 i16, deserialize_i32 visit_i32 i32, deserialize_i64 visit_i64 i64,
        deserialize_u8 visit_u8 u8, deserialize_u16 visit_u16 u16, deserialize_u32 visit_u32 u32, deserialize_u64 visit_u64 u64);
    rno!(deserialize_any, deserialize_char, deserialize_str, deserialize_string, deserialize_bytes, deserialize_byte_buf, deserialize_option, deserialize_map, deserialize_identifier, deserialize_ignored_any);
    fn deserialize_bool<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        match self.take::<1>()?[0] {
            0 => v.visit_bool(false),
            1 => v.visit_bool(true),
            _ => Err(Error("not a bool".into())),
        }
    }
    fn deserialize_f32<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        v.visit_f32(f32::from_le_bytes(self.take::<4>()?))
    }
    fn deserialize_f64<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        v.visit_f64(f64::from_le_bytes(self.take::<8>()?))
    }
    fn deserialize_unit<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        v.visit_unit()
    }
    fn deserialize_unit_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, Error> {
        v.visit_unit()
    }
    fn deserialize_newtype_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, Error> {
        v.visit_newtype_struct(self)
    }
    fn deserialize_seq<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        let n = self.count()?;
        self.items(n, v)
    }
    fn deserialize_tuple<V: Visitor<'de>>(self, _: usize, v: V) -> Result<V::Value, Error> {
        let n = self.count()?;
        self.items(n, v)
    }
    fn deserialize_tuple_struct<V: Visitor<'de>>(self, _: &'static str, _: usize, v: V) -> Result<V::Value, Error> {
        let n = self.count()?;
        self.items(n, v)
    }
    fn deserialize_struct<V: Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], v: V) -> Result<V::Value, Error> {
        let n = self.count()?;
        self.items(n, v)
    }
    fn deserialize_enum<V: Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], _: V) -> Result<V::Value, Error> {
        no("enum")
    }
}
