//! A positional serialisation format for the serde data model: values follow one another without names, so that
//! a reader that expects other fields, another order or another number of entries than the writer wrote goes wrong.
use serde::de::{self, DeserializeOwned, IntoDeserializer, Visitor};
use serde::ser::{self, Serialize};
use std::fmt;

#[derive(Debug, Clone, PartialEq)]
pub struct Error(pub String);
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Error {}
impl ser::Error for Error {
    fn custom<T: fmt::Display>(m: T) -> Self {
        Error(m.to_string())
    }
}
impl de::Error for Error {
    fn custom<T: fmt::Display>(m: T) -> Self {
        Error(m.to_string())
    }
}

/// What a stream is made of.
#[derive(Debug, Clone, PartialEq)]
pub enum Tok {
    Bool(bool),
    U(u64),
    I(i64),
    F(u64),
    F32(u32),
    Str(String),
    Len(usize),
    None,
    Some,
    Unit,
    Variant(u32),
}

pub fn write<T: Serialize>(t: &T) -> Result<Vec<Tok>, Error> {
    let mut out = vec![];
    t.serialize(W { out: &mut out })?;
    Ok(out)
}

/// Reads a value and insists on using up the stream.
pub fn read<T: DeserializeOwned>(toks: &[Tok]) -> Result<T, Error> {
    let mut r = R { toks, at: 0 };
    let t = T::deserialize(&mut r)?;
    if r.at != toks.len() {
        return Err(Error(format!("{} of {} tokens are left over", toks.len() - r.at, toks.len())));
    }
    Ok(t)
}

struct W<'a> {
    out: &'a mut Vec<Tok>,
}

macro_rules! prim {
    ($($m:ident $t:ty => $e:expr),*) => { $(fn $m(self, v: $t) -> Result<(), Error> { let f: fn($t) -> Tok = $e; self.out.push(f(v)); Ok(()) })* };
}

impl<'a> ser::Serializer for W<'a> {
    type Ok = ();
    type Error = Error;
    type SerializeSeq = S<'a>;
    type SerializeTuple = S<'a>;
    type SerializeTupleStruct = S<'a>;
    type SerializeTupleVariant = S<'a>;
    type SerializeMap = S<'a>;
    type SerializeStruct = S<'a>;
    type SerializeStructVariant = S<'a>;
    prim!(serialize_bool bool => Tok::Bool, serialize_u8 u8 => |v| Tok::U(v as u64), serialize_u16 u16 => |v| Tok::U(v as u64),
        serialize_u32 u32 => |v| Tok::U(v as u64), serialize_u64 u64 => Tok::U, serialize_i8 i8 => |v| Tok::I(v as i64),
        serialize_i16 i16 => |v| Tok::I(v as i64), serialize_i32 i32 => |v| Tok::I(v as i64), serialize_i64 i64 => Tok::I,
        serialize_f32 f32 => |v| Tok::F32(v.to_bits()), serialize_f64 f64 => |v| Tok::F(v.to_bits()),
        serialize_char char => |v| Tok::Str(v.to_string()), serialize_str &str => |v| Tok::Str(v.to_string()));
    fn serialize_bytes(self, v: &[u8]) -> Result<(), Error> {
        self.out.push(Tok::Len(v.len()));
        self.out.extend(v.iter().map(|b| Tok::U(*b as u64)));
        Ok(())
    }
    fn serialize_none(self) -> Result<(), Error> {
        self.out.push(Tok::None);
        Ok(())
    }
    fn serialize_some<T: Serialize + ?Sized>(self, v: &T) -> Result<(), Error> {
        self.out.push(Tok::Some);
        v.serialize(self)
    }
    fn serialize_unit(self) -> Result<(), Error> {
        self.out.push(Tok::Unit);
        Ok(())
    }
    fn serialize_unit_struct(self, _: &'static str) -> Result<(), Error> {
        Ok(())
    }
    fn serialize_unit_variant(self, _: &'static str, i: u32, _: &'static str) -> Result<(), Error> {
        self.out.push(Tok::Variant(i));
        Ok(())
    }
    fn serialize_newtype_struct<T: Serialize + ?Sized>(self, _: &'static str, v: &T) -> Result<(), Error> {
        v.serialize(self)
    }
    fn serialize_newtype_variant<T: Serialize + ?Sized>(self, _: &'static str, i: u32, _: &'static str, v: &T) -> Result<(), Error> {
        self.out.push(Tok::Variant(i));
        v.serialize(self)
    }
    fn serialize_seq(self, len: Option<usize>) -> Result<S<'a>, Error> {
        let at = self.out.len();
        self.out.push(Tok::Len(usize::MAX));
        Ok(S { out: self.out, patch: Some(at), promised: len, n: 0 })
    }
    fn serialize_tuple(self, len: usize) -> Result<S<'a>, Error> {
        Ok(S { out: self.out, patch: None, promised: Some(len), n: 0 })
    }
    fn serialize_tuple_struct(self, _: &'static str, len: usize) -> Result<S<'a>, Error> {
        self.serialize_tuple(len)
    }
    fn serialize_tuple_variant(self, _: &'static str, i: u32, _: &'static str, len: usize) -> Result<S<'a>, Error> {
        self.out.push(Tok::Variant(i));
        self.serialize_tuple(len)
    }
    fn serialize_map(self, len: Option<usize>) -> Result<S<'a>, Error> {
        self.serialize_seq(len)
    }
    fn serialize_struct(self, _: &'static str, len: usize) -> Result<S<'a>, Error> {
        self.serialize_tuple(len)
    }
    fn serialize_struct_variant(self, _: &'static str, i: u32, _: &'static str, len: usize) -> Result<S<'a>, Error> {
        self.out.push(Tok::Variant(i));
        self.serialize_tuple(len)
    }
    fn is_human_readable(&self) -> bool {
        false
    }
}

struct S<'a> {
    out: &'a mut Vec<Tok>,
    patch: Option<usize>,
    promised: Option<usize>,
    n: usize,
}
impl S<'_> {
    fn item<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), Error> {
        self.n += 1;
        v.serialize(W { out: self.out })
    }
    fn done(self) -> Result<(), Error> {
        if self.promised.is_some_and(|p| p != self.n) {
            return Err(Error(format!("{} entries were announced, {} written", self.promised.unwrap(), self.n)));
        }
        if let Some(at) = self.patch {
            self.out[at] = Tok::Len(self.n);
        }
        Ok(())
    }
}
macro_rules! compound {
    ($($tr:ident $m:ident),*) => { $(impl ser::$tr for S<'_> {
        type Ok = ();
        type Error = Error;
        fn $m<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), Error> { self.item(v) }
        fn end(self) -> Result<(), Error> { self.done() }
    })* };
}
compound!(SerializeSeq serialize_element, SerializeTuple serialize_element, SerializeTupleStruct serialize_field, SerializeTupleVariant serialize_field);
impl ser::SerializeMap for S<'_> {
    type Ok = ();
    type Error = Error;
    fn serialize_key<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), Error> {
        self.item(v)
    }
    fn serialize_value<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), Error> {
        v.serialize(W { out: self.out })
    }
    fn end(self) -> Result<(), Error> {
        self.done()
    }
}
impl ser::SerializeStruct for S<'_> {
    type Ok = ();
    type Error = Error;
    fn serialize_field<T: Serialize + ?Sized>(&mut self, _: &'static str, v: &T) -> Result<(), Error> {
        self.item(v)
    }
    fn end(self) -> Result<(), Error> {
        self.done()
    }
}
impl ser::SerializeStructVariant for S<'_> {
    type Ok = ();
    type Error = Error;
    fn serialize_field<T: Serialize + ?Sized>(&mut self, _: &'static str, v: &T) -> Result<(), Error> {
        self.item(v)
    }
    fn end(self) -> Result<(), Error> {
        self.done()
    }
}

struct R<'t> {
    toks: &'t [Tok],
    at: usize,
}
impl R<'_> {
    fn next(&mut self) -> Result<Tok, Error> {
        let t = self.toks.get(self.at).cloned().ok_or_else(|| Error("the stream ended".into()))?;
        self.at += 1;
        Ok(t)
    }
    fn len(&mut self) -> Result<usize, Error> {
        match self.next()? {
            Tok::Len(n) => Ok(n),
            t => Err(Error(format!("{t:?} where a length is expected"))),
        }
    }
}
struct Items<'a, 't> {
    r: &'a mut R<'t>,
    left: usize,
}
impl<'de> de::SeqAccess<'de> for Items<'_, '_> {
    type Error = Error;
    fn next_element_seed<T: de::DeserializeSeed<'de>>(&mut self, seed: T) -> Result<Option<T::Value>, Error> {
        if self.left == 0 {
            return Ok(None);
        }
        self.left -= 1;
        seed.deserialize(&mut *self.r).map(Some)
    }
    fn size_hint(&self) -> Option<usize> {
        Some(self.left.min(1 << 16))
    }
}
impl<'de> de::MapAccess<'de> for Items<'_, '_> {
    type Error = Error;
    fn next_key_seed<T: de::DeserializeSeed<'de>>(&mut self, seed: T) -> Result<Option<T::Value>, Error> {
        if self.left == 0 {
            return Ok(None);
        }
        self.left -= 1;
        seed.deserialize(&mut *self.r).map(Some)
    }
    fn next_value_seed<T: de::DeserializeSeed<'de>>(&mut self, seed: T) -> Result<T::Value, Error> {
        seed.deserialize(&mut *self.r)
    }
}
struct Enum<'a, 't> {
    r: &'a mut R<'t>,
}
impl<'de, 'a, 't> de::EnumAccess<'de> for Enum<'a, 't> {
    type Error = Error;
    type Variant = Self;
    fn variant_seed<T: de::DeserializeSeed<'de>>(self, seed: T) -> Result<(T::Value, Self), Error> {
        match self.r.next()? {
            Tok::Variant(i) => Ok((seed.deserialize(IntoDeserializer::<Error>::into_deserializer(i))?, self)),
            t => Err(Error(format!("{t:?} where a variant is expected"))),
        }
    }
}
impl<'de> de::VariantAccess<'de> for Enum<'_, '_> {
    type Error = Error;
    fn unit_variant(self) -> Result<(), Error> {
        Ok(())
    }
    fn newtype_variant_seed<T: de::DeserializeSeed<'de>>(self, seed: T) -> Result<T::Value, Error> {
        seed.deserialize(self.r)
    }
    fn tuple_variant<V: Visitor<'de>>(self, len: usize, v: V) -> Result<V::Value, Error> {
        v.visit_seq(Items { r: self.r, left: len })
    }
    fn struct_variant<V: Visitor<'de>>(self, f: &'static [&'static str], v: V) -> Result<V::Value, Error> {
        v.visit_seq(Items { r: self.r, left: f.len() })
    }
}
macro_rules! de_prim {
    ($($m:ident),*) => { $(fn $m<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        match self.next()? {
            Tok::Bool(x) => v.visit_bool(x),
            Tok::U(x) => v.visit_u64(x),
            Tok::I(x) => v.visit_i64(x),
            Tok::F(x) => v.visit_f64(f64::from_bits(x)),
            Tok::F32(x) => v.visit_f32(f32::from_bits(x)),
            Tok::Str(x) => v.visit_string(x),
            Tok::Unit => v.visit_unit(),
            t => Err(Error(format!("{t:?} where a value is expected"))),
        }
    })* };
}
impl<'de> de::Deserializer<'de> for &mut R<'_> {
    type Error = Error;
    de_prim!(deserialize_any, deserialize_bool, deserialize_u8, deserialize_u16, deserialize_u32, deserialize_u64, deserialize_i8, deserialize_i16,
        deserialize_i32, deserialize_i64, deserialize_f32, deserialize_f64, deserialize_char, deserialize_str, deserialize_string, deserialize_unit,
        deserialize_identifier, deserialize_ignored_any);
    fn deserialize_bytes<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        self.deserialize_byte_buf(v)
    }
    fn deserialize_byte_buf<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        let n = self.len()?;
        let mut b = vec![];
        for _ in 0..n {
            match self.next()? {
                Tok::U(x) if x < 256 => b.push(x as u8),
                t => return Err(Error(format!("{t:?} where a byte is expected"))),
            }
        }
        v.visit_byte_buf(b)
    }
    fn deserialize_option<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        match self.next()? {
            Tok::None => v.visit_none(),
            Tok::Some => v.visit_some(self),
            t => Err(Error(format!("{t:?} where an option is expected"))),
        }
    }
    fn deserialize_unit_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, Error> {
        v.visit_unit()
    }
    fn deserialize_newtype_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, Error> {
        v.visit_newtype_struct(self)
    }
    fn deserialize_seq<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        let left = self.len()?;
        v.visit_seq(Items { r: self, left })
    }
    fn deserialize_tuple<V: Visitor<'de>>(self, left: usize, v: V) -> Result<V::Value, Error> {
        v.visit_seq(Items { r: self, left })
    }
    fn deserialize_tuple_struct<V: Visitor<'de>>(self, _: &'static str, left: usize, v: V) -> Result<V::Value, Error> {
        v.visit_seq(Items { r: self, left })
    }
    fn deserialize_map<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        let left = self.len()?;
        v.visit_map(Items { r: self, left })
    }
    fn deserialize_struct<V: Visitor<'de>>(self, _: &'static str, f: &'static [&'static str], v: V) -> Result<V::Value, Error> {
        v.visit_seq(Items { r: self, left: f.len() })
    }
    fn deserialize_enum<V: Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], v: V) -> Result<V::Value, Error> {
        v.visit_enum(Enum { r: self })
    }
    fn is_human_readable(&self) -> bool {
        false
    }
}
