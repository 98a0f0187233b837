//! A tiny self-describing serialisation (fields by name), for what derives and hand-written visitors do there.
use serde::de::{self, value::MapDeserializer, value::SeqDeserializer, IntoDeserializer, Visitor};
use serde::ser::{self, Serialize};
use std::fmt;

#[derive(Clone, Debug)]
pub enum Value {
    Unit,
    Bool(bool),
    U(u64),
    U128(u128),
    I(i64),
    I128(i128),
    F32(f32),
    F64(f64),
    Str(String),
    Some(Box<Value>),
    Seq(Vec<Value>),
    Map(Vec<(Value, Value)>),
}
#[derive(Debug)]
pub struct Error(String);
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Error {}
impl ser::Error for Error {
    fn custom<T: fmt::Display>(m: T) -> Self {
        Error(m.to_string())
    }
}
impl de::Error for Error {
    fn custom<T: fmt::Display>(m: T) -> Self {
        Error(m.to_string())
    }
}
type R = Result<Value, Error>;
pub struct Out;
pub struct Many(Vec<Value>);
pub struct Pairs(Vec<(Value, Value)>, Option<Value>);
macro_rules! prim {
    ($($f:ident $t:ty => $v:ident as $w:ty),*) => { $(fn $f(self, v: $t) -> R { Ok(Value::$v(v as $w)) })* };
}
impl ser::Serializer for Out {
    type Ok = Value;
    type Error = Error;
    type SerializeSeq = Many;
    type SerializeTuple = Many;
    type SerializeTupleStruct = Many;
    type SerializeTupleVariant = Many;
    type SerializeMap = Pairs;
    type SerializeStruct = Pairs;
    type SerializeStructVariant = Pairs;
    prim!(serialize_bool bool => Bool as bool, serialize_u8 u8 => U as u64, serialize_u16 u16 => U as u64, serialize_u32 u32 => U as u64, serialize_u64 u64 => U as u64,
        serialize_i8 i8 => I as i64, serialize_i16 i16 => I as i64, serialize_i32 i32 => I as i64, serialize_i64 i64 => I as i64,
        serialize_u128 u128 => U128 as u128, serialize_i128 i128 => I128 as i128, serialize_f32 f32 => F32 as f32, serialize_f64 f64 => F64 as f64);
    fn serialize_char(self, v: char) -> R {
        Ok(Value::Str(v.to_string()))
    }
    fn serialize_str(self, v: &str) -> R {
        Ok(Value::Str(v.to_string()))
    }
    fn serialize_bytes(self, v: &[u8]) -> R {
        Ok(Value::Seq(v.iter().map(|&x| Value::U(x as u64)).collect()))
    }
    fn serialize_none(self) -> R {
        Ok(Value::Unit)
    }
    fn serialize_some<T: Serialize + ?Sized>(self, v: &T) -> R {
        Ok(Value::Some(Box::new(v.serialize(Out)?)))
    }
    fn serialize_unit(self) -> R {
        Ok(Value::Unit)
    }
    fn serialize_unit_struct(self, _: &'static str) -> R {
        Ok(Value::Unit)
    }
    fn serialize_unit_variant(self, _: &'static str, _: u32, v: &'static str) -> R {
        Ok(Value::Str(v.to_string()))
    }
    fn serialize_newtype_struct<T: Serialize + ?Sized>(self, _: &'static str, v: &T) -> R {
        v.serialize(Out)
    }
    fn serialize_newtype_variant<T: Serialize + ?Sized>(self, _: &'static str, _: u32, n: &'static str, v: &T) -> R {
        Ok(Value::Map(vec![(Value::Str(n.to_string()), v.serialize(Out)?)]))
    }
    fn serialize_seq(self, _: Option<usize>) -> Result<Many, Error> {
        Ok(Many(vec![]))
    }
    fn serialize_tuple(self, _: usize) -> Result<Many, Error> {
        Ok(Many(vec![]))
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Many, Error> {
        Ok(Many(vec![]))
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Many, Error> {
        Err(Error("variants with fields are not supported here".into()))
    }
    fn serialize_map(self, _: Option<usize>) -> Result<Pairs, Error> {
        Ok(Pairs(vec![], None))
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Pairs, Error> {
        Ok(Pairs(vec![], None))
    }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Pairs, Error> {
        Err(Error("variants with fields are not supported here".into()))
    }
}
macro_rules! many {
    ($($t:ident $f:ident),*) => { $(impl ser::$t for Many {
        type Ok = Value;
        type Error = Error;
        fn $f<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), Error> {
            self.0.push(v.serialize(Out)?);
            Ok(())
        }
        fn end(self) -> R {
            Ok(Value::Seq(self.0))
        }
    })* };
}
many!(SerializeSeq serialize_element, SerializeTuple serialize_element, SerializeTupleStruct serialize_field, SerializeTupleVariant serialize_field);
macro_rules! pairs {
    ($($t:ident),*) => { $(impl ser::$t for Pairs {
        type Ok = Value;
        type Error = Error;
        fn serialize_field<T: Serialize + ?Sized>(&mut self, k: &'static str, v: &T) -> Result<(), Error> {
            self.0.push((Value::Str(k.to_string()), v.serialize(Out)?));
            Ok(())
        }
        fn end(self) -> R {
            Ok(Value::Map(self.0))
        }
    })* };
}
pairs!(SerializeStruct, SerializeStructVariant);
impl ser::SerializeMap for Pairs {
    type Ok = Value;
    type Error = Error;
    fn serialize_key<T: Serialize + ?Sized>(&mut self, k: &T) -> Result<(), Error> {
        self.1 = Some(k.serialize(Out)?);
        Ok(())
    }
    fn serialize_value<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), Error> {
        let k = self.1.take().ok_or_else(|| Error("value without a key".into()))?;
        self.0.push((k, v.serialize(Out)?));
        Ok(())
    }
    fn end(self) -> R {
        Ok(Value::Map(self.0))
    }
}
impl<'de> IntoDeserializer<'de, Error> for Value {
    type Deserializer = Value;
    fn into_deserializer(self) -> Value {
        self
    }
}
impl<'de> de::Deserializer<'de> for Value {
    type Error = Error;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        match self {
            Value::Unit => v.visit_unit(),
            Value::Bool(x) => v.visit_bool(x),
            Value::U(x) => v.visit_u64(x),
            Value::U128(x) => v.visit_u128(x),
            Value::I(x) => v.visit_i64(x),
            Value::I128(x) => v.visit_i128(x),
            Value::F32(x) => v.visit_f32(x),
            Value::F64(x) => v.visit_f64(x),
            Value::Str(x) => v.visit_string(x),
            Value::Some(x) => v.visit_some(*x),
            Value::Seq(x) => {
                let mut s = SeqDeserializer::new(x.into_iter());
                let r = v.visit_seq(&mut s)?;
                s.end()?;
                Ok(r)
            }
            Value::Map(x) => {
                let mut s = MapDeserializer::new(x.into_iter());
                let r = v.visit_map(&mut s)?;
                s.end()?;
                Ok(r)
            }
        }
    }
    fn deserialize_option<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        match self {
            Value::Unit => v.visit_none(),
            Value::Some(x) => v.visit_some(*x),
            x => v.visit_some(x),
        }
    }
    fn deserialize_newtype_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, Error> {
        v.visit_newtype_struct(self)
    }
    serde::forward_to_deserialize_any! { bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf unit unit_struct seq tuple tuple_struct map struct enum identifier ignored_any }
}
/// through the self-describing form; fields arrive in reversed order when `backwards`
pub fn copy<T: Serialize + de::DeserializeOwned>(t: &T, backwards: bool) -> Result<T, Error> {
    fn rev(v: &mut Value) {
        match v {
            Value::Map(x) => {
                x.reverse();
                x.iter_mut().for_each(|p| rev(&mut p.1));
            }
            Value::Seq(x) => x.iter_mut().for_each(rev),
            Value::Some(x) => rev(x),
            _ => {}
        }
    }
    let mut v = t.serialize(Out)?;
    if backwards {
        rev(&mut v);
    }
    T::deserialize(v)
}
