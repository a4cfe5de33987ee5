//! Types which are written by hand, and the bridge.
use crate::prelude::*;
use musli::{Decoder, Encoder};
use serde::ser::SerializeMap;
use serde::{de, ser, Deserialize, Serialize};
pub use std::time::Duration;

/// A value which goes through the bridge.
#[derive(Debug)]
pub struct W<T>(pub T);
impl<M, T> Encode<M> for W<T>
where
    T: Serialize,
{
    type Encode = Self;
    const IS_BITWISE_ENCODE: bool = false;
    fn encode<E>(&self, encoder: E) -> Result<(), E::Error>
    where
        E: Encoder<Mode = M>,
    {
        musli::serde::encode(&self.0, encoder)
    }
    fn as_encode(&self) -> &Self {
        self
    }
}
impl<'de, M, A, T> Decode<'de, M, A> for W<T>
where
    A: musli::Allocator,
    T: Deserialize<'de>,
{
    const IS_BITWISE_DECODE: bool = false;
    fn decode<D>(decoder: D) -> Result<Self, D::Error>
    where
        D: Decoder<'de, Mode = M>,
    {
        Ok(W(musli::serde::decode(decoder)?))
    }
}
impl<T: DV> DV for W<T> {
    fn of(v: &Value) -> Self {
        W(T::of(v))
    }
    fn tree(&self) -> Value {
        self.0.tree()
    }
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, Encode, Decode)]
#[serde(transparent)]
#[musli(transparent)]
pub struct Blob(
    #[serde(with = "serde_bytes")]
    #[musli(bytes)]
    pub Vec<u8>,
);
impl DV for Blob {
    fn of(v: &Value) -> Self {
        Blob(bs(v))
    }
    fn tree(&self) -> Value {
        json!(self.0)
    }
}
impl DV for Duration {
    fn of(v: &Value) -> Self {
        Duration::new(DV::of(&v[0]), DV::of(&v[1]))
    }
    fn tree(&self) -> Value {
        json!([self.as_secs().tree(), self.subsec_nanos().tree()])
    }
}
impl DV for Value {
    fn of(v: &Value) -> Self {
        match v[0].as_str().unwrap() {
            "null" => Value::Null,
            "bool" => Value::Bool(DV::of(&v[1])),
            "pos" => json!(u64::of(&v[1])),
            "neg" => json!(i64::of(&v[1])),
            "f" => json!(f64::of(&v[1])),
            "str" => Value::String(DV::of(&v[1])),
            "arr" => Value::Array(DV::of(&v[1])),
            _ => Value::Object(v[1].as_array().unwrap().iter().map(|x| (String::of(&x[0]), Value::of(&x[1]))).collect()),
        }
    }
    fn tree(&self) -> Value {
        match self {
            Value::Null => json!(["null"]),
            Value::Bool(b) => json!(["bool", b.tree()]),
            Value::Number(n) => {
                if let Some(n) = n.as_u64() {
                    json!(["pos", n.tree()])
                } else if let Some(n) = n.as_i64() {
                    json!(["neg", n.tree()])
                } else {
                    json!(["f", n.as_f64().unwrap().tree()])
                }
            }
            Value::String(s) => json!(["str", s.tree()]),
            Value::Array(a) => json!(["arr", a.tree()]),
            Value::Object(o) => json!(["obj", o.iter().map(|(k, x)| json!([k.tree(), x.tree()])).collect::<Vec<_>>()]),
        }
    }
}
/// A sequence which does not know its length beforehand.
#[derive(Debug)]
pub struct Lazy(Vec<u16>);
impl Serialize for Lazy {
    fn serialize<S: ser::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.collect_seq(self.0.iter().filter(|_| true))
    }
}
impl<'de> Deserialize<'de> for Lazy {
    fn deserialize<D: de::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        Vec::deserialize(d).map(Lazy)
    }
}
impl DV for Lazy {
    fn of(v: &Value) -> Self {
        Lazy(DV::of(v))
    }
    fn tree(&self) -> Value {
        self.0.tree()
    }
}
#[derive(Debug)]
pub struct LazyMap(BTreeMap<String, u8>);
impl Serialize for LazyMap {
    fn serialize<S: ser::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        let mut m = s.serialize_map(None)?;
        for (k, v) in &self.0 {
            m.serialize_entry(k, v)?;
        }
        m.end()
    }
}
impl<'de> Deserialize<'de> for LazyMap {
    fn deserialize<D: de::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        BTreeMap::deserialize(d).map(LazyMap)
    }
}
impl DV for LazyMap {
    fn of(v: &Value) -> Self {
        LazyMap(DV::of(v))
    }
    fn tree(&self) -> Value {
        self.0.tree()
    }
}
/// Refuses to be written at 255, and to be read at 254.
#[derive(Debug)]
pub struct Boom(u8);
impl Serialize for Boom {
    fn serialize<S: ser::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        if self.0 == 255 {
            return Err(ser::Error::custom("not written"));
        }
        self.0.serialize(s)
    }
}
impl<'de> Deserialize<'de> for Boom {
    fn deserialize<D: de::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        match u8::deserialize(d)? {
            254 => Err(de::Error::custom("not read")),
            n => Ok(Boom(n)),
        }
    }
}
impl DV for Boom {
    fn of(v: &Value) -> Self {
        Boom(v.as_u64().unwrap() as u8)
    }
    fn tree(&self) -> Value {
        json!(self.0)
    }
}
/// Any integer: written as of a kind and width, read as whatever integer is there.
#[derive(Debug)]
pub struct AnyNum(Vec<u8>, char, u64);
macro_rules! anynum {
    ($($visit:ident $t:ty, $write:ident $w:literal $k:literal;)*) => {
        impl Serialize for AnyNum {
            fn serialize<S: ser::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
                match (self.1, self.2) {
                    $(($k, $w) => s.$write(<$t>::from_le_bytes(self.0[..].try_into().unwrap())),)*
                    _ => unreachable!(),
                }
            }
        }
        impl<'de> de::Visitor<'de> for Whole {
            type Value = AnyNum;
            fn expecting(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                write!(f, "an integer")
            }
            $(fn $visit<E>(self, v: $t) -> Result<AnyNum, E> {
                #[allow(unused_comparisons)]
                let fill = if v < 0 { 255 } else { 0 };
                let mut b = v.to_le_bytes().to_vec();
                b.resize(17, fill);
                Ok(AnyNum(b, $k, $w))
            })*
        }
    };
}
struct Whole;
anynum! {
    visit_u8 u8, serialize_u8 1 'u';
    visit_u16 u16, serialize_u16 2 'u';
    visit_u32 u32, serialize_u32 4 'u';
    visit_u64 u64, serialize_u64 8 'u';
    visit_u128 u128, serialize_u128 16 'u';
    visit_i8 i8, serialize_i8 1 'i';
    visit_i16 i16, serialize_i16 2 'i';
    visit_i32 i32, serialize_i32 4 'i';
    visit_i64 i64, serialize_i64 8 'i';
    visit_i128 i128, serialize_i128 16 'i';
}
impl<'de> Deserialize<'de> for AnyNum {
    fn deserialize<D: de::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        d.deserialize_any(Whole)
    }
}
impl DV for AnyNum {
    fn of(v: &Value) -> Self {
        AnyNum(bs(&v[2]), v[0].as_str().unwrap().chars().next().unwrap(), v[1].as_u64().unwrap())
    }
    fn tree(&self) -> Value {
        json!(self.0)
    }
}
