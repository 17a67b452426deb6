//! pairs of keys and values as serde_urlencoded 0.7 takes them
use serde::ser::{self, Serialize};
use std::fmt;

#[derive(Debug)]
pub struct E(pub String);
impl fmt::Display for E {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for E {}
impl ser::Error for E {
    fn custom<T: fmt::Display>(m: T) -> Self {
        E(m.to_string())
    }
}
type Out = Vec<(String, String)>;
type No<O> = ser::Impossible<O, E>;
macro_rules! refuse {
    ($o:ty, $m:expr; $($f:ident($($t:ty),*)),* $(,)?) => {
        $(fn $f(self, $(_: $t),*) -> Result<$o, E> { Err(E($m.into())) })*
    };
}
const TOP: &str = "top-level serializer supports only maps and structs";
pub struct Pairs;
impl ser::Serializer for Pairs {
    type Ok = Out;
    type Error = E;
    type SerializeSeq = List;
    type SerializeTuple = List;
    type SerializeTupleStruct = No<Out>;
    type SerializeTupleVariant = No<Out>;
    type SerializeMap = List;
    type SerializeStruct = List;
    type SerializeStructVariant = No<Out>;
    refuse!(Out, TOP; serialize_bool(bool), serialize_i8(i8), serialize_i16(i16), serialize_i32(i32), serialize_i64(i64),
        serialize_u8(u8), serialize_u16(u16), serialize_u32(u32), serialize_u64(u64), serialize_f32(f32), serialize_f64(f64),
        serialize_char(char), serialize_str(&str), serialize_bytes(&[u8]), serialize_none(), serialize_unit_struct(&'static str),
        serialize_unit_variant(&'static str, u32, &'static str));
    fn serialize_unit(self) -> Result<Out, E> {
        Ok(vec![])
    }
    fn serialize_some<T: Serialize + ?Sized>(self, _: &T) -> Result<Out, E> {
        Err(E(TOP.into()))
    }
    fn serialize_newtype_struct<T: Serialize + ?Sized>(self, _: &'static str, v: &T) -> Result<Out, E> {
        v.serialize(self)
    }
    fn serialize_newtype_variant<T: Serialize + ?Sized>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<Out, E> {
        Err(E(TOP.into()))
    }
    fn serialize_seq(self, _: Option<usize>) -> Result<List, E> {
        Ok(List::default())
    }
    fn serialize_tuple(self, _: usize) -> Result<List, E> {
        Ok(List::default())
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<No<Out>, E> {
        Err(E(TOP.into()))
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<No<Out>, E> {
        Err(E(TOP.into()))
    }
    fn serialize_map(self, _: Option<usize>) -> Result<List, E> {
        Ok(List::default())
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<List, E> {
        Ok(List::default())
    }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<No<Out>, E> {
        Err(E(TOP.into()))
    }
}
#[derive(Default)]
pub struct List(Out, Option<String>);
impl List {
    fn pair(&mut self, k: String, v: &(impl Serialize + ?Sized)) -> Result<(), E> {
        if let Some(v) = v.serialize(Part(true))? {
            self.0.push((k, v));
        }
        Ok(())
    }
    fn element(&mut self, v: &(impl Serialize + ?Sized)) -> Result<(), E> {
        let (k, v) = v.serialize(Pair(vec![]))?;
        if let Some(v) = v {
            self.0.push((k, v));
        }
        Ok(())
    }
}
impl ser::SerializeSeq for List {
    type Ok = Out;
    type Error = E;
    fn serialize_element<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), E> {
        self.element(v)
    }
    fn end(self) -> Result<Out, E> {
        Ok(self.0)
    }
}
impl ser::SerializeTuple for List {
    type Ok = Out;
    type Error = E;
    fn serialize_element<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), E> {
        self.element(v)
    }
    fn end(self) -> Result<Out, E> {
        Ok(self.0)
    }
}
fn name(v: &(impl Serialize + ?Sized)) -> Result<String, E> {
    v.serialize(Part(false))?.ok_or(E("unsupported key".into()))
}
impl ser::SerializeMap for List {
    type Ok = Out;
    type Error = E;
    fn serialize_key<T: Serialize + ?Sized>(&mut self, k: &T) -> Result<(), E> {
        self.1 = Some(name(k)?);
        Ok(())
    }
    fn serialize_value<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), E> {
        let k = self.1.take().ok_or(E("no key".into()))?;
        self.pair(k, v)
    }
    fn end(self) -> Result<Out, E> {
        Ok(self.0)
    }
}
impl ser::SerializeStruct for List {
    type Ok = Out;
    type Error = E;
    fn serialize_field<T: Serialize + ?Sized>(&mut self, k: &'static str, v: &T) -> Result<(), E> {
        self.pair(k.into(), v)
    }
    fn end(self) -> Result<Out, E> {
        Ok(self.0)
    }
}
/// a key, or a value (true)
struct Part(bool);
impl Part {
    fn no<T>(&self) -> Result<T, E> {
        Err(E(if self.0 { "unsupported value" } else { "unsupported key" }.into()))
    }
}
type P = Option<String>;
macro_rules! text {
    ($($f:ident($t:ty)),* $(,)?) => { $(fn $f(self, v: $t) -> Result<P, E> { Ok(Some(v.to_string())) })* };
}
impl ser::Serializer for Part {
    type Ok = P;
    type Error = E;
    type SerializeSeq = No<P>;
    type SerializeTuple = No<P>;
    type SerializeTupleStruct = No<P>;
    type SerializeTupleVariant = No<P>;
    type SerializeMap = No<P>;
    type SerializeStruct = No<P>;
    type SerializeStructVariant = No<P>;
    text!(serialize_bool(bool), serialize_i8(i8), serialize_i16(i16), serialize_i32(i32), serialize_i64(i64), serialize_u8(u8),
        serialize_u16(u16), serialize_u32(u32), serialize_u64(u64), serialize_f32(f32), serialize_f64(f64), serialize_char(char),
        serialize_str(&str), serialize_unit_struct(&'static str));
    fn serialize_bytes(self, v: &[u8]) -> Result<P, E> {
        std::str::from_utf8(v).map(|s| Some(s.into())).map_err(|e| E(e.to_string()))
    }
    fn serialize_none(self) -> Result<P, E> {
        if self.0 { Ok(None) } else { self.no() }
    }
    fn serialize_some<T: Serialize + ?Sized>(self, v: &T) -> Result<P, E> {
        if self.0 { v.serialize(self) } else { self.no() }
    }
    fn serialize_unit(self) -> Result<P, E> {
        self.no()
    }
    fn serialize_unit_variant(self, _: &'static str, _: u32, v: &'static str) -> Result<P, E> {
        Ok(Some(v.into()))
    }
    fn serialize_newtype_struct<T: Serialize + ?Sized>(self, _: &'static str, v: &T) -> Result<P, E> {
        v.serialize(self)
    }
    fn serialize_newtype_variant<T: Serialize + ?Sized>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<P, E> {
        self.no()
    }
    fn serialize_seq(self, _: Option<usize>) -> Result<No<P>, E> {
        self.no()
    }
    fn serialize_tuple(self, _: usize) -> Result<No<P>, E> {
        self.no()
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<No<P>, E> {
        self.no()
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<No<P>, E> {
        self.no()
    }
    fn serialize_map(self, _: Option<usize>) -> Result<No<P>, E> {
        self.no()
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<No<P>, E> {
        self.no()
    }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<No<P>, E> {
        self.no()
    }
}
/// an element: a pair
struct Pair(Vec<P>);
type KV = (String, P);
const PAIR: &str = "expected a pair";
impl ser::Serializer for Pair {
    type Ok = KV;
    type Error = E;
    type SerializeSeq = No<KV>;
    type SerializeTuple = Pair;
    type SerializeTupleStruct = No<KV>;
    type SerializeTupleVariant = No<KV>;
    type SerializeMap = No<KV>;
    type SerializeStruct = No<KV>;
    type SerializeStructVariant = No<KV>;
    refuse!(KV, PAIR; serialize_bool(bool), serialize_i8(i8), serialize_i16(i16), serialize_i32(i32), serialize_i64(i64),
        serialize_u8(u8), serialize_u16(u16), serialize_u32(u32), serialize_u64(u64), serialize_f32(f32), serialize_f64(f64),
        serialize_char(char), serialize_str(&str), serialize_bytes(&[u8]), serialize_none(), serialize_unit(),
        serialize_unit_struct(&'static str), serialize_unit_variant(&'static str, u32, &'static str));
    fn serialize_some<T: Serialize + ?Sized>(self, v: &T) -> Result<KV, E> {
        v.serialize(self)
    }
    fn serialize_newtype_struct<T: Serialize + ?Sized>(self, _: &'static str, v: &T) -> Result<KV, E> {
        v.serialize(self)
    }
    fn serialize_newtype_variant<T: Serialize + ?Sized>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<KV, E> {
        Err(E(PAIR.into()))
    }
    fn serialize_seq(self, _: Option<usize>) -> Result<No<KV>, E> {
        Err(E(PAIR.into()))
    }
    fn serialize_tuple(self, n: usize) -> Result<Pair, E> {
        if n == 2 { Ok(self) } else { Err(E(PAIR.into())) }
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<No<KV>, E> {
        Err(E(PAIR.into()))
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<No<KV>, E> {
        Err(E(PAIR.into()))
    }
    fn serialize_map(self, _: Option<usize>) -> Result<No<KV>, E> {
        Err(E(PAIR.into()))
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<No<KV>, E> {
        Err(E(PAIR.into()))
    }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<No<KV>, E> {
        Err(E(PAIR.into()))
    }
}
impl ser::SerializeTuple for Pair {
    type Ok = KV;
    type Error = E;
    fn serialize_element<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), E> {
        let p = v.serialize(Part(!self.0.is_empty()))?;
        self.0.push(p);
        Ok(())
    }
    fn end(mut self) -> Result<KV, E> {
        match (self.0.pop(), self.0.pop()) {
            (Some(v), Some(Some(k))) => Ok((k, v)),
            _ => Err(E("this pair has not yet been serialized".into())),
        }
    }
}
