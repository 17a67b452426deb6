//! Stand-in for `serde_yaml`: the flat `KEY: scalar` documents that Ethereum config files are
//! (comments, blank lines, quoted and plain scalars).  Typing of plain scalars is by the requested
//! type, as in `serde_yaml` 0.8 for `String` and integer targets.
use serde::{
    de::{self, value::MapDeserializer, DeserializeOwned, IntoDeserializer, Visitor},
    Serialize,
};
use std::{fmt, io};

#[derive(Debug)]
pub struct Error(String);
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl std::error::Error for Error {}
impl de::Error for Error {
    fn custom<T: fmt::Display>(m: T) -> Self {
        Error(m.to_string())
    }
}
impl From<io::Error> for Error {
    fn from(e: io::Error) -> Self {
        Error(e.to_string())
    }
}
pub type Result<T> = std::result::Result<T, Error>;

#[derive(Clone, Debug)]
struct Scalar {
    text: String,
    quoted: bool,
}
impl Scalar {
    fn int(&self) -> Result<u64> {
        let t = self.text.as_str();
        if self.quoted {
            return Err(Error(format!("invalid type: string {t:?}, expected an integer")));
        }
        let r = if let Some(h) = t.strip_prefix("0x") { u64::from_str_radix(h, 16) } else { t.parse() };
        r.map_err(|_| Error(format!("invalid value: {t:?}, expected an integer")))
    }
}
macro_rules! int {
    ($($m:ident $v:ident $t:ty),*) => {$(
        fn $m<V: Visitor<'de>>(self, v: V) -> Result<V::Value> {
            v.$v(<$t>::try_from(self.int()?).map_err(|e| Error(e.to_string()))?)
        }
    )*};
}
impl<'de> de::Deserializer<'de> for Scalar {
    type Error = Error;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value> {
        match (self.quoted, self.int()) {
            (false, Ok(i)) => v.visit_u64(i),
            _ if !self.quoted && (self.text == "~" || self.text == "null" || self.text.is_empty()) => v.visit_unit(),
            _ if !self.quoted && (self.text == "true" || self.text == "false") => v.visit_bool(self.text == "true"),
            _ => v.visit_string(self.text),
        }
    }
    int!(deserialize_u8 visit_u8 u8, deserialize_u16 visit_u16 u16, deserialize_u32 visit_u32 u32, deserialize_u64 visit_u64 u64, deserialize_u128 visit_u128 u128, deserialize_i64 visit_i64 i64, deserialize_i32 visit_i32 i32);
    fn deserialize_str<V: Visitor<'de>>(self, v: V) -> Result<V::Value> {
        v.visit_string(self.text)
    }
    fn deserialize_string<V: Visitor<'de>>(self, v: V) -> Result<V::Value> {
        v.visit_string(self.text)
    }
    fn deserialize_option<V: Visitor<'de>>(self, v: V) -> Result<V::Value> {
        if !self.quoted && (self.text.is_empty() || self.text == "~" || self.text == "null") {
            v.visit_none()
        } else {
            v.visit_some(self)
        }
    }
    fn deserialize_newtype_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value> {
        v.visit_newtype_struct(self)
    }
    fn deserialize_enum<V: Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], v: V) -> Result<V::Value> {
        v.visit_enum(self.text.into_deserializer())
    }
    serde::forward_to_deserialize_any! { bool i8 i16 i128 f32 f64 char bytes byte_buf unit unit_struct seq tuple tuple_struct map struct identifier ignored_any }
}
impl<'de> IntoDeserializer<'de, Error> for Scalar {
    type Deserializer = Self;
    fn into_deserializer(self) -> Self {
        self
    }
}

fn scalar(s: &str) -> Scalar {
    let s = s.trim();
    for q in ['\'', '"'] {
        if let Some(r) = s.strip_prefix(q) {
            if let Some(end) = r.find(q) {
                return Scalar { text: r[..end].to_string(), quoted: true };
            }
        }
    }
    let s = match s.find(" #") {
        Some(i) => s[..i].trim_end(),
        None => s,
    };
    let s = if s.starts_with('#') { "" } else { s };
    Scalar { text: s.to_string(), quoted: false }
}

pub fn from_str<T: DeserializeOwned>(doc: &str) -> Result<T> {
    let mut entries: Vec<(Scalar, Scalar)> = vec![];
    for line in doc.lines() {
        let t = line.trim();
        if t.is_empty() || t.starts_with('#') || t == "---" || t == "..." {
            continue;
        }
        if let Some(i) = t.find(": ") {
            let k = scalar(&t[..i]);
            if entries.iter().any(|(e, _)| e.text == k.text) {
                return Err(Error(format!("duplicate key {}", k.text)));
            }
            entries.push((k, scalar(&t[i + 2..])));
        } else if let Some(k) = t.strip_suffix(':') {
            entries.push((scalar(k), scalar("")));
        } else if entries.is_empty() {
            return T::deserialize(scalar(t));
        } else {
            return Err(Error(format!("unsupported document line: {t}")));
        }
    }
    T::deserialize(MapDeserializer::<_, Error>::new(entries.into_iter()))
}
pub fn from_slice<T: DeserializeOwned>(v: &[u8]) -> Result<T> {
    from_str(std::str::from_utf8(v).map_err(|e| Error(e.to_string()))?)
}
pub fn from_reader<R: io::Read, T: DeserializeOwned>(mut r: R) -> Result<T> {
    let mut s = String::new();
    r.read_to_string(&mut s)?;
    from_str(&s)
}
pub fn to_string<T: ?Sized + Serialize>(v: &T) -> Result<String> {
    let j = serde_json::to_value(v).map_err(|e| Error(e.to_string()))?;
    let mut s = String::from("---\n");
    match j {
        serde_json::Value::Object(m) => {
            for (k, v) in m {
                s += &format!("{k}: {}\n", serde_json::to_string(&v).unwrap());
            }
        }
        v => s += &serde_json::to_string(&v).unwrap(),
    }
    Ok(s)
}
pub fn to_writer<W: io::Write, T: ?Sized + Serialize>(mut w: W, v: &T) -> Result<()> {
    Ok(w.write_all(to_string(v)?.as_bytes())?)
}
