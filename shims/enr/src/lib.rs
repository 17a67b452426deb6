use std::marker::PhantomData;
pub mod k256 {
    pub mod ecdsa {
        #[derive(Debug, Clone, PartialEq, Eq)]
        pub struct SigningKey;
    }
}
/// opaque text record
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Enr<K>(String, PhantomData<K>);
impl<K> std::str::FromStr for Enr<K> {
    type Err = String;
    fn from_str(s: &str) -> Result<Self, String> {
        if s.starts_with("enr:") { Ok(Self(s.into(), PhantomData)) } else { Err("invalid enr".into()) }
    }
}
impl<K> std::fmt::Display for Enr<K> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl<K> serde::Serialize for Enr<K> {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.collect_str(&self.0)
    }
}
impl<'de, K> serde::Deserialize<'de> for Enr<K> {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        <String as serde::Deserialize>::deserialize(d)?.parse().map_err(serde::de::Error::custom)
    }
}
