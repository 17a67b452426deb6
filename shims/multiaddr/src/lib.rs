#[derive(Debug, Clone, PartialEq, Eq, Hash, Default)]
pub struct Multiaddr(String);
impl std::str::FromStr for Multiaddr {
    type Err = String;
    fn from_str(s: &str) -> Result<Self, String> {
        if s.starts_with('/') { Ok(Self(s.into())) } else { Err("invalid multiaddr".into()) }
    }
}
impl std::fmt::Display for Multiaddr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl serde::Serialize for Multiaddr {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.collect_str(&self.0)
    }
}
impl<'de> serde::Deserialize<'de> for Multiaddr {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        <String as serde::Deserialize>::deserialize(d)?.parse().map_err(serde::de::Error::custom)
    }
}
