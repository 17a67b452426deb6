use std::{fmt, hash::Hash};
#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Error {
    Io(String),
    UnsupportedCode(u64),
    InvalidSize(u64),
    Varint,
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{self:?}")
    }
}
impl std::error::Error for Error {}
pub type Result<T> = std::result::Result<T, Error>;

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub struct MultihashGeneric<const S: usize> {
    code: u64,
    size: u8,
    digest: [u8; S],
}
pub type Multihash = MultihashGeneric<64>;
fn varint(mut v: u64) -> Vec<u8> {
    let mut o = vec![];
    while v >= 0x80 {
        o.push(v as u8 | 0x80);
        v >>= 7;
    }
    o.push(v as u8);
    o
}
fn read_varint(b: &[u8]) -> Result<(u64, &[u8])> {
    let mut v = 0u64;
    for i in 0..10 {
        let x = *b.get(i).ok_or(Error::Varint)?;
        if i == 9 && x > 1 {
            return Err(Error::Varint);
        }
        v |= ((x & 0x7f) as u64) << (7 * i);
        if x & 0x80 == 0 {
            if x == 0 && i > 0 {
                return Err(Error::Varint);
            }
            return Ok((v, &b[i + 1..]));
        }
    }
    Err(Error::Varint)
}
impl<const S: usize> MultihashGeneric<S> {
    pub fn wrap(code: u64, d: &[u8]) -> Result<Self> {
        if d.len() > S {
            return Err(Error::InvalidSize(d.len() as u64));
        }
        let mut digest = [0; S];
        digest[..d.len()].copy_from_slice(d);
        Ok(Self { code, size: d.len() as u8, digest })
    }
    pub fn code(&self) -> u64 {
        self.code
    }
    pub fn size(&self) -> u8 {
        self.size
    }
    pub fn digest(&self) -> &[u8] {
        &self.digest[..self.size as usize]
    }
    pub fn to_bytes(&self) -> Vec<u8> {
        let mut o = varint(self.code);
        o.extend(varint(self.size as u64));
        o.extend_from_slice(self.digest());
        o
    }
    pub fn from_bytes(b: &[u8]) -> Result<Self> {
        let (code, b) = read_varint(b)?;
        let (size, b) = read_varint(b)?;
        if size > S as u64 || size > 255 || b.len() as u64 != size {
            return Err(Error::InvalidSize(size));
        }
        Self::wrap(code, b)
    }
}
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Code {
    Identity,
    Sha2_256,
    Sha2_512,
}
impl TryFrom<u64> for Code {
    type Error = Error;
    fn try_from(c: u64) -> Result<Self> {
        match c {
            0 => Ok(Code::Identity),
            0x12 => Ok(Code::Sha2_256),
            0x13 => Ok(Code::Sha2_512),
            _ => Err(Error::UnsupportedCode(c)),
        }
    }
}
impl From<Code> for u64 {
    fn from(c: Code) -> u64 {
        match c {
            Code::Identity => 0,
            Code::Sha2_256 => 0x12,
            Code::Sha2_512 => 0x13,
        }
    }
}
