use sha2::Digest;
use std::{fmt, marker::PhantomData};

pub fn hmac<H: Digest>(key: &[u8], parts: &[&[u8]]) -> Vec<u8> {
    let mut k = [0u8; 64];
    if key.len() > 64 {
        let d = H::digest(key);
        k[..d.len()].copy_from_slice(&d);
    } else {
        k[..key.len()].copy_from_slice(key);
    }
    let mut h = H::new();
    h.update(k.map(|b| b ^ 0x36));
    for p in parts {
        h.update(p);
    }
    let inner = h.finalize();
    let mut h = H::new();
    h.update(k.map(|b| b ^ 0x5c));
    h.update(inner);
    h.finalize().to_vec()
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct InvalidLength;
impl fmt::Display for InvalidLength {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "invalid number of blocks, too large output")
    }
}
impl std::error::Error for InvalidLength {}

pub struct Hkdf<H> {
    prk: Vec<u8>,
    _h: PhantomData<H>,
}
impl<H: Digest> Hkdf<H> {
    pub fn new(salt: Option<&[u8]>, ikm: &[u8]) -> Self {
        let zeros = [0u8; 32];
        Self { prk: hmac::<H>(salt.unwrap_or(&zeros), &[ikm]), _h: PhantomData }
    }
    pub fn extract(salt: Option<&[u8]>, ikm: &[u8]) -> (Vec<u8>, Self) {
        let s = Self::new(salt, ikm);
        (s.prk.clone(), s)
    }
    pub fn expand(&self, info: &[u8], okm: &mut [u8]) -> Result<(), InvalidLength> {
        if okm.len() > 255 * 32 {
            return Err(InvalidLength);
        }
        let mut t: Vec<u8> = vec![];
        for (i, chunk) in okm.chunks_mut(32).enumerate() {
            t = hmac::<H>(&self.prk, &[&t, info, &[(i + 1) as u8]]);
            chunk.copy_from_slice(&t[..chunk.len()]);
        }
        Ok(())
    }
}
