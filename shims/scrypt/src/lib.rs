//! `control` lets a harness choose the recommended parameters and the bytes `OsRng` yields; without
//! it both behave as the real crate does.
use sha2::Sha256;
use std::fmt;

pub mod control {
    use std::cell::RefCell;
    thread_local! {
        pub(crate) static PARAMS: RefCell<Option<super::Params>> = const { RefCell::new(None) };
        pub(crate) static RNG: RefCell<Option<Box<dyn FnMut(&mut [u8])>>> = const { RefCell::new(None) };
    }
    pub fn set_recommended(p: Option<super::Params>) {
        PARAMS.with(|c| *c.borrow_mut() = p)
    }
    pub fn set_rng(f: Option<Box<dyn FnMut(&mut [u8])>>) {
        RNG.with(|c| *c.borrow_mut() = f)
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct Params {
    log_n: u8,
    r: u32,
    p: u32,
    len: usize,
}
pub mod errors {
    use std::fmt;
    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub struct InvalidParams;
    impl fmt::Display for InvalidParams {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            write!(f, "invalid scrypt parameters")
        }
    }
    impl std::error::Error for InvalidParams {}
    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub struct InvalidOutputLen;
    impl fmt::Display for InvalidOutputLen {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            write!(f, "invalid output buffer length")
        }
    }
    impl std::error::Error for InvalidOutputLen {}
}
impl Params {
    pub const RECOMMENDED_LOG_N: u8 = 17;
    pub const RECOMMENDED_R: u32 = 8;
    pub const RECOMMENDED_P: u32 = 1;
    pub const RECOMMENDED_LEN: usize = 32;
    pub fn new(log_n: u8, r: u32, p: u32, len: usize) -> Result<Self, errors::InvalidParams> {
        let cond1 = (log_n as usize) < usize::BITS as usize;
        let cond2 = (10..=64).contains(&len);
        if !(cond1 && cond2 && r > 0 && p > 0) {
            return Err(errors::InvalidParams);
        }
        let n: usize = 1 << log_n;
        let r128 = (r as usize).checked_mul(128).ok_or(errors::InvalidParams)?;
        r128.checked_mul(n).ok_or(errors::InvalidParams)?;
        r128.checked_mul(p as usize).ok_or(errors::InvalidParams)?;
        if log_n as u64 >= r as u64 * 16 || r as u64 * p as u64 > 0x3FFF_FFFF {
            return Err(errors::InvalidParams);
        }
        Ok(Self { log_n, r, p, len })
    }
    pub fn recommended() -> Self {
        control::PARAMS.with(|c| *c.borrow()).unwrap_or(Self { log_n: 17, r: 8, p: 1, len: 32 })
    }
    pub fn log_n(&self) -> u8 {
        self.log_n
    }
    pub fn r(&self) -> u32 {
        self.r
    }
    pub fn p(&self) -> u32 {
        self.p
    }
}
impl Default for Params {
    fn default() -> Self {
        Self::recommended()
    }
}

fn pbkdf2(pw: &[u8], salt: &[u8], out: &mut [u8]) {
    for (i, c) in out.chunks_mut(32).enumerate() {
        let t = hkdf::hmac::<Sha256>(pw, &[salt, &(i as u32 + 1).to_be_bytes()]);
        c.copy_from_slice(&t[..c.len()]);
    }
}
fn salsa(b: &mut [u32; 16]) {
    let mut x = *b;
    for _ in 0..4 {
        macro_rules! q {
            ($a:expr, $b:expr, $c:expr, $d:expr) => {
                x[$b] ^= x[$a].wrapping_add(x[$d]).rotate_left(7);
                x[$c] ^= x[$b].wrapping_add(x[$a]).rotate_left(9);
                x[$d] ^= x[$c].wrapping_add(x[$b]).rotate_left(13);
                x[$a] ^= x[$d].wrapping_add(x[$c]).rotate_left(18);
            };
        }
        q!(0, 4, 8, 12);
        q!(5, 9, 13, 1);
        q!(10, 14, 2, 6);
        q!(15, 3, 7, 11);
        q!(0, 1, 2, 3);
        q!(5, 6, 7, 4);
        q!(10, 11, 8, 9);
        q!(15, 12, 13, 14);
    }
    for i in 0..16 {
        b[i] = b[i].wrapping_add(x[i]);
    }
}
fn block_mix(b: &[u32], out: &mut [u32]) {
    let n = b.len() / 16;
    let mut x: [u32; 16] = b[(n - 1) * 16..].try_into().unwrap();
    for i in 0..n {
        for j in 0..16 {
            x[j] ^= b[i * 16 + j];
        }
        salsa(&mut x);
        let p = if i % 2 == 0 { i / 2 } else { n / 2 + i / 2 };
        out[p * 16..p * 16 + 16].copy_from_slice(&x);
    }
}
fn ro_mix(b: &mut [u8], n: usize) {
    let mut x: Vec<u32> = b.chunks(4).map(|c| u32::from_le_bytes(c.try_into().unwrap())).collect();
    let w = x.len();
    let mut y = vec![0u32; w];
    let mut v = Vec::with_capacity(w * n);
    for _ in 0..n {
        v.extend_from_slice(&x);
        block_mix(&x, &mut y);
        std::mem::swap(&mut x, &mut y);
    }
    for _ in 0..n {
        let j = x[w - 16] as usize & (n - 1);
        for (a, b) in x.iter_mut().zip(&v[j * w..(j + 1) * w]) {
            *a ^= b;
        }
        block_mix(&x, &mut y);
        std::mem::swap(&mut x, &mut y);
    }
    for (c, v) in b.chunks_mut(4).zip(&x) {
        c.copy_from_slice(&v.to_le_bytes());
    }
}
pub fn scrypt(
    password: &[u8],
    salt: &[u8],
    params: &Params,
    output: &mut [u8],
) -> Result<(), errors::InvalidOutputLen> {
    if output.is_empty() {
        return Err(errors::InvalidOutputLen);
    }
    let r = params.r as usize * 128;
    let mut b = vec![0u8; r * params.p as usize];
    pbkdf2(password, salt, &mut b);
    for c in b.chunks_mut(r) {
        ro_mix(c, 1 << params.log_n);
    }
    pbkdf2(password, &b, output);
    Ok(())
}

pub mod password_hash {
    use super::*;
    use base64::prelude::*;
    pub mod rand_core {
        pub use rand_core::{CryptoRng, Error, RngCore};
        #[derive(Debug, Clone, Copy, Default)]
        pub struct OsRng;
        impl CryptoRng for OsRng {}
        impl RngCore for OsRng {
            fn next_u32(&mut self) -> u32 {
                rand_core::impls::next_u32_via_fill(self)
            }
            fn next_u64(&mut self) -> u64 {
                rand_core::impls::next_u64_via_fill(self)
            }
            fn fill_bytes(&mut self, dest: &mut [u8]) {
                crate::control::RNG.with(|c| match c.borrow_mut().as_mut() {
                    Some(f) => f(dest),
                    None => rand_core::OsRng.fill_bytes(dest),
                })
            }
            fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), Error> {
                self.fill_bytes(dest);
                Ok(())
            }
        }
    }
    pub type Decimal = u32;
    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub enum Error {
        Algorithm,
        B64Encoding,
        Password,
        SaltInvalid,
        ParamValueInvalid,
        OutputSize,
        Version,
    }
    impl fmt::Display for Error {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            write!(f, "{self:?}")
        }
    }
    impl std::error::Error for Error {}
    pub type Result<T> = std::result::Result<T, Error>;

    #[derive(Debug, Clone, PartialEq, Eq)]
    pub struct SaltString(String);
    impl SaltString {
        pub fn generate(mut rng: impl super::password_hash::rand_core::RngCore) -> Self {
            let mut b = [0u8; 16];
            rng.fill_bytes(&mut b);
            Self::encode_b64(&b).unwrap()
        }
        pub fn from_b64(s: &str) -> Result<Self> {
            let ok = |c: char| c.is_ascii_alphanumeric() || matches!(c, '/' | '+' | '.' | '-');
            if (4..=64).contains(&s.len()) && s.chars().all(ok) {
                Ok(Self(s.to_string()))
            } else {
                Err(Error::SaltInvalid)
            }
        }
        pub fn encode_b64(b: &[u8]) -> Result<Self> {
            Self::from_b64(&BASE64_STANDARD_NO_PAD.encode(b))
        }
        pub fn decode_b64<'a>(&self, buf: &'a mut [u8]) -> Result<&'a [u8]> {
            let n = BASE64_STANDARD_NO_PAD
                .decode_slice(&self.0, buf)
                .map_err(|_| Error::B64Encoding)?;
            Ok(&buf[..n])
        }
        pub fn as_str(&self) -> &str {
            &self.0
        }
        pub fn as_salt(&self) -> Salt<'_> {
            Salt(&self.0)
        }
        #[allow(clippy::len_without_is_empty)]
        pub fn len(&self) -> usize {
            self.0.len()
        }
    }
    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub struct Salt<'a>(&'a str);
    impl<'a> From<&'a SaltString> for Salt<'a> {
        fn from(s: &'a SaltString) -> Self {
            Salt(&s.0)
        }
    }
    #[derive(Debug, Clone, PartialEq, Eq)]
    pub struct Output(Vec<u8>);
    impl Output {
        pub fn as_bytes(&self) -> &[u8] {
            &self.0
        }
        #[allow(clippy::len_without_is_empty)]
        pub fn len(&self) -> usize {
            self.0.len()
        }
    }
    pub struct PasswordHash<'a> {
        pub salt: Option<Salt<'a>>,
        pub hash: Option<Output>,
    }
    pub trait PasswordHasher {
        type Params: Default;
        fn hash_password_customized<'a>(
            &self,
            password: &[u8],
            algorithm: Option<&str>,
            version: Option<Decimal>,
            params: Self::Params,
            salt: impl Into<Salt<'a>>,
        ) -> Result<PasswordHash<'a>>;
        fn hash_password<'a>(
            &self,
            password: &[u8],
            salt: impl Into<Salt<'a>>,
        ) -> Result<PasswordHash<'a>> {
            self.hash_password_customized(password, None, None, Default::default(), salt)
        }
    }
    impl PasswordHasher for super::Scrypt {
        type Params = Params;
        fn hash_password_customized<'a>(
            &self,
            password: &[u8],
            algorithm: Option<&str>,
            version: Option<Decimal>,
            params: Params,
            salt: impl Into<Salt<'a>>,
        ) -> Result<PasswordHash<'a>> {
            if algorithm.is_some_and(|a| a != "scrypt") {
                return Err(Error::Algorithm);
            }
            if version.is_some() {
                return Err(Error::Version);
            }
            let salt = salt.into();
            let mut buf = [0u8; 64];
            let n = BASE64_STANDARD_NO_PAD
                .decode_slice(salt.0, &mut buf)
                .map_err(|_| Error::B64Encoding)?;
            let mut out = vec![0u8; params.len];
            scrypt(password, &buf[..n], &params, &mut out).map_err(|_| Error::OutputSize)?;
            Ok(PasswordHash { salt: Some(salt), hash: Some(Output(out)) })
        }
    }
}
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct Scrypt;

#[cfg(test)]
mod tests {
    use super::*;
    #[test]
    fn rfc7914() {
        let mut o = [0u8; 64];
        scrypt(b"password", b"NaCl", &Params::new(10, 8, 16, 64).unwrap(), &mut o).unwrap();
        assert_eq!(o[..8], [0xfd, 0xba, 0xbe, 0x1c, 0x9d, 0x34, 0x72, 0x00]);
        scrypt(b"", b"", &Params::new(4, 1, 1, 64).unwrap(), &mut o).unwrap();
        assert_eq!(o[..8], [0x77, 0xd6, 0x57, 0x62, 0x38, 0x65, 0x7b, 0x20]);
    }
}
