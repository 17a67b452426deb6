const ALPHABET: &[u8; 58] = b"123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";
pub struct EncodeBuilder(Vec<u8>);
pub fn encode<I: AsRef<[u8]>>(i: I) -> EncodeBuilder {
    EncodeBuilder(i.as_ref().to_vec())
}
impl EncodeBuilder {
    pub fn into_vec(self) -> Vec<u8> {
        self.into_string().into_bytes()
    }
    pub fn into_string(self) -> String {
        let zeros = self.0.iter().take_while(|b| **b == 0).count();
        let mut digits: Vec<u8> = vec![];
        for b in &self.0 {
            let mut c = *b as u32;
            for d in digits.iter_mut() {
                c += (*d as u32) << 8;
                *d = (c % 58) as u8;
                c /= 58;
            }
            while c > 0 {
                digits.push((c % 58) as u8);
                c /= 58;
            }
        }
        let mut s = "1".repeat(zeros);
        s.extend(digits.iter().rev().map(|d| ALPHABET[*d as usize] as char));
        s
    }
}
pub struct DecodeBuilder(Vec<u8>);
pub fn decode<I: AsRef<[u8]>>(i: I) -> DecodeBuilder {
    DecodeBuilder(i.as_ref().to_vec())
}
impl DecodeBuilder {
    pub fn into_vec(self) -> decode::Result<Vec<u8>> {
        let zeros = self.0.iter().take_while(|b| **b == b'1').count();
        let mut out: Vec<u8> = vec![];
        for (index, ch) in self.0.iter().enumerate() {
            if *ch > 127 {
                return Err(decode::Error::NonAsciiCharacter { index });
            }
            let mut c = ALPHABET
                .iter()
                .position(|a| a == ch)
                .ok_or(decode::Error::InvalidCharacter { character: *ch as char, index })? as u32;
            for b in out.iter_mut() {
                c += *b as u32 * 58;
                *b = c as u8;
                c >>= 8;
            }
            while c > 0 {
                out.push(c as u8);
                c >>= 8;
            }
        }
        let mut v = vec![0u8; zeros];
        v.extend(out.iter().rev());
        Ok(v)
    }
}
pub mod decode {
    #[derive(Debug, Clone, PartialEq, Eq)]
    pub enum Error {
        BufferTooSmall,
        InvalidCharacter { character: char, index: usize },
        NonAsciiCharacter { index: usize },
    }
    pub type Result<T> = std::result::Result<T, Error>;
    impl std::fmt::Display for Error {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            write!(f, "{self:?}")
        }
    }
    impl std::error::Error for Error {}
}
