pub mod cipher {
    use std::fmt;
    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub struct InvalidLength;
    impl fmt::Display for InvalidLength {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            write!(f, "Invalid Length")
        }
    }
    impl std::error::Error for InvalidLength {}
    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub struct StreamCipherError;
    pub trait BlockEncrypt16 {
        fn from_key(key: &[u8]) -> Option<Self>
        where
            Self: Sized;
        fn encrypt16(&self, block: &mut [u8; 16]);
    }
    pub trait KeyInit: Sized {
        fn new_from_slice(key: &[u8]) -> Result<Self, InvalidLength>;
    }
    pub trait KeyIvInit: Sized {
        fn new_from_slices(key: &[u8], iv: &[u8]) -> Result<Self, InvalidLength>;
        fn new(key: &[u8; 16], iv: &[u8; 16]) -> Self {
            Self::new_from_slices(key, iv).unwrap()
        }
    }
    pub trait StreamCipher {
        fn try_apply_keystream(&mut self, buf: &mut [u8]) -> Result<(), StreamCipherError>;
        fn apply_keystream(&mut self, buf: &mut [u8]) {
            self.try_apply_keystream(buf).unwrap()
        }
    }
    impl<T: BlockEncrypt16> KeyInit for T {
        fn new_from_slice(key: &[u8]) -> Result<Self, InvalidLength> {
            T::from_key(key).ok_or(InvalidLength)
        }
    }
}

fn xt(a: u8) -> u8 {
    (a << 1) ^ (if a & 0x80 != 0 { 0x1b } else { 0 })
}
fn mul(mut a: u8, mut b: u8) -> u8 {
    let mut r = 0;
    while b != 0 {
        if b & 1 != 0 {
            r ^= a;
        }
        a = xt(a);
        b >>= 1;
    }
    r
}
fn sbox() -> &'static [u8; 256] {
    static S: std::sync::OnceLock<[u8; 256]> = std::sync::OnceLock::new();
    S.get_or_init(|| {
        let mut s = [0u8; 256];
        for (i, o) in s.iter_mut().enumerate() {
            let inv = (0..=255u8).find(|&j| mul(i as u8, j) == 1).unwrap_or(0);
            *o = (0..5).fold(0, |a, k| a ^ inv.rotate_left(k)) ^ 0x63;
        }
        s
    })
}
#[derive(Clone)]
struct Aes {
    keys: Vec<[u8; 16]>,
}
impl Aes {
    fn new(key: &[u8]) -> Self {
        let s = sbox();
        let nk = key.len() / 4;
        let rounds = nk + 6;
        let mut w: Vec<[u8; 4]> = key.chunks(4).map(|c| c.try_into().unwrap()).collect();
        let mut rc = 1u8;
        for i in nk..4 * (rounds + 1) {
            let mut t = w[i - 1];
            if i % nk == 0 {
                t.rotate_left(1);
                t = t.map(|b| s[b as usize]);
                t[0] ^= rc;
                rc = xt(rc);
            } else if nk > 6 && i % nk == 4 {
                t = t.map(|b| s[b as usize]);
            }
            let p = w[i - nk];
            w.push([p[0] ^ t[0], p[1] ^ t[1], p[2] ^ t[2], p[3] ^ t[3]]);
        }
        Self { keys: w.chunks(4).map(|c| c.concat().try_into().unwrap()).collect() }
    }
    fn block(&self, b: &mut [u8; 16]) {
        let s = sbox();
        let n = self.keys.len() - 1;
        let add = |b: &mut [u8; 16], k: &[u8; 16]| b.iter_mut().zip(k).for_each(|(x, y)| *x ^= y);
        add(b, &self.keys[0]);
        for r in 1..=n {
            let mut t = [0u8; 16];
            for c in 0..4 {
                for row in 0..4 {
                    t[4 * c + row] = s[b[4 * ((c + row) % 4) + row] as usize];
                }
            }
            if r != n {
                for c in 0..4 {
                    let a: [u8; 4] = t[4 * c..4 * c + 4].try_into().unwrap();
                    for i in 0..4 {
                        t[4 * c + i] =
                            mul(a[i], 2) ^ mul(a[(i + 1) % 4], 3) ^ a[(i + 2) % 4] ^ a[(i + 3) % 4];
                    }
                }
            }
            add(&mut t, &self.keys[r]);
            *b = t;
        }
    }
}
macro_rules! variant {
    ($t:ident, $n:expr) => {
        #[derive(Clone)]
        pub struct $t(Aes);
        impl cipher::BlockEncrypt16 for $t {
            fn from_key(key: &[u8]) -> Option<Self> {
                (key.len() == $n).then(|| Self(Aes::new(key)))
            }
            fn encrypt16(&self, block: &mut [u8; 16]) {
                self.0.block(block)
            }
        }
    };
}
variant!(Aes128, 16);
variant!(Aes192, 24);
variant!(Aes256, 32);

#[cfg(test)]
mod tests {
    use super::cipher::*;
    #[test]
    fn fips197() {
        let key: Vec<u8> = (0..16).collect();
        let mut b: [u8; 16] = std::array::from_fn(|i| (i * 0x11) as u8);
        super::Aes128::from_key(&key).unwrap().encrypt16(&mut b);
        assert_eq!(u128::from_be_bytes(b), 0x69c4e0d86a7b0430d8cdb78070b4c55a);
    }
}
