use aes::cipher::*;
pub use aes::cipher;

macro_rules! flavor {
    ($t:ident, $n:ty, $le:expr) => {
        /// counter block = nonce part of the IV with the counter part incremented modulo its width
        pub struct $t<C> {
            c: C,
            iv: [u8; 16],
            pos: u128,
        }
        impl<C: BlockEncrypt16> KeyIvInit for $t<C> {
            fn new_from_slices(key: &[u8], iv: &[u8]) -> Result<Self, InvalidLength> {
                let iv = iv.try_into().map_err(|_| InvalidLength)?;
                Ok(Self { c: C::from_key(key).ok_or(InvalidLength)?, iv, pos: 0 })
            }
        }
        impl<C: BlockEncrypt16> StreamCipher for $t<C> {
            fn try_apply_keystream(&mut self, buf: &mut [u8]) -> Result<(), StreamCipherError> {
                for b in buf {
                    let n = (self.pos / 16) as $n;
                    let w = std::mem::size_of::<$n>();
                    let mut block = self.iv;
                    if $le {
                        let v = <$n>::from_le_bytes(block[..w].try_into().unwrap());
                        block[..w].copy_from_slice(&v.wrapping_add(n).to_le_bytes());
                    } else {
                        let v = <$n>::from_be_bytes(block[16 - w..].try_into().unwrap());
                        block[16 - w..].copy_from_slice(&v.wrapping_add(n).to_be_bytes());
                    }
                    self.c.encrypt16(&mut block);
                    *b ^= block[(self.pos % 16) as usize];
                    self.pos += 1;
                }
                Ok(())
            }
        }
    };
}
flavor!(Ctr32BE, u32, false);
flavor!(Ctr64BE, u64, false);
flavor!(Ctr128BE, u128, false);
flavor!(Ctr32LE, u32, true);
flavor!(Ctr64LE, u64, true);
flavor!(Ctr128LE, u128, true);
