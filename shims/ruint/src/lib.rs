//! Stand-in for the `ruint` crate (not available offline): fixed-width unsigned integers with
//! schoolbook arithmetic.  Only correctness matters here, not speed.
use std::{
    cmp::Ordering,
    fmt,
    iter::{Product, Sum},
    ops::*,
    str::FromStr,
};

#[derive(Clone, Copy, PartialEq, Eq, Hash)]
pub struct Uint<const BITS: usize, const LIMBS: usize> {
    limbs: [u64; LIMBS],
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum ParseError {
    InvalidDigit(char),
    InvalidRadix(u64),
    Overflow,
}
impl fmt::Display for ParseError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{self:?}")
    }
}
impl std::error::Error for ParseError {}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct ToUintError;
impl fmt::Display for ToUintError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "value out of range")
    }
}
impl std::error::Error for ToUintError {}

pub type FromUintError = ToUintError;

pub mod aliases {
    pub type U64 = super::Uint<64, 1>;
    pub type U128 = super::Uint<128, 2>;
    pub type U256 = super::Uint<256, 4>;
    pub type U384 = super::Uint<384, 6>;
    pub type U512 = super::Uint<512, 8>;
}

impl<const B: usize, const L: usize> Default for Uint<B, L> {
    fn default() -> Self {
        Self::ZERO
    }
}

impl<const B: usize, const L: usize> Uint<B, L> {
    pub const LIMBS: usize = L;
    pub const BITS: usize = B;
    pub const BYTES: usize = B.div_ceil(8);
    pub const ZERO: Self = Self { limbs: [0; L] };
    pub const MIN: Self = Self::ZERO;
    pub const MAX: Self = Self { limbs: [u64::MAX; L] };
    pub const ONE: Self = {
        let mut limbs = [0; L];
        limbs[0] = 1;
        Self { limbs }
    };

    pub const fn from_limbs(limbs: [u64; L]) -> Self {
        Self { limbs }
    }
    pub const fn as_limbs(&self) -> &[u64; L] {
        &self.limbs
    }
    pub const fn into_limbs(self) -> [u64; L] {
        self.limbs
    }

    /// decimal (underscores allowed) or 0x-hex literal; used by the `uint!` macro
    pub const fn parse_const(s: &str) -> Self {
        let b = s.as_bytes();
        let (mut i, radix) =
            if b.len() > 2 && b[0] == b'0' && (b[1] == b'x' || b[1] == b'X') { (2, 16u64) } else { (0, 10u64) };
        let mut limbs = [0u64; L];
        while i < b.len() {
            let c = b[i];
            i += 1;
            if c == b'_' {
                continue;
            }
            if radix == 10 && (c == b'U' || c == b'u') {
                break;
            }
            let d = match c {
                b'0'..=b'9' => (c - b'0') as u64,
                b'a'..=b'f' => (c - b'a') as u64 + 10,
                b'A'..=b'F' => (c - b'A') as u64 + 10,
                _ => panic!("bad digit"),
            };
            let mut carry = d as u128;
            let mut j = 0;
            while j < L {
                let v = (limbs[j] as u128) * (radix as u128) + carry;
                limbs[j] = v as u64;
                carry = v >> 64;
                j += 1;
            }
            if carry != 0 {
                panic!("overflow");
            }
        }
        Self { limbs }
    }

    pub fn is_zero(&self) -> bool {
        self.limbs.iter().all(|l| *l == 0)
    }
    pub fn bit(&self, i: usize) -> bool {
        i < B && (self.limbs[i / 64] >> (i % 64)) & 1 == 1
    }
    pub fn set_bit(&mut self, i: usize, v: bool) {
        if i >= B {
            return;
        }
        if v {
            self.limbs[i / 64] |= 1 << (i % 64)
        } else {
            self.limbs[i / 64] &= !(1 << (i % 64))
        }
    }
    pub fn byte(&self, i: usize) -> u8 {
        (self.limbs[i / 8] >> (8 * (i % 8))) as u8
    }
    pub fn bit_len(&self) -> usize {
        (0..B).rev().find(|i| self.bit(*i)).map(|i| i + 1).unwrap_or(0)
    }
    pub fn leading_zeros(&self) -> usize {
        B - self.bit_len()
    }
    pub fn to_le_bytes<const N: usize>(&self) -> [u8; N] {
        assert_eq!(N, Self::BYTES, "BYTES must equal Self::BYTES");
        let mut out = [0u8; N];
        for (i, o) in out.iter_mut().enumerate() {
            *o = self.byte(i);
        }
        out
    }
    pub fn to_be_bytes<const N: usize>(&self) -> [u8; N] {
        let mut out = self.to_le_bytes::<N>();
        out.reverse();
        out
    }
    pub fn to_le_bytes_vec(&self) -> Vec<u8> {
        (0..Self::BYTES).map(|i| self.byte(i)).collect()
    }
    pub fn to_be_bytes_vec(&self) -> Vec<u8> {
        let mut v = self.to_le_bytes_vec();
        v.reverse();
        v
    }
    pub fn as_le_bytes(&self) -> Vec<u8> {
        self.to_le_bytes_vec()
    }
    pub const fn from_le_bytes<const N: usize>(bytes: [u8; N]) -> Self {
        let mut limbs = [0u64; L];
        let mut i = 0;
        while i < N {
            if i / 8 < L {
                limbs[i / 8] |= (bytes[i] as u64) << (8 * (i % 8));
            } else if bytes[i] != 0 {
                panic!("value too large");
            }
            i += 1;
        }
        Self { limbs }
    }
    pub const fn from_be_bytes<const N: usize>(bytes: [u8; N]) -> Self {
        let mut rev = [0u8; N];
        let mut i = 0;
        while i < N {
            rev[i] = bytes[N - 1 - i];
            i += 1;
        }
        Self::from_le_bytes(rev)
    }
    pub fn try_from_le_slice(bytes: &[u8]) -> Option<Self> {
        let mut limbs = [0u64; L];
        for (i, b) in bytes.iter().enumerate() {
            if i >= Self::BYTES {
                if *b != 0 {
                    return None;
                }
                continue;
            }
            limbs[i / 8] |= (*b as u64) << (8 * (i % 8));
        }
        Some(Self { limbs })
    }
    pub fn from_le_slice(bytes: &[u8]) -> Self {
        Self::try_from_le_slice(bytes).expect("Value too large for Uint")
    }
    pub fn try_from_be_slice(bytes: &[u8]) -> Option<Self> {
        let mut v = bytes.to_vec();
        v.reverse();
        Self::try_from_le_slice(&v)
    }
    pub fn from_be_slice(bytes: &[u8]) -> Self {
        Self::try_from_be_slice(bytes).expect("Value too large for Uint")
    }
    pub fn overflowing_add(self, rhs: Self) -> (Self, bool) {
        let mut limbs = [0u64; L];
        let mut carry = 0u128;
        for i in 0..L {
            let v = self.limbs[i] as u128 + rhs.limbs[i] as u128 + carry;
            limbs[i] = v as u64;
            carry = v >> 64;
        }
        (Self { limbs }, carry != 0)
    }
    pub fn overflowing_sub(self, rhs: Self) -> (Self, bool) {
        let mut limbs = [0u64; L];
        let mut borrow = false;
        for i in 0..L {
            let (v, b1) = self.limbs[i].overflowing_sub(rhs.limbs[i]);
            let (v, b2) = v.overflowing_sub(borrow as u64);
            limbs[i] = v;
            borrow = b1 || b2;
        }
        (Self { limbs }, borrow)
    }
    pub fn overflowing_mul(self, rhs: Self) -> (Self, bool) {
        let mut out = vec![0u64; 2 * L];
        for i in 0..L {
            let mut carry = 0u128;
            for j in 0..L {
                let v = out[i + j] as u128 + self.limbs[i] as u128 * rhs.limbs[j] as u128 + carry;
                out[i + j] = v as u64;
                carry = v >> 64;
            }
            out[i + L] = carry as u64;
        }
        let mut limbs = [0u64; L];
        limbs.copy_from_slice(&out[..L]);
        (Self { limbs }, out[L..].iter().any(|l| *l != 0))
    }
    pub fn wrapping_add(self, rhs: Self) -> Self {
        self.overflowing_add(rhs).0
    }
    pub fn wrapping_sub(self, rhs: Self) -> Self {
        self.overflowing_sub(rhs).0
    }
    pub fn wrapping_mul(self, rhs: Self) -> Self {
        self.overflowing_mul(rhs).0
    }
    pub fn checked_add(self, rhs: Self) -> Option<Self> {
        let (v, o) = self.overflowing_add(rhs);
        (!o).then_some(v)
    }
    pub fn checked_sub(self, rhs: Self) -> Option<Self> {
        let (v, o) = self.overflowing_sub(rhs);
        (!o).then_some(v)
    }
    pub fn checked_mul(self, rhs: Self) -> Option<Self> {
        let (v, o) = self.overflowing_mul(rhs);
        (!o).then_some(v)
    }
    pub fn saturating_add(self, rhs: Self) -> Self {
        self.checked_add(rhs).unwrap_or(Self::MAX)
    }
    pub fn saturating_sub(self, rhs: Self) -> Self {
        self.checked_sub(rhs).unwrap_or(Self::ZERO)
    }
    pub fn saturating_mul(self, rhs: Self) -> Self {
        self.checked_mul(rhs).unwrap_or(Self::MAX)
    }
    pub fn div_rem(self, d: Self) -> (Self, Self) {
        assert!(!d.is_zero(), "division by zero");
        let mut q = Self::ZERO;
        let mut r = Self::ZERO;
        for i in (0..self.bit_len()).rev() {
            let top = r.bit(B - 1);
            r = r << 1usize;
            if self.bit(i) {
                r.limbs[0] |= 1;
            }
            if top || r >= d {
                r = r.wrapping_sub(d);
                q.set_bit(i, true);
            }
        }
        (q, r)
    }
    pub fn reduce_mod(self, m: Self) -> Self {
        self.div_rem(m).1
    }
    pub fn add_mod(self, rhs: Self, m: Self) -> Self {
        if m.is_zero() {
            return Self::ZERO;
        }
        let a = self.reduce_mod(m);
        let b = rhs.reduce_mod(m);
        let (s, o) = a.overflowing_add(b);
        if o || s >= m {
            s.wrapping_sub(m)
        } else {
            s
        }
    }
    pub fn mul_mod(self, rhs: Self, m: Self) -> Self {
        if m.is_zero() {
            return Self::ZERO;
        }
        let mut acc = Self::ZERO;
        let a = self.reduce_mod(m);
        for i in (0..rhs.bit_len()).rev() {
            acc = acc.add_mod(acc, m);
            if rhs.bit(i) {
                acc = acc.add_mod(a, m);
            }
        }
        acc
    }
    pub fn pow_mod(self, e: Self, m: Self) -> Self {
        let mut acc = Self::ONE.reduce_mod(m);
        for i in (0..e.bit_len()).rev() {
            acc = acc.mul_mod(acc, m);
            if e.bit(i) {
                acc = acc.mul_mod(self, m);
            }
        }
        acc
    }
    pub fn pow(self, e: Self) -> Self {
        let mut acc = Self::ONE;
        for i in (0..e.bit_len()).rev() {
            acc = acc.wrapping_mul(acc);
            if e.bit(i) {
                acc = acc.wrapping_mul(self);
            }
        }
        acc
    }
    pub fn from<T: Into<Conv>>(v: T) -> Self {
        Self::from_conv(v.into()).expect("value too large")
    }
    fn from_conv(c: Conv) -> Option<Self> {
        let mut limbs = [0u64; L];
        for (i, l) in c.0.iter().enumerate() {
            if i < L {
                limbs[i] = *l
            } else if *l != 0 {
                return None;
            }
        }
        Some(Self { limbs })
    }
    pub fn from_str_radix(s: &str, radix: u64) -> Result<Self, ParseError> {
        if !(2..=36).contains(&radix) {
            return Err(ParseError::InvalidRadix(radix));
        }
        let mut acc = Self::ZERO;
        for c in s.chars() {
            if c == '_' {
                continue;
            }
            let d = c.to_digit(radix as u32).ok_or(ParseError::InvalidDigit(c))?;
            acc = acc.checked_mul(Self::from(radix)).ok_or(ParseError::Overflow)?;
            acc = acc.checked_add(Self::from(d as u64)).ok_or(ParseError::Overflow)?;
        }
        Ok(acc)
    }
    fn to_string_radix(self, radix: u64) -> String {
        if self.is_zero() {
            return "0".into();
        }
        let mut v = self.limbs;
        let mut out = vec![];
        while v.iter().any(|l| *l != 0) {
            let mut rem = 0u128;
            for i in (0..L).rev() {
                let cur = (rem << 64) | v[i] as u128;
                v[i] = (cur / radix as u128) as u64;
                rem = cur % radix as u128;
            }
            out.push(std::char::from_digit(rem as u32, radix as u32).unwrap());
        }
        out.iter().rev().collect()
    }
    pub fn to<T: TryFrom<Self>>(&self) -> T
    where
        T::Error: fmt::Debug,
    {
        T::try_from(*self).unwrap()
    }
    pub fn count_ones(&self) -> usize {
        self.limbs.iter().map(|l| l.count_ones() as usize).sum()
    }
}

/// little-endian limbs of a convertible value
pub struct Conv(Vec<u64>);
impl<const B: usize, const L: usize> From<Uint<B, L>> for Conv {
    fn from(v: Uint<B, L>) -> Self {
        Conv(v.limbs.to_vec())
    }
}
macro_rules! conv {
    ($($t:ty),*) => {$(
        impl From<$t> for Conv { fn from(v: $t) -> Self { Conv(vec![u64::try_from(v).expect("negative")]) } }
        impl<const B: usize, const L: usize> From<$t> for Uint<B, L> {
            fn from(v: $t) -> Self { Self::from_conv(Conv::from(v)).unwrap() }
        }
        impl<const B: usize, const L: usize> TryFrom<Uint<B, L>> for $t {
            type Error = ToUintError;
            fn try_from(v: Uint<B, L>) -> Result<Self, ToUintError> {
                if v.limbs[1..].iter().any(|l| *l != 0) { return Err(ToUintError) }
                <$t>::try_from(v.limbs[0]).map_err(|_| ToUintError)
            }
        }
    )*};
}
conv!(u8, u16, u32, u64, usize, i32, i64);
impl From<u128> for Conv {
    fn from(v: u128) -> Self {
        Conv(vec![v as u64, (v >> 64) as u64])
    }
}
impl From<bool> for Conv {
    fn from(v: bool) -> Self {
        Conv(vec![v as u64])
    }
}
impl<const B: usize, const L: usize> From<u128> for Uint<B, L> {
    fn from(v: u128) -> Self {
        Self::from_conv(Conv::from(v)).unwrap()
    }
}
impl<const B: usize, const L: usize> TryFrom<Uint<B, L>> for u128 {
    type Error = ToUintError;
    fn try_from(v: Uint<B, L>) -> Result<Self, ToUintError> {
        if v.limbs.iter().skip(2).any(|l| *l != 0) {
            return Err(ToUintError);
        }
        Ok(v.limbs[0] as u128 | (v.limbs.get(1).copied().unwrap_or(0) as u128) << 64)
    }
}

impl<const B: usize, const L: usize> PartialOrd for Uint<B, L> {
    fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
        Some(self.cmp(other))
    }
}
impl<const B: usize, const L: usize> Ord for Uint<B, L> {
    fn cmp(&self, other: &Self) -> Ordering {
        self.limbs.iter().rev().cmp(other.limbs.iter().rev())
    }
}

macro_rules! binop {
    ($tr:ident, $m:ident, $tra:ident, $ma:ident, |$a:ident, $b:ident| $e:expr) => {
        impl<const B: usize, const L: usize> $tr for Uint<B, L> {
            type Output = Self;
            fn $m(self, rhs: Self) -> Self {
                let ($a, $b) = (self, rhs);
                $e
            }
        }
        impl<const B: usize, const L: usize> $tr<&Uint<B, L>> for Uint<B, L> {
            type Output = Self;
            fn $m(self, rhs: &Self) -> Self {
                $tr::$m(self, *rhs)
            }
        }
        impl<const B: usize, const L: usize> $tra for Uint<B, L> {
            fn $ma(&mut self, rhs: Self) {
                *self = $tr::$m(*self, rhs);
            }
        }
    };
}
binop!(Add, add, AddAssign, add_assign, |a, b| a.wrapping_add(b));
binop!(Sub, sub, SubAssign, sub_assign, |a, b| a.wrapping_sub(b));
binop!(Mul, mul, MulAssign, mul_assign, |a, b| a.wrapping_mul(b));
binop!(Div, div, DivAssign, div_assign, |a, b| a.div_rem(b).0);
binop!(Rem, rem, RemAssign, rem_assign, |a, b| a.div_rem(b).1);
binop!(BitAnd, bitand, BitAndAssign, bitand_assign, |a, b| {
    let mut r = a;
    for i in 0..L {
        r.limbs[i] &= b.limbs[i]
    }
    r
});
binop!(BitOr, bitor, BitOrAssign, bitor_assign, |a, b| {
    let mut r = a;
    for i in 0..L {
        r.limbs[i] |= b.limbs[i]
    }
    r
});
binop!(BitXor, bitxor, BitXorAssign, bitxor_assign, |a, b| {
    let mut r = a;
    for i in 0..L {
        r.limbs[i] ^= b.limbs[i]
    }
    r
});
impl<const B: usize, const L: usize> Not for Uint<B, L> {
    type Output = Self;
    fn not(mut self) -> Self {
        for l in self.limbs.iter_mut() {
            *l = !*l
        }
        self
    }
}
impl<const B: usize, const L: usize> Shl<usize> for Uint<B, L> {
    type Output = Self;
    fn shl(self, n: usize) -> Self {
        let mut r = Self::ZERO;
        let (w, b) = (n / 64, n % 64);
        for i in (0..L).rev() {
            if i >= w {
                r.limbs[i] = self.limbs[i - w] << b;
                if b > 0 && i > w {
                    r.limbs[i] |= self.limbs[i - w - 1] >> (64 - b);
                }
            }
        }
        r
    }
}
impl<const B: usize, const L: usize> Shr<usize> for Uint<B, L> {
    type Output = Self;
    fn shr(self, n: usize) -> Self {
        let mut r = Self::ZERO;
        let (w, b) = (n / 64, n % 64);
        for i in 0..L {
            if i + w < L {
                r.limbs[i] = self.limbs[i + w] >> b;
                if b > 0 && i + w + 1 < L {
                    r.limbs[i] |= self.limbs[i + w + 1] << (64 - b);
                }
            }
        }
        r
    }
}
impl<const B: usize, const L: usize> Sum for Uint<B, L> {
    fn sum<I: Iterator<Item = Self>>(it: I) -> Self {
        it.fold(Self::ZERO, |a, b| a + b)
    }
}
impl<const B: usize, const L: usize> Product for Uint<B, L> {
    fn product<I: Iterator<Item = Self>>(it: I) -> Self {
        it.fold(Self::ONE, |a, b| a * b)
    }
}
impl<const B: usize, const L: usize> fmt::Display for Uint<B, L> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.pad_integral(true, "", &self.to_string_radix(10))
    }
}
impl<const B: usize, const L: usize> fmt::Debug for Uint<B, L> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Display::fmt(self, f)
    }
}
impl<const B: usize, const L: usize> fmt::LowerHex for Uint<B, L> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.pad_integral(true, "0x", &self.to_string_radix(16))
    }
}
impl<const B: usize, const L: usize> FromStr for Uint<B, L> {
    type Err = ParseError;
    fn from_str(s: &str) -> Result<Self, ParseError> {
        match s.get(..2) {
            Some("0x") | Some("0X") => Self::from_str_radix(&s[2..], 16),
            Some("0o") | Some("0O") => Self::from_str_radix(&s[2..], 8),
            Some("0b") | Some("0B") => Self::from_str_radix(&s[2..], 2),
            _ => Self::from_str_radix(s, 10),
        }
    }
}

/// `uint!(123_U256)`: the literal is a single token with a `U256`-like suffix; the type comes from
/// inference (declare it at the use site).
#[macro_export]
macro_rules! uint {
    ($($t:tt)*) => {
        $crate::Uint::parse_const(stringify!($($t)*))
    };
}

pub use aliases::U256 as U256_;

impl<const B: usize, const L: usize> serde::Serialize for Uint<B, L> {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.collect_str(&format_args!("{self:#x}"))
    }
}
impl<'de, const B: usize, const L: usize> serde::Deserialize<'de> for Uint<B, L> {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct V<const B: usize, const L: usize>;
        impl<const B: usize, const L: usize> serde::de::Visitor<'_> for V<B, L> {
            type Value = Uint<B, L>;
            fn expecting(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                write!(f, "a {B} bit number")
            }
            fn visit_u64<E: serde::de::Error>(self, v: u64) -> Result<Self::Value, E> {
                Ok(Uint::from(v))
            }
            fn visit_u128<E: serde::de::Error>(self, v: u128) -> Result<Self::Value, E> {
                Ok(Uint::from(v))
            }
            fn visit_str<E: serde::de::Error>(self, v: &str) -> Result<Self::Value, E> {
                v.parse().map_err(E::custom)
            }
        }
        d.deserialize_any(V::<B, L>)
    }
}
