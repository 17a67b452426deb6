//! stand-in for `integer-sqrt`
pub trait IntegerSquareRoot: Sized + Copy {
    fn integer_sqrt_checked(&self) -> Option<Self>;
    fn integer_sqrt(&self) -> Self {
        self.integer_sqrt_checked().expect("cannot calculate square root of negative number")
    }
}
macro_rules! imp {
    ($($t:ty),*) => {$(
        impl IntegerSquareRoot for $t {
            #[allow(unused_comparisons)]
            fn integer_sqrt_checked(&self) -> Option<Self> {
                if *self < 0 { return None }
                let (mut lo, mut hi) = (0u128, 1u128 << 64);
                while hi - lo > 1 {
                    let mid = lo + (hi - lo) / 2;
                    if mid.checked_mul(mid).map(|s| s <= *self as u128).unwrap_or(false) { lo = mid } else { hi = mid }
                }
                Some(lo as $t)
            }
        }
    )*};
}
imp!(u8, u16, u32, u64, usize, u128, i32, i64);
