//! Offline stand-in for the part of the crate bnum that is used.
use std::ops::{Add, Mul, Rem};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct BUint<const N: usize>([u64; N]);

impl<const N: usize> BUint<N> {
    pub const fn from_digits(d: [u64; N]) -> Self { Self(d) }
    pub const fn digits(&self) -> &[u64; N] { &self.0 }
    fn bit(&self, i: usize) -> bool { self.0[i / 64] >> (i % 64) & 1 == 1 }
}
impl<const N: usize> Add for BUint<N> {
    type Output = Self;
    fn add(self, o: Self) -> Self {
        let (mut r, mut c) = ([0; N], 0u128);
        for i in 0..N {
            c += self.0[i] as u128 + o.0[i] as u128;
            r[i] = c as u64;
            c >>= 64;
        }
        Self(r)
    }
}
impl<const N: usize> Mul for BUint<N> {
    type Output = Self;
    fn mul(self, o: Self) -> Self {
        let mut r = [0u64; N];
        for i in 0..N {
            let mut c = 0u128;
            for j in 0..N - i {
                c += r[i + j] as u128 + self.0[i] as u128 * o.0[j] as u128;
                r[i + j] = c as u64;
                c >>= 64;
            }
        }
        Self(r)
    }
}
impl<const N: usize> Rem for BUint<N> {
    type Output = Self;
    fn rem(self, m: Self) -> Self {
        assert!(m.0 != [0; N], "attempt to calculate remainder with divisor of zero");
        let mut r = [0u64; N];
        for i in (0..64 * N).rev() {
            let carry = r[N - 1] >> 63 == 1;
            for k in (1..N).rev() { r[k] = r[k] << 1 | r[k - 1] >> 63; }
            r[0] = r[0] << 1 | self.bit(i) as u64;
            if carry || !r.iter().rev().lt(m.0.iter().rev()) {
                let mut b = false;
                for k in 0..N {
                    let (x, b1) = r[k].overflowing_sub(m.0[k]);
                    let (x, b2) = x.overflowing_sub(b as u64);
                    r[k] = x;
                    b = b1 | b2;
                }
            }
        }
        Self(r)
    }
}

pub mod types {
    pub type U256 = super::BUint<4>;
    pub type U512 = super::BUint<8>;
}
pub mod cast {
    pub trait CastFrom<T> { fn cast_from(from: T) -> Self; }
    impl<const N: usize, const M: usize> CastFrom<super::BUint<M>> for super::BUint<N> {
        fn cast_from(f: super::BUint<M>) -> Self {
            let mut r = [0; N];
            for i in 0..N.min(M) { r[i] = f.0[i]; }
            Self(r)
        }
    }
}
