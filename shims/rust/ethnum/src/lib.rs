//! Offline stand-in for the part of the crate ethnum that is used. As there (and
//! for the primitive types), a shift by the width or more is an error of the caller.
use std::cmp::Ordering;
use std::fmt;
use std::ops::*;

/// Least significant half first (on this platform).
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq, Hash)]
#[repr(transparent)]
pub struct U256(pub [u128; 2]);
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq, Hash)]
#[repr(transparent)]
pub struct I256(pub [u128; 2]);

impl Ord for U256 { fn cmp(&self, o: &Self) -> Ordering { (self.0[1], self.0[0]).cmp(&(o.0[1], o.0[0])) } }
impl PartialOrd for U256 { fn partial_cmp(&self, o: &Self) -> Option<Ordering> { Some(self.cmp(o)) } }
impl Ord for I256 { fn cmp(&self, o: &Self) -> Ordering { (self.0[1] as i128, self.0[0]).cmp(&(o.0[1] as i128, o.0[0])) } }
impl PartialOrd for I256 { fn partial_cmp(&self, o: &Self) -> Option<Ordering> { Some(self.cmp(o)) } }

fn digits(x: [u128; 2]) -> [u64; 4] { [x[0] as u64, (x[0] >> 64) as u64, x[1] as u64, (x[1] >> 64) as u64] }
fn undigits(d: [u64; 4]) -> [u128; 2] { [d[0] as u128 | (d[1] as u128) << 64, d[2] as u128 | (d[3] as u128) << 64] }

impl U256 {
    pub const ZERO: Self = Self([0, 0]);
    pub const ONE: Self = Self([1, 0]);
    pub const MIN: Self = Self([0, 0]);
    pub const MAX: Self = Self([u128::MAX, u128::MAX]);
    pub fn wrapping_add(self, o: Self) -> Self {
        let (l, c) = self.0[0].overflowing_add(o.0[0]);
        Self([l, self.0[1].wrapping_add(o.0[1]).wrapping_add(c as u128)])
    }
    pub fn wrapping_sub(self, o: Self) -> Self {
        let (l, c) = self.0[0].overflowing_sub(o.0[0]);
        Self([l, self.0[1].wrapping_sub(o.0[1]).wrapping_sub(c as u128)])
    }
    pub fn wrapping_neg(self) -> Self { Self::ZERO.wrapping_sub(self) }
    pub fn wrapping_mul(self, o: Self) -> Self {
        let (a, b, mut r) = (digits(self.0), digits(o.0), [0u64; 4]);
        for i in 0..4 {
            let mut c = 0u128;
            for j in 0..4 - i {
                c += r[i + j] as u128 + a[i] as u128 * b[j] as u128;
                r[i + j] = c as u64;
                c >>= 64;
            }
        }
        Self(undigits(r))
    }
    fn div_rem(self, o: Self) -> (Self, Self) {
        assert!(o != Self::ZERO, "attempt to divide by zero");
        if self.0[1] == 0 && o.0[1] == 0 { return (Self([self.0[0] / o.0[0], 0]), Self([self.0[0] % o.0[0], 0])); }
        let (mut q, mut r) = (Self::ZERO, Self::ZERO);
        for i in (0..256 - self.leading_zeros()).rev() {
            let carry = r.0[1] >> 127 == 1;
            r = r.wrapping_shl(1);
            r.0[0] |= self.wrapping_shr(i).0[0] & 1;
            if carry || r >= o {
                r = r.wrapping_sub(o);
                q = q | Self::ONE.wrapping_shl(i);
            }
        }
        (q, r)
    }
    pub fn wrapping_div(self, o: Self) -> Self { self.div_rem(o).0 }
    pub fn wrapping_rem(self, o: Self) -> Self { self.div_rem(o).1 }
    pub fn wrapping_shl(self, n: u32) -> Self {
        let n = n & 255;
        if n == 0 { self } else if n < 128 { Self([self.0[0] << n, self.0[1] << n | self.0[0] >> (128 - n)]) } else { Self([0, self.0[0] << (n - 128)]) }
    }
    pub fn wrapping_shr(self, n: u32) -> Self {
        let n = n & 255;
        if n == 0 { self } else if n < 128 { Self([self.0[0] >> n | self.0[1] << (128 - n), self.0[1] >> n]) } else { Self([self.0[1] >> (n - 128), 0]) }
    }
    pub fn leading_zeros(self) -> u32 { if self.0[1] != 0 { self.0[1].leading_zeros() } else { 128 + self.0[0].leading_zeros() } }
    pub fn trailing_zeros(self) -> u32 { if self.0[0] != 0 { self.0[0].trailing_zeros() } else { 128 + self.0[1].trailing_zeros() } }
    pub fn count_ones(self) -> u32 { self.0[0].count_ones() + self.0[1].count_ones() }
    pub fn as_i256(self) -> I256 { I256(self.0) }
    pub fn as_u64(self) -> u64 { self.0[0] as u64 }
    pub fn as_u128(self) -> u128 { self.0[0] }
    pub fn as_usize(self) -> usize { self.0[0] as usize }
    pub fn swap_bytes(self) -> Self { Self([self.0[1].swap_bytes(), self.0[0].swap_bytes()]) }
    pub fn to_be(self) -> Self { self.swap_bytes() }
    pub fn to_le(self) -> Self { self }
    pub fn from_be(x: Self) -> Self { x.swap_bytes() }
    pub fn from_le(x: Self) -> Self { x }
    pub fn to_le_bytes(self) -> [u8; 32] {
        let mut r = [0; 32];
        r[..16].copy_from_slice(&self.0[0].to_le_bytes());
        r[16..].copy_from_slice(&self.0[1].to_le_bytes());
        r
    }
    pub fn to_be_bytes(self) -> [u8; 32] { self.swap_bytes().to_le_bytes() }
    pub fn from_le_bytes(b: [u8; 32]) -> Self {
        Self([u128::from_le_bytes(b[..16].try_into().unwrap()), u128::from_le_bytes(b[16..].try_into().unwrap())])
    }
    pub fn from_be_bytes(b: [u8; 32]) -> Self { Self::from_le_bytes(b).swap_bytes() }
    pub fn overflowing_add(self, o: Self) -> (Self, bool) { let r = self.wrapping_add(o); (r, r < self) }
    pub fn overflowing_sub(self, o: Self) -> (Self, bool) { (self.wrapping_sub(o), self < o) }
    pub fn checked_add(self, o: Self) -> Option<Self> { match self.overflowing_add(o) { (r, false) => Some(r), _ => None } }
    pub fn checked_sub(self, o: Self) -> Option<Self> { if self < o { None } else { Some(self.wrapping_sub(o)) } }
    pub fn wrapping_pow(self, mut e: u32) -> Self {
        let (mut r, mut b) = (Self::ONE, self);
        while e > 0 {
            if e & 1 == 1 { r = r.wrapping_mul(b); }
            b = b.wrapping_mul(b);
            e >>= 1;
        }
        r
    }
    pub fn is_power_of_two(self) -> bool { self.count_ones() == 1 }
}
impl I256 {
    pub const ZERO: Self = Self([0, 0]);
    pub const ONE: Self = Self([1, 0]);
    pub const MINUS_ONE: Self = Self([u128::MAX, u128::MAX]);
    pub const MAX: Self = Self([u128::MAX, u128::MAX >> 1]);
    pub const MIN: Self = Self([0, 1 << 127]);
    pub fn is_negative(self) -> bool { self.0[1] >> 127 == 1 }
    pub fn is_positive(self) -> bool { !self.is_negative() && self != Self::ZERO }
    pub fn as_u256(self) -> U256 { U256(self.0) }
    pub fn unsigned_abs(self) -> U256 { if self.is_negative() { self.as_u256().wrapping_neg() } else { self.as_u256() } }
    pub fn wrapping_neg(self) -> Self { self.as_u256().wrapping_neg().as_i256() }
    pub fn wrapping_abs(self) -> Self { self.unsigned_abs().as_i256() }
    pub fn wrapping_add(self, o: Self) -> Self { self.as_u256().wrapping_add(o.as_u256()).as_i256() }
    pub fn wrapping_sub(self, o: Self) -> Self { self.as_u256().wrapping_sub(o.as_u256()).as_i256() }
    pub fn wrapping_div(self, o: Self) -> Self {
        let q = self.unsigned_abs().wrapping_div(o.unsigned_abs());
        if self.is_negative() != o.is_negative() { q.wrapping_neg().as_i256() } else { q.as_i256() }
    }
    pub fn wrapping_rem(self, o: Self) -> Self {
        let r = self.unsigned_abs().wrapping_rem(o.unsigned_abs());
        if self.is_negative() { r.wrapping_neg().as_i256() } else { r.as_i256() }
    }
    pub fn wrapping_shl(self, n: u32) -> Self { self.as_u256().wrapping_shl(n).as_i256() }
    pub fn wrapping_shr(self, n: u32) -> Self {
        let n = n & 255;
        let r = self.as_u256().wrapping_shr(n);
        if self.is_negative() && n > 0 { (r | U256::MAX.wrapping_shl(256 - n)).as_i256() } else { r.as_i256() }
    }
}

macro_rules! froms { ($($t:ty),*) => { $(
    impl From<$t> for U256 { fn from(x: $t) -> Self { Self([x as u128, 0]) } }
)* } }
froms!(bool, u8, u16, u32, u64, u128);

macro_rules! bitop { ($($tr:ident $f:ident $tra:ident $fa:ident $op:tt),*) => { $(
    impl $tr for U256 { type Output = Self; fn $f(self, o: Self) -> Self { Self([self.0[0] $op o.0[0], self.0[1] $op o.0[1]]) } }
    impl $tra for U256 { fn $fa(&mut self, o: Self) { *self = (*self).$f(o); } }
)* } }
bitop!(BitAnd bitand BitAndAssign bitand_assign &, BitOr bitor BitOrAssign bitor_assign |, BitXor bitxor BitXorAssign bitxor_assign ^);
impl Not for U256 { type Output = Self; fn not(self) -> Self { Self([!self.0[0], !self.0[1]]) } }

fn carry(r: U256, bad: bool, what: &str) -> U256 {
    if cfg!(debug_assertions) && bad { panic!("attempt to {what} with overflow"); }
    r
}
macro_rules! arith { ($($tr:ident $f:ident $tra:ident $fa:ident $e:expr),*) => { $(
    impl $tr for U256 { type Output = Self; fn $f(self, o: Self) -> Self { let g: fn(U256, U256) -> U256 = $e; g(self, o) } }
    impl $tra for U256 { fn $fa(&mut self, o: Self) { *self = (*self).$f(o); } }
)* } }
arith!(
    Add add AddAssign add_assign |a, b| { let (r, o) = a.overflowing_add(b); carry(r, o, "add") },
    Sub sub SubAssign sub_assign |a, b| { let (r, o) = a.overflowing_sub(b); carry(r, o, "subtract") },
    Mul mul MulAssign mul_assign |a, b| a.wrapping_mul(b),
    Div div DivAssign div_assign |a, b| a.wrapping_div(b),
    Rem rem RemAssign rem_assign |a, b| a.wrapping_rem(b)
);

macro_rules! shifts { ($($t:ty),*) => { $(
    impl Shl<$t> for U256 { type Output = Self; fn shl(self, n: $t) -> Self { carry(self.wrapping_shl(n as u32), n as u128 > 255, "shift left") } }
    impl Shr<$t> for U256 { type Output = Self; fn shr(self, n: $t) -> Self { carry(self.wrapping_shr(n as u32), n as u128 > 255, "shift right") } }
    impl ShlAssign<$t> for U256 { fn shl_assign(&mut self, n: $t) { *self = *self << n; } }
    impl ShrAssign<$t> for U256 { fn shr_assign(&mut self, n: $t) { *self = *self >> n; } }
)* } }
shifts!(u8, u16, u32, u64, usize, i32);
impl Shl<U256> for U256 { type Output = Self; fn shl(self, n: U256) -> Self { carry(self.wrapping_shl(n.0[0] as u32), n > U256([255, 0]), "shift left") } }
impl Shr<U256> for U256 { type Output = Self; fn shr(self, n: U256) -> Self { carry(self.wrapping_shr(n.0[0] as u32), n > U256([255, 0]), "shift right") } }

impl fmt::Display for U256 {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        let (mut x, mut s) = (*self, Vec::new());
        while x != Self::ZERO || s.is_empty() {
            let (q, r) = x.div_rem(U256([10, 0]));
            s.push(b'0' + r.0[0] as u8);
            x = q;
        }
        s.reverse();
        f.pad_integral(true, "", std::str::from_utf8(&s).unwrap())
    }
}
impl fmt::LowerHex for U256 {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        let s = if self.0[1] != 0 { format!("{:x}{:032x}", self.0[1], self.0[0]) } else { format!("{:x}", self.0[0]) };
        f.pad_integral(true, "0x", &s)
    }
}
