//! Stand-in for Expander's `arith` crate: the field traits and all concrete fields.
//! The arithmetic is complete and exact; the SIMD types keep the alignment of the
//! AVX-512 originals (64 bytes), so misaligned accesses to them are observable.
use ethnum::U256;
use rand::RngCore;
use serdes::{ExpSerde, SerdeError, SerdeResult};
use std::fmt::Debug;
use std::hash::Hash;
use std::io::{Read, Write};
use std::iter::{Product, Sum};
use std::ops::{Add, AddAssign, Mul, MulAssign, Neg, Sub, SubAssign};

pub trait Field:
    Copy
    + Clone
    + Debug
    + Default
    + PartialEq
    + Eq
    + PartialOrd
    + Ord
    + Hash
    + From<u32>
    + Neg<Output = Self>
    + Add<Output = Self>
    + Sub<Output = Self>
    + Mul<Output = Self>
    + Sum
    + Product
    + for<'a> Add<&'a Self, Output = Self>
    + for<'a> Sub<&'a Self, Output = Self>
    + for<'a> Mul<&'a Self, Output = Self>
    + for<'a> Sum<&'a Self>
    + for<'a> Product<&'a Self>
    + AddAssign
    + SubAssign
    + MulAssign
    + for<'a> AddAssign<&'a Self>
    + for<'a> SubAssign<&'a Self>
    + for<'a> MulAssign<&'a Self>
    + Send
    + Sync
    + ExpSerde
    + 'static
{
    const NAME: &'static str;
    const SIZE: usize;
    const FIELD_SIZE: usize;
    const ZERO: Self;
    const ONE: Self;
    const INV_2: Self;
    const MODULUS: U256;

    #[inline(always)]
    fn zero() -> Self {
        Self::ZERO
    }
    #[inline(always)]
    fn one() -> Self {
        Self::ONE
    }
    #[inline(always)]
    fn is_zero(&self) -> bool {
        *self == Self::ZERO
    }
    fn random_unsafe(rng: impl RngCore) -> Self;
    fn random_bool(rng: impl RngCore) -> Self;
    fn exp(&self, exponent: u128) -> Self {
        self.pow_u256(U256::from(exponent))
    }
    fn pow_u256(&self, e: U256) -> Self {
        let mut r = Self::ONE;
        let mut b = *self;
        let mut e = e;
        while e != U256::ZERO {
            if (e & U256::ONE) == U256::ONE {
                r *= b;
            }
            b = b * b;
            e >>= 1u32;
        }
        r
    }
    fn inv(&self) -> Option<Self>;
    fn as_u32_unchecked(&self) -> u32;
    fn from_uniform_bytes(bytes: &[u8]) -> Self;
    #[inline(always)]
    fn double(&self) -> Self {
        *self + *self
    }
    #[inline(always)]
    fn square(&self) -> Self {
        *self * *self
    }
    fn mul_by_2(&self) -> Self {
        self.double()
    }
    fn mul_by_3(&self) -> Self {
        self.double() + *self
    }
    fn mul_by_5(&self) -> Self {
        self.double().double() + *self
    }
    fn mul_by_6(&self) -> Self {
        self.mul_by_3().double()
    }
    fn to_u256(&self) -> U256;
    fn from_u256(v: U256) -> Self;
    fn batch_inversion_in_place(vals: &mut [Self]) {
        for v in vals {
            if let Some(i) = v.inv() {
                *v = i;
            }
        }
    }
}

pub trait SimdField: Field {
    type Scalar: Field;
    const PACK_SIZE: usize;
    fn scale(&self, challenge: &Self::Scalar) -> Self;
    fn pack_full(base: &Self::Scalar) -> Self;
    fn pack(base_vec: &[Self::Scalar]) -> Self;
    fn unpack(&self) -> Vec<Self::Scalar>;
    fn horizontal_sum(&self) -> Self::Scalar {
        self.unpack().into_iter().sum()
    }
}

/// Challenge fields: extensions of a circuit field.
pub trait ExtensionField: Field + Mul<Self::BaseField, Output = Self> + From<Self::BaseField> {
    type BaseField: Field;
    const DEGREE: usize;
    fn to_limbs(&self) -> Vec<Self::BaseField>;
    fn from_limbs(l: &[Self::BaseField]) -> Self;
    fn mul_by_base_field(&self, b: &Self::BaseField) -> Self {
        *self * *b
    }
    fn add_by_base_field(&self, b: &Self::BaseField) -> Self {
        *self + Self::from(*b)
    }
}

#[macro_export]
macro_rules! derive_ops {
    ([$($g:tt)*] $t:ty) => {
        impl<$($g)*> std::ops::AddAssign for $t { #[inline(always)] fn add_assign(&mut self, o: Self) { *self = *self + o; } }
        impl<$($g)*> std::ops::SubAssign for $t { #[inline(always)] fn sub_assign(&mut self, o: Self) { *self = *self - o; } }
        impl<$($g)*> std::ops::MulAssign for $t { #[inline(always)] fn mul_assign(&mut self, o: Self) { *self = *self * o; } }
        impl<'a, $($g)*> std::ops::AddAssign<&'a $t> for $t { #[inline(always)] fn add_assign(&mut self, o: &'a Self) { *self = *self + *o; } }
        impl<'a, $($g)*> std::ops::SubAssign<&'a $t> for $t { #[inline(always)] fn sub_assign(&mut self, o: &'a Self) { *self = *self - *o; } }
        impl<'a, $($g)*> std::ops::MulAssign<&'a $t> for $t { #[inline(always)] fn mul_assign(&mut self, o: &'a Self) { *self = *self * *o; } }
        impl<'a, $($g)*> std::ops::Add<&'a $t> for $t { type Output = Self; #[inline(always)] fn add(self, o: &'a Self) -> Self { self + *o } }
        impl<'a, $($g)*> std::ops::Sub<&'a $t> for $t { type Output = Self; #[inline(always)] fn sub(self, o: &'a Self) -> Self { self - *o } }
        impl<'a, $($g)*> std::ops::Mul<&'a $t> for $t { type Output = Self; #[inline(always)] fn mul(self, o: &'a Self) -> Self { self * *o } }
        impl<$($g)*> std::iter::Sum for $t { fn sum<I_: Iterator<Item = Self>>(i: I_) -> Self { i.fold(<Self as $crate::arith::Field>::ZERO, |a, b| a + b) } }
        impl<'a, $($g)*> std::iter::Sum<&'a $t> for $t { fn sum<I_: Iterator<Item = &'a Self>>(i: I_) -> Self { i.fold(<Self as $crate::arith::Field>::ZERO, |a, b| a + *b) } }
        impl<$($g)*> std::iter::Product for $t { fn product<I_: Iterator<Item = Self>>(i: I_) -> Self { i.fold(<Self as $crate::arith::Field>::ONE, |a, b| a * b) } }
        impl<'a, $($g)*> std::iter::Product<&'a $t> for $t { fn product<I_: Iterator<Item = &'a Self>>(i: I_) -> Self { i.fold(<Self as $crate::arith::Field>::ONE, |a, b| a * *b) } }
    };
}

// ---------------------------------------------------------------- 32-bit prime fields
macro_rules! field32 {
    ($t:ident, $name:expr, $p:expr) => {
        #[derive(Clone, Copy, Default, PartialEq, Eq, PartialOrd, Ord, Hash)]
        #[repr(transparent)]
        pub struct $t {
            pub v: u32,
        }
        impl Debug for $t {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                write!(f, "{}", self.v)
            }
        }
        impl std::fmt::Display for $t {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                write!(f, "{}", self.v)
            }
        }
        impl $t {
            pub const P: u32 = $p;
            pub fn new(v: u32) -> Self {
                Self { v: v % $p }
            }
        }
        impl From<u32> for $t {
            #[inline(always)]
            fn from(v: u32) -> Self {
                Self { v: v % $p }
            }
        }
        impl From<u64> for $t {
            #[inline(always)]
            fn from(v: u64) -> Self {
                Self { v: (v % ($p as u64)) as u32 }
            }
        }
        impl Neg for $t {
            type Output = Self;
            #[inline(always)]
            fn neg(self) -> Self {
                Self { v: if self.v == 0 { 0 } else { $p - self.v } }
            }
        }
        impl Add for $t {
            type Output = Self;
            #[inline(always)]
            fn add(self, o: Self) -> Self {
                let s = self.v as u64 + o.v as u64;
                Self { v: (if s >= $p as u64 { s - $p as u64 } else { s }) as u32 }
            }
        }
        impl Sub for $t {
            type Output = Self;
            #[inline(always)]
            fn sub(self, o: Self) -> Self {
                self + (-o)
            }
        }
        impl Mul for $t {
            type Output = Self;
            #[inline(always)]
            fn mul(self, o: Self) -> Self {
                Self { v: ((self.v as u64 * o.v as u64) % $p as u64) as u32 }
            }
        }
        derive_ops!([] $t);
        impl ExpSerde for $t {
            fn serialize_into<W: Write>(&self, w: W) -> SerdeResult<()> {
                self.v.serialize_into(w)
            }
            fn deserialize_from<R: Read>(r: R) -> SerdeResult<Self> {
                Ok(Self::from(u32::deserialize_from(r)?))
            }
        }
        impl Field for $t {
            const NAME: &'static str = $name;
            const SIZE: usize = 4;
            const FIELD_SIZE: usize = 32;
            const ZERO: Self = Self { v: 0 };
            const ONE: Self = Self { v: 1 };
            const INV_2: Self = Self { v: ($p + 1) / 2 };
            const MODULUS: U256 = U256([$p as u128, 0]);
            fn random_unsafe(mut rng: impl RngCore) -> Self {
                Self::from(rng.next_u64())
            }
            fn random_bool(mut rng: impl RngCore) -> Self {
                Self { v: rng.next_u32() & 1 }
            }
            fn inv(&self) -> Option<Self> {
                if self.v == 0 {
                    None
                } else {
                    Some(self.exp($p as u128 - 2))
                }
            }
            fn as_u32_unchecked(&self) -> u32 {
                self.v
            }
            fn from_uniform_bytes(b: &[u8]) -> Self {
                let mut x = [0u8; 8];
                let n = b.len().min(8);
                x[..n].copy_from_slice(&b[..n]);
                Self::from(u64::from_le_bytes(x))
            }
            fn to_u256(&self) -> U256 {
                U256::from(self.v)
            }
            fn from_u256(v: U256) -> Self {
                Self { v: (v % U256::from($p as u32)).as_u32() }
            }
        }
        impl SimdField for $t {
            type Scalar = Self;
            const PACK_SIZE: usize = 1;
            fn scale(&self, c: &Self) -> Self {
                *self * *c
            }
            fn pack_full(b: &Self) -> Self {
                *b
            }
            fn pack(b: &[Self]) -> Self {
                assert_eq!(b.len(), 1);
                b[0]
            }
            fn unpack(&self) -> Vec<Self> {
                vec![*self]
            }
        }
    };
}
field32!(M31, "Mersenne 31", 0x7fff_ffffu32);
field32!(BabyBear, "Baby Bear Field", 0x7800_0001u32);

// ---------------------------------------------------------------- Goldilocks
pub const GOLDILOCKS_P: u64 = 0xffff_ffff_0000_0001;
#[derive(Clone, Copy, Default, PartialEq, Eq, PartialOrd, Ord, Hash)]
#[repr(transparent)]
pub struct Goldilocks {
    pub v: u64,
}
impl Debug for Goldilocks {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.v)
    }
}
impl std::fmt::Display for Goldilocks {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.v)
    }
}
impl From<u32> for Goldilocks {
    fn from(v: u32) -> Self {
        Self { v: v as u64 }
    }
}
impl From<u64> for Goldilocks {
    fn from(v: u64) -> Self {
        Self { v: v % GOLDILOCKS_P }
    }
}
impl Neg for Goldilocks {
    type Output = Self;
    #[inline(always)]
    fn neg(self) -> Self {
        Self { v: if self.v == 0 { 0 } else { GOLDILOCKS_P - self.v } }
    }
}
impl Add for Goldilocks {
    type Output = Self;
    #[inline(always)]
    fn add(self, o: Self) -> Self {
        let (s, c) = self.v.overflowing_add(o.v);
        Self { v: if c || s >= GOLDILOCKS_P { s.wrapping_sub(GOLDILOCKS_P) } else { s } }
    }
}
impl Sub for Goldilocks {
    type Output = Self;
    #[inline(always)]
    fn sub(self, o: Self) -> Self {
        self + (-o)
    }
}
impl Mul for Goldilocks {
    type Output = Self;
    #[inline(always)]
    fn mul(self, o: Self) -> Self {
        // 2^64 = 2^32 - 1, 2^96 = -1 (mod p)
        let x = self.v as u128 * o.v as u128;
        let lo = x as u64;
        let hi = (x >> 64) as u64;
        let hi_hi = hi >> 32;
        let hi_lo = hi & 0xffff_ffff;
        let (mut t, borrow) = lo.overflowing_sub(hi_hi);
        if borrow {
            t = t.wrapping_sub(0xffff_ffff);
        }
        let m = hi_lo * 0xffff_ffff;
        let (mut r, carry) = t.overflowing_add(m);
        if carry {
            r = r.wrapping_add(0xffff_ffff);
        }
        if r >= GOLDILOCKS_P {
            r -= GOLDILOCKS_P;
        }
        Self { v: r }
    }
}
derive_ops!([] Goldilocks);
impl ExpSerde for Goldilocks {
    fn serialize_into<W: Write>(&self, w: W) -> SerdeResult<()> {
        self.v.serialize_into(w)
    }
    fn deserialize_from<R: Read>(r: R) -> SerdeResult<Self> {
        Ok(Self::from(u64::deserialize_from(r)?))
    }
}
impl Field for Goldilocks {
    const NAME: &'static str = "Goldilocks";
    const SIZE: usize = 8;
    const FIELD_SIZE: usize = 64;
    const ZERO: Self = Self { v: 0 };
    const ONE: Self = Self { v: 1 };
    const INV_2: Self = Self { v: 0x7fff_ffff_8000_0001 };
    const MODULUS: U256 = U256([GOLDILOCKS_P as u128, 0]);
    fn random_unsafe(mut rng: impl RngCore) -> Self {
        Self::from(rng.next_u64())
    }
    fn random_bool(mut rng: impl RngCore) -> Self {
        Self { v: (rng.next_u32() & 1) as u64 }
    }
    fn inv(&self) -> Option<Self> {
        if self.v == 0 {
            None
        } else {
            Some(self.exp(GOLDILOCKS_P as u128 - 2))
        }
    }
    fn as_u32_unchecked(&self) -> u32 {
        self.v as u32
    }
    fn from_uniform_bytes(b: &[u8]) -> Self {
        let mut x = [0u8; 8];
        let n = b.len().min(8);
        x[..n].copy_from_slice(&b[..n]);
        Self::from(u64::from_le_bytes(x))
    }
    fn to_u256(&self) -> U256 {
        U256::from(self.v)
    }
    fn from_u256(v: U256) -> Self {
        Self { v: (v % U256::from(GOLDILOCKS_P)).as_u64() }
    }
}

// ---------------------------------------------------------------- GF2
#[derive(Clone, Copy, Default, PartialEq, Eq, PartialOrd, Ord, Hash)]
#[repr(transparent)]
pub struct GF2 {
    pub v: u8,
}
impl Debug for GF2 {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.v)
    }
}
impl From<u32> for GF2 {
    fn from(v: u32) -> Self {
        Self { v: (v & 1) as u8 }
    }
}
impl From<bool> for GF2 {
    fn from(v: bool) -> Self {
        Self { v: v as u8 }
    }
}
impl Neg for GF2 {
    type Output = Self;
    fn neg(self) -> Self {
        self
    }
}
#[allow(clippy::suspicious_arithmetic_impl)]
impl Add for GF2 {
    type Output = Self;
    fn add(self, o: Self) -> Self {
        Self { v: self.v ^ o.v }
    }
}
#[allow(clippy::suspicious_arithmetic_impl)]
impl Sub for GF2 {
    type Output = Self;
    fn sub(self, o: Self) -> Self {
        Self { v: self.v ^ o.v }
    }
}
#[allow(clippy::suspicious_arithmetic_impl)]
impl Mul for GF2 {
    type Output = Self;
    fn mul(self, o: Self) -> Self {
        Self { v: self.v & o.v }
    }
}
derive_ops!([] GF2);
impl ExpSerde for GF2 {
    fn serialize_into<W: Write>(&self, w: W) -> SerdeResult<()> {
        self.v.serialize_into(w)
    }
    fn deserialize_from<R: Read>(r: R) -> SerdeResult<Self> {
        Ok(Self { v: u8::deserialize_from(r)? & 1 })
    }
}
impl Field for GF2 {
    const NAME: &'static str = "Galois Field 2";
    const SIZE: usize = 1;
    const FIELD_SIZE: usize = 1;
    const ZERO: Self = Self { v: 0 };
    const ONE: Self = Self { v: 1 };
    const INV_2: Self = Self { v: 0 };
    const MODULUS: U256 = U256([2, 0]);
    fn random_unsafe(mut rng: impl RngCore) -> Self {
        Self::from(rng.next_u32())
    }
    fn random_bool(mut rng: impl RngCore) -> Self {
        Self::from(rng.next_u32())
    }
    fn inv(&self) -> Option<Self> {
        if self.v == 0 {
            None
        } else {
            Some(*self)
        }
    }
    fn as_u32_unchecked(&self) -> u32 {
        self.v as u32
    }
    fn from_uniform_bytes(b: &[u8]) -> Self {
        Self { v: b[0] & 1 }
    }
    fn to_u256(&self) -> U256 {
        U256::from(self.v)
    }
    fn from_u256(v: U256) -> Self {
        Self { v: (v & U256::ONE).as_u8() }
    }
}

// ---------------------------------------------------------------- BN254 scalar field
const FR_P: [u64; 4] = [0x43e1f593f0000001, 0x2833e84879b97091, 0xb85045b68181585d, 0x30644e72e131a029];
const fn fr_geq(a: &[u64; 4], b: &[u64; 4]) -> bool {
    let mut i = 4;
    while i > 0 {
        i -= 1;
        if a[i] != b[i] {
            return a[i] > b[i];
        }
    }
    true
}
const fn sub4(a: &[u64; 4], b: &[u64; 4]) -> [u64; 4] {
    let mut r = [0u64; 4];
    let mut br = 0u64;
    let mut i = 0;
    while i < 4 {
        let (x, c1) = a[i].overflowing_sub(b[i]);
        let (y, c2) = x.overflowing_sub(br);
        r[i] = y;
        br = (c1 | c2) as u64;
        i += 1;
    }
    r
}
const fn add4(a: &[u64; 4], b: &[u64; 4]) -> [u64; 4] {
    // operands < p < 2^254: no carry out of the top limb
    let mut r = [0u64; 4];
    let mut c = 0u128;
    let mut i = 0;
    while i < 4 {
        c += a[i] as u128 + b[i] as u128;
        r[i] = c as u64;
        c >>= 64;
        i += 1;
    }
    r
}
const fn add_mod(a: &[u64; 4], b: &[u64; 4]) -> [u64; 4] {
    let s = add4(a, b);
    if fr_geq(&s, &FR_P) {
        sub4(&s, &FR_P)
    } else {
        s
    }
}
const fn pow2_mod(n: usize) -> [u64; 4] {
    let mut r = [1u64, 0, 0, 0];
    let mut i = 0;
    while i < n {
        r = add_mod(&r, &r);
        i += 1;
    }
    r
}
const FR_R: [u64; 4] = pow2_mod(256);
const FR_R2: [u64; 4] = pow2_mod(512);
const fn fr_inv64() -> u64 {
    // -p^{-1} mod 2^64
    let mut x = 1u64;
    let mut i = 0;
    while i < 6 {
        x = x.wrapping_mul(2u64.wrapping_sub(FR_P[0].wrapping_mul(x)));
        i += 1;
    }
    x.wrapping_neg()
}
const FR_INV: u64 = fr_inv64();
#[inline(always)]
const fn mont_mul(a: &[u64; 4], b: &[u64; 4]) -> [u64; 4] {
    let mut t = [0u64; 6];
    let mut i = 0;
    while i < 4 {
        let mut c = 0u128;
        let mut j = 0;
        while j < 4 {
            c += t[j] as u128 + a[j] as u128 * b[i] as u128;
            t[j] = c as u64;
            c >>= 64;
            j += 1;
        }
        c += t[4] as u128;
        t[4] = c as u64;
        t[5] = (c >> 64) as u64;
        let m = t[0].wrapping_mul(FR_INV);
        let mut c = t[0] as u128 + m as u128 * FR_P[0] as u128;
        c >>= 64;
        let mut j = 1;
        while j < 4 {
            c += t[j] as u128 + m as u128 * FR_P[j] as u128;
            t[j - 1] = c as u64;
            c >>= 64;
            j += 1;
        }
        c += t[4] as u128;
        t[3] = c as u64;
        c >>= 64;
        t[4] = t[5] + c as u64;
        i += 1;
    }
    let r = [t[0], t[1], t[2], t[3]];
    if t[4] != 0 || fr_geq(&r, &FR_P) {
        sub4(&r, &FR_P)
    } else {
        r
    }
}
/// The scalar field of BN254, in Montgomery form.
#[derive(Clone, Copy, Default, PartialEq, Eq, Hash)]
#[repr(transparent)]
pub struct Fr(pub [u64; 4]);
impl Fr {
    pub const fn from_raw(v: [u64; 4]) -> Self {
        let mut v = v;
        while fr_geq(&v, &FR_P) {
            v = sub4(&v, &FR_P);
        }
        Fr(mont_mul(&v, &FR_R2))
    }
    pub const fn canonical(&self) -> [u64; 4] {
        mont_mul(&self.0, &[1, 0, 0, 0])
    }
    pub const fn zero() -> Self {
        Fr([0; 4])
    }
    pub const fn one() -> Self {
        Fr(FR_R)
    }
    pub fn to_repr(&self) -> [u8; 32] {
        self.to_bytes()
    }
    pub fn from_repr(b: [u8; 32]) -> Option<Self> {
        Self::from_bytes(&b)
    }
    pub fn to_bytes(&self) -> [u8; 32] {
        let c = self.canonical();
        let mut b = [0u8; 32];
        for i in 0..4 {
            b[8 * i..8 * i + 8].copy_from_slice(&c[i].to_le_bytes());
        }
        b
    }
    pub fn from_bytes(b: &[u8; 32]) -> Option<Self> {
        let mut v = [0u64; 4];
        for i in 0..4 {
            v[i] = u64::from_le_bytes(b[8 * i..8 * i + 8].try_into().unwrap());
        }
        if fr_geq(&v, &FR_P) {
            None
        } else {
            Some(Fr(mont_mul(&v, &FR_R2)))
        }
    }
    pub fn random(mut rng: impl RngCore) -> Self {
        <Self as Field>::random_unsafe(&mut rng)
    }
    pub fn invert(&self) -> Option<Self> {
        <Self as Field>::inv(self)
    }
}
impl PartialOrd for Fr {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Fr {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        let (a, b) = (self.canonical(), o.canonical());
        (a[3], a[2], a[1], a[0]).cmp(&(b[3], b[2], b[1], b[0]))
    }
}
impl Debug for Fr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        let c = self.canonical();
        write!(f, "0x{:016x}{:016x}{:016x}{:016x}", c[3], c[2], c[1], c[0])
    }
}
impl From<u32> for Fr {
    fn from(v: u32) -> Self {
        Self::from_raw([v as u64, 0, 0, 0])
    }
}
impl From<u64> for Fr {
    fn from(v: u64) -> Self {
        Self::from_raw([v, 0, 0, 0])
    }
}
impl From<bool> for Fr {
    fn from(v: bool) -> Self {
        Self::from_raw([v as u64, 0, 0, 0])
    }
}
impl Neg for Fr {
    type Output = Self;
    #[inline(always)]
    fn neg(self) -> Self {
        if self.0 == [0; 4] {
            self
        } else {
            Fr(sub4(&FR_P, &self.0))
        }
    }
}
impl Add for Fr {
    type Output = Self;
    #[inline(always)]
    fn add(self, o: Self) -> Self {
        Fr(add_mod(&self.0, &o.0))
    }
}
impl Sub for Fr {
    type Output = Self;
    #[inline(always)]
    fn sub(self, o: Self) -> Self {
        self + (-o)
    }
}
impl Mul for Fr {
    type Output = Self;
    #[inline(always)]
    fn mul(self, o: Self) -> Self {
        Fr(mont_mul(&self.0, &o.0))
    }
}
derive_ops!([] Fr);
impl ExpSerde for Fr {
    fn serialize_into<W: Write>(&self, mut w: W) -> SerdeResult<()> {
        w.write_all(&self.to_bytes())?;
        Ok(())
    }
    fn deserialize_from<R: Read>(mut r: R) -> SerdeResult<Self> {
        let mut b = [0u8; 32];
        r.read_exact(&mut b)?;
        Self::from_bytes(&b).ok_or(SerdeError::DeserializeError)
    }
}
impl Field for Fr {
    const NAME: &'static str = "bn254 scalar field";
    const SIZE: usize = 32;
    const FIELD_SIZE: usize = 256;
    const ZERO: Self = Fr([0; 4]);
    const ONE: Self = Fr(FR_R);
    const INV_2: Self =
        Fr::from_raw([0xa1f0fac9f8000001, 0x9419f4243cdcb848, 0xdc2822db40c0ac2e, 0x183227397098d014]);
    const MODULUS: U256 = U256([
        (FR_P[0] as u128) | ((FR_P[1] as u128) << 64),
        (FR_P[2] as u128) | ((FR_P[3] as u128) << 64),
    ]);
    fn random_unsafe(mut rng: impl RngCore) -> Self {
        let mut v = [0u64; 4];
        for x in v.iter_mut() {
            *x = rng.next_u64();
        }
        Fr::from_raw(v)
    }
    fn random_bool(mut rng: impl RngCore) -> Self {
        Fr::from(rng.next_u32() & 1)
    }
    fn inv(&self) -> Option<Self> {
        if self.0 == [0; 4] {
            None
        } else {
            Some(self.pow_u256(Self::MODULUS - U256::from(2u32)))
        }
    }
    fn as_u32_unchecked(&self) -> u32 {
        self.canonical()[0] as u32
    }
    fn from_uniform_bytes(b: &[u8]) -> Self {
        let mut v = [0u64; 4];
        for i in 0..4 {
            let mut x = [0u8; 8];
            for (k, y) in x.iter_mut().enumerate() {
                *y = b.get(8 * i + k).copied().unwrap_or(0);
            }
            v[i] = u64::from_le_bytes(x);
        }
        Fr::from_raw(v)
    }
    fn to_u256(&self) -> U256 {
        let c = self.canonical();
        U256([(c[0] as u128) | ((c[1] as u128) << 64), (c[2] as u128) | ((c[3] as u128) << 64)])
    }
    fn from_u256(v: U256) -> Self {
        let v = v % Self::MODULUS;
        Fr::from_raw([v.0[0] as u64, (v.0[0] >> 64) as u64, v.0[1] as u64, (v.0[1] >> 64) as u64])
    }
}
impl SimdField for Fr {
    type Scalar = Fr;
    const PACK_SIZE: usize = 1;
    fn scale(&self, c: &Fr) -> Self {
        *self * *c
    }
    fn pack_full(b: &Fr) -> Self {
        *b
    }
    fn pack(b: &[Fr]) -> Self {
        assert_eq!(b.len(), 1);
        b[0]
    }
    fn unpack(&self) -> Vec<Fr> {
        vec![*self]
    }
}
impl ExtensionField for Fr {
    type BaseField = Fr;
    const DEGREE: usize = 1;
    fn to_limbs(&self) -> Vec<Fr> {
        vec![*self]
    }
    fn from_limbs(l: &[Fr]) -> Self {
        l[0]
    }
}

// ---------------------------------------------------------------- SIMD wrappers
macro_rules! simd {
    ([$($g:tt)*] $t:ident [$($ga:tt)*], $s:ty, $n:expr, $name:expr, $align:literal) => {
        #[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
        #[repr(C, align($align))]
        pub struct $t<$($g)*> {
            pub v: [$s; $n],
        }
        impl<$($g)*> Default for $t<$($ga)*> {
            fn default() -> Self { Self { v: [<$s as Field>::ZERO; $n] } }
        }
        impl<$($g)*> Debug for $t<$($ga)*> {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                write!(f, "{:?}", self.v)
            }
        }
        impl<$($g)*> From<u32> for $t<$($ga)*> {
            fn from(x: u32) -> Self { Self { v: [<$s>::from(x); $n] } }
        }
        impl<$($g)*> From<$s> for $t<$($ga)*> {
            fn from(x: $s) -> Self { Self { v: [x; $n] } }
        }
        impl<$($g)*> Neg for $t<$($ga)*> {
            type Output = Self;
            #[inline(always)]
            fn neg(mut self) -> Self { for i in 0..$n { self.v[i] = -self.v[i]; } self }
        }
        impl<$($g)*> Add for $t<$($ga)*> {
            type Output = Self;
            #[inline(always)]
            fn add(mut self, o: Self) -> Self { for i in 0..$n { self.v[i] = self.v[i] + o.v[i]; } self }
        }
        impl<$($g)*> Sub for $t<$($ga)*> {
            type Output = Self;
            #[inline(always)]
            fn sub(mut self, o: Self) -> Self { for i in 0..$n { self.v[i] = self.v[i] - o.v[i]; } self }
        }
        impl<$($g)*> Mul for $t<$($ga)*> {
            type Output = Self;
            #[inline(always)]
            fn mul(mut self, o: Self) -> Self { for i in 0..$n { self.v[i] = self.v[i] * o.v[i]; } self }
        }
        impl<$($g)*> Mul<$s> for $t<$($ga)*> {
            type Output = Self;
            #[inline(always)]
            fn mul(mut self, o: $s) -> Self { for i in 0..$n { self.v[i] = self.v[i] * o; } self }
        }
        derive_ops!([$($g)*] $t<$($ga)*>);
        impl<$($g)*> ExpSerde for $t<$($ga)*> {
            fn serialize_into<W: Write>(&self, mut w: W) -> SerdeResult<()> {
                for x in self.v.iter() { x.serialize_into(&mut w)?; }
                Ok(())
            }
            fn deserialize_from<R: Read>(mut r: R) -> SerdeResult<Self> {
                let mut o = Self::default();
                for x in o.v.iter_mut() { *x = <$s>::deserialize_from(&mut r)?; }
                Ok(o)
            }
        }
        impl<$($g)*> Field for $t<$($ga)*> {
            const NAME: &'static str = $name;
            const SIZE: usize = <$s as Field>::SIZE * $n;
            const FIELD_SIZE: usize = <$s as Field>::FIELD_SIZE;
            const ZERO: Self = Self { v: [<$s as Field>::ZERO; $n] };
            const ONE: Self = Self { v: [<$s as Field>::ONE; $n] };
            const INV_2: Self = Self { v: [<$s as Field>::INV_2; $n] };
            const MODULUS: U256 = <$s as Field>::MODULUS;
            fn random_unsafe(mut rng: impl RngCore) -> Self {
                let mut o = Self::default();
                for x in o.v.iter_mut() { *x = <$s>::random_unsafe(&mut rng); }
                o
            }
            fn random_bool(mut rng: impl RngCore) -> Self {
                let mut o = Self::default();
                for x in o.v.iter_mut() { *x = <$s>::random_bool(&mut rng); }
                o
            }
            fn inv(&self) -> Option<Self> {
                let mut o = Self::default();
                for i in 0..$n { o.v[i] = self.v[i].inv()?; }
                Some(o)
            }
            fn as_u32_unchecked(&self) -> u32 { unimplemented!("self is a vector, cannot convert to u32") }
            fn from_uniform_bytes(b: &[u8]) -> Self { Self { v: [<$s>::from_uniform_bytes(b); $n] } }
            fn to_u256(&self) -> U256 { unimplemented!("self is a vector, cannot convert to u256") }
            fn from_u256(x: U256) -> Self { Self { v: [<$s>::from_u256(x); $n] } }
        }
        impl<$($g)*> SimdField for $t<$($ga)*> {
            type Scalar = $s;
            const PACK_SIZE: usize = $n;
            fn scale(&self, c: &$s) -> Self { *self * *c }
            fn pack_full(b: &$s) -> Self { Self { v: [*b; $n] } }
            fn pack(b: &[$s]) -> Self {
                assert_eq!(b.len(), $n);
                let mut o = Self::default();
                o.v.copy_from_slice(b);
                o
            }
            fn unpack(&self) -> Vec<$s> { self.v.to_vec() }
        }
    };
}
simd!([] M31x16 [], M31, 16, "Vectorized Mersenne 31", 64);
simd!([] BabyBearx16 [], BabyBear, 16, "Vectorized Baby Bear", 64);
simd!([] Goldilocksx8 [], Goldilocks, 8, "Vectorized Goldilocks", 64);
simd!([const N: usize] FrXN [N], Fr, N, "Vectorized BN254 scalar field", 8);

/// Eight GF2 values packed in one byte, bit i is lane i.
#[derive(Clone, Copy, Default, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
#[repr(transparent)]
pub struct GF2x8 {
    pub v: u8,
}
impl From<u32> for GF2x8 {
    fn from(x: u32) -> Self {
        Self { v: if x & 1 == 1 { 255 } else { 0 } }
    }
}
impl From<GF2> for GF2x8 {
    fn from(x: GF2) -> Self {
        Self { v: if x.v == 1 { 255 } else { 0 } }
    }
}
impl Neg for GF2x8 {
    type Output = Self;
    fn neg(self) -> Self {
        self
    }
}
#[allow(clippy::suspicious_arithmetic_impl)]
impl Add for GF2x8 {
    type Output = Self;
    fn add(self, o: Self) -> Self {
        Self { v: self.v ^ o.v }
    }
}
#[allow(clippy::suspicious_arithmetic_impl)]
impl Sub for GF2x8 {
    type Output = Self;
    fn sub(self, o: Self) -> Self {
        Self { v: self.v ^ o.v }
    }
}
#[allow(clippy::suspicious_arithmetic_impl)]
impl Mul for GF2x8 {
    type Output = Self;
    fn mul(self, o: Self) -> Self {
        Self { v: self.v & o.v }
    }
}
impl Mul<GF2> for GF2x8 {
    type Output = Self;
    fn mul(self, o: GF2) -> Self {
        Self { v: if o.v == 1 { self.v } else { 0 } }
    }
}
derive_ops!([] GF2x8);
impl ExpSerde for GF2x8 {
    fn serialize_into<W: Write>(&self, w: W) -> SerdeResult<()> {
        self.v.serialize_into(w)
    }
    fn deserialize_from<R: Read>(r: R) -> SerdeResult<Self> {
        Ok(Self { v: u8::deserialize_from(r)? })
    }
}
impl Field for GF2x8 {
    const NAME: &'static str = "Galois Field 2 SIMD";
    const SIZE: usize = 1;
    const FIELD_SIZE: usize = 1;
    const ZERO: Self = Self { v: 0 };
    const ONE: Self = Self { v: 255 };
    const INV_2: Self = Self { v: 0 };
    const MODULUS: U256 = U256([2, 0]);
    fn random_unsafe(mut rng: impl RngCore) -> Self {
        Self { v: rng.next_u32() as u8 }
    }
    fn random_bool(mut rng: impl RngCore) -> Self {
        Self { v: rng.next_u32() as u8 }
    }
    fn inv(&self) -> Option<Self> {
        if self.v == 255 {
            Some(*self)
        } else {
            None
        }
    }
    fn as_u32_unchecked(&self) -> u32 {
        unimplemented!()
    }
    fn from_uniform_bytes(b: &[u8]) -> Self {
        Self { v: b[0] }
    }
    fn to_u256(&self) -> U256 {
        unimplemented!()
    }
    fn from_u256(v: U256) -> Self {
        Self::from((v & U256::ONE).as_u32())
    }
}
impl SimdField for GF2x8 {
    type Scalar = GF2;
    const PACK_SIZE: usize = 8;
    fn scale(&self, c: &GF2) -> Self {
        *self * *c
    }
    fn pack_full(b: &GF2) -> Self {
        Self::from(*b)
    }
    fn pack(b: &[GF2]) -> Self {
        assert_eq!(b.len(), 8);
        Self { v: b.iter().enumerate().fold(0, |a, (i, x)| a | (x.v << i)) }
    }
    fn unpack(&self) -> Vec<GF2> {
        (0..8).map(|i| GF2 { v: (self.v >> i) & 1 }).collect()
    }
}

// ---------------------------------------------------------------- extensions x^D - W
macro_rules! ext {
    ($t:ident, $b:ty, $d:expr, $w:expr, $name:expr) => {
        #[derive(Clone, Copy, Default, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
        pub struct $t {
            pub v: [$b; $d],
        }
        impl From<u32> for $t {
            fn from(x: u32) -> Self { Self::from(<$b>::from(x)) }
        }
        impl From<$b> for $t {
            fn from(x: $b) -> Self {
                let mut o = Self::default();
                o.v[0] = x;
                o
            }
        }
        impl Neg for $t {
            type Output = Self;
            fn neg(mut self) -> Self { for x in self.v.iter_mut() { *x = -*x; } self }
        }
        impl Add for $t {
            type Output = Self;
            fn add(mut self, o: Self) -> Self { for i in 0..$d { self.v[i] += o.v[i]; } self }
        }
        impl Sub for $t {
            type Output = Self;
            fn sub(mut self, o: Self) -> Self { for i in 0..$d { self.v[i] -= o.v[i]; } self }
        }
        impl Mul for $t {
            type Output = Self;
            fn mul(self, o: Self) -> Self {
                let mut r = Self::default();
                for i in 0..$d { for j in 0..$d {
                    let p = self.v[i] * o.v[j];
                    if i + j < $d { r.v[i + j] += p; } else { r.v[i + j - $d] += p * <$b>::from($w as u32); }
                } }
                r
            }
        }
        impl Mul<$b> for $t {
            type Output = Self;
            fn mul(mut self, o: $b) -> Self { for x in self.v.iter_mut() { *x *= o; } self }
        }
        impl Add<$b> for $t {
            type Output = Self;
            fn add(mut self, o: $b) -> Self { self.v[0] += o; self }
        }
        derive_ops!([] $t);
        impl ExpSerde for $t {
            fn serialize_into<W: Write>(&self, mut w: W) -> SerdeResult<()> {
                for x in self.v.iter() { x.serialize_into(&mut w)?; }
                Ok(())
            }
            fn deserialize_from<R: Read>(mut r: R) -> SerdeResult<Self> {
                let mut o = Self::default();
                for x in o.v.iter_mut() { *x = <$b>::deserialize_from(&mut r)?; }
                Ok(o)
            }
        }
        impl Field for $t {
            const NAME: &'static str = $name;
            const SIZE: usize = <$b as Field>::SIZE * $d;
            const FIELD_SIZE: usize = <$b as Field>::FIELD_SIZE * $d;
            const ZERO: Self = Self { v: [<$b as Field>::ZERO; $d] };
            const ONE: Self = { let mut v = [<$b as Field>::ZERO; $d]; v[0] = <$b as Field>::ONE; Self { v } };
            const INV_2: Self = { let mut v = [<$b as Field>::ZERO; $d]; v[0] = <$b as Field>::INV_2; Self { v } };
            const MODULUS: U256 = <$b as Field>::MODULUS;
            fn random_unsafe(mut rng: impl RngCore) -> Self {
                let mut o = Self::default();
                for x in o.v.iter_mut() { *x = <$b>::random_unsafe(&mut rng); }
                o
            }
            fn random_bool(rng: impl RngCore) -> Self { Self::from(<$b>::random_bool(rng)) }
            fn inv(&self) -> Option<Self> {
                if self.is_zero() { return None; }
                // a^(p^D - 2) by square and multiply over p^D - 2 (fits in 256 bits for all instances)
                let mut q = U256::ONE;
                for _ in 0..$d { q *= <$b as Field>::MODULUS; }
                Some(self.pow_u256(q - U256::from(2u32)))
            }
            fn as_u32_unchecked(&self) -> u32 { self.v[0].as_u32_unchecked() }
            fn from_uniform_bytes(b: &[u8]) -> Self {
                let mut o = Self::default();
                for (i, x) in o.v.iter_mut().enumerate() { *x = <$b>::from_uniform_bytes(&b[(8 * i).min(b.len())..]); }
                o
            }
            fn to_u256(&self) -> U256 { unimplemented!() }
            fn from_u256(x: U256) -> Self { Self::from(<$b>::from_u256(x)) }
        }
        impl ExtensionField for $t {
            type BaseField = $b;
            const DEGREE: usize = $d;
            fn to_limbs(&self) -> Vec<$b> { self.v.to_vec() }
            fn from_limbs(l: &[$b]) -> Self { let mut o = Self::default(); o.v.copy_from_slice(l); o }
        }
    };
}
ext!(M31Ext3, M31, 3, 5, "Mersenne 31 Extension 3");
ext!(BabyBearExt4, BabyBear, 4, 11, "BabyBear Extension 4");
ext!(GoldilocksExt2, Goldilocks, 2, 7, "Goldilocks Extension 2");

/// GF(2^128) with x^128 + x^7 + x^2 + x + 1.
#[derive(Clone, Copy, Default, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub struct GF2_128 {
    pub v: u128,
}
impl From<u32> for GF2_128 {
    fn from(x: u32) -> Self {
        Self { v: (x & 1) as u128 }
    }
}
impl From<GF2> for GF2_128 {
    fn from(x: GF2) -> Self {
        Self { v: x.v as u128 }
    }
}
impl Neg for GF2_128 {
    type Output = Self;
    fn neg(self) -> Self {
        self
    }
}
#[allow(clippy::suspicious_arithmetic_impl)]
impl Add for GF2_128 {
    type Output = Self;
    fn add(self, o: Self) -> Self {
        Self { v: self.v ^ o.v }
    }
}
#[allow(clippy::suspicious_arithmetic_impl)]
impl Sub for GF2_128 {
    type Output = Self;
    fn sub(self, o: Self) -> Self {
        Self { v: self.v ^ o.v }
    }
}
#[allow(clippy::suspicious_arithmetic_impl)]
impl Mul for GF2_128 {
    type Output = Self;
    fn mul(self, o: Self) -> Self {
        let mut r = 0u128;
        let mut a = self.v;
        let mut b = o.v;
        while b != 0 {
            if b & 1 == 1 {
                r ^= a;
            }
            b >>= 1;
            let c = a >> 127;
            a <<= 1;
            if c == 1 {
                a ^= 0x87;
            }
        }
        Self { v: r }
    }
}
impl Mul<GF2> for GF2_128 {
    type Output = Self;
    fn mul(self, o: GF2) -> Self {
        if o.v == 1 {
            self
        } else {
            Self { v: 0 }
        }
    }
}
derive_ops!([] GF2_128);
impl ExpSerde for GF2_128 {
    fn serialize_into<W: Write>(&self, w: W) -> SerdeResult<()> {
        self.v.serialize_into(w)
    }
    fn deserialize_from<R: Read>(r: R) -> SerdeResult<Self> {
        Ok(Self { v: u128::deserialize_from(r)? })
    }
}
impl Field for GF2_128 {
    const NAME: &'static str = "Galios Field 2^128";
    const SIZE: usize = 16;
    const FIELD_SIZE: usize = 128;
    const ZERO: Self = Self { v: 0 };
    const ONE: Self = Self { v: 1 };
    const INV_2: Self = Self { v: 0 };
    const MODULUS: U256 = U256([2, 0]);
    fn random_unsafe(mut rng: impl RngCore) -> Self {
        Self { v: (rng.next_u64() as u128) | ((rng.next_u64() as u128) << 64) }
    }
    fn random_bool(mut rng: impl RngCore) -> Self {
        Self { v: (rng.next_u32() & 1) as u128 }
    }
    fn inv(&self) -> Option<Self> {
        if self.v == 0 {
            None
        } else {
            Some(self.pow_u256(U256::from(u128::MAX) - U256::ONE))
        }
    }
    fn as_u32_unchecked(&self) -> u32 {
        self.v as u32
    }
    fn from_uniform_bytes(b: &[u8]) -> Self {
        let mut x = [0u8; 16];
        let n = b.len().min(16);
        x[..n].copy_from_slice(&b[..n]);
        Self { v: u128::from_le_bytes(x) }
    }
    fn to_u256(&self) -> U256 {
        U256::from(self.v)
    }
    fn from_u256(v: U256) -> Self {
        Self { v: (v & U256::ONE).as_u128() }
    }
}
impl ExtensionField for GF2_128 {
    type BaseField = GF2;
    const DEGREE: usize = 128;
    fn to_limbs(&self) -> Vec<GF2> {
        (0..128).map(|i| GF2 { v: ((self.v >> i) & 1) as u8 }).collect()
    }
    fn from_limbs(l: &[GF2]) -> Self {
        Self { v: l.iter().enumerate().fold(0, |a, (i, x)| a | ((x.v as u128) << i)) }
    }
}

/// `ff::PrimeField`, as far as the crate under test uses it.
pub trait PrimeField: Field {
    fn to_repr(&self) -> [u8; 32] {
        self.to_u256().to_le_bytes()
    }
}
impl PrimeField for Fr {}
