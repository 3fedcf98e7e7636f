//! Stand-in for `ark-bls12-381`: Fq and its tower (u^2 = -1, v^3 = u + 1, w^2 = v).
use ark_ff::Field;
use num_bigint::BigUint;
use num_traits::{Num, One, Zero};
use std::fmt;
use std::ops::*;

const P: [u64; 6] = [
    0xb9feffffffffaaab,
    0x1eabfffeb153ffff,
    0x6730d2a0f6b0f624,
    0x64774b84f38512bf,
    0x4b1ba7b6434bacd7,
    0x1a0111ea397fe69a,
];
const fn ninv() -> u64 {
    let mut x = 1u64;
    let mut i = 0;
    while i < 6 {
        x = x.wrapping_mul(2u64.wrapping_sub(P[0].wrapping_mul(x)));
        i += 1;
    }
    x.wrapping_neg()
}
const NINV: u64 = ninv();
const fn geq(a: &[u64; 6], b: &[u64; 6]) -> bool {
    let mut i = 6;
    while i > 0 {
        i -= 1;
        if a[i] != b[i] {
            return a[i] > b[i];
        }
    }
    true
}
const fn sub6(a: &[u64; 6], b: &[u64; 6]) -> ([u64; 6], bool) {
    let mut r = [0; 6];
    let mut brw = false;
    let mut i = 0;
    while i < 6 {
        let (x, o1) = a[i].overflowing_sub(b[i]);
        let (y, o2) = x.overflowing_sub(brw as u64);
        r[i] = y;
        brw = o1 | o2;
        i += 1;
    }
    (r, brw)
}
const fn add6(a: &[u64; 6], b: &[u64; 6]) -> [u64; 6] {
    let mut r = [0; 6];
    let mut c = 0u128;
    let mut i = 0;
    while i < 6 {
        let t = a[i] as u128 + b[i] as u128 + c;
        r[i] = t as u64;
        c = t >> 64;
        i += 1;
    }
    if geq(&r, &P) {
        sub6(&r, &P).0
    } else {
        r
    }
}
fn mont(a: &[u64; 6], b: &[u64; 6]) -> [u64; 6] {
    let mut t = [0u64; 8];
    for i in 0..6 {
        let mut c = 0u128;
        for j in 0..6 {
            let s = t[j] as u128 + a[j] as u128 * b[i] as u128 + c;
            t[j] = s as u64;
            c = s >> 64;
        }
        let s = t[6] as u128 + c;
        t[6] = s as u64;
        t[7] = (s >> 64) as u64;
        let m = t[0].wrapping_mul(NINV);
        let s = t[0] as u128 + m as u128 * P[0] as u128;
        let mut c = s >> 64;
        for j in 1..6 {
            let s = t[j] as u128 + m as u128 * P[j] as u128 + c;
            t[j - 1] = s as u64;
            c = s >> 64;
        }
        let s = t[6] as u128 + c;
        t[5] = s as u64;
        t[6] = t[7] + (s >> 64) as u64;
    }
    let r = [t[0], t[1], t[2], t[3], t[4], t[5]];
    if t[6] != 0 || geq(&r, &P) {
        sub6(&r, &P).0
    } else {
        r
    }
}
const fn pow2(n: usize) -> [u64; 6] {
    let mut r = [1, 0, 0, 0, 0, 0];
    let mut i = 0;
    while i < n {
        r = add6(&r, &r);
        i += 1;
    }
    r
}
const R: [u64; 6] = pow2(384);
const R2: [u64; 6] = pow2(768);

#[derive(Clone, Copy, PartialEq, Eq, Hash, Default)]
pub struct Fq([u64; 6]);
pub fn modulus() -> BigUint {
    BigUint::from_str_radix("1a0111ea397fe69a4b1ba7b6434bacd764774b84f38512bf6730d2a0f6b0f6241eabfffeb153ffffb9feffffffffaaab", 16).unwrap()
}
impl From<BigUint> for Fq {
    fn from(x: BigUint) -> Fq {
        let d = (x % modulus()).to_u64_digits();
        let mut a = [0; 6];
        a[..d.len()].copy_from_slice(&d);
        Fq(mont(&a, &R2))
    }
}
impl From<Fq> for BigUint {
    fn from(x: Fq) -> BigUint {
        let a = mont(&x.0, &[1, 0, 0, 0, 0, 0]);
        BigUint::from_bytes_le(&a.iter().flat_map(|d| d.to_le_bytes()).collect::<Vec<_>>())
    }
}
macro_rules! from { ($($t:ty),*) => {$(
    impl From<$t> for Fq { fn from(x: $t) -> Fq { Fq::from(BigUint::from(x)) } }
)*}; }
from!(u8, u16, u32, u64, u128, bool);
impl fmt::Display for Fq {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{}", BigUint::from(*self))
    }
}
impl fmt::Debug for Fq {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{}", BigUint::from(*self))
    }
}
macro_rules! ring {
    ($T:ident, $add:expr, $sub:expr, $mul:expr) => {
        impl Add for $T {
            type Output = $T;
            fn add(self, o: $T) -> $T {
                $add(self, o)
            }
        }
        impl Sub for $T {
            type Output = $T;
            fn sub(self, o: $T) -> $T {
                $sub(self, o)
            }
        }
        impl Mul for $T {
            type Output = $T;
            fn mul(self, o: $T) -> $T {
                $mul(self, o)
            }
        }
        impl Div for $T {
            type Output = $T;
            fn div(self, o: $T) -> $T {
                self * o.inverse().expect("division by zero")
            }
        }
        impl Neg for $T {
            type Output = $T;
            fn neg(self) -> $T {
                $sub($T::default(), self)
            }
        }
        impl AddAssign for $T {
            fn add_assign(&mut self, o: $T) {
                *self = *self + o
            }
        }
        impl SubAssign for $T {
            fn sub_assign(&mut self, o: $T) {
                *self = *self - o
            }
        }
        impl MulAssign for $T {
            fn mul_assign(&mut self, o: $T) {
                *self = *self * o
            }
        }
        impl Zero for $T {
            fn zero() -> $T {
                $T::default()
            }
            fn is_zero(&self) -> bool {
                *self == $T::default()
            }
        }
    };
}
ring!(
    Fq,
    |a: Fq, b: Fq| Fq(add6(&a.0, &b.0)),
    |a: Fq, b: Fq| {
        let (r, brw) = sub6(&a.0, &b.0);
        if !brw {
            return Fq(r);
        }
        let mut t = [0; 6];
        let mut c = 0u128;
        for i in 0..6 {
            let s = r[i] as u128 + P[i] as u128 + c;
            t[i] = s as u64;
            c = s >> 64;
        }
        Fq(t)
    },
    |a: Fq, b: Fq| Fq(mont(&a.0, &b.0))
);
impl One for Fq {
    fn one() -> Fq {
        Fq(R)
    }
}
impl Field for Fq {
    fn inverse(&self) -> Option<Fq> {
        if self.is_zero() {
            return None;
        }
        Some(self.pow((modulus() - 2u32).to_u64_digits()))
    }
    fn sqrt(&self) -> Option<Fq> {
        let r = self.pow(((modulus() + 1u32) / 4u32).to_u64_digits());
        (r * r == *self).then_some(r)
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Default, Debug)]
pub struct Fq2 {
    pub c0: Fq,
    pub c1: Fq,
}
impl Fq2 {
    pub fn new(c0: Fq, c1: Fq) -> Self {
        Fq2 { c0, c1 }
    }
    pub fn mul_assign_by_fp(&mut self, x: &Fq) {
        self.c0 *= *x;
        self.c1 *= *x;
    }
    /// times u + 1
    pub fn mul_xi(self) -> Self {
        Fq2::new(self.c0 - self.c1, self.c0 + self.c1)
    }
}
ring!(
    Fq2,
    |a: Fq2, b: Fq2| Fq2::new(a.c0 + b.c0, a.c1 + b.c1),
    |a: Fq2, b: Fq2| Fq2::new(a.c0 - b.c0, a.c1 - b.c1),
    |a: Fq2, b: Fq2| Fq2::new(a.c0 * b.c0 - a.c1 * b.c1, a.c0 * b.c1 + a.c1 * b.c0)
);
impl One for Fq2 {
    fn one() -> Fq2 {
        Fq2::new(Fq::one(), Fq::zero())
    }
}
impl Field for Fq2 {
    fn inverse(&self) -> Option<Fq2> {
        let i = (self.c0 * self.c0 + self.c1 * self.c1).inverse()?;
        Some(Fq2::new(self.c0 * i, -(self.c1 * i)))
    }
    fn sqrt(&self) -> Option<Fq2> {
        if self.c1.is_zero() {
            return Some(match self.c0.sqrt() {
                Some(r) => Fq2::new(r, Fq::zero()),
                None => Fq2::new(Fq::zero(), (-self.c0).sqrt()?),
            });
        }
        let n = (self.c0 * self.c0 + self.c1 * self.c1).sqrt()?;
        let half = Fq::from(2u32).inverse().unwrap();
        for n in [n, -n] {
            if let Some(x) = ((self.c0 + n) * half).sqrt() {
                if !x.is_zero() {
                    let r = Fq2::new(x, self.c1 * half * x.inverse().unwrap());
                    if r * r == *self {
                        return Some(r);
                    }
                }
            }
        }
        None
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Default, Debug)]
pub struct Fq6 {
    pub c0: Fq2,
    pub c1: Fq2,
    pub c2: Fq2,
}
impl Fq6 {
    pub fn new(c0: Fq2, c1: Fq2, c2: Fq2) -> Self {
        Fq6 { c0, c1, c2 }
    }
    /// times v
    pub fn mul_v(self) -> Self {
        Fq6::new(self.c2.mul_xi(), self.c0, self.c1)
    }
}
ring!(
    Fq6,
    |a: Fq6, b: Fq6| Fq6::new(a.c0 + b.c0, a.c1 + b.c1, a.c2 + b.c2),
    |a: Fq6, b: Fq6| Fq6::new(a.c0 - b.c0, a.c1 - b.c1, a.c2 - b.c2),
    |a: Fq6, b: Fq6| Fq6::new(
        a.c0 * b.c0 + (a.c1 * b.c2 + a.c2 * b.c1).mul_xi(),
        a.c0 * b.c1 + a.c1 * b.c0 + (a.c2 * b.c2).mul_xi(),
        a.c0 * b.c2 + a.c1 * b.c1 + a.c2 * b.c0,
    )
);
impl One for Fq6 {
    fn one() -> Fq6 {
        Fq6::new(Fq2::one(), Fq2::zero(), Fq2::zero())
    }
}
impl Field for Fq6 {
    fn inverse(&self) -> Option<Fq6> {
        let (a, b, c) = (self.c0, self.c1, self.c2);
        let t0 = a * a - (b * c).mul_xi();
        let t1 = (c * c).mul_xi() - a * b;
        let t2 = b * b - a * c;
        let i = (a * t0 + (c * t1 + b * t2).mul_xi()).inverse()?;
        Some(Fq6::new(t0 * i, t1 * i, t2 * i))
    }
    fn sqrt(&self) -> Option<Fq6> {
        unimplemented!("square roots of the sextic extension")
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Default, Debug)]
pub struct Fq12 {
    pub c0: Fq6,
    pub c1: Fq6,
}
impl Fq12 {
    pub fn new(c0: Fq6, c1: Fq6) -> Self {
        Fq12 { c0, c1 }
    }
}
ring!(
    Fq12,
    |a: Fq12, b: Fq12| Fq12::new(a.c0 + b.c0, a.c1 + b.c1),
    |a: Fq12, b: Fq12| Fq12::new(a.c0 - b.c0, a.c1 - b.c1),
    |a: Fq12, b: Fq12| {
        let (x, y) = (a.c0 * b.c0, a.c1 * b.c1);
        Fq12::new(x + y.mul_v(), (a.c0 + a.c1) * (b.c0 + b.c1) - x - y)
    }
);
impl One for Fq12 {
    fn one() -> Fq12 {
        Fq12::new(Fq6::one(), Fq6::zero())
    }
}
impl Field for Fq12 {
    fn inverse(&self) -> Option<Fq12> {
        let i = (self.c0 * self.c0 - (self.c1 * self.c1).mul_v()).inverse()?;
        Some(Fq12::new(self.c0 * i, -(self.c1 * i)))
    }
    fn sqrt(&self) -> Option<Fq12> {
        unimplemented!("square roots of the twelfth extension")
    }
}

#[cfg(test)]
mod tests {
    use super::*;
    #[test]
    fn tower() {
        let mut s = 7u64;
        let mut f = || {
            let mut v = vec![];
            for _ in 0..48 {
                s = s.wrapping_mul(6364136223846793005).wrapping_add(99);
                v.push((s >> 33) as u8);
            }
            Fq::from(BigUint::from_bytes_le(&v))
        };
        for _ in 0..20 {
            let (a, b) = (f(), f());
            let (x, y) = (BigUint::from(a), BigUint::from(b));
            assert_eq!(BigUint::from(a * b), &x * &y % modulus());
            assert_eq!(BigUint::from(a + b), (&x + &y) % modulus());
            assert_eq!(BigUint::from(a - b), (&x + modulus() - &y) % modulus());
            assert_eq!(a * a.inverse().unwrap(), Fq::one());
            let mut f2 = || Fq2::new(f(), f());
            let q = f2();
            assert_eq!((q * q).sqrt().map(|r| r * r), Some(q * q));
            let mut f6 = || Fq6::new(f2(), f2(), f2());
            let (a, b) = (Fq12::new(f6(), f6()), Fq12::new(f6(), f6()));
            assert_eq!(a * a.inverse().unwrap(), Fq12::one());
            assert_eq!(a / b * b, a);
            assert_eq!(a.c0 * a.c0.inverse().unwrap(), Fq6::one());
            assert_eq!(a.pow([5, 1]), a.pow([5u64]) * a.pow([0, 1]));
        }
        assert!((Fq2::one().mul_xi()).pow(((modulus().pow(2) - 1u32) / 2u32).to_u64_digits()) != Fq2::one());
    }
}
