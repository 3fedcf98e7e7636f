//! Stand-in for `num-bigint`: the parts of its interface the repository uses, written plainly.
use num_traits::{Num, One, Signed, ToPrimitive, Zero};
use std::cmp::Ordering;
use std::fmt;
use std::ops::*;
use std::str::FromStr;

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct ParseBigIntError(&'static str);
impl fmt::Display for ParseBigIntError {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str(self.0)
    }
}
impl std::error::Error for ParseBigIntError {}

// magnitudes: little-endian u32 digits without leading zeros
type Mag = Vec<u32>;
fn norm(mut a: Mag) -> Mag {
    while a.last() == Some(&0) {
        a.pop();
    }
    a
}
fn mcmp(a: &[u32], b: &[u32]) -> Ordering {
    a.len().cmp(&b.len()).then_with(|| a.iter().rev().cmp(b.iter().rev()))
}
fn madd(a: &[u32], b: &[u32]) -> Mag {
    let (a, b) = if a.len() >= b.len() { (a, b) } else { (b, a) };
    let mut r = Vec::with_capacity(a.len() + 1);
    let mut c = 0u64;
    for i in 0..a.len() {
        let s = a[i] as u64 + *b.get(i).unwrap_or(&0) as u64 + c;
        r.push(s as u32);
        c = s >> 32;
    }
    r.push(c as u32);
    norm(r)
}
fn msub(a: &[u32], b: &[u32]) -> Mag {
    let mut r = Vec::with_capacity(a.len());
    let mut brw = 0i64;
    for i in 0..a.len() {
        let mut s = a[i] as i64 - *b.get(i).unwrap_or(&0) as i64 - brw;
        brw = 0;
        if s < 0 {
            s += 1 << 32;
            brw = 1;
        }
        r.push(s as u32);
    }
    assert_eq!(brw, 0, "subtraction underflow");
    norm(r)
}
fn mmul(a: &[u32], b: &[u32]) -> Mag {
    let mut r = vec![0u32; a.len() + b.len()];
    for i in 0..a.len() {
        let mut c = 0u64;
        for j in 0..b.len() {
            let t = r[i + j] as u64 + a[i] as u64 * b[j] as u64 + c;
            r[i + j] = t as u32;
            c = t >> 32;
        }
        r[i + b.len()] = c as u32;
    }
    norm(r)
}
fn mshl(a: &[u32], n: usize) -> Mag {
    if a.is_empty() {
        return vec![];
    }
    let (w, s) = (n / 32, n % 32);
    let mut r = vec![0; w];
    let mut c = 0u64;
    for &x in a {
        let t = (x as u64) << s | c;
        r.push(t as u32);
        c = t >> 32;
    }
    r.push(c as u32);
    norm(r)
}
fn mshr(a: &[u32], n: usize) -> Mag {
    let (w, s) = (n / 32, n % 32);
    if w >= a.len() {
        return vec![];
    }
    let a = &a[w..];
    let r = (0..a.len())
        .map(|i| {
            let hi = *a.get(i + 1).unwrap_or(&0) as u64;
            (((hi << 32) | a[i] as u64) >> s) as u32
        })
        .collect();
    norm(r)
}
fn mbits(a: &[u32]) -> u64 {
    match a.last() {
        None => 0,
        Some(t) => a.len() as u64 * 32 - t.leading_zeros() as u64,
    }
}
fn mdivrem(a: &[u32], b: &[u32]) -> (Mag, Mag) {
    assert!(!b.is_empty(), "attempt to divide by zero");
    if mcmp(a, b) == Ordering::Less {
        return (vec![], a.to_vec());
    }
    if b.len() == 1 {
        let d = b[0] as u64;
        let mut q = vec![0; a.len()];
        let mut r = 0u64;
        for i in (0..a.len()).rev() {
            let t = (r << 32) | a[i] as u64;
            q[i] = (t / d) as u32;
            r = t % d;
        }
        return (norm(q), norm(vec![r as u32]));
    }
    let s = b.last().unwrap().leading_zeros() as usize;
    let v = mshl(b, s);
    let mut u = mshl(a, s);
    let n = v.len();
    u.resize(a.len() + 1, 0);
    let m = u.len() - n - 1;
    let mut q = vec![0u32; m + 1];
    let base = 1u64 << 32;
    for j in (0..=m).rev() {
        let num = (u[j + n] as u64) << 32 | u[j + n - 1] as u64;
        let mut qh = num / v[n - 1] as u64;
        let mut rh = num % v[n - 1] as u64;
        while qh >= base || qh * v[n - 2] as u64 > (rh << 32 | u[j + n - 2] as u64) {
            qh -= 1;
            rh += v[n - 1] as u64;
            if rh >= base {
                break;
            }
        }
        let mut brw = 0i64;
        let mut c = 0u64;
        for i in 0..n {
            let p = qh * v[i] as u64 + c;
            c = p >> 32;
            let t = u[i + j] as i64 - brw - (p & 0xffff_ffff) as i64;
            u[i + j] = t as u32;
            brw = (t < 0) as i64;
        }
        let t = u[j + n] as i64 - brw - c as i64;
        u[j + n] = t as u32;
        if t < 0 {
            qh -= 1;
            let mut c = 0u64;
            for i in 0..n {
                let t = u[i + j] as u64 + v[i] as u64 + c;
                u[i + j] = t as u32;
                c = t >> 32;
            }
            u[j + n] = (u[j + n] as u64 + c) as u32;
        }
        q[j] = qh as u32;
    }
    u.truncate(n);
    (norm(q), mshr(&norm(u), s))
}
fn mstr(a: &[u32]) -> String {
    if a.is_empty() {
        return "0".into();
    }
    let mut parts = vec![];
    let mut a = a.to_vec();
    while !a.is_empty() {
        let (q, r) = mdivrem(&a, &[1_000_000_000]);
        parts.push(*r.first().unwrap_or(&0));
        a = q;
    }
    let mut s = parts.pop().unwrap().to_string();
    while let Some(p) = parts.pop() {
        s += &format!("{p:09}");
    }
    s
}
fn mparse(s: &str, radix: u32) -> Result<Mag, ParseBigIntError> {
    if s.is_empty() {
        return Err(ParseBigIntError("cannot parse integer from empty string"));
    }
    let mut r: Mag = vec![];
    for c in s.chars() {
        if c == '_' {
            continue;
        }
        let d = c.to_digit(radix).ok_or(ParseBigIntError("invalid digit found in string"))?;
        r = madd(&mmul(&r, &[radix]), &norm(vec![d]));
    }
    Ok(r)
}
fn mfrom(mut x: u128) -> Mag {
    let mut r = vec![];
    while x > 0 {
        r.push(x as u32);
        x >>= 32;
    }
    r
}
fn mto(a: &[u32]) -> Option<u128> {
    if a.len() > 4 {
        return None;
    }
    Some(a.iter().rev().fold(0, |x, d| x << 32 | *d as u128))
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Sign {
    Minus,
    NoSign,
    Plus,
}

#[derive(Clone, PartialEq, Eq, Default, Hash)]
pub struct BigUint(Mag);
#[derive(Clone, PartialEq, Eq, Default, Hash)]
pub struct BigInt {
    neg: bool,
    mag: Mag,
}

impl BigUint {
    pub const ZERO: BigUint = BigUint(Vec::new());
    pub fn to_u64_digits(&self) -> Vec<u64> {
        self.0.chunks(2).map(|c| c[0] as u64 | (*c.get(1).unwrap_or(&0) as u64) << 32).collect()
    }
    pub fn to_u32_digits(&self) -> Vec<u32> {
        self.0.clone()
    }
    pub fn bits(&self) -> u64 {
        mbits(&self.0)
    }
    pub fn bit(&self, i: u64) -> bool {
        self.0.get((i / 32) as usize).is_some_and(|w| w >> (i % 32) & 1 == 1)
    }
    pub fn from_bytes_be(b: &[u8]) -> Self {
        let mut v: Vec<u8> = b.to_vec();
        v.reverse();
        Self::from_bytes_le(&v)
    }
    pub fn from_bytes_le(b: &[u8]) -> Self {
        BigUint(norm(
            b.chunks(4)
                .map(|c| c.iter().rev().fold(0u32, |x, d| x << 8 | *d as u32))
                .collect(),
        ))
    }
    pub fn to_bytes_le(&self) -> Vec<u8> {
        let mut r: Vec<u8> = self.0.iter().flat_map(|d| d.to_le_bytes()).collect();
        while r.len() > 1 && r.last() == Some(&0) {
            r.pop();
        }
        if r.is_empty() {
            r.push(0);
        }
        r
    }
    pub fn to_bytes_be(&self) -> Vec<u8> {
        let mut r = self.to_bytes_le();
        r.reverse();
        r
    }
    pub fn parse_bytes(b: &[u8], radix: u32) -> Option<Self> {
        Self::from_str_radix(std::str::from_utf8(b).ok()?, radix).ok()
    }
    pub fn pow(&self, e: u32) -> Self {
        (0..e).fold(BigUint(vec![1]), |r, _| BigUint(mmul(&r.0, &self.0)))
    }
    pub fn modpow(&self, e: &Self, m: &Self) -> Self {
        let mut r = BigUint(mdivrem(&[1], &m.0).1);
        for i in (0..e.bits()).rev() {
            r = BigUint(mdivrem(&mmul(&r.0, &r.0), &m.0).1);
            if e.bit(i) {
                r = BigUint(mdivrem(&mmul(&r.0, &self.0), &m.0).1);
            }
        }
        r
    }
}
impl BigInt {
    pub const ZERO: BigInt = BigInt { neg: false, mag: Vec::new() };
    fn mk(neg: bool, mag: Mag) -> Self {
        BigInt { neg: neg && !mag.is_empty(), mag }
    }
    pub fn sign(&self) -> Sign {
        if self.mag.is_empty() {
            Sign::NoSign
        } else if self.neg {
            Sign::Minus
        } else {
            Sign::Plus
        }
    }
    pub fn from_biguint(s: Sign, m: BigUint) -> Self {
        Self::mk(s == Sign::Minus, if s == Sign::NoSign { vec![] } else { m.0 })
    }
    pub fn bits(&self) -> u64 {
        mbits(&self.mag)
    }
    pub fn to_biguint(&self) -> Option<BigUint> {
        (!self.neg).then(|| BigUint(self.mag.clone()))
    }
    pub fn magnitude(&self) -> BigUint {
        BigUint(self.mag.clone())
    }
    pub fn parse_bytes(b: &[u8], radix: u32) -> Option<Self> {
        Self::from_str_radix(std::str::from_utf8(b).ok()?, radix).ok()
    }
    pub fn from_bytes_be(s: Sign, b: &[u8]) -> Self {
        Self::from_biguint(s, BigUint::from_bytes_be(b))
    }
    pub fn from_bytes_le(s: Sign, b: &[u8]) -> Self {
        Self::from_biguint(s, BigUint::from_bytes_le(b))
    }
    pub fn to_bytes_be(&self) -> (Sign, Vec<u8>) {
        (self.sign(), self.magnitude().to_bytes_be())
    }
    pub fn to_bytes_le(&self) -> (Sign, Vec<u8>) {
        (self.sign(), self.magnitude().to_bytes_le())
    }
    pub fn pow(&self, e: u32) -> Self {
        Self::mk(self.neg && e % 2 == 1, self.magnitude().pow(e).0)
    }
    fn floor_rem(&self, m: &Self) -> Self {
        let r = self % m;
        if !r.mag.is_empty() && r.neg != m.neg {
            r + m
        } else {
            r
        }
    }
    pub fn modinv(&self, m: &Self) -> Option<Self> {
        let (mut r0, mut r1) = (m.clone(), self.floor_rem(m));
        let (mut t0, mut t1) = (BigInt::ZERO, BigInt::from(1));
        while !r1.mag.is_empty() {
            let q = &r0 / &r1;
            let r2 = &r0 - &q * &r1;
            let t2 = &t0 - &q * &t1;
            (r0, r1, t0, t1) = (r1, r2, t1, t2);
        }
        if r0.mag != [1] {
            return None;
        }
        if r0.neg {
            t0 = -t0;
        }
        Some(t0.floor_rem(m))
    }
    pub fn modpow(&self, e: &Self, m: &Self) -> Self {
        assert!(!e.neg, "negative exponentiation requested!");
        let mut r = BigInt::from(1).floor_rem(m);
        for i in (0..e.bits()).rev() {
            r = (&r * &r).floor_rem(m);
            if e.magnitude().bit(i) {
                r = (&r * self).floor_rem(m);
            }
        }
        r
    }
}
fn iadd(a: &BigInt, b: &BigInt) -> BigInt {
    if a.neg == b.neg {
        return BigInt::mk(a.neg, madd(&a.mag, &b.mag));
    }
    match mcmp(&a.mag, &b.mag) {
        Ordering::Less => BigInt::mk(b.neg, msub(&b.mag, &a.mag)),
        _ => BigInt::mk(a.neg, msub(&a.mag, &b.mag)),
    }
}
fn ineg(a: &BigInt) -> BigInt {
    BigInt::mk(!a.neg, a.mag.clone())
}
fn isub(a: &BigInt, b: &BigInt) -> BigInt {
    iadd(a, &ineg(b))
}
fn imul(a: &BigInt, b: &BigInt) -> BigInt {
    BigInt::mk(a.neg != b.neg, mmul(&a.mag, &b.mag))
}
fn idiv(a: &BigInt, b: &BigInt) -> BigInt {
    BigInt::mk(a.neg != b.neg, mdivrem(&a.mag, &b.mag).0)
}
fn irem(a: &BigInt, b: &BigInt) -> BigInt {
    BigInt::mk(a.neg, mdivrem(&a.mag, &b.mag).1)
}
fn bitop(a: &BigInt, b: &BigInt, f: fn(u32, u32) -> u32) -> BigInt {
    let n = a.mag.len().max(b.mag.len()) + 1;
    let two = |x: &BigInt| -> Mag {
        let mut v = x.mag.clone();
        v.resize(n, 0);
        if x.neg {
            let mut c = true;
            for d in &mut v {
                let (e, o) = (!*d).overflowing_add(c as u32);
                *d = e;
                c = o;
            }
        }
        v
    };
    let mut v: Mag = two(a).iter().zip(two(b)).map(|(x, y)| f(*x, y)).collect();
    let neg = v[n - 1] >> 31 == 1;
    if neg {
        let mut c = true;
        for d in &mut v {
            let (e, o) = (!*d).overflowing_add(c as u32);
            *d = e;
            c = o;
        }
    }
    BigInt::mk(neg, norm(v))
}
fn iand(a: &BigInt, b: &BigInt) -> BigInt {
    bitop(a, b, |x, y| x & y)
}
fn ior(a: &BigInt, b: &BigInt) -> BigInt {
    bitop(a, b, |x, y| x | y)
}
fn ixor(a: &BigInt, b: &BigInt) -> BigInt {
    bitop(a, b, |x, y| x ^ y)
}
fn uadd(a: &BigUint, b: &BigUint) -> BigUint {
    BigUint(madd(&a.0, &b.0))
}
fn usub(a: &BigUint, b: &BigUint) -> BigUint {
    BigUint(msub(&a.0, &b.0))
}
fn umul(a: &BigUint, b: &BigUint) -> BigUint {
    BigUint(mmul(&a.0, &b.0))
}
fn udiv(a: &BigUint, b: &BigUint) -> BigUint {
    BigUint(mdivrem(&a.0, &b.0).0)
}
fn urem(a: &BigUint, b: &BigUint) -> BigUint {
    BigUint(mdivrem(&a.0, &b.0).1)
}
fn uand(a: &BigUint, b: &BigUint) -> BigUint {
    BigUint(norm(a.0.iter().zip(&b.0).map(|(x, y)| x & y).collect()))
}

macro_rules! op {
    ($T:ty, $tr:ident, $m:ident, $tra:ident, $ma:ident, $f:ident) => {
        impl $tr<$T> for $T {
            type Output = $T;
            fn $m(self, o: $T) -> $T {
                $f(&self, &o)
            }
        }
        impl<'a> $tr<&'a $T> for $T {
            type Output = $T;
            fn $m(self, o: &'a $T) -> $T {
                $f(&self, o)
            }
        }
        impl<'a> $tr<$T> for &'a $T {
            type Output = $T;
            fn $m(self, o: $T) -> $T {
                $f(self, &o)
            }
        }
        impl<'a, 'b> $tr<&'b $T> for &'a $T {
            type Output = $T;
            fn $m(self, o: &'b $T) -> $T {
                $f(self, o)
            }
        }
        impl $tra<$T> for $T {
            fn $ma(&mut self, o: $T) {
                *self = $f(self, &o)
            }
        }
        impl<'a> $tra<&'a $T> for $T {
            fn $ma(&mut self, o: &'a $T) {
                *self = $f(self, o)
            }
        }
    };
}
macro_rules! opp {
    ($T:ty, $tr:ident, $m:ident, $tra:ident, $ma:ident, $f:ident, $($p:ty),*) => {$(
        impl $tr<$p> for $T {
            type Output = $T;
            fn $m(self, o: $p) -> $T {
                $f(&self, &<$T>::from(o))
            }
        }
        impl<'a> $tr<$p> for &'a $T {
            type Output = $T;
            fn $m(self, o: $p) -> $T {
                $f(self, &<$T>::from(o))
            }
        }
        impl $tr<$T> for $p {
            type Output = $T;
            fn $m(self, o: $T) -> $T {
                $f(&<$T>::from(self), &o)
            }
        }
        impl<'a> $tr<&'a $T> for $p {
            type Output = $T;
            fn $m(self, o: &'a $T) -> $T {
                $f(&<$T>::from(self), o)
            }
        }
        impl $tra<$p> for $T {
            fn $ma(&mut self, o: $p) {
                *self = $f(self, &<$T>::from(o))
            }
        }
    )*};
}
macro_rules! all {
    ($T:ty, $tr:ident, $m:ident, $tra:ident, $ma:ident, $f:ident, $($p:ty),*) => {
        op!($T, $tr, $m, $tra, $ma, $f);
        opp!($T, $tr, $m, $tra, $ma, $f, $($p),*);
    };
}
all!(BigInt, Add, add, AddAssign, add_assign, iadd, u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize);
all!(BigInt, Sub, sub, SubAssign, sub_assign, isub, u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize);
all!(BigInt, Mul, mul, MulAssign, mul_assign, imul, u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize);
all!(BigInt, Div, div, DivAssign, div_assign, idiv, u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize);
all!(BigInt, Rem, rem, RemAssign, rem_assign, irem, u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize);
op!(BigInt, BitAnd, bitand, BitAndAssign, bitand_assign, iand);
op!(BigInt, BitOr, bitor, BitOrAssign, bitor_assign, ior);
op!(BigInt, BitXor, bitxor, BitXorAssign, bitxor_assign, ixor);
all!(BigUint, Add, add, AddAssign, add_assign, uadd, u8, u16, u32, u64, u128, usize);
all!(BigUint, Sub, sub, SubAssign, sub_assign, usub, u8, u16, u32, u64, u128, usize);
all!(BigUint, Mul, mul, MulAssign, mul_assign, umul, u8, u16, u32, u64, u128, usize);
all!(BigUint, Div, div, DivAssign, div_assign, udiv, u8, u16, u32, u64, u128, usize);
all!(BigUint, Rem, rem, RemAssign, rem_assign, urem, u8, u16, u32, u64, u128, usize);
op!(BigUint, BitAnd, bitand, BitAndAssign, bitand_assign, uand);

fn ishr(a: &BigInt, n: usize) -> BigInt {
    let m = mshr(&a.mag, n);
    if a.neg && mshl(&m, n) != a.mag {
        // towards minus infinity
        return BigInt::mk(true, madd(&m, &[1]));
    }
    BigInt::mk(a.neg, m)
}
macro_rules! shifts {
    ($($p:ty),*) => {$(
        impl Shl<$p> for BigInt {
            type Output = BigInt;
            fn shl(self, n: $p) -> BigInt { BigInt::mk(self.neg, mshl(&self.mag, usize::try_from(n).unwrap())) }
        }
        impl<'a> Shl<$p> for &'a BigInt {
            type Output = BigInt;
            fn shl(self, n: $p) -> BigInt { BigInt::mk(self.neg, mshl(&self.mag, usize::try_from(n).unwrap())) }
        }
        impl ShlAssign<$p> for BigInt {
            fn shl_assign(&mut self, n: $p) { *self = &*self << n }
        }
        impl Shr<$p> for BigInt {
            type Output = BigInt;
            fn shr(self, n: $p) -> BigInt { ishr(&self, usize::try_from(n).unwrap()) }
        }
        impl<'a> Shr<$p> for &'a BigInt {
            type Output = BigInt;
            fn shr(self, n: $p) -> BigInt { ishr(self, usize::try_from(n).unwrap()) }
        }
        impl ShrAssign<$p> for BigInt {
            fn shr_assign(&mut self, n: $p) { *self = &*self >> n }
        }
        impl Shl<$p> for BigUint {
            type Output = BigUint;
            fn shl(self, n: $p) -> BigUint { BigUint(mshl(&self.0, usize::try_from(n).unwrap())) }
        }
        impl<'a> Shl<$p> for &'a BigUint {
            type Output = BigUint;
            fn shl(self, n: $p) -> BigUint { BigUint(mshl(&self.0, usize::try_from(n).unwrap())) }
        }
        impl Shr<$p> for BigUint {
            type Output = BigUint;
            fn shr(self, n: $p) -> BigUint { BigUint(mshr(&self.0, usize::try_from(n).unwrap())) }
        }
        impl<'a> Shr<$p> for &'a BigUint {
            type Output = BigUint;
            fn shr(self, n: $p) -> BigUint { BigUint(mshr(&self.0, usize::try_from(n).unwrap())) }
        }
        impl ShrAssign<$p> for BigUint {
            fn shr_assign(&mut self, n: $p) { *self = &*self >> n }
        }
        impl ShlAssign<$p> for BigUint {
            fn shl_assign(&mut self, n: $p) { *self = &*self << n }
        }
    )*};
}
shifts!(u8, u16, u32, u64, usize, i8, i16, i32, i64, isize);
macro_rules! from_u { ($($p:ty),*) => {$(
    impl From<$p> for BigUint { fn from(x: $p) -> Self { BigUint(mfrom(x as u128)) } }
    impl From<$p> for BigInt { fn from(x: $p) -> Self { BigInt::mk(false, mfrom(x as u128)) } }
)*}; }
from_u!(u8, u16, u32, u64, u128, usize, bool);
macro_rules! from_i { ($($p:ty),*) => {$(
    impl From<$p> for BigInt { fn from(x: $p) -> Self { BigInt::mk(x < 0, mfrom((x as i128).unsigned_abs())) } }
)*}; }
from_i!(i8, i16, i32, i64, i128, isize);
impl From<BigUint> for BigInt {
    fn from(x: BigUint) -> Self {
        BigInt::mk(false, x.0)
    }
}
impl Neg for BigInt {
    type Output = BigInt;
    fn neg(self) -> BigInt {
        ineg(&self)
    }
}
impl<'a> Neg for &'a BigInt {
    type Output = BigInt;
    fn neg(self) -> BigInt {
        ineg(self)
    }
}
impl PartialOrd for BigUint {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for BigUint {
    fn cmp(&self, o: &Self) -> Ordering {
        mcmp(&self.0, &o.0)
    }
}
impl PartialOrd for BigInt {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for BigInt {
    fn cmp(&self, o: &Self) -> Ordering {
        match (self.neg, o.neg) {
            (false, true) => Ordering::Greater,
            (true, false) => Ordering::Less,
            (false, false) => mcmp(&self.mag, &o.mag),
            (true, true) => mcmp(&o.mag, &self.mag),
        }
    }
}
impl fmt::Display for BigUint {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.pad_integral(true, "", &mstr(&self.0))
    }
}
impl fmt::Display for BigInt {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.pad_integral(!self.neg, "", &mstr(&self.mag))
    }
}
impl fmt::Debug for BigUint {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        fmt::Display::fmt(self, f)
    }
}
impl fmt::Debug for BigInt {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        fmt::Display::fmt(self, f)
    }
}
impl FromStr for BigUint {
    type Err = ParseBigIntError;
    fn from_str(s: &str) -> Result<Self, Self::Err> {
        Self::from_str_radix(s, 10)
    }
}
impl FromStr for BigInt {
    type Err = ParseBigIntError;
    fn from_str(s: &str) -> Result<Self, Self::Err> {
        Self::from_str_radix(s, 10)
    }
}
impl Zero for BigUint {
    fn zero() -> Self {
        BigUint::ZERO
    }
    fn is_zero(&self) -> bool {
        self.0.is_empty()
    }
}
impl Zero for BigInt {
    fn zero() -> Self {
        BigInt::ZERO
    }
    fn is_zero(&self) -> bool {
        self.mag.is_empty()
    }
}
impl One for BigUint {
    fn one() -> Self {
        BigUint(vec![1])
    }
}
impl One for BigInt {
    fn one() -> Self {
        BigInt::from(1)
    }
}
impl Num for BigUint {
    type FromStrRadixErr = ParseBigIntError;
    fn from_str_radix(s: &str, radix: u32) -> Result<Self, ParseBigIntError> {
        Ok(BigUint(mparse(s.strip_prefix('+').unwrap_or(s), radix)?))
    }
}
impl Num for BigInt {
    type FromStrRadixErr = ParseBigIntError;
    fn from_str_radix(s: &str, radix: u32) -> Result<Self, ParseBigIntError> {
        if let Some(t) = s.strip_prefix('-') {
            return Ok(BigInt::mk(true, mparse(t, radix)?));
        }
        Ok(BigInt::mk(false, mparse(s.strip_prefix('+').unwrap_or(s), radix)?))
    }
}
impl Signed for BigInt {
    fn abs(&self) -> Self {
        BigInt::mk(false, self.mag.clone())
    }
    fn abs_sub(&self, o: &Self) -> Self {
        if self <= o {
            BigInt::ZERO
        } else {
            self - o
        }
    }
    fn signum(&self) -> Self {
        match self.sign() {
            Sign::Minus => BigInt::from(-1),
            Sign::NoSign => BigInt::ZERO,
            Sign::Plus => BigInt::from(1),
        }
    }
    fn is_positive(&self) -> bool {
        self.sign() == Sign::Plus
    }
    fn is_negative(&self) -> bool {
        self.neg
    }
}
impl ToPrimitive for BigUint {
    fn to_i64(&self) -> Option<i64> {
        mto(&self.0).and_then(|x| i64::try_from(x).ok())
    }
    fn to_u64(&self) -> Option<u64> {
        mto(&self.0).and_then(|x| u64::try_from(x).ok())
    }
    fn to_u128(&self) -> Option<u128> {
        mto(&self.0)
    }
}
impl ToPrimitive for BigInt {
    fn to_i64(&self) -> Option<i64> {
        let x = i128::try_from(mto(&self.mag)?).ok()?;
        i64::try_from(if self.neg { -x } else { x }).ok()
    }
    fn to_u64(&self) -> Option<u64> {
        if self.neg {
            return None;
        }
        mto(&self.mag).and_then(|x| u64::try_from(x).ok())
    }
    fn to_u128(&self) -> Option<u128> {
        if self.neg {
            return None;
        }
        mto(&self.mag)
    }
}
