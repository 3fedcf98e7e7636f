//! Emulated prime fields and the BLS12-381 tower, against arithmetic from the definitions.
use crate::arithm::m31_hints;
use crate::gad::*;
use crate::lookup::really;
use ark_bls12_381::{Fq, Fq12, Fq2, Fq6};
use ark_ff::{Field as _, One, Zero};
use circuit_std_rs::gnark::element::{value_of, Element};
use circuit_std_rs::gnark::emparam::{Bls12381Fp, Bls12381Fr, FieldParams};
use circuit_std_rs::gnark::emulated::field_bls12381::e12::{Ext12, GE12};
use circuit_std_rs::gnark::emulated::field_bls12381::e2::GE2;
use circuit_std_rs::gnark::emulated::field_bls12381::e6::GE6;
use circuit_std_rs::gnark::field::GField;
use expander_compiler::field::M31;
use expander_compiler::frontend::*;
use expander_compiler::hints::registry::hint_key_to_id;
use num_bigint::{BigInt, BigUint};
use serde_json::json;
use std::marker::PhantomData;
use vpc::*;

// ---------------------------------------------------------------- integers
pub fn modulus<T: FieldParams>() -> BigUint {
    T::modulus().to_biguint().unwrap()
}
pub fn bytes_of(x: &BigUint, n: usize) -> Vec<u32> {
    let mut b: Vec<u32> = x.to_bytes_le().iter().map(|b| *b as u32).collect();
    assert!(b.len() <= n || b[n..].iter().all(|v| *v == 0));
    b.resize(n, 0);
    b
}
pub fn m31s(v: &[u32]) -> Vec<M31> {
    fs::<M31Config>(v)
}
/// The value modulo `p` of limbs in base 256, each a non-negative integer.
pub fn recompose(l: &[u32], p: &BigUint) -> BigUint {
    let mut r = BigUint::from(0u32);
    for v in l.iter().rev() {
        r = (r << 8usize) + BigUint::from(*v);
    }
    r % p
}
pub fn random_below(r: &mut Rng, p: &BigUint) -> BigUint {
    let p1 = p - BigUint::from(1u32);
    match r.below(12) {
        0 => BigUint::from(0u32),
        1 => BigUint::from(1u32),
        2 => p1,
        3 => p1 - BigUint::from(r.below(300) as u32),
        4 => BigUint::from(r.u64()),
        5 => (BigUint::from(1u32) << r.below(380usize.min(p.bits() as usize - 1))) % p,
        6 => (BigUint::from(r.u64()) << (8 * r.below(40))) % p,
        7 => ((BigUint::from(1u32) << (8 * r.range(1, 31))) - BigUint::from(1u32)) % p,
        _ => BigUint::from_bytes_le(&r.bytes(56)) % p,
    }
}
pub fn honest(id: usize) -> bool {
    id == hint_key_to_id("myhint.mulhint")
}

// ---------------------------------------------------------------- field programs
#[derive(Clone, Debug, Hash, PartialEq)]
enum FOp {
    Add(usize, usize),
    Sub(usize, usize),
    Mul(usize, usize),
    Neg(usize),
    MulC(usize, i64),
    Div(usize, usize),
    Inv(usize),
    Sel(usize, usize, usize),
    IsZero(usize),
    Reduce(usize, bool),
    Copy(usize),
    Sign(usize),
    Eq(usize, usize),
    Const(u64),
    One,
    Zero,
}
#[derive(Clone, Debug)]
enum FVal {
    E(BigUint),
    B(bool),
    Unit,
}
struct FProg<T> {
    /// Registers 0.. are field inputs, then bits, then one per operation.
    fields: usize,
    bits: usize,
    ops: Vec<FOp>,
    _t: PhantomData<T>,
}
impl<T> Clone for FProg<T> {
    fn clone(&self) -> Self {
        FProg { fields: self.fields, bits: self.bits, ops: self.ops.clone(), _t: PhantomData }
    }
}
enum FReg<T: FieldParams> {
    E(Element<T>),
    B(Variable),
    Unit,
}
impl<T: FieldParams> FReg<T> {
    fn e(&self) -> &Element<T> {
        match self {
            FReg::E(e) => e,
            _ => panic!("not a field element"),
        }
    }
    fn b(&self) -> Variable {
        match self {
            FReg::B(v) => *v,
            _ => panic!("not a bit"),
        }
    }
}
trait Params: FieldParams + Clone + 'static {
    fn it() -> Self;
    const NAME: &'static str;
}
impl Params for Bls12381Fp {
    fn it() -> Self {
        Bls12381Fp {}
    }
    const NAME: &'static str = "base field";
}
impl Params for Bls12381Fr {
    fn it() -> Self {
        Bls12381Fr {}
    }
    const NAME: &'static str = "scalar field";
}
impl<T: Params> Gadget<M31Config> for FProg<T> {
    fn build<B: RootAPI<M31Config>>(&self, b: &mut B, x: &[Variable]) -> Vec<Variable> {
        let n = T::nb_limbs() as usize;
        let mut f = GField::new(b, T::it());
        let mut reg: Vec<FReg<T>> = vec![];
        for i in 0..self.fields {
            reg.push(FReg::E(Element::new(x[i * n..(i + 1) * n].to_vec(), 0, false, false, false, Variable::default())));
        }
        for v in &x[self.fields * n..] {
            b.assert_is_bool(*v);
            reg.push(FReg::B(*v));
        }
        for op in &self.ops {
            let e = |i: &usize| reg[*i].e().clone();
            let v = match op {
                FOp::Add(p, q) => FReg::E(f.add(b, &e(p), &e(q))),
                FOp::Sub(p, q) => FReg::E(f.sub(b, &e(p), &e(q))),
                FOp::Mul(p, q) => FReg::E(f.mul(b, &e(p), &e(q))),
                FOp::Neg(p) => FReg::E(f.neg(b, &e(p))),
                FOp::MulC(p, c) => FReg::E(f.mul_const(b, &e(p), BigInt::from(*c))),
                FOp::Div(p, q) => FReg::E(f.div(b, &e(p), &e(q))),
                FOp::Inv(p) => FReg::E(f.inverse(b, &e(p))),
                FOp::Sel(c, p, q) => FReg::E(f.select(b, reg[*c].b(), &e(p), &e(q))),
                FOp::IsZero(p) => FReg::B(f.is_zero(b, &e(p))),
                FOp::Reduce(p, s) => FReg::E(f.reduce(b, &e(p), *s)),
                FOp::Copy(p) => FReg::E(f.copy(b, &e(p))),
                FOp::Sign(p) => FReg::B(f.get_element_sign(b, &e(p))),
                FOp::Eq(p, q) => {
                    f.assert_is_equal(b, &e(p), &e(q));
                    FReg::Unit
                }
                FOp::Const(c) => FReg::E(value_of(b, Box::new(*c))),
                FOp::One => FReg::E(f.one_const.clone()),
                FOp::Zero => FReg::E(f.zero_const.clone()),
            };
            reg.push(v);
        }
        f.check_mul(b);
        f.table.final_check(b);
        let mut out = vec![];
        for r in &reg {
            match r {
                FReg::E(e) => {
                    assert_eq!(e.limbs.len(), n, "limbs of an element");
                    out.extend(&e.limbs);
                }
                FReg::B(v) => out.push(*v),
                FReg::Unit => {}
            }
        }
        out
    }
}
/// The value of the next operation, `None` where it is not defined.
fn fval(op: &FOp, v: &[FVal], p: &BigUint) -> Option<FVal> {
    let e = |i: &usize| match &v[*i] {
        FVal::E(x) => x.clone(),
        _ => unreachable!(),
    };
    let inv = |x: &BigUint| x.modpow(&(p - BigUint::from(2u32)), p);
    let zero = BigUint::from(0u32);
    Some(FVal::E(match op {
        FOp::Add(a, b) => (e(a) + e(b)) % p,
        FOp::Sub(a, b) => (e(a) + p - e(b)) % p,
        FOp::Mul(a, b) => e(a) * e(b) % p,
        FOp::Neg(a) => (p - e(a)) % p,
        FOp::MulC(a, c) => {
            let m = e(a) * BigUint::from(c.unsigned_abs()) % p;
            if *c < 0 {
                (p - m) % p
            } else {
                m
            }
        }
        FOp::Div(a, b) => {
            if e(b) == zero {
                return None;
            }
            e(a) * inv(&e(b)) % p
        }
        FOp::Inv(a) => {
            if e(a) == zero {
                return None;
            }
            inv(&e(a))
        }
        FOp::Sel(c, a, b) => match &v[*c] {
            FVal::B(true) => e(a),
            FVal::B(false) => e(b),
            _ => unreachable!(),
        },
        FOp::IsZero(a) => return Some(FVal::B(e(a) == zero)),
        FOp::Sign(a) => return Some(FVal::B(e(a).bit(0))),
        FOp::Reduce(a, _) | FOp::Copy(a) => e(a),
        FOp::Eq(..) => return Some(FVal::Unit),
        FOp::Const(c) => BigUint::from(*c) % p,
        FOp::One => BigUint::from(1u32),
        FOp::Zero => zero,
    }))
}
struct FCase<T> {
    g: FProg<T>,
    x: Vec<u32>,
    vals: Vec<FVal>,
    /// Indices of the `Eq` operations that do not hold.
    broken: Vec<usize>,
}
/// `lying`: more hinted operations, and zero tests and signs of any representative, which may be refused.
fn fgen<T: Params>(r: &mut Rng, lying: bool, false_eq: bool) -> FCase<T> {
    let p = modulus::<T>();
    let n = T::nb_limbs() as usize;
    let cap = BigUint::from(1u32) << (p.bits() as usize);
    // inputs above the modulus, but within its bit length
    let wild = r.chance(1, 3);
    let (fields, bits) = (r.range(1, 4), r.range(1, 2));
    let mut vals = vec![];
    let mut x = vec![];
    for _ in 0..fields {
        let v = random_below(r, &p);
        let mut raw = v.clone();
        if wild && r.chance(1, 2) && &v + &p < cap {
            raw = &v + &p;
        }
        x.extend(bytes_of(&raw, n));
        vals.push(FVal::E(v));
    }
    for _ in 0..bits {
        let v = r.chance(1, 2);
        x.push(v as u32);
        vals.push(FVal::B(v));
    }
    let mut ops = vec![];
    let mut broken = vec![];
    // registers whose limbs are the canonical ones
    let mut canon: Vec<bool> = (0..fields).map(|_| !wild).chain((0..bits).map(|_| false)).collect();
    // registers without overflow: is_zero looks at their limbs directly
    let mut flat: Vec<bool> = canon.iter().enumerate().map(|(i, _)| i < fields).collect();
    for _ in 0..r.range(2, 16) {
        let es: Vec<usize> = (0..vals.len()).filter(|i| matches!(vals[*i], FVal::E(_))).collect();
        let bs: Vec<usize> = (0..vals.len()).filter(|i| matches!(vals[*i], FVal::B(_))).collect();
        // recent registers more often: long chains of operations
        let k = es.len();
        let pick = |r: &mut Rng| if r.chance(2, 3) { es[k - 1 - r.below(k.min(3))] } else { *r.pick(&es) };
        let (a, b) = (pick(r), pick(r));
        let kind = if lying && r.chance(1, 3) { r.range(9, 17) } else { r.below(20) };
        let op = match kind {
            0 | 1 | 2 => FOp::Add(a, b),
            3 | 4 | 5 => FOp::Sub(a, b),
            6 | 7 => FOp::Mul(a, b),
            8 => FOp::Neg(a),
            9 | 10 => {
                let bits = r.range(1, 20);
                let c = (r.u64() & ((1 << bits) - 1)) as i64;
                FOp::MulC(a, if r.chance(1, 4) { -c } else { c })
            }
            11 => FOp::Div(a, b),
            12 => FOp::Inv(a),
            13 => FOp::Sel(*r.pick(&bs), a, b),
            14 => FOp::IsZero(a),
            15 => FOp::Reduce(a, r.chance(1, 2)),
            16 => FOp::Copy(a),
            17 => FOp::Sign(a),
            18 => match r.below(3) {
                0 => FOp::Const(r.u64() >> r.below(60)),
                1 => FOp::One,
                _ => FOp::Zero,
            },
            _ => {
                let (FVal::E(u), FVal::E(v)) = (&vals[a], &vals[b]) else { unreachable!() };
                if u == v {
                    FOp::Eq(a, b)
                } else if false_eq && r.chance(1, 3) {
                    broken.push(ops.len());
                    FOp::Eq(a, b)
                } else {
                    continue;
                }
            }
        };
        if let FOp::IsZero(a) | FOp::Sign(a) = op {
            if !lying && flat[a] && !canon[a] {
                continue;
            }
        }
        let Some(v) = fval(&op, &vals, &p) else { continue };
        let (c, fl) = match &op {
            FOp::Mul(..) | FOp::Div(..) | FOp::Inv(_) | FOp::Const(_) | FOp::One | FOp::Zero => (true, true),
            FOp::Copy(_) => (true, true),
            FOp::Reduce(a, s) => (canon[*a] || *s || !flat[*a], true),
            FOp::Sel(_, a, b) => (canon[*a] && canon[*b], flat[*a] && flat[*b]),
            FOp::MulC(_, 0) => (true, true),
            _ => (false, false),
        };
        canon.push(c);
        flat.push(fl);
        vals.push(v);
        ops.push(op);
    }
    if false_eq && broken.is_empty() {
        // a near miss of the last element
        let i = (0..vals.len()).rev().find(|i| matches!(vals[*i], FVal::E(_))).unwrap();
        let mut one = BigUint::from(1u32) << (8 * r.below(n));
        one %= &p;
        // as an extra constant: only small ones can be written, so add 1 shifted by multiplications
        let FVal::E(v) = vals[i].clone() else { unreachable!() };
        let _ = one;
        vals.push(FVal::E(BigUint::from(1u32)));
        ops.push(FOp::One);
        let j = vals.len() - 1;
        let op = FOp::Add(i, j);
        vals.push(FVal::E((v + BigUint::from(1u32)) % &p));
        ops.push(op);
        broken.push(ops.len());
        vals.push(FVal::Unit);
        ops.push(if r.chance(1, 2) { FOp::Eq(i, j + 1) } else { FOp::Eq(j + 1, i) });
    }
    FCase { g: FProg { fields, bits, ops, _t: PhantomData }, x, vals, broken }
}
/// Compares every register with the reference; the number of compared registers.
fn fcompare(c: &[FVal], out: &[u32], p: &BigUint, n: usize) -> Result<u64, String> {
    let mut at = 0;
    let mut seen = 0;
    for (i, v) in c.iter().enumerate() {
        match v {
            FVal::E(v) => {
                let l = &out[at..at + n];
                at += n;
                if l.iter().any(|x| *x >= 1 << 29) {
                    return Err(format!("register {i} has the oversized limbs {l:?}"));
                }
                let got = recompose(l, p);
                if got != *v {
                    return Err(format!("register {i} is {got} instead of {v}"));
                }
                seen += 1;
            }
            FVal::B(v) => {
                if out[at] != *v as u32 {
                    return Err(format!("register {i} is {} instead of {}", out[at], *v as u32));
                }
                at += 1;
                seen += 1;
            }
            FVal::Unit => {}
        }
    }
    assert_eq!(at, out.len());
    Ok(seen)
}
fn field_case<T: Params>(r: &mut Rng, o: &mut Obs) -> CaseResult {
    let (p, n) = (modulus::<T>(), T::nb_limbs() as usize);
    let c = fgen::<T>(r, false, false);
    let desc = || format!("{} program {:?} on {:?}", T::NAME, c.g.ops, &c.vals[..c.g.fields + c.g.bits]);
    let out = run::<M31Config, _>(&c.g, &m31s(&c.x), m31_hints()).map_err(|e| viol!("refused", "{} fails: {e}", desc()))?;
    let k = fcompare(&c.vals, &u::<M31Config>(&out), &p, n).map_err(|e| viol!("wrong-value", "{}: {e}", desc()))?;
    o.count("field results compared", k);
    for op in &c.g.ops {
        o.count(
            match op {
                FOp::Add(..) => "field additions",
                FOp::Sub(..) => "field subtractions",
                FOp::Mul(..) => "field multiplications",
                FOp::Neg(_) => "field negations",
                FOp::MulC(..) => "field multiplications by constants",
                FOp::Div(..) => "field divisions",
                FOp::Inv(_) => "field inversions",
                FOp::Sel(..) => "field selections",
                FOp::IsZero(_) => "field zero tests",
                FOp::Reduce(..) => "field reductions",
                FOp::Copy(_) => "field copies",
                FOp::Sign(_) => "field signs",
                FOp::Eq(..) => "true equalities accepted",
                FOp::Const(_) | FOp::One | FOp::Zero => "field constants",
            },
            1,
        );
    }
    o.distinct(&(T::NAME, &c.g.ops, &c.x));
    if o.wants_sample() {
        o.sample(json!({"field": T::NAME, "operations": format!("{:?}", c.g.ops)}));
    }
    Ok(())
}
fn field_false<T: Params>(r: &mut Rng, o: &mut Obs) -> CaseResult {
    let c = fgen::<T>(r, false, true);
    let x = m31s(&c.x);
    ensure!(
        !really(|| run::<M31Config, _>(&c.g, &x, m31_hints()).is_ok()),
        "false-equality",
        "{} program {:?} on {:?} is accepted although the equalities {:?} are false",
        T::NAME,
        c.g.ops,
        &c.vals[..c.g.fields + c.g.bits],
        c.broken
    );
    o.count("false equalities refused", 1);
    // without them the same program is accepted
    let mut ok = c.g.clone();
    let mut vals = c.vals.clone();
    for i in c.broken.iter().rev() {
        // keep register numbers: the unit register stays
        ok.ops[*i] = FOp::Zero;
        vals[c.g.fields + c.g.bits + i] = FVal::E(BigUint::from(0u32));
    }
    let out = run::<M31Config, _>(&ok, &x, m31_hints()).map_err(|e| viol!("refused", "{} program {:?} fails: {e}", T::NAME, ok.ops))?;
    fcompare(&vals, &u::<M31Config>(&out), &modulus::<T>(), T::nb_limbs() as usize)
        .map_err(|e| viol!("wrong-value", "{} program {:?}: {e}", T::NAME, ok.ops))?;
    o.distinct(&(T::NAME, "false", &c.g.ops, &c.x));
    Ok(())
}
/// A limb too large, or a division by zero: no honest answer exists.
fn field_refuse<T: Params>(r: &mut Rng, o: &mut Obs) -> CaseResult {
    let n = T::nb_limbs() as usize;
    let p = modulus::<T>();
    let a = random_below(r, &p);
    let b = random_below(r, &p);
    let mut x = [bytes_of(&a, n), bytes_of(&b, n)].concat();
    let kind = r.below(2);
    let ops = if kind == 0 {
        let top = (p.bits() - 1) % 8 + 1;
        let who = r.below(2);
        let limb = r.below(n);
        let over: u32 = if limb == n - 1 && r.chance(1, 2) { 1 << top } else { 256 };
        x[who * n + limb] = match r.below(3) {
            0 => over,
            1 => over + r.below(200) as u32,
            _ => (1 << 31) - 2 - r.below(1000) as u32,
        };
        let op = match r.below(8) {
            0 => FOp::Add(0, 1),
            1 => FOp::Sub(0, 1),
            2 => FOp::Mul(0, 1),
            3 => FOp::Neg(who),
            4 => FOp::Sel(2, 0, 1),
            5 => FOp::Reduce(who, r.chance(1, 2)),
            6 => FOp::IsZero(who),
            _ => FOp::Copy(who),
        };
        vec![op]
    } else {
        x[n..2 * n].copy_from_slice(&bytes_of(&BigUint::from(0u32), n));
        let zero = match r.below(4) {
            0 => vec![],
            1 => vec![FOp::Sub(0, 0)],
            2 => vec![FOp::Mul(0, 1)],
            _ => vec![FOp::Zero],
        };
        let z = if zero.is_empty() { 1 } else { 3 };
        let mut ops = zero;
        if r.chance(1, 2) {
            ops.push(FOp::Inv(z));
        } else {
            if a == BigUint::from(0u32) {
                return Ok(());
            }
            ops.push(FOp::Div(0, z));
        }
        ops
    };
    x.push(r.below(2) as u32);
    let g = FProg::<T> { fields: 2, bits: 1, ops, _t: PhantomData };
    let lie = r.u64();
    // also with answers made up for the division
    let h = || Lying {
        inner: m31_hints(),
        lie: move |id: usize, _: &[M31], v: &mut Vec<M31>| {
            if !honest(id) && (id == hint_key_to_id("myhint.divhint") || id == hint_key_to_id("myhint.invhint")) {
                let mut q = Rng::new(lie);
                for y in v.iter_mut().take(30) {
                    *y = M31::from(q.below(256) as u32);
                }
            }
        },
    };
    let xm = m31s(&x);
    ensure!(!really(|| run::<M31Config, _>(&g, &xm, h()).is_ok()), if kind == 0 { "oversized-limb" } else { "division-by-zero" }, "{} program {:?} on the limbs {x:?} is accepted", T::NAME, g.ops);
    o.count(if kind == 0 { "oversized limbs refused" } else { "divisions by zero refused" }, 1);
    o.distinct(&(T::NAME, kind, &g.ops, &x));
    Ok(())
}
fn limbs(v: &[M31]) -> Vec<u32> {
    u::<M31Config>(v)
}
/// Hint answers other than those of the multiplication, replaced: accepted only with right values.
pub fn spoil(v: &mut [M31], seed: u64, n: usize, p: &BigUint) {
    let mut q = Rng::new(seed);
    let k = v.len() / n;
    if k == 0 {
        return;
    }
    let at = q.below(k);
    let el = &mut v[at * n..(at + 1) * n];
    let old = recompose(&limbs(el), p);
    let new = match q.below(6) {
        0 => (&old + BigUint::from(1u32)) % p,
        1 => (p - &old) % p,
        2 => BigUint::from(0u32),
        3 => random_below(&mut q, p),
        4 => (&old + (BigUint::from(1u32) << (8 * q.below(n)))) % p,
        // the same value, another representative
        _ => &old + p,
    };
    let cap = BigUint::from(1u32) << (p.bits() as usize);
    let new = if new < cap { new } else { old };
    el.copy_from_slice(&m31s(&bytes_of(&new, n)));
}
fn field_lies<T: Params>(r: &mut Rng, o: &mut Obs) -> CaseResult {
    let (p, n) = (modulus::<T>(), T::nb_limbs() as usize);
    let c = fgen::<T>(r, true, false);
    let hinted = c.g.ops.iter().filter(|o| matches!(o, FOp::Div(..) | FOp::Inv(_) | FOp::Copy(_))).count();
    if hinted == 0 && !c.g.ops.iter().any(|o| matches!(o, FOp::IsZero(_) | FOp::Sign(_))) {
        return Ok(());
    }
    // often the last one, which may have operands with much overflow
    let target = if r.chance(1, 2) { hinted.saturating_sub(1) } else { r.below(hinted.max(1)) };
    let seed = r.u64();
    let p2 = p.clone();
    let x = m31s(&c.x);
    let once = || {
        let count = std::sync::atomic::AtomicUsize::new(0);
        let p = p2.clone();
        let h = Lying {
            inner: m31_hints(),
            lie: move |id: usize, _: &[M31], v: &mut Vec<M31>| {
                let hit = [("myhint.divhint"), "myhint.invhint", "myhint.copyelementhint"].iter().any(|k| id == hint_key_to_id(k));
                if hit && count.fetch_add(1, std::sync::atomic::Ordering::Relaxed) == target {
                    spoil(v, seed, n, &p);
                }
            },
        };
        match run::<M31Config, _>(&c.g, &x, h) {
            Err(_) => Ok(false),
            Ok(out) => fcompare(&c.vals, &u::<M31Config>(&out), &p2, n).map(|_| true),
        }
    };
    match once() {
        Ok(true) => o.count("altered answers accepted with right values", 1),
        Ok(false) => o.count("altered answers refused", 1),
        Err(e) => ensure!(!really(|| once().is_err()), "forged-answer", "{} program {:?}: a forged hint answer is accepted: {e}", T::NAME, c.g.ops),
    }
    o.distinct(&(T::NAME, "lies", &c.g.ops, seed));
    Ok(())
}

// ---------------------------------------------------------------- the tower
pub type El = Element<Bls12381Fp>;
pub fn g2(e: &[El]) -> GE2 {
    GE2 { a0: e[0].clone(), a1: e[1].clone() }
}
pub fn g6(e: &[El]) -> GE6 {
    GE6 { b0: g2(&e[..2]), b1: g2(&e[2..4]), b2: g2(&e[4..6]) }
}
pub fn g12(e: &[El]) -> GE12 {
    GE12 { c0: g6(&e[..6]), c1: g6(&e[6..]) }
}
pub fn u2(x: &GE2) -> Vec<El> {
    vec![x.a0.clone(), x.a1.clone()]
}
pub fn u6(x: &GE6) -> Vec<El> {
    [u2(&x.b0), u2(&x.b1), u2(&x.b2)].concat()
}
pub fn u12(x: &GE12) -> Vec<El> {
    [u6(&x.c0), u6(&x.c1)].concat()
}
pub fn q2(v: &[Fq]) -> Fq2 {
    Fq2::new(v[0], v[1])
}
pub fn q6(v: &[Fq]) -> Fq6 {
    Fq6::new(q2(&v[..2]), q2(&v[2..4]), q2(&v[4..6]))
}
pub fn q12(v: &[Fq]) -> Fq12 {
    Fq12::new(q6(&v[..6]), q6(&v[6..]))
}
pub fn v2(x: Fq2) -> Vec<Fq> {
    vec![x.c0, x.c1]
}
pub fn v6(x: Fq6) -> Vec<Fq> {
    [v2(x.c0), v2(x.c1), v2(x.c2)].concat()
}
pub fn v12(x: Fq12) -> Vec<Fq> {
    [v6(x.c0), v6(x.c1)].concat()
}
/// (name, degrees of the arguments with 0 for a bit, degree of the result, multiplications)
type Sig = (&'static str, &'static [usize], usize, usize);
const OPS: &[Sig] = &[
    ("one2", &[], 2, 0),
    ("zero2", &[], 2, 0),
    ("xi", &[], 2, 0),
    ("add2", &[2, 2], 2, 0),
    ("sub2", &[2, 2], 2, 0),
    ("double2", &[2], 2, 0),
    ("neg2", &[2], 2, 0),
    ("mul2", &[2, 2], 2, 3),
    ("mul2by1", &[2, 1], 2, 2),
    ("mul2const", &[2], 2, 0),
    ("xi2", &[2], 2, 0),
    ("square2", &[2], 2, 2),
    ("div2", &[2, 2], 2, 5),
    ("invdiv2", &[2], 2, 5),
    ("inv2", &[2], 2, 5),
    ("sel2", &[0, 2, 2], 2, 0),
    ("conj2", &[2], 2, 0),
    ("copy2", &[2], 2, 2),
    ("isz2", &[2], 0, 0),
    ("sign2", &[2], 0, 2),
    ("frob2coef1", &[2], 2, 3),
    ("frob2coef2", &[2], 2, 3),
    ("frob2coef3", &[2], 2, 3),
    ("frob2coef4", &[2], 2, 3),
    ("frob2coef5", &[2], 2, 3),
    ("frobsq2coef1", &[2], 2, 2),
    ("frobsq2coef2", &[2], 2, 2),
    ("frobsq2coef3", &[2], 2, 2),
    ("frobsq2coef4", &[2], 2, 2),
    ("frobsq2coef5", &[2], 2, 2),
    ("frobgen2", &[2], 2, 3),
    ("part1", &[2], 1, 0),
    ("join2", &[1, 1], 2, 0),
    ("one6", &[], 6, 0),
    ("add6", &[6, 6], 6, 0),
    ("sub6", &[6, 6], 6, 0),
    ("neg6", &[6], 6, 0),
    ("double6", &[6], 6, 0),
    ("square6", &[6], 6, 12),
    ("mul6", &[6, 6], 6, 18),
    ("kara6", &[6, 6], 6, 18),
    ("mul6by2", &[6, 2], 6, 9),
    ("mul6by12", &[6, 2, 2], 6, 15),
    ("mul6by0", &[6, 2], 6, 9),
    ("mul6by01", &[6, 2, 2], 6, 15),
    ("v6", &[6], 6, 0),
    ("sel6", &[0, 6, 6], 6, 0),
    ("div6", &[6, 6], 6, 24),
    ("invdiv6", &[6], 6, 24),
    ("inv6", &[6], 6, 24),
    ("by6", &[6], 6, 6),
    ("isz6", &[6], 0, 0),
    ("part2", &[6], 2, 0),
    ("join6", &[2, 2, 2], 6, 0),
    ("one12", &[], 12, 0),
    ("add12", &[12, 12], 12, 0),
    ("sub12", &[12, 12], 12, 0),
    ("conj12", &[12], 12, 0),
    ("mul12", &[12, 12], 12, 54),
    ("square12", &[12], 12, 36),
    ("div12", &[12, 12], 12, 66),
    ("inv12", &[12], 12, 66),
    ("copy12", &[12], 12, 12),
    ("sel12", &[0, 12, 12], 12, 0),
    ("isz12", &[12], 0, 0),
    ("mul12by014", &[12, 2, 2], 12, 30),
    ("mul014by014", &[2, 2, 2, 2], 12, 9),
    ("frob12", &[12], 12, 15),
    ("frobsq12", &[12], 12, 10),
    ("part6", &[12], 6, 0),
    ("join12", &[6, 6], 12, 0),
];
/// Only on elements of the cyclotomic subgroup.
const CYC: &[Sig] = &[("csquare12", &[12], 12, 18), ("csquares12", &[12], 12, 54), ("csquareshint12", &[12], 12, 80), ("expt12", &[12], 12, 3400)];
#[derive(Clone, Debug, Hash)]
struct TOp {
    sig: Sig,
    args: Vec<usize>,
    k: u64,
}
const TERMS: [&str; 3] = ["eq2", "eq6", "eq12"];
#[derive(Clone, Debug)]
struct TProg {
    /// Degrees of the inputs, 0 for a bit.
    ins: Vec<usize>,
    ops: Vec<TOp>,
}
#[derive(Clone, Debug, PartialEq)]
enum TVal {
    E(Vec<Fq>),
    B(bool),
}
enum TReg {
    E(Vec<El>),
    B(Variable),
}
fn el(x: &[Variable]) -> El {
    Element::new(x.to_vec(), 0, false, false, false, Variable::default())
}
fn six(v: Vec<El>) -> [El; 6] {
    v.try_into().map_err(|_| "six coordinates").unwrap()
}
fn top<B: RootAPI<M31Config>>(b: &mut B, e: &mut Ext12, op: &TOp, regs: &[TReg]) -> TReg {
    let r = |i: usize| match &regs[op.args[i]] {
        TReg::E(v) => v.clone(),
        _ => panic!("not an element"),
    };
    let bit = |i: usize| match &regs[op.args[i]] {
        TReg::B(v) => *v,
        _ => panic!("not a bit"),
    };
    let a2 = |i| g2(&r(i));
    let a6 = |i| g6(&r(i));
    let a12 = |i| g12(&r(i));
    macro_rules! x2 {
        ($e:expr) => {{
            let v = $e;
            TReg::E(u2(&v))
        }};
    }
    macro_rules! x6 {
        ($e:expr) => {{
            let v = $e;
            TReg::E(u6(&v))
        }};
    }
    macro_rules! x12 {
        ($e:expr) => {{
            let v = $e;
            TReg::E(u12(&v))
        }};
    }
    macro_rules! E2 {
        () => {
            e.ext6.ext2
        };
    }
    macro_rules! E6 {
        () => {
            e.ext6
        };
    }
    match op.sig.0 {
        "one2" => x2!(E2!().one()),
        "zero2" => x2!(E2!().zero()),
        "xi" => x2!(E2!().non_residue(b)),
        "add2" => x2!(E2!().add(b, &a2(0), &a2(1))),
        "sub2" => x2!(E2!().sub(b, &a2(0), &a2(1))),
        "double2" => x2!(E2!().double(b, &a2(0))),
        "neg2" => x2!(E2!().neg(b, &a2(0))),
        "mul2" => x2!(E2!().mul(b, &a2(0), &a2(1))),
        "mul2by1" => x2!(E2!().mul_by_element(b, &a2(0), &r(1)[0])),
        "mul2const" => x2!(E2!().mul_by_const_element(b, &a2(0), &BigInt::from(op.k))),
        "xi2" => x2!(E2!().mul_by_non_residue(b, &a2(0))),
        "square2" => x2!(E2!().square(b, &a2(0))),
        "div2" => x2!(E2!().div(b, &a2(0), &a2(1))),
        "invdiv2" => x2!(E2!().inverse_div(b, &a2(0))),
        "inv2" => x2!(E2!().inverse(b, &a2(0))),
        "sel2" => x2!(E2!().select(b, bit(0), &a2(1), &a2(2))),
        "conj2" => x2!(E2!().conjugate(b, &a2(0))),
        "copy2" => x2!(E2!().copy(b, &a2(0))),
        "isz2" => TReg::B(E2!().is_zero(b, &a2(0))),
        "sign2" => {
            let x = a2(0);
            let x = GE2 { a0: E2!().curve_f.reduce(b, &x.a0, true), a1: E2!().curve_f.reduce(b, &x.a1, true) };
            let z = E2!().curve_f.is_zero(b, &x.a0);
            TReg::B(E2!().get_e2_sign(b, &x, z))
        }
        "frob2coef1" => x2!(E2!().mul_by_non_residue1_power1(b, &a2(0))),
        "frob2coef2" => x2!(E2!().mul_by_non_residue1_power2(b, &a2(0))),
        "frob2coef3" => x2!(E2!().mul_by_non_residue1_power3(b, &a2(0))),
        "frob2coef4" => x2!(E2!().mul_by_non_residue1_power4(b, &a2(0))),
        "frob2coef5" => x2!(E2!().mul_by_non_residue1_power5(b, &a2(0))),
        "frobsq2coef1" => x2!(E2!().mul_by_non_residue2_power1(b, &a2(0))),
        "frobsq2coef2" => x2!(E2!().mul_by_non_residue2_power2(b, &a2(0))),
        "frobsq2coef3" => x2!(E2!().mul_by_non_residue2_power3(b, &a2(0))),
        "frobsq2coef4" => x2!(E2!().mul_by_non_residue2_power4(b, &a2(0))),
        "frobsq2coef5" => x2!(E2!().mul_by_non_residue2_power5(b, &a2(0))),
        "frobgen2" => x2!(E2!().mul_by_non_residue_generic(b, &a2(0), 1 + (op.k % 2) as u32, 1 + (op.k / 2 % 5) as u32)),
        "part1" => TReg::E(vec![r(0)[op.k as usize % 2].clone()]),
        "join2" => TReg::E([r(0), r(1)].concat()),
        "one6" => x6!(E6!().one()),
        "add6" => x6!(E6!().add(b, &a6(0), &a6(1))),
        "sub6" => x6!(E6!().sub(b, &a6(0), &a6(1))),
        "neg6" => x6!(E6!().neg(b, &a6(0))),
        "double6" => x6!(E6!().double(b, &a6(0))),
        "square6" => x6!(E6!().square(b, &a6(0))),
        "mul6" => x6!(E6!().mul(b, &a6(0), &a6(1))),
        "kara6" => x6!(E6!().mul_karatsuba_over_karatsuba(b, &a6(0), &a6(1))),
        "mul6by2" => x6!(E6!().mul_by_e2(b, &a6(0), &a2(1))),
        "mul6by12" => x6!(E6!().mul_by_12(b, &a6(0), &a2(1), &a2(2))),
        "mul6by0" => x6!(E6!().mul_by_0(b, &a6(0), &a2(1))),
        "mul6by01" => x6!(E6!().mul_by_01(b, &a6(0), &a2(1), &a2(2))),
        "v6" => x6!(E6!().mul_by_non_residue(b, &a6(0))),
        "sel6" => x6!(E6!().select(b, bit(0), &a6(1), &a6(2))),
        "div6" => x6!(E6!().div(b, &a6(0), &a6(1))),
        "invdiv6" => x6!(E6!().inverse_div(b, &a6(0))),
        "inv6" => x6!(E6!().inverse(b, &a6(0))),
        "by6" => TReg::E(E6!().div_e6_by_6(b, &six(r(0))).to_vec()),
        "isz6" => TReg::B(E6!().is_zero(b, &a6(0))),
        "part2" => {
            let k = op.k as usize % 3;
            TReg::E(r(0)[2 * k..2 * k + 2].to_vec())
        }
        "join6" => TReg::E([r(0), r(1), r(2)].concat()),
        "one12" => x12!(e.one()),
        "add12" => x12!(e.add(b, &a12(0), &a12(1))),
        "sub12" => x12!(e.sub(b, &a12(0), &a12(1))),
        "conj12" => x12!(e.conjugate(b, &a12(0))),
        "mul12" => x12!(e.mul(b, &a12(0), &a12(1))),
        "square12" => x12!(e.square(b, &a12(0))),
        "div12" => x12!(e.div(b, &a12(0), &a12(1))),
        "inv12" => x12!(e.inverse(b, &a12(0))),
        "copy12" => x12!(e.copy(b, &a12(0))),
        "sel12" => x12!(e.select(b, bit(0), &a12(1), &a12(2))),
        "isz12" => TReg::B(e.is_zero(b, &a12(0))),
        "mul12by014" => x12!(e.mul_by_014(b, &a12(0), &a2(1), &a2(2))),
        "mul014by014" => {
            let z = e.mul_014_by_014(b, &a2(0), &a2(1), &a2(2), &a2(3));
            let zero = E2!().zero();
            TReg::E([u2(&z[0]), u2(&z[1]), u2(&z[2]), u2(&zero), u2(&z[3]), u2(&z[4])].concat())
        }
        "frob12" => x12!(e.frobenius(b, &a12(0))),
        "frobsq12" => x12!(e.frobenius_square(b, &a12(0))),
        "part6" => {
            let k = op.k as usize % 2;
            TReg::E(r(0)[6 * k..6 * k + 6].to_vec())
        }
        "join12" => TReg::E([r(0), r(1)].concat()),
        "csquare12" => x12!(e.cyclotomic_square(b, &a12(0))),
        "csquares12" => x12!(e.n_square_gs(b, &a12(0), op.k as usize % 4)),
        "csquareshint12" => x12!(e.n_square_gs_with_hint(b, &a12(0), 1 + op.k as usize % 3)),
        "expt12" => x12!(e.expt(b, &a12(0))),
        "eq2" => {
            E2!().assert_isequal(b, &a2(0), &a2(1));
            TReg::E(vec![])
        }
        "eq6" => {
            E6!().assert_isequal(b, &a6(0), &a6(1));
            TReg::E(vec![])
        }
        "eq12" => {
            e.assert_isequal(b, &a12(0), &a12(1));
            TReg::E(vec![])
        }
        s => panic!("{s}"),
    }
}
pub fn xi_pow(c: usize, squared: bool) -> Fq2 {
    let p = ark_bls12_381::modulus();
    let q = if squared { &p * &p } else { p };
    let e = (q - BigUint::from(1u32)) / BigUint::from(6u32) * BigUint::from(c as u32);
    Fq2::new(Fq::one(), Fq::one()).pow(e.to_u64_digits())
}
pub fn frob(x: Fq12) -> Fq12 {
    x.pow(ark_bls12_381::modulus().to_u64_digits())
}
pub const SEED: u64 = 0xd201000000010000;
fn tval(op: &TOp, vals: &[TVal]) -> Option<TVal> {
    let r = |i: usize| match &vals[op.args[i]] {
        TVal::E(v) => v.clone(),
        _ => unreachable!(),
    };
    let bit = |i: usize| vals[op.args[i]] == TVal::B(true);
    let (a2, a6, a12) = (|i| q2(&r(i)), |i| q6(&r(i)), |i| q12(&r(i)));
    let k = op.k as usize;
    let zero = |v: &[Fq]| v.iter().all(|x| x.is_zero());
    let odd = |x: Fq| BigUint::from(x).bit(0);
    let two = Fq::from(2u32);
    let s2 = |x: Fq2, c: Fq| Fq2::new(x.c0 * c, x.c1 * c);
    Some(TVal::E(match op.sig.0 {
        "one2" => v2(Fq2::one()),
        "zero2" => v2(Fq2::zero()),
        "xi" => vec![Fq::one(), Fq::one()],
        "add2" => v2(a2(0) + a2(1)),
        "sub2" => v2(a2(0) - a2(1)),
        "double2" => v2(s2(a2(0), two)),
        "neg2" => v2(-a2(0)),
        "mul2" => v2(a2(0) * a2(1)),
        "mul2by1" => v2(s2(a2(0), r(1)[0])),
        "mul2const" => v2(s2(a2(0), Fq::from(op.k))),
        "xi2" => v2(a2(0) * Fq2::new(Fq::one(), Fq::one())),
        "square2" => v2(a2(0) * a2(0)),
        "div2" => v2(a2(0) * a2(1).inverse()?),
        "invdiv2" | "inv2" => v2(a2(0).inverse()?),
        "sel2" | "sel6" | "sel12" => r(if bit(0) { 1 } else { 2 }),
        "conj2" => vec![r(0)[0], -r(0)[1]],
        "copy2" | "copy12" => r(0),
        "isz2" | "isz6" | "isz12" => return Some(TVal::B(zero(&r(0)))),
        "sign2" => {
            let x = r(0);
            return Some(TVal::B(if x[0].is_zero() { odd(x[1]) } else { odd(x[0]) }));
        }
        "frobgen2" => v2(a2(0) * xi_pow(1 + k / 2 % 5, k % 2 == 1)),
        s if s.starts_with("frob2coef") => v2(a2(0) * xi_pow(s[9..].parse().unwrap(), false)),
        s if s.starts_with("frobsq2coef") => v2(a2(0) * xi_pow(s[11..].parse().unwrap(), true)),
        "part1" => vec![r(0)[k % 2]],
        "join2" | "join12" => [r(0), r(1)].concat(),
        "one6" => v6(Fq6::one()),
        "add6" => v6(a6(0) + a6(1)),
        "sub6" => v6(a6(0) - a6(1)),
        "neg6" => v6(-a6(0)),
        "double6" => v6(a6(0) + a6(0)),
        "square6" => v6(a6(0) * a6(0)),
        "mul6" | "kara6" => v6(a6(0) * a6(1)),
        "mul6by2" | "mul6by0" => v6(a6(0) * Fq6::new(a2(1), Fq2::zero(), Fq2::zero())),
        "mul6by12" => v6(a6(0) * Fq6::new(Fq2::zero(), a2(1), a2(2))),
        "mul6by01" => v6(a6(0) * Fq6::new(a2(1), a2(2), Fq2::zero())),
        "v6" => v6(a6(0) * Fq6::new(Fq2::zero(), Fq2::one(), Fq2::zero())),
        "div6" => v6(a6(0) * a6(1).inverse()?),
        "invdiv6" | "inv6" => v6(a6(0).inverse()?),
        "by6" => r(0).iter().map(|x| *x * Fq::from(6u32).inverse().unwrap()).collect(),
        "part2" => r(0)[2 * (k % 3)..2 * (k % 3) + 2].to_vec(),
        "join6" => [r(0), r(1), r(2)].concat(),
        "one12" => v12(Fq12::one()),
        "add12" => v12(a12(0) + a12(1)),
        "sub12" => v12(a12(0) - a12(1)),
        "conj12" => {
            let x = a12(0);
            v12(Fq12::new(x.c0, -x.c1))
        }
        "mul12" => v12(a12(0) * a12(1)),
        "square12" | "csquare12" => v12(a12(0) * a12(0)),
        "div12" => v12(a12(0) * a12(1).inverse()?),
        "inv12" => v12(a12(0).inverse()?),
        "mul12by014" => v12(a12(0) * sparse(a2(1), a2(2))),
        "mul014by014" => v12(sparse(a2(0), a2(1)) * sparse(a2(2), a2(3))),
        "frob12" => v12(frob(a12(0))),
        "frobsq12" => v12(frob(frob(a12(0)))),
        "part6" => r(0)[6 * (k % 2)..6 * (k % 2) + 6].to_vec(),
        "csquares12" => v12(a12(0).pow([1u64 << (k % 4)])),
        "csquareshint12" => v12(a12(0).pow([1u64 << (1 + k % 3)])),
        "expt12" => v12(a12(0).pow([SEED])),
        "eq2" | "eq6" | "eq12" => vec![],
        s => panic!("{s}"),
    }))
}
/// c0 + c1 v + v w
pub fn sparse(c0: Fq2, c1: Fq2) -> Fq12 {
    Fq12::new(Fq6::new(c0, c1, Fq2::zero()), Fq6::new(Fq2::zero(), Fq2::one(), Fq2::zero()))
}
pub fn cyclotomic(x: Fq12) -> Fq12 {
    let y = Fq12::new(x.c0, -x.c1) * x.inverse().unwrap();
    frob(frob(y)) * y
}
impl Gadget<M31Config> for TProg {
    fn build<B: RootAPI<M31Config>>(&self, b: &mut B, x: &[Variable]) -> Vec<Variable> {
        let mut e = Ext12::new(b);
        let mut regs = vec![];
        let mut at = 0;
        for d in &self.ins {
            if *d == 0 {
                b.assert_is_bool(x[at]);
                regs.push(TReg::B(x[at]));
                at += 1;
            } else {
                regs.push(TReg::E(x[at..at + 48 * d].chunks(48).map(el).collect()));
                at += 48 * d;
            }
        }
        for op in &self.ops {
            let v = top(b, &mut e, op, &regs);
            regs.push(v);
        }
        e.ext6.ext2.curve_f.check_mul(b);
        e.ext6.ext2.curve_f.table.final_check(b);
        let mut out = vec![];
        for r in &regs {
            match r {
                TReg::E(v) => v.iter().for_each(|e| out.extend(&e.limbs)),
                TReg::B(v) => out.push(*v),
            }
        }
        out
    }
}
pub fn fq_limbs(x: &Fq) -> Vec<u32> {
    bytes_of(&BigUint::from(*x), 48)
}
fn random_fq(r: &mut Rng) -> Fq {
    Fq::from(random_below(r, &ark_bls12_381::modulus()))
}
pub fn plain_fq(r: &mut Rng) -> Fq {
    Fq::from(BigUint::from_bytes_le(&r.bytes(56)))
}
struct TCase {
    g: TProg,
    x: Vec<u32>,
    vals: Vec<TVal>,
}
fn sort_of(v: &TVal) -> usize {
    match v {
        TVal::E(v) => v.len(),
        TVal::B(_) => 0,
    }
}
fn tgen(r: &mut Rng, budget: usize, lying: bool, cyc: bool, only: Option<&Sig>) -> TCase {
    let mut ins = vec![0, 1, 2, 2];
    for d in [6, 12] {
        if r.chance(1, 2) || only.is_some_and(|s| s.1.contains(&d)) || cyc {
            ins.push(d);
        }
    }
    ins.extend(only.map(|s| s.1.to_vec()).unwrap_or_default());
    let mut vals = vec![];
    let mut x = vec![];
    let mut is_cyc = vec![];
    for d in &ins {
        is_cyc.push(cyc && *d == 12);
        if *d == 0 {
            let v = r.chance(1, 2);
            x.push(v as u32);
            vals.push(TVal::B(v));
            continue;
        }
        let mut v: Vec<Fq> = match r.below(8) {
            0 => (0..*d).map(|_| Fq::zero()).collect(),
            1 => (0..*d).map(|i| if i == 0 { Fq::one() } else { Fq::zero() }).collect(),
            2 => (0..*d).map(|_| if r.chance(1, 2) { Fq::zero() } else { random_fq(r) }).collect(),
            _ => (0..*d).map(|_| random_fq(r)).collect(),
        };
        if cyc && *d == 12 {
            let y: Vec<Fq> = (0..12).map(|_| plain_fq(r)).collect();
            v = v12(cyclotomic(q12(&y)));
        }
        for e in &v {
            x.extend(fq_limbs(e));
        }
        vals.push(TVal::E(v));
    }
    let mut ops: Vec<TOp> = vec![];
    let mut spent = 0;
    let mut first = only;
    for _ in 0..60 {
        let sig = match first.take() {
            Some(s) => s,
            None if cyc && r.chance(1, 3) => r.pick(&CYC[..3]),
            None => r.pick(OPS),
        };
        if only.is_none() && (spent + sig.3 > budget) {
            continue;
        }
        let wants_cyc = CYC.iter().any(|s| s.0 == sig.0);
        let mut args = vec![];
        for d in sig.1 {
            let c: Vec<usize> = (0..vals.len()).filter(|i| sort_of(&vals[*i]) == *d && (!wants_cyc || is_cyc[*i])).collect();
            if c.is_empty() {
                break;
            }
            let recent = c.len().min(2);
            args.push(if r.chance(1, 2) { c[c.len() - 1 - r.below(recent)] } else { *r.pick(&c) });
        }
        if args.len() < sig.1.len() {
            continue;
        }
        let kept = match sig.0 {
            "csquare12" | "csquares12" | "csquareshint12" | "expt12" => true,
            "mul12" | "square12" | "conj12" | "copy12" | "inv12" | "div12" | "frob12" | "frobsq12" | "sel12" => {
                args.iter().zip(sig.1).all(|(a, d)| *d == 0 || is_cyc[*a])
            }
            "one12" => true,
            _ => false,
        };
        let k = r.below(1000) as u64;
        let op = TOp { sig: *sig, args, k };
        let Some(v) = tval(&op, &vals) else { continue };
        is_cyc.push(kept);
        vals.push(v);
        ops.push(op);
        spent += sig.3;
        if only.is_some() || ops.len() >= 12 {
            break;
        }
    }
    TCase { g: TProg { ins, ops }, x, vals }
}
fn tcompare(vals: &[TVal], out: &[u32]) -> Result<u64, String> {
    let p = ark_bls12_381::modulus();
    let (mut at, mut seen) = (0, 0);
    for (i, v) in vals.iter().enumerate() {
        match v {
            TVal::B(v) => {
                if out[at] != *v as u32 {
                    return Err(format!("register {i} is {} instead of {}", out[at], *v as u32));
                }
                at += 1;
                seen += 1;
            }
            TVal::E(v) => {
                for (j, e) in v.iter().enumerate() {
                    let l = &out[at..at + 48];
                    at += 48;
                    let got = recompose(l, &p);
                    if l.iter().any(|x| *x >= 1 << 29) || got != BigUint::from(*e) {
                        return Err(format!("coordinate {j} of register {i} is {got} instead of {e}"));
                    }
                    seen += 1;
                }
            }
        }
    }
    assert_eq!(at, out.len());
    Ok(seen)
}
fn tower_check(c: &TCase, o: &mut Obs) -> CaseResult {
    let out = run::<M31Config, _>(&c.g, &m31s(&c.x), m31_hints())
        .map_err(|e| viol!("refused", "tower program {:?} on {:?} fails: {e}", c.g.ops, &c.vals[..c.g.ins.len()]))?;
    let k = tcompare(&c.vals, &u::<M31Config>(&out)).map_err(|e| viol!("wrong-value", "tower program {:?} on {:?}: {e}", c.g.ops, &c.vals[..c.g.ins.len()]))?;
    o.count("tower coordinates compared", k);
    for op in &c.g.ops {
        o.count(op.sig.0, 1);
    }
    o.distinct(&(&c.g.ops, &c.x));
    if o.wants_sample() {
        o.sample(json!({"operations": c.g.ops.iter().map(|o| format!("{} {:?}", o.sig.0, o.args)).collect::<Vec<_>>()}));
    }
    Ok(())
}
/// Two elements asserted equal: accepted exactly when they are.
fn tower_equal(r: &mut Rng, o: &mut Obs) -> CaseResult {
    let p = ark_bls12_381::modulus();
    let cap = BigUint::from(1u32) << 381usize;
    let d = *r.pick(&[2usize, 6, 12]);
    let a: Vec<Fq> = (0..d).map(|_| random_fq(r)).collect();
    let mut b = a.clone();
    let same = r.chance(1, 3);
    if !same {
        let i = r.below(d);
        b[i] = match r.below(4) {
            0 => a[i] + Fq::one(),
            1 => -a[i],
            2 => a[i] + Fq::from(BigUint::from(1u32) << (8 * r.below(47))),
            _ => random_fq(r),
        };
    }
    let same = a == b;
    let mut x: Vec<u32> = vec![];
    for e in a.iter().chain(&b) {
        let v = BigUint::from(*e);
        let raw = if r.chance(1, 4) && &v + &p < cap { &v + &p } else { v };
        x.extend(bytes_of(&raw, 48));
    }
    let name = TERMS[[2, 6, 12].iter().position(|k| *k == d).unwrap()];
    let sig: Sig = (name, &[], 0, 0);
    let g = TProg { ins: vec![d, d], ops: vec![TOp { sig, args: vec![0, 1], k: 0 }] };
    let x = m31s(&x);
    if same {
        run::<M31Config, _>(&g, &x, m31_hints()).map_err(|e| viol!("refused", "{a:?} = {b:?} is refused: {e}"))?;
        o.count("true equalities accepted", 1);
    } else {
        ensure!(!really(|| run::<M31Config, _>(&g, &x, m31_hints()).is_ok()), "false-equality", "degree {d}: {a:?} = {b:?} is accepted");
        o.count("false equalities refused", 1);
    }
    o.distinct(&(a.iter().map(|x| x.to_string()).collect::<Vec<_>>(), b.iter().map(|x| x.to_string()).collect::<Vec<_>>()));
    Ok(())
}
const TOWER_HINTS: [&str; 8] = [
    "myhint.dive2hint",
    "myhint.inversee2hint",
    "myhint.copye2hint",
    "myhint.dive6hint",
    "myhint.inversee6hint",
    "myhint.dive6by6hint",
    "myhint.dive12hint",
    "myhint.inversee12hint",
];
const HINTED: [&str; 12] =
    ["div2", "invdiv2", "inv2", "copy2", "div6", "invdiv6", "inv6", "by6", "div12", "inv12", "copy12", "csquareshint12"];
fn tower_lies(r: &mut Rng, o: &mut Obs) -> CaseResult {
    let name = *r.pick(&HINTED);
    let sig = *OPS.iter().chain(CYC).find(|s| s.0 == name).unwrap();
    let cyc = name == "csquareshint12";
    let c = tgen(r, 100, true, cyc, Some(&sig));
    if c.g.ops.len() != 1 {
        return Ok(());
    }
    let seed = r.u64();
    let x = m31s(&c.x);
    let p = ark_bls12_381::modulus();
    let mul = hint_key_to_id("myhint.mulhint");
    let mine: Vec<usize> = TOWER_HINTS.iter().chain(&["myhint.copye12hint"]).map(|k| hint_key_to_id(k)).collect();
    let once = || {
        let (p, mine) = (p.clone(), mine.clone());
        let h = Lying {
            inner: m31_hints(),
            lie: move |id: usize, _: &[M31], v: &mut Vec<M31>| {
                if id != mul && mine.contains(&id) {
                    spoil(v, seed, 48, &p);
                }
            },
        };
        match run::<M31Config, _>(&c.g, &x, h) {
            Err(_) => Ok(false),
            Ok(out) => tcompare(&c.vals, &u::<M31Config>(&out)).map(|_| true),
        }
    };
    match once() {
        Ok(true) => o.count("altered answers accepted with right values", 1),
        Ok(false) => o.count("altered answers refused", 1),
        Err(e) => ensure!(!really(|| once().is_err()), "forged-answer", "{name}: a forged hint answer is accepted: {e}"),
    }
    o.distinct(&(name, seed));
    Ok(())
}
/// Inverses and quotients by zero have no answer, whatever the hints say.
fn tower_zero(r: &mut Rng, o: &mut Obs) -> CaseResult {
    let name = *r.pick(&["div2", "invdiv2", "inv2", "div6", "invdiv6", "inv6", "div12", "inv12"]);
    let sig = *OPS.iter().find(|s| s.0 == name).unwrap();
    let d = sig.2;
    let mut x: Vec<u32> = vec![];
    if sig.1.len() == 2 {
        for _ in 0..d {
            x.extend(fq_limbs(&plain_fq(r)));
        }
    }
    x.extend(vec![0; 48 * d]);
    let g = TProg { ins: sig.1.to_vec(), ops: vec![TOp { sig, args: (0..sig.1.len()).collect(), k: 0 }] };
    let (seed, p) = (r.u64(), ark_bls12_381::modulus());
    let x = m31s(&x);
    let once = || {
        let p = p.clone();
        let h = Lying {
            inner: m31_hints(),
            lie: move |id: usize, _: &[M31], v: &mut Vec<M31>| {
                if TOWER_HINTS.iter().any(|k| id == hint_key_to_id(k)) {
                    spoil(v, seed, 48, &p);
                }
            },
        };
        run::<M31Config, _>(&g, &x, h).is_ok()
    };
    ensure!(!really(once), "division-by-zero", "{name} by zero is accepted");
    o.count("divisions by zero refused", 1);
    o.distinct(&(name, seed));
    Ok(())
}

// ---------------------------------------------------------------- hashing to the field
#[derive(Clone)]
struct HashFp(usize);
impl Gadget<M31Config> for HashFp {
    fn build<B: RootAPI<M31Config>>(&self, b: &mut B, x: &[Variable]) -> Vec<Variable> {
        let mut f = GField::new(b, Bls12381Fp {});
        let v = f.hash_to_fp(b, x, self.0);
        f.check_mul(b);
        f.table.final_check(b);
        v.iter().flat_map(|e| e.limbs.clone()).collect()
    }
}
pub const DST: &[u8] = b"BLS_SIG_BLS12381G2_XMD:SHA-256_SSWU_RO_POP_";
/// RFC 9380, expand_message_xmd with SHA-256.
pub fn expand(msg: &[u8], dst: &[u8], len: usize) -> Vec<u8> {
    use sha2::{Digest, Sha256};
    let sha = |m: &[u8]| Sha256::digest(m).to_vec();
    let tail = [dst, &[dst.len() as u8]].concat();
    let b0 = sha(&[&[0u8; 64][..], msg, &(len as u16).to_be_bytes(), &[0], &tail].concat());
    let mut bi = sha(&[&b0[..], &[1], &tail].concat());
    let mut out = bi.clone();
    let mut i = 2u8;
    while out.len() < len {
        let x: Vec<u8> = b0.iter().zip(&bi).map(|(a, b)| a ^ b).collect();
        bi = sha(&[&x[..], &[i], &tail].concat());
        out.extend(&bi);
        i += 1;
    }
    out.truncate(len);
    out
}
pub fn hash_to_fp(msg: &[u8], count: usize) -> Vec<Fq> {
    expand(msg, DST, 64 * count).chunks(64).map(|c| Fq::from(BigUint::from_bytes_be(c))).collect()
}
fn hash_case(r: &mut Rng, o: &mut Obs) -> CaseResult {
    let n = *r.pick(&[32usize, 32, 1, 10, 31, 33, 55, 56, 64]);
    let msg = r.bytes(n);
    let count = r.range(1, 4);
    let x: Vec<u32> = msg.iter().map(|b| *b as u32).collect();
    let out = run::<M31Config, _>(&HashFp(count), &m31s(&x), m31_hints()).map_err(|e| viol!("hash-refused", "hashing {msg:?} to {count} elements fails: {e}"))?;
    let out = u::<M31Config>(&out);
    let want = hash_to_fp(&msg, count);
    ensure!(out.len() == 48 * count, "hash-length", "{count} elements in {} limbs", out.len());
    for (i, (l, w)) in out.chunks(48).zip(&want).enumerate() {
        ensure!(l == fq_limbs(w), "hash-value", "element {i} of {count} hashed from {msg:?} has the limbs {l:?}, which are not those of {w}");
    }
    o.count("hashed elements compared", count as u64);
    o.distinct(&(count, &msg));
    Ok(())
}

// ---------------------------------------------------------------- compiled
#[derive(Clone)]
struct Last(TProg, usize);
impl Gadget<M31Config> for Last {
    fn build<B: RootAPI<M31Config>>(&self, b: &mut B, x: &[Variable]) -> Vec<Variable> {
        let v = self.0.build(b, x);
        v[v.len() - self.1..].to_vec()
    }
}
fn compiled_case(r: &mut Rng, o: &mut Obs) -> CaseResult {
    let name = *r.pick(&["mul2", "div2", "inv2", "copy2", "square2", "sub2", "frob2coef2", "sel2", "by6"]);
    let sig = *OPS.iter().find(|s| s.0 == name).unwrap();
    let ins = sig.1.to_vec();
    let g = TProg { ins: ins.clone(), ops: vec![TOp { sig, args: (0..ins.len()).collect(), k: 0 }] };
    let width = 48 * sig.2;
    let total = ins.iter().map(|d| if *d == 0 { 1 } else { 48 * d }).sum();
    let c = build::<M31Config, _>(&Last(g.clone(), width), total, width).map_err(|e| viol!("compile", "{name} does not compile: {e}"))?;
    o.count("operations compiled", 1);
    for _ in 0..2 {
        let vals: Vec<TVal> = ins.iter().map(|d| if *d == 0 { TVal::B(r.chance(1, 2)) } else { TVal::E((0..*d).map(|_| plain_fq(r)).collect()) }).collect();
        let x: Vec<u32> = vals
            .iter()
            .flat_map(|v| match v {
                TVal::B(v) => vec![*v as u32],
                TVal::E(v) => v.iter().flat_map(fq_limbs).collect(),
            })
            .collect();
        let x = m31s(&x);
        let full = run::<M31Config, _>(&g, &x, m31_hints()).map_err(|e| viol!("refused", "{name} fails: {e}"))?;
        let y = full[full.len() - width..].to_vec();
        let Some(TVal::E(want)) = tval(&g.ops[0], &vals) else { unreachable!() };
        for (l, w) in u::<M31Config>(&y).chunks(48).zip(&want) {
            ensure!(recompose(l, &ark_bls12_381::modulus()) == BigUint::from(*w), "wrong-value", "{name}: not {w}");
        }
        let ok = c.accepts(&x, &y, &m31_hints()).map_err(|e| viol!("compiled-panics", "{name}: {e}"))?;
        ensure!(ok, "compiled-refuses", "the compiled {name} refuses the right result");
        let mut z = y.clone();
        let i = r.below(z.len());
        z[i] += M31::from(1 + r.below(3) as u32);
        let bad = really(|| c.accepts(&x, &z, &m31_hints()).unwrap_or(false));
        ensure!(!bad, "compiled-accepts", "the compiled {name} accepts a wrong result");
        o.count("compiled claims decided", 2);
    }
    o.distinct(&(name, r.u64()));
    Ok(())
}
/// Carries that make a b = k p + r, if there are any, for the given quotient and remainder limbs;
/// all but the last coefficient agree in any case.
fn recarry(args: &[u64], v: &mut [M31]) {
    const Q: u64 = (1 << 31) - 1;
    let (nl, na, nk) = (args[1] as usize, args[2] as usize, args[3] as usize);
    let (pl, rest) = args[4..].split_at(nl);
    let (al, bl) = rest.split_at(na);
    let k: Vec<u64> = limbs(&v[..nk]).iter().map(|v| *v as u64).collect();
    let r: Vec<u64> = limbs(&v[nk..nk + nl]).iter().map(|v| *v as u64).collect();
    let nc = v.len() - nk - nl;
    let mut d = vec![0i64; nc + 1 + nl];
    for (i, x) in al.iter().enumerate() {
        for (j, y) in bl.iter().enumerate() {
            d[i + j] += (x * y) as i64;
        }
    }
    for (i, x) in pl.iter().enumerate() {
        for (j, y) in k.iter().enumerate() {
            d[i + j] -= (x * y) as i64;
        }
    }
    for (i, x) in r.iter().enumerate() {
        d[i] -= *x as i64;
    }
    // d = c (256 - X) in the native field
    let inv = 1u64 << 23;
    let mut c = 0u64;
    for i in 0..nc {
        let t = (d[i].rem_euclid(Q as i64) as u64 + c) % Q;
        c = t * inv % Q;
        v[nk + nl + i] = M31::from(c as u32);
    }
}
/// Altered answers of the multiplication hint: accepted only with the right product.
fn products_case<T: Params>(r: &mut Rng, o: &mut Obs) -> CaseResult {
    const Q: u32 = (1 << 31) - 1;
    let (p, n) = (modulus::<T>(), T::nb_limbs() as usize);
    let vals: Vec<BigUint> = (0..2).map(|_| random_below(r, &p)).collect();
    let x = m31s(&[bytes_of(&vals[0], n), bytes_of(&vals[1], n)].concat());
    let mut ops = vec![FOp::Mul(0, 1), FOp::Mul(1, 1), FOp::Mul(2, 3)];
    let mut all: Vec<FVal> = vals.iter().map(|v| FVal::E(v.clone())).collect();
    if r.chance(1, 3) {
        // a product of sums: more quotient limbs
        ops[2] = FOp::Add(2, 3);
        ops.push(FOp::Mul(4, 4));
    }
    if r.chance(1, 2) {
        // these must not depend on the representative
        let last = 1 + ops.len();
        ops.push(FOp::Sign(last));
        ops.push(FOp::IsZero(last));
    }
    for op in &ops {
        let v = fval(op, &all, &p).unwrap();
        all.push(v);
    }
    let muls = ops.iter().filter(|o| matches!(o, FOp::Mul(..))).count();
    let target = r.below(muls);
    let kind = r.below(7);
    let seed = r.u64();
    let g = FProg::<T> { fields: 2, bits: 0, ops, _t: PhantomData };
    let altered = std::sync::Arc::new(std::sync::atomic::AtomicBool::new(false));
    let once = || {
        let seen = std::sync::atomic::AtomicUsize::new(0);
        let (altered, p2) = (altered.clone(), p.clone());
        let h = Lying {
            inner: m31_hints(),
            lie: move |id: usize, args: &[M31], v: &mut Vec<M31>| {
                if id != hint_key_to_id("myhint.mulhint") {
                    return;
                }
                if seen.fetch_add(1, std::sync::atomic::Ordering::Relaxed) != target {
                    return;
                }
                let args: Vec<u64> = limbs(args).iter().map(|v| *v as u64).collect();
                let (nl, nk) = (args[1] as usize, args[3] as usize);
                let mut q = Rng::new(seed);
                let old = v.clone();
                match kind {
                    0 => spoil(&mut v[nk..nk + nl], seed, n, &p2),
                    1 if nk > 0 => {
                        let i = q.below(nk);
                        v[i] += M31::from(1 + q.below(255) as u32);
                    }
                    2 => {
                        let i = nk + nl + q.below(v.len() - nk - nl);
                        v[i] += M31::from(1 + q.below(1000) as u32);
                    }
                    3 => {
                        // k - 1 and r + p: the same product
                        let k = limbs(&v[..nk]).iter().rev().fold(BigUint::from(0u32), |s, l| (s << 8usize) + BigUint::from(*l));
                        let rem = recompose(&limbs(&v[nk..nk + nl]), &p2) + &p2;
                        if k > BigUint::from(0u32) && rem < (BigUint::from(1u32) << (8 * n)) {
                            v[..nk].copy_from_slice(&m31s(&bytes_of(&(k - BigUint::from(1u32)), nk)));
                            v[nk..nk + nl].copy_from_slice(&m31s(&bytes_of(&rem, nl)));
                            recarry(&args, v);
                        }
                    }
                    4 => {
                        // the same remainder in oversized limbs
                        let i = nk + q.below(nl - 1);
                        v[i] += M31::from(256u32);
                        v[i + 1] -= M31::from(1u32);
                        recarry(&args, v);
                    }
                    _ => {
                        // another remainder or quotient, with the best possible carries
                        if q.chance(1, 2) || nk == 0 {
                            spoil(&mut v[nk..nk + nl], seed, n, &p2);
                        } else {
                            let i = q.below(nk);
                            v[i] = M31::from(q.below(256) as u32);
                        }
                        // a multiple of 2^31 - 1 is the subject of the stage on wrapping carries
                        let m = |w: &[M31]| -> BigUint {
                            let k = limbs(&w[..nk]).iter().rev().fold(BigUint::from(0u32), |s, l| (s << 8usize) + BigUint::from(*l));
                            let l = limbs(&w[nk..nk + nl]).iter().rev().fold(BigUint::from(0u32), |s, l| (s << 8usize) + BigUint::from(*l));
                            (k * &p2 + l) % BigUint::from(Q)
                        };
                        if m(v) == m(&old) {
                            *v = old.clone();
                        } else {
                            recarry(&args, v);
                        }
                    }
                }
                altered.store(*v != old, std::sync::atomic::Ordering::Relaxed);
            },
        };
        match run::<M31Config, _>(&g, &x, h) {
            Err(_) => Ok(false),
            Ok(out) => fcompare(&all, &u::<M31Config>(&out), &p, n).map(|_| true),
        }
    };
    let got = once();
    let was = altered.load(std::sync::atomic::Ordering::Relaxed);
    match got {
        Ok(true) if was => o.count("altered products accepted with right values", 1),
        Ok(true) => o.count("products left alone", 1),
        Ok(false) => {
            ensure!(was, "refused", "{} program {:?} on {:?} is refused", T::NAME, g.ops, vals);
            o.count("altered products refused", 1)
        }
        Err(e) => ensure!(!really(|| once().is_err()), "forged-product", "{} program {:?} on {:?}: a forged product (alteration {kind}) is accepted: {e}", T::NAME, g.ops, vals),
    }
    o.distinct(&(T::NAME, "products", kind, &g.ops, seed));
    Ok(())
}
/// The carries of a product are not range-checked: a remainder off by a multiple of 2^31 - 1 is
/// accepted with carries that wrap around in the native field.
fn carries_case(r: &mut Rng, o: &mut Obs) -> CaseResult {
    const Q: u64 = (1 << 31) - 1;
    let (p, n) = (modulus::<Bls12381Fp>(), 48);
    let (a, b) = (BigUint::from_bytes_le(&r.bytes(56)) % &p, BigUint::from_bytes_le(&r.bytes(56)) % &p);
    let want = &a * &b % &p;
    let by = BigUint::from(Q) * BigUint::from(1 + r.below(1000) as u32);
    let wrong = &want + &by;
    if wrong >= p {
        return Ok(());
    }
    let x = m31s(&[bytes_of(&a, n), bytes_of(&b, n)].concat());
    let g = FProg::<Bls12381Fp> { fields: 2, bits: 0, ops: vec![FOp::Mul(0, 1)], _t: PhantomData };
    let r8: Vec<u64> = bytes_of(&wrong, n).iter().map(|v| *v as u64).collect();
    let once = || {
        let r8 = r8.clone();
        let h = Lying {
            inner: m31_hints(),
            lie: move |id: usize, args: &[M31], v: &mut Vec<M31>| {
                if id != hint_key_to_id("myhint.mulhint") {
                    return;
                }
                let args: Vec<u64> = limbs(args).iter().map(|v| *v as u64).collect();
                let nk = args[3] as usize;
                for (i, x) in r8.iter().enumerate() {
                    v[nk + i] = M31::from(*x as u32);
                }
                recarry(&args, v);
            },
        };
        run::<M31Config, _>(&g, &x, h).ok().map(|out| recompose(&u::<M31Config>(&out)[2 * n..], &p))
    };
    let got = once();
    o.count("products with wrapping carries", 1);
    if let Some(v) = got {
        ensure!(v == want || !really(|| once().is_some()), "emulated-carries", "{a} * {b} = {v} is accepted, off by {by}");
    }
    Ok(())
}
pub fn l07(d: &mut Driver) {
    d.cases("wrapping carries", d.n(4, 40), carries_case);
    d.cases("field programs", d.n(1500, 30000), |r, o| if r.chance(2, 3) { field_case::<Bls12381Fp>(r, o) } else { field_case::<Bls12381Fr>(r, o) });
    d.cases("false equalities", d.n(400, 8000), |r, o| if r.chance(2, 3) { field_false::<Bls12381Fp>(r, o) } else { field_false::<Bls12381Fr>(r, o) });
    d.cases("impossible", d.n(400, 8000), |r, o| if r.chance(2, 3) { field_refuse::<Bls12381Fp>(r, o) } else { field_refuse::<Bls12381Fr>(r, o) });
    d.cases("forged answers", d.n(1500, 20000), |r, o| if r.chance(2, 3) { field_lies::<Bls12381Fp>(r, o) } else { field_lies::<Bls12381Fr>(r, o) });
    d.cases("forged products", d.n(1000, 15000), |r, o| if r.chance(2, 3) { products_case::<Bls12381Fp>(r, o) } else { products_case::<Bls12381Fr>(r, o) });
    let all = OPS.len() as u64;
    d.cases("each tower operation", d.n(5 * all, 30 * all), |r, o| {
        let s = *r.pick(OPS);
        tower_check(&tgen(r, 100, false, false, Some(&s)), o)
    });
    d.cases("tower programs", d.n(300, 5000), |r, o| tower_check(&tgen(r, 120, false, false, None), o));
    d.cases("cyclotomic programs", d.n(60, 1000), |r, o| tower_check(&tgen(r, 160, false, true, None), o));
    d.cases("powers of the curve parameter", d.n(3, 60), |r, o| tower_check(&tgen(r, 100, false, true, Some(&CYC[3])), o));
    d.cases("equalities", d.n(300, 5000), tower_equal);
    d.cases("forged tower answers", d.n(500, 6000), tower_lies);
    d.cases("tower divisions by zero", d.n(40, 600), tower_zero);
    d.cases("hashing", d.n(30, 400), hash_case);
    d.cases("compiled operations", d.n(12, 150), compiled_case);
}
