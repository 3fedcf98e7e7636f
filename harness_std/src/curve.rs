//! Points of BLS12-381 in circuits (group operations, maps to the curve, encodings, memberships,
//! pairing products) against affine arithmetic from the definitions.
use crate::arithm::m31_hints;
use crate::emu::*;
use crate::gad::*;
use crate::isogeny::*;
use crate::lookup::really;
use ark_bls12_381::{Fq, Fq2};
use ark_ff::{Field as _, One, Zero};
use circuit_std_rs::gnark::element::Element;
use circuit_std_rs::gnark::emparam::Bls12381Fp;
use circuit_std_rs::gnark::emulated::field_bls12381::e2::CurveF;
use circuit_std_rs::gnark::emulated::sw_bls12381::g1::{G1Affine, G1};
use circuit_std_rs::gnark::emulated::sw_bls12381::g2::{G2AffP, G2Affine, LineEvaluations, G2};
use circuit_std_rs::gnark::emulated::sw_bls12381::pairing::Pairing;
use circuit_std_rs::gnark::emulated::sw_bls12381::point::AffinePoint;
use expander_compiler::field::M31;
use expander_compiler::frontend::*;
use expander_compiler::hints::registry::hint_key_to_id;
use num_bigint::{BigInt, BigUint};
use serde_json::json;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::Arc;
use vpc::*;

// ---------------------------------------------------------------- reference
pub trait Fld: ark_ff::Field + std::ops::Sub<Output = Self> + std::ops::Neg<Output = Self> + std::fmt::Debug + std::hash::Hash + 'static {
    const DEG: usize;
    fn of(v: &[Fq]) -> Self;
    fn parts(self) -> Vec<Fq>;
    fn sgn0(self) -> bool;
    /// y > -y, in the order of encodings
    fn large(self) -> bool;
    /// of the curve
    fn b() -> Self;
    /// of the isogenous curve y^2 = x^3 + A x + B, and Z
    fn sswu() -> [Self; 3];
    fn iso() -> [Vec<Self>; 4];
    fn h_eff() -> BigUint;
}
fn dec(s: &str) -> Fq {
    let v: BigInt = s.parse().unwrap();
    let p = BigInt::from(ark_bls12_381::modulus());
    Fq::from((((v % &p) + &p) % &p).to_biguint().unwrap())
}
fn small(x: Fq) -> bool {
    let v = BigUint::from(x);
    &v + &v < ark_bls12_381::modulus()
}
pub const X: u64 = 0xd201000000010000;
impl Fld for Fq {
    const DEG: usize = 1;
    fn of(v: &[Fq]) -> Self {
        v[0]
    }
    fn parts(self) -> Vec<Fq> {
        vec![self]
    }
    fn sgn0(self) -> bool {
        BigUint::from(self).bit(0)
    }
    fn large(self) -> bool {
        !self.is_zero() && !small(self)
    }
    fn b() -> Self {
        Fq::from(4u32)
    }
    fn sswu() -> [Self; 3] {
        [
            dec("12190336318893619529228877361869031420615612348429846051986726275283378313155663745811710833465465981901188123677"),
            dec("2906670324641927570491258158026293881577086121416628140204402091718288198173574630967936031029026176254968826637280"),
            Fq::from(11u32),
        ]
    }
    fn iso() -> [Vec<Self>; 4] {
        [X1_NUM, X1_DEN, Y1_NUM, Y1_DEN].map(|v| v.iter().map(|s| dec(s)).collect())
    }
    fn h_eff() -> BigUint {
        BigUint::from(X) + 1u32
    }
}
impl Fld for Fq2 {
    const DEG: usize = 2;
    fn of(v: &[Fq]) -> Self {
        Fq2::new(v[0], v[1])
    }
    fn parts(self) -> Vec<Fq> {
        vec![self.c0, self.c1]
    }
    fn sgn0(self) -> bool {
        self.c0.sgn0() || self.c0.is_zero() && self.c1.sgn0()
    }
    fn large(self) -> bool {
        if self.c1.is_zero() {
            self.c0.large()
        } else {
            self.c1.large()
        }
    }
    fn b() -> Self {
        Fq2::new(Fq::from(4u32), Fq::from(4u32))
    }
    fn sswu() -> [Self; 3] {
        let c = Fq::from(1012u32);
        [Fq2::new(Fq::zero(), Fq::from(240u32)), Fq2::new(c, c), -Fq2::new(Fq::from(2u32), Fq::one())]
    }
    fn iso() -> [Vec<Self>; 4] {
        [X2_NUM, X2_DEN, Y2_NUM, Y2_DEN].map(|v| v.iter().map(|s| Fq2::new(dec(s[0]), dec(s[1]))).collect())
    }
    fn h_eff() -> BigUint {
        // 3 (x^2 - 1) h, with the cofactor h as a polynomial in x = -X
        let x = -BigInt::from(X);
        let mut h = BigInt::from(0);
        for c in [1, -4, 5, 0, -4, 6, -4, -4, 13] {
            h = h * &x + BigInt::from(c);
        }
        let h = h / BigInt::from(9) * (&x * &x - BigInt::from(1)) * BigInt::from(3);
        h.to_biguint().unwrap()
    }
}
pub type Pt<F> = (F, F);
fn on<F: Fld>(p: Pt<F>) -> bool {
    p.1 * p.1 == p.0 * p.0 * p.0 + F::b()
}
fn neg<F: Fld>(p: Pt<F>) -> Pt<F> {
    (p.0, -p.1)
}
fn line<F: Fld>(p: Pt<F>, q: Pt<F>, l: F) -> Pt<F> {
    let x = l * l - p.0 - q.0;
    (x, l * (p.0 - x) - p.1)
}
/// The chord, for points with different x.
fn chord<F: Fld>(p: Pt<F>, q: Pt<F>) -> Option<Pt<F>> {
    Some(line(p, q, (q.1 - p.1) * (q.0 - p.0).inverse()?))
}
/// The tangent of a curve with the given A.
fn tangent<F: Fld>(p: Pt<F>, a: F) -> Option<Pt<F>> {
    let t = p.0 * p.0;
    Some(line(p, p, (t + t + t + a) * (p.1 + p.1).inverse()?))
}
fn double<F: Fld>(p: Pt<F>) -> Option<Pt<F>> {
    tangent(p, F::zero())
}
/// `None` is the point at infinity.
fn plus<F: Fld>(p: Option<Pt<F>>, q: Option<Pt<F>>, a: F) -> Option<Pt<F>> {
    match (p, q) {
        (None, q) => q,
        (p, None) => p,
        (Some(p), Some(q)) if p.0 == q.0 => {
            if p.1 == q.1 {
                tangent(p, a)
            } else {
                None
            }
        }
        (Some(p), Some(q)) => chord(p, q),
    }
}
pub fn times<F: Fld>(k: &BigUint, p: Pt<F>) -> Option<Pt<F>> {
    let mut r = None;
    for i in (0..k.bits()).rev() {
        r = plus(r, r, F::zero());
        if k.bit(i) {
            r = plus(r, Some(p), F::zero());
        }
    }
    r
}
pub fn order() -> BigUint {
    BigUint::parse_bytes(b"73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff00000001", 16).unwrap()
}
fn poly<F: Fld>(c: &[F], x: F, monic: bool) -> F {
    let mut r = if monic { F::one() } else { F::zero() };
    for v in c.iter().rev() {
        r = r * x + *v;
    }
    r
}
fn isogeny<F: Fld>(p: Pt<F>) -> Option<Pt<F>> {
    let [xn, xd, yn, yd] = F::iso();
    Some((
        poly(&xn, p.0, false) * poly(&xd, p.0, true).inverse()?,
        p.1 * poly(&yn, p.0, false) * poly(&yd, p.0, true).inverse()?,
    ))
}
/// The simplified map of Shallue, van de Woestijne and Ulas.
fn sswu<F: Fld>(u: F) -> Pt<F> {
    let [a, b, z] = F::sswu();
    let zu = z * u * u;
    let t = zu * zu + zu;
    let x1 = match t.inverse() {
        Some(i) => -b * a.inverse().unwrap() * (F::one() + i),
        None => b * (z * a).inverse().unwrap(),
    };
    let g = |x: F| x * x * x + a * x + b;
    let (x, y) = match g(x1).sqrt() {
        Some(y) => (x1, y),
        None => (zu * x1, g(zu * x1).sqrt().unwrap()),
    };
    (x, if y.sgn0() == u.sgn0() { y } else { -y })
}
fn map_to<F: Fld>(u: F, v: F) -> Option<Pt<F>> {
    times(&F::h_eff(), isogeny(chord(sswu(u), sswu(v))?)?)
}
fn random_fld<F: Fld>(r: &mut Rng) -> F {
    F::of(&(0..F::DEG).map(|_| plain_fq(r)).collect::<Vec<_>>())
}
/// Any point of the curve, not only of the subgroup.
pub fn random_point<F: Fld>(r: &mut Rng) -> Pt<F> {
    loop {
        let x: F = if r.chance(1, 8) { F::of(&(0..F::DEG).map(|_| Fq::from(r.below(50) as u32)).collect::<Vec<_>>()) } else { random_fld(r) };
        if let Some(y) = (x * x * x + F::b()).sqrt() {
            if !y.is_zero() {
                return (x, if r.chance(1, 2) { y } else { -y });
            }
        }
    }
}
fn power<F: Fld>(x: F, e: &BigUint) -> F {
    let mut y = F::one();
    for i in (0..e.bits()).rev() {
        y = y * y;
        if e.bit(i) {
            y = y * x;
        }
    }
    y
}
fn cube_root<F: Fld>(c: F) -> Option<F> {
    let q = ark_bls12_381::modulus().pow(F::DEG as u32);
    let three = BigUint::from(3u32);
    let one = BigUint::from(1u32);
    // q - 1 = 3^s t
    let (mut t, mut s) = (&q - &one, 0);
    while (&t % &three).is_zero() {
        t = t / &three;
        s += 1;
    }
    let inv = if (&t % &three) == one { (&t + &t + &one) / &three } else { (&t + &one) / &three };
    let mut x = power(c, &inv);
    let z = (2u32..).map(|k| F::of(&(0..F::DEG).map(|i| Fq::from(k + i as u32)).collect::<Vec<_>>())).find(|g| power(*g, &((&q - &one) / &three)) != F::one()).unwrap();
    let z = power(z, &t);
    for _ in 0..3u32.pow(s) {
        if x * x * x == c {
            return Some(x);
        }
        x = x * z;
    }
    None
}
/// Points with coordinates that are zero, small, or of the base field.
fn special_point<F: Fld>(r: &mut Rng) -> Pt<F> {
    if F::DEG == 1 && r.chance(1, 2) {
        let y = F::b().sqrt().unwrap();
        return (F::zero(), if r.chance(1, 2) { y } else { -y });
    }
    loop {
        let mut v: Vec<Fq> = (0..F::DEG).map(|_| if r.chance(1, 4) { Fq::from(r.below(20) as u32) } else { plain_fq(r) }).collect();
        if F::DEG == 2 && r.chance(3, 4) {
            v[r.below(2)] = Fq::zero();
        }
        let y = F::of(&v);
        if let Some(x) = cube_root(y * y - F::b()) {
            return (x, y);
        }
    }
}
pub fn subgroup_point<F: Fld>(r: &mut Rng) -> Pt<F> {
    loop {
        if let Some(p) = times(&F::h_eff(), random_point::<F>(r)) {
            return p;
        }
    }
}
fn conj(x: Fq2) -> Fq2 {
    Fq2::new(x.c0, -x.c1)
}
/// The endomorphism of the twist that comes from the Frobenius map.
fn psi(p: Pt<Fq2>) -> Pt<Fq2> {
    let xi = Fq2::new(Fq::one(), Fq::one());
    let e = |k: u32| xi.pow(((ark_bls12_381::modulus() - 1u32) / k).to_u64_digits()).inverse().unwrap();
    (conj(p.0) * e(3), conj(p.1) * e(2))
}
/// The endomorphism (w x, y) that acts as x^2 - 1 on the subgroup.
fn phi(p: Pt<Fq>) -> Pt<Fq> {
    let g = subgroup_generator();
    let m = times(&(BigUint::from(X) * BigUint::from(X)), g).unwrap();
    let w = m.0 * g.0.inverse().unwrap();
    (p.0 * w * w, p.1)
}
fn subgroup_generator() -> Pt<Fq> {
    (
        dec("3685416753713387016781088315183077757961620795782546409894578378688607592378376318836054947676345821548104185464507"),
        dec("1339506544944476473020471379941921221584933875938349620426543736416511423956333506472724655353366534992391756441569"),
    )
}
fn coords<F: Fld>(p: Pt<F>) -> Vec<Fq> {
    [p.0.parts(), p.1.parts()].concat()
}
fn pt<F: Fld>(v: &[Fq]) -> Pt<F> {
    (F::of(&v[..F::DEG]), F::of(&v[F::DEG..2 * F::DEG]))
}

// ---------------------------------------------------------------- gadgets
#[derive(Clone, Debug, Hash, PartialEq)]
enum POp {
    Add(usize, usize),
    Double(usize),
    DoubleN(usize, usize),
    DoubleAdd(usize, usize),
    Triple(usize),
    Neg(usize),
    Copy(usize),
    Endo(usize),
}
#[derive(Clone, Debug, Hash, PartialEq)]
enum COp {
    /// Number of points, operations.
    Prog(usize, Vec<POp>),
    Seed,
    Windowed(Vec<u8>),
    Clear,
    Isogeny,
    MapCurve,
    MapTo,
    Hash(usize),
    Uncompress,
    Equal,
    OnCurve,
    OnGroup,
    /// Pairs; whether lines are computed beforehand.
    Pairing(usize, bool),
}
#[derive(Clone, Debug, Hash)]
struct CGad {
    two: bool,
    op: COp,
}
impl CGad {
    fn deg(&self) -> usize {
        1 + self.two as usize
    }
    fn elements(&self) -> usize {
        let d = self.deg();
        match &self.op {
            COp::Prog(n, _) => 2 * d * n,
            COp::MapCurve => d,
            COp::MapTo => 2 * d,
            COp::Hash(_) | COp::Uncompress => 0,
            COp::Equal => 4 * d,
            COp::Pairing(n, _) => 6 * n,
            _ => 2 * d,
        }
    }
}
fn finish<B: RootAPI<M31Config>>(b: &mut B, f: &mut CurveF) {
    // a table without queries cannot be checked
    let one = f.one_const.clone();
    f.mul(b, &one, &one);
    f.check_mul(b);
    f.table.final_check(b);
}
fn el(x: &[Variable]) -> El {
    Element::new(x.to_vec(), 0, false, false, false, Variable::default())
}
fn p1(e: &[El]) -> G1Affine {
    G1Affine { x: e[0].clone(), y: e[1].clone() }
}
fn p2(e: &[El]) -> G2AffP {
    G2AffP { x: g2(&e[..2]), y: g2(&e[2..4]) }
}
fn l1(p: &G1Affine) -> Vec<El> {
    vec![p.x.clone(), p.y.clone()]
}
fn l2(p: &G2AffP) -> Vec<El> {
    [u2(&p.x), u2(&p.y)].concat()
}
impl Gadget<M31Config> for CGad {
    fn build<B: RootAPI<M31Config>>(&self, b: &mut B, x: &[Variable]) -> Vec<Variable> {
        let e: Vec<El> = if self.elements() > 0 { x.chunks(48).map(el).collect() } else { vec![] };
        let out: Vec<El> = match &self.op {
            COp::OnCurve | COp::OnGroup | COp::Pairing(..) => {
                let mut k = Pairing::new(b);
                match (&self.op, self.two) {
                    (COp::OnCurve, false) => k.assert_is_on_curve(b, p1(&e)),
                    (COp::OnGroup, false) => k.assert_is_on_g1(b, &p1(&e)),
                    (COp::OnCurve, true) => k.assert_is_on_twist(b, p2(&e)),
                    (COp::OnGroup, true) => k.assert_is_on_g2(b, &p2(&e)),
                    (COp::Pairing(n, ahead), _) => {
                        let p: Vec<G1Affine> = (0..*n).map(|i| p1(&e[6 * i..])).collect();
                        let mut q: Vec<G2Affine> = (0..*n)
                            .map(|i| {
                                let p = p2(&e[6 * i + 2..]);
                                let lines = if *ahead { k.compute_lines_with_hint(b, &p) } else { LineEvaluations::default() };
                                G2Affine { p, lines }
                            })
                            .collect();
                        k.pairing_check(b, &p, &mut q).unwrap();
                    }
                    _ => unreachable!(),
                }
                finish(b, &mut k.curve_f);
                finish(b, &mut k.ext12.ext6.ext2.curve_f);
                finish(b, &mut k.curve.base_api);
                finish(b, &mut k.g1.curve_f);
                finish(b, &mut k.g2.ext2.curve_f);
                vec![]
            }
            op if self.two => {
                let mut g = G2::new(b);
                let out = match op {
                    COp::Prog(n, ops) => {
                        let mut v: Vec<G2AffP> = (0..*n).map(|i| p2(&e[4 * i..])).collect();
                        for o in ops {
                            let p = match o {
                                POp::Add(i, j) => g.add(b, &v[*i], &v[*j]),
                                POp::Double(i) => g.double(b, &v[*i]),
                                POp::DoubleN(i, n) => g.double_n(b, &v[*i], *n),
                                POp::DoubleAdd(i, j) => g.double_and_add(b, &v[*i], &v[*j]),
                                POp::Triple(i) => g.triple(b, &v[*i]),
                                POp::Neg(i) => g.neg(b, &v[*i]),
                                POp::Copy(i) => g.copy_g2_aff_p(b, &v[*i]),
                                POp::Endo(i) => g.psi(b, &v[*i]),
                            };
                            v.push(p);
                        }
                        v[*n..].iter().flat_map(l2).collect()
                    }
                    COp::Seed => l2(&g.scalar_mul_by_seed(b, &p2(&e))),
                    COp::Windowed(s) => l2(&g.mul_windowed(b, &p2(&e), BigInt::from(BigUint::from_bytes_be(s)))),
                    COp::Clear => l2(&g.clear_cofactor(b, &p2(&e))),
                    COp::Isogeny => l2(&g.isogeny(b, &p2(&e))),
                    COp::MapCurve => l2(&g.map_to_curve2(b, &g2(&e))),
                    COp::MapTo => l2(&g.map_to_g2(b, &g2(&e), &g2(&e[2..]))),
                    COp::Hash(_) => {
                        let (u, v) = g.hash_to_fp(b, x);
                        l2(&g.map_to_g2(b, &u, &v))
                    }
                    COp::Uncompress => l2(&g.uncompressed(b, x)),
                    COp::Equal => {
                        g.assert_is_equal(b, &p2(&e), &p2(&e[4..]));
                        vec![]
                    }
                    _ => unreachable!(),
                };
                finish(b, &mut g.ext2.curve_f);
                out
            }
            op => {
                let mut g = G1::new(b);
                let out = match op {
                    COp::Prog(n, ops) => {
                        let mut k = None;
                        let mut v: Vec<G1Affine> = (0..*n).map(|i| p1(&e[2 * i..])).collect();
                        for o in ops {
                            let p = match o {
                                POp::Add(i, j) => g.add(b, &v[*i], &v[*j]),
                                POp::Double(i) => g.double(b, &v[*i]),
                                POp::DoubleN(i, n) => g.double_n(b, &v[*i], *n),
                                POp::DoubleAdd(i, j) => g.double_and_add(b, &v[*i], &v[*j]),
                                POp::Triple(i) => {
                                    let d = g.double(b, &v[*i]);
                                    g.add(b, &d, &v[*i])
                                }
                                POp::Neg(i) => {
                                    let k = k.get_or_insert_with(|| Pairing::new(b));
                                    let p = k.curve.neg(b, &AffinePoint { x: v[*i].x.clone(), y: v[*i].y.clone() });
                                    G1Affine { x: p.x, y: p.y }
                                }
                                POp::Copy(i) => g.copy_g1(b, &v[*i]),
                                POp::Endo(i) => g.phi(b, &v[*i]),
                            };
                            v.push(p);
                        }
                        if let Some(mut k) = k {
                            finish(b, &mut k.curve.base_api);
                        }
                        v[*n..].iter().flat_map(l1).collect()
                    }
                    COp::Seed => l1(&g.scalar_mul_by_seed_square(b, &p1(&e))),
                    COp::Windowed(s) => l1(&g.mul_windowed(b, &p1(&e), BigInt::from(BigUint::from_bytes_be(s)))),
                    COp::Clear => l1(&g.clear_cofactor(b, &p1(&e))),
                    COp::Isogeny => l1(&g.g1_isogeny(b, &p1(&e))),
                    COp::MapCurve => l1(&g.map_to_curve1(b, &e[0])),
                    COp::MapTo => l1(&g.map_to_g1(b, &e[0], &e[1])),
                    COp::Hash(_) => {
                        let (u, v) = g.hash_to_fp(b, x);
                        l1(&g.map_to_g1(b, &u, &v))
                    }
                    COp::Uncompress => l1(&g.uncompressed(b, x)),
                    COp::Equal => {
                        g.assert_is_equal(b, &p1(&e), &p1(&e[2..]));
                        vec![]
                    }
                    _ => unreachable!(),
                };
                finish(b, &mut g.curve_f);
                out
            }
        };
        out.iter()
            .flat_map(|e| {
                assert_eq!(e.limbs.len(), 48, "limbs of a coordinate");
                e.limbs.clone()
            })
            .collect()
    }
}
/// The coordinates of the results; `None` where the operation is not defined.
fn pval<F: Fld>(op: &POp, v: &[Pt<F>], endo: fn(Pt<F>) -> Pt<F>) -> Option<Pt<F>> {
    let z = F::zero();
    match op {
        POp::Add(i, j) => chord(v[*i], v[*j]),
        POp::Double(i) => double(v[*i]),
        POp::DoubleN(i, n) => (0..*n).try_fold(v[*i], |p, _| double(p)),
        POp::DoubleAdd(i, j) => {
            let s = chord(v[*i], v[*j])?;
            chord(s, v[*i])
        }
        POp::Triple(i) => chord(double(v[*i])?, v[*i]),
        POp::Neg(i) => Some(neg(v[*i])),
        POp::Copy(i) => Some(v[*i]),
        POp::Endo(i) => Some(endo(v[*i])),
    }
    .filter(|p| p.0 != z || p.1 != z)
}
struct CCase {
    g: CGad,
    x: Vec<u32>,
    /// Coordinates of the results; `None`: to be refused.
    want: Option<Vec<Fq>>,
    desc: String,
}
fn limbs_of(v: &[Fq]) -> Vec<u32> {
    v.iter().flat_map(fq_limbs).collect()
}
fn endo_of<F: Fld>() -> fn(Pt<F>) -> Pt<F> {
    |p| {
        let v = coords(p);
        let r = if F::DEG == 1 { coords(phi(pt(&v))) } else { coords(psi(pt(&v))) };
        pt(&r)
    }
}
fn prog<F: Fld>(r: &mut Rng, only: Option<usize>) -> CCase {
    let n = r.range(1, 3);
    let mut v: Vec<Pt<F>> = (0..n).map(|_| if r.chance(1, 2) { random_point(r) } else { subgroup_point(r) }).collect();
    let mut ops = vec![];
    let len = if only.is_some() { 1 } else { r.range(2, 6) };
    let mut tries = 0;
    while ops.len() < len && tries < 60 {
        tries += 1;
        let k = v.len();
        let pick = |r: &mut Rng| if r.chance(2, 3) { k - 1 - r.below(k.min(2)) } else { r.below(k) };
        let (i, j) = (pick(r), pick(r));
        let op = match only.unwrap_or_else(|| r.below(8)) {
            0 => POp::Add(i, j),
            1 => POp::Double(i),
            2 => POp::DoubleN(i, r.range(0, 3)),
            3 => POp::DoubleAdd(i, j),
            4 => POp::Triple(i),
            5 => POp::Neg(i),
            6 => POp::Copy(i),
            _ => POp::Endo(i),
        };
        if n == 1 && only.is_some_and(|o| o == 0 || o == 3) {
            v.push(double(v[0]).unwrap());
            ops.push(POp::Double(0));
            continue;
        }
        let Some(p) = pval(&op, &v, endo_of::<F>()) else { continue };
        v.push(p);
        ops.push(op);
    }
    CCase {
        x: limbs_of(&v[..n].iter().flat_map(|p| coords(*p)).collect::<Vec<_>>()),
        want: Some(v[n..].iter().flat_map(|p| coords(*p)).collect()),
        desc: format!("{ops:?} on {:?}", &v[..n]),
        g: CGad { two: F::DEG == 2, op: COp::Prog(n, ops) },
    }
}
fn unary<F: Fld>(op: COp, p: Pt<F>, want: Option<Pt<F>>) -> CCase {
    CCase { g: CGad { two: F::DEG == 2, op: op.clone() }, x: limbs_of(&coords(p)), want: want.map(coords), desc: format!("{op:?} of {p:?}") }
}
fn multiples<F: Fld>(r: &mut Rng, k: usize) -> CCase {
    let p = if r.chance(1, 2) { random_point::<F>(r) } else { subgroup_point(r) };
    match k {
        0 => {
            let m = if F::DEG == 1 { times(&(BigUint::from(X) * BigUint::from(X)), p) } else { times(&BigUint::from(X), p).map(neg) };
            unary(COp::Seed, p, m)
        }
        1 => {
            let n = r.range(1, 6);
            let s = [vec![0xd2u8], r.bytes(n)].concat();
            let m = times(&BigUint::from_bytes_be(&s), p);
            unary(COp::Windowed(s), p, m)
        }
        _ => unary(COp::Clear, p, times(&F::h_eff(), p)),
    }
}
fn isogeny_case<F: Fld>(r: &mut Rng) -> CCase {
    let p = sswu(random_fld::<F>(r));
    unary(COp::Isogeny, p, isogeny(p))
}
/// Field elements to map, special ones among them.
fn to_map<F: Fld>(r: &mut Rng, o: &mut Obs) -> F {
    match r.below(6) {
        0 => {
            // Z u^2 = 0 or -1: the formula has no value
            let z = F::sswu()[2];
            o.count("exceptional elements", 1);
            match (-z.inverse().unwrap()).sqrt() {
                Some(u) if r.chance(1, 2) => u,
                _ => F::zero(),
            }
        }
        1 => F::of(&(0..F::DEG).map(|_| Fq::from(r.below(3) as u32)).collect::<Vec<_>>()),
        2 if F::DEG == 2 => {
            let mut v = vec![Fq::zero(), plain_fq(r)];
            if r.chance(1, 2) {
                v.reverse();
            }
            F::of(&v)
        }
        _ => random_fld(r),
    }
}
fn map_case<F: Fld>(r: &mut Rng, o: &mut Obs) -> CCase {
    let u = to_map::<F>(r, o);
    CCase { g: CGad { two: F::DEG == 2, op: COp::MapCurve }, x: limbs_of(&u.parts()), want: Some(coords(sswu(u))), desc: format!("map of {u:?} to the isogenous curve") }
}
fn map_to_case<F: Fld>(r: &mut Rng) -> CCase {
    loop {
        let (u, v) = (random_fld::<F>(r), random_fld::<F>(r));
        let Some(w) = map_to(u, v) else { continue };
        return CCase { g: CGad { two: F::DEG == 2, op: COp::MapTo }, x: limbs_of(&[u.parts(), v.parts()].concat()), want: Some(coords(w)), desc: format!("map of {u:?} and {v:?} to the group") };
    }
}
fn hash_to<F: Fld>(msg: &[u8]) -> Pt<F> {
    let u = hash_to_fp(msg, 2 * F::DEG);
    map_to(F::of(&u), F::of(&u[F::DEG..])).expect("a hashed point")
}
fn hash_case<F: Fld>(r: &mut Rng) -> CCase {
    let n = *r.pick(&[32usize, 32, 1, 31, 48]);
    let m = r.bytes(n);
    CCase { g: CGad { two: F::DEG == 2, op: COp::Hash(m.len()) }, x: m.iter().map(|b| *b as u32).collect(), want: Some(coords(hash_to::<F>(&m))), desc: format!("hash of {m:?}") }
}
fn encode<F: Fld>(p: Pt<F>, largest: bool) -> Vec<u32> {
    let mut v: Vec<u32> = p.0.parts().iter().rev().flat_map(|c| fq_limbs(c).into_iter().rev()).collect();
    assert!(v[0] < 32);
    v[0] |= if largest { 0b101 << 5 } else { 0b100 << 5 };
    v
}
fn uncompress_case<F: Fld>(r: &mut Rng) -> CCase {
    let g = CGad { two: F::DEG == 2, op: COp::Uncompress };
    if r.chance(1, 4) {
        // no point has this x
        loop {
            let x = random_fld::<F>(r);
            if (x * x * x + F::b()).sqrt().is_none() {
                return CCase { g, x: encode((x, x), r.chance(1, 2)), want: None, desc: format!("encoding of {x:?}, which belongs to no point") };
            }
        }
    }
    let p = if r.chance(1, 3) { special_point::<F>(r) } else { random_point::<F>(r) };
    CCase { g, x: encode(p, p.1.large()), want: Some(coords(p)), desc: format!("encoding of {p:?}") }
}
fn equal_case<F: Fld>(r: &mut Rng) -> CCase {
    let p = random_point::<F>(r);
    let mut v = coords(p);
    let w = v.clone();
    let same = r.chance(1, 3);
    if !same {
        let i = r.below(v.len());
        v[i] = match r.below(3) {
            0 => -v[i],
            1 => v[i] + Fq::one(),
            _ => plain_fq(r),
        };
    }
    let same = v == w;
    CCase {
        g: CGad { two: F::DEG == 2, op: COp::Equal },
        x: limbs_of(&[v.clone(), w.clone()].concat()),
        want: same.then(Vec::new),
        desc: format!("{v:?} = {w:?}"),
    }
}
fn curve_case<F: Fld>(r: &mut Rng) -> CCase {
    let (p, ok) = match r.below(4) {
        0 => (if r.chance(1, 2) { special_point::<F>(r) } else { random_point::<F>(r) }, true),
        1 => ((F::zero(), F::zero()), true),
        2 => {
            let p = random_point::<F>(r);
            (if r.chance(1, 2) { (p.0, p.1 + F::one()) } else { (F::zero(), F::one()) }, false)
        }
        _ => {
            // on the curve through another constant
            let p = (random_fld::<F>(r), random_fld::<F>(r));
            (if r.chance(1, 3) { (p.0, F::zero()) } else { p }, false)
        }
    };
    assert!(ok == (on(p) || p == (F::zero(), F::zero())));
    CCase { g: CGad { two: F::DEG == 2, op: COp::OnCurve }, x: limbs_of(&coords(p)), want: ok.then(Vec::new), desc: format!("{p:?} on the curve") }
}
fn group_case<F: Fld>(r: &mut Rng) -> CCase {
    let ord = order();
    let (p, ok) = match r.below(5) {
        0 | 1 => (subgroup_point::<F>(r), true),
        2 => {
            // subgroup plus something of the cofactor
            let t = times(&ord, random_point::<F>(r));
            let s = subgroup_point::<F>(r);
            match plus(Some(s), t, F::zero()) {
                Some(p) => (p, t.is_none()),
                None => (s, true),
            }
        }
        3 => {
            let p = random_point::<F>(r);
            (p, times(&ord, p).is_none())
        }
        _ => {
            let p = subgroup_point::<F>(r);
            ((p.0, p.1 + F::one()), false)
        }
    };
    CCase { g: CGad { two: F::DEG == 2, op: COp::OnGroup }, x: limbs_of(&coords(p)), want: ok.then(Vec::new), desc: format!("{p:?} in the subgroup") }
}
fn pairing_input(r: &mut Rng, truth: bool) -> (CGad, Vec<u32>, String) {
    let p = subgroup_point::<Fq>(r);
    let q = subgroup_point::<Fq2>(r);
    let scalar = |r: &mut Rng| {
        if r.chance(1, 3) {
            BigUint::from(2 + r.below(50) as u32)
        } else {
            BigUint::from_bytes_le(&r.bytes(31)) + 2u32
        }
    };
    let (a, c) = (scalar(r), scalar(r));
    let (pa, pc) = (times(&a, p).unwrap(), times(&c, p).unwrap());
    let mut pairs: Vec<(Pt<Fq>, Pt<Fq2>)> = match r.below(if truth { 4 } else { 5 }) {
        0 | 1 => vec![(pa, q), (neg(p), times(&a, q).unwrap())],
        2 => {
            let s = plus(Some(pa), Some(pc), Fq::zero());
            match s {
                Some(s) => vec![(pa, q), (pc, q), (neg(s), q)],
                None => vec![(pa, q), (pc, q)],
            }
        }
        3 => vec![(p, times(&c, q).unwrap()), (neg(pc), q)],
        _ => vec![(p, q)],
    };
    let mut what = "a true product";
    if !truth {
        what = "a false product";
        if pairs.len() > 1 {
            let i = r.below(pairs.len());
            match r.below(4) {
                0 => pairs[i].0 = neg(pairs[i].0),
                1 => pairs[i].1 = neg(pairs[i].1),
                2 => {
                    if let Some(d) = double(pairs[i].0) {
                        pairs[i].0 = d;
                    }
                }
                _ => {
                    if let Some(d) = chord(pairs[i].0, subgroup_point(r)) {
                        pairs[i].0 = d;
                    }
                }
            }
        }
    } else if r.chance(1, 2) {
        pairs.reverse();
    }
    let x = pairs.iter().flat_map(|(p, q)| [coords(*p), coords(*q)].concat()).collect::<Vec<_>>();
    (CGad { two: false, op: COp::Pairing(pairs.len(), r.chance(1, 3)) }, limbs_of(&x), format!("{what}: {pairs:?}"))
}

// ---------------------------------------------------------------- verdicts
fn compare(want: &[Fq], out: &[u32]) -> Result<u64, String> {
    let p = ark_bls12_381::modulus();
    if out.len() != 48 * want.len() {
        return Err(format!("{} limbs for {} coordinates", out.len(), want.len()));
    }
    for (i, (l, w)) in out.chunks(48).zip(want).enumerate() {
        let got = recompose(l, &p);
        if got != BigUint::from(*w) {
            return Err(format!("coordinate {i} is {got} instead of {w}"));
        }
    }
    Ok(want.len() as u64)
}
fn check(c: &CCase, o: &mut Obs) -> CaseResult {
    let x = m31s(&c.x);
    match &c.want {
        Some(want) => {
            let out = run::<M31Config, _>(&c.g, &x, m31_hints()).map_err(|e| viol!("refused", "{} fails: {e}", c.desc))?;
            let k = compare(want, &u::<M31Config>(&out)).map_err(|e| viol!("wrong-value", "{}: {e}", c.desc))?;
            o.count("coordinates compared", k);
            o.count(
                match &c.g.op {
                    COp::Prog(..) => "programs of point operations",
                    COp::Seed => "multiples by the curve parameter",
                    COp::Windowed(_) => "windowed multiples",
                    COp::Clear => "cofactors cleared",
                    COp::Isogeny => "isogenies",
                    COp::MapCurve => "maps to the isogenous curve",
                    COp::MapTo => "maps to the group",
                    COp::Hash(_) => "hashes to the group",
                    COp::Uncompress => "points decoded",
                    COp::Equal => "equal points accepted",
                    COp::OnCurve => "points on the curve accepted",
                    COp::OnGroup => "points of the subgroup accepted",
                    COp::Pairing(..) => "true pairing products accepted",
                },
                1,
            );
        }
        None => {
            ensure!(!really(|| run::<M31Config, _>(&c.g, &x, m31_hints()).is_ok()), "falsely-accepted", "accepted although false: {}", c.desc);
            o.count(
                match &c.g.op {
                    COp::Uncompress => "impossible encodings refused",
                    COp::Equal => "different points refused",
                    COp::OnCurve => "points off the curve refused",
                    COp::OnGroup => "points off the subgroup refused",
                    COp::Pairing(..) => "false pairing products refused",
                    _ => "impossible operations refused",
                },
                1,
            );
        }
    }
    o.distinct(&(&c.g, &c.x));
    if o.wants_sample() {
        o.sample(json!({"case": c.desc.chars().take(300).collect::<String>()}));
    }
    Ok(())
}
fn any_case(r: &mut Rng, o: &mut Obs, k: usize) -> CCase {
    if r.chance(1, 2) {
        pick_case::<Fq>(r, o, k)
    } else {
        pick_case::<Fq2>(r, o, k)
    }
}
fn pick_case<F: Fld>(r: &mut Rng, o: &mut Obs, k: usize) -> CCase {
    match k {
        0 => prog::<F>(r, None),
        1 => multiples::<F>(r, 0),
        2 => multiples::<F>(r, 1),
        3 => multiples::<F>(r, 2),
        4 => isogeny_case::<F>(r),
        5 => map_case::<F>(r, o),
        6 => map_to_case::<F>(r),
        7 => hash_case::<F>(r),
        8 => uncompress_case::<F>(r),
        9 => equal_case::<F>(r),
        10 => curve_case::<F>(r),
        _ => group_case::<F>(r),
    }
}
const ROOTS: [&str; 4] = ["myhint.getsqrtx0x1fqnewhint", "myhint.getsqrtx0x1fq2newhint", "myhint.getelementsqrthint", "myhint.gete2sqrthint"];
/// Replaces elements of a root hint (a flag, then the root).
fn spoil_root(v: &mut [M31], args: &[M31], q: &mut Rng) {
    let p = ark_bls12_381::modulus();
    let k = v.len() / 48;
    let put = |v: &mut [M31], i: usize, x: &BigUint| v[48 * i..48 * i + 48].copy_from_slice(&m31s(&bytes_of(x, 48)));
    let get = |v: &[M31], i: usize| recompose(&u::<M31Config>(&v[48 * i..48 * i + 48]), &p);
    let cap = BigUint::from(1u32) << 381usize;
    // inputs: bits, limbs, modulus, count, then (length, limbs) each
    let a = u::<M31Config>(args);
    let mut ins = vec![];
    let mut at = 3 + 48;
    while at < a.len() {
        let n = a[at] as usize;
        ins.push(Fq::from(recompose(&a[at + 1..at + 1 + n], &p)));
        at += 1 + n;
    }
    let flip = |v: &mut [M31]| {
        for i in 1..k {
            let n = (&p - get(v, i)) % &p;
            put(v, i, &n);
        }
    };
    match q.below(9) {
        // the other root
        0 => flip(v),
        // another representative
        1 | 2 => {
            if q.chance(1, 2) {
                flip(v);
            }
            let i = q.range(1, k - 1);
            let y = get(v, i) + &p;
            if y < cap {
                put(v, i, &y);
            }
        }
        3 => spoil(&mut v[48..], q.u64(), 48, &p),
        4 => spoil(&mut v[..48], q.u64(), 48, &p),
        // the flag alone
        5 => {
            let f = get(v, 0);
            put(v, 0, &(BigUint::from(1u32) - f.min(BigUint::from(1u32))));
        }
        // a root of something else with either flag
        6 | 7 => {
            let d = k - 1;
            let i = q.below(ins.len() / d);
            let mut y: Vec<Fq> = if d == 1 {
                ins[i].sqrt().map(|y| vec![y]).unwrap_or(vec![ins[i]])
            } else {
                let z = Fq2::new(ins[2 * i], ins[2 * i + 1]);
                z.sqrt().unwrap_or(z).parts()
            };
            if q.chance(1, 3) {
                y = (0..d).map(|_| plain_fq(q)).collect();
            }
            for (i, y) in y.iter().enumerate() {
                put(v, 1 + i, &BigUint::from(*y));
            }
            if q.chance(1, 2) {
                flip(v);
            }
            put(v, 0, &BigUint::from(match q.below(3) {
                0 => 0,
                1 => 1,
                _ => 2 + q.u32() / 2,
            }));
        }
        _ => v.fill(M31::from(0u32)),
    }
}
/// One altered answer: refused, or the right results all the same.
fn lies(r: &mut Rng, o: &mut Obs, k: usize) -> CaseResult {
    let c = any_case(r, o, k);
    let seed = r.u64();
    let x = m31s(&c.x);
    // which answer; counted on an honest run first
    let mine: Vec<usize> = ROOTS.iter().chain(&["myhint.divhint", "myhint.invhint", "myhint.copyelementhint", "myhint.dive2hint", "myhint.inversee2hint", "myhint.copye2hint"]).map(|k| hint_key_to_id(k)).collect();
    let roots: Vec<usize> = ROOTS.iter().map(|k| hint_key_to_id(k)).collect();
    let only_roots = (5..=8).contains(&k) && !r.chance(1, 4);
    let pool = if only_roots { roots.clone() } else { mine };
    let total = Arc::new(AtomicUsize::new(0));
    let (t, m) = (total.clone(), pool.clone());
    let h = Lying {
        inner: m31_hints(),
        lie: move |id: usize, _: &[M31], _: &mut Vec<M31>| {
            if m.contains(&id) {
                t.fetch_add(1, Ordering::Relaxed);
            }
        },
    };
    let _ = run::<M31Config, _>(&c.g, &x, h);
    let total = total.load(Ordering::Relaxed);
    if total == 0 {
        return Ok(());
    }
    let target = r.below(total);
    let altered = Arc::new(AtomicBool::new(false));
    let once = || {
        let seen = AtomicUsize::new(0);
        let (pool, roots, altered) = (pool.clone(), roots.clone(), altered.clone());
        let h = Lying {
            inner: m31_hints(),
            lie: move |id: usize, args: &[M31], v: &mut Vec<M31>| {
                if pool.contains(&id) && seen.fetch_add(1, Ordering::Relaxed) == target {
                    let old = v.clone();
                    let mut q = Rng::new(seed);
                    if roots.contains(&id) {
                        spoil_root(v, args, &mut q);
                    } else {
                        spoil(v, seed, 48, &ark_bls12_381::modulus());
                    }
                    altered.store(*v != old, Ordering::Relaxed);
                }
            },
        };
        match run::<M31Config, _>(&c.g, &x, h) {
            Err(_) => Ok(false),
            Ok(out) => match &c.want {
                None => Err("accepted".to_string()),
                Some(w) => compare(w, &u::<M31Config>(&out)).map(|_| true),
            },
        }
    };
    match once() {
        Ok(true) => o.count(if altered.load(Ordering::Relaxed) { "altered answers accepted with right values" } else { "answers left alone" }, 1),
        Ok(false) => o.count("altered answers refused", 1),
        Err(e) => ensure!(!really(|| once().is_err()), "forged-answer", "{}: a forged hint answer is accepted: {e}", c.desc),
    }
    o.distinct(&(&c.g, seed));
    Ok(())
}
fn pairing_lies(r: &mut Rng, o: &mut Obs) -> CaseResult {
    let (g, x, desc) = pairing_input(r, false);
    let x = m31s(&x);
    let seed = r.u64();
    let kind = r.below(5);
    let once = || {
        let h = Lying {
            inner: m31_hints(),
            lie: move |id: usize, _: &[M31], v: &mut Vec<M31>| {
                if id != hint_key_to_id("myhint.finalexphint") {
                    return;
                }
                let mut q = Rng::new(seed);
                let put = |v: &mut [M31], i: usize, x: Fq| v[48 * i..48 * i + 48].copy_from_slice(&m31s(&fq_limbs(&x)));
                match kind {
                    0 => v.fill(M31::from(0u32)),
                    1 => {
                        // a root of the cyclotomic squaring formula, which is not invertible
                        v.fill(M31::from(0u32));
                        put(v, 0, Fq::from(2u32) * Fq::from(3u32).inverse().unwrap());
                    }
                    2 => {
                        // trivial witnesses
                        v.fill(M31::from(0u32));
                        put(v, 0, Fq::one());
                        put(v, 12, Fq::one());
                    }
                    3 => {
                        for i in 0..18 {
                            put(v, i, plain_fq(&mut q));
                        }
                    }
                    _ => v[48 * 12..].fill(M31::from(0u32)),
                }
            },
        };
        run::<M31Config, _>(&g, &x, h).is_ok()
    };
    ensure!(!really(once), "forged-pairing", "with a made-up witness (kind {kind}), the check accepts {desc}");
    o.count("false pairing products with made-up witnesses refused", 1);
    o.distinct(&(&g, seed, kind));
    Ok(())
}
fn pairing_case(r: &mut Rng, o: &mut Obs) -> CaseResult {
    let truth = r.chance(1, 2);
    let (g, x, desc) = pairing_input(r, truth);
    check(&CCase { g, x, want: truth.then(Vec::new), desc }, o)
}
/// The reference itself: homomorphisms, orders and published vectors.
fn reference<F: Fld>(r: &mut Rng) -> CaseResult {
    let a = F::sswu()[0];
    let (p, q) = (sswu(random_fld::<F>(r)), sswu(random_fld::<F>(r)));
    let [ip, iq] = [p, q].map(|p| isogeny(p).unwrap());
    ensure!(on(ip) && on(iq), "reference", "the isogeny leaves the curve");
    let s = plus(Some(p), Some(q), a).unwrap();
    ensure!(isogeny(s) == plus(Some(ip), Some(iq), F::zero()), "reference", "the isogeny is no homomorphism");
    ensure!(isogeny(tangent(p, a).unwrap()) == double(ip), "reference", "the isogeny is no homomorphism");
    ensure!(on(special_point::<F>(r)), "reference", "a cube root is wrong");
    let s = subgroup_point::<F>(r);
    ensure!(on(s) && times(&order(), s).is_none(), "reference", "the cofactor is not cleared");
    Ok(())
}
fn vectors() -> CaseResult {
    let hex = |s: &str| BigUint::parse_bytes(s.as_bytes(), 16).unwrap();
    let m = hex("8c944f8caa55d007728a2fc6e7ff3068dde103ed63fb399c59c24f1f826de4c7").to_bytes_be();
    let want = (
        dec("931508203449116360366484402715781657513658072828297647050637028707500425620237136600612884240951972079295402518955"),
        dec("519166679736366508158130784988422711323587004159773257823344793142122588338441738530109373213103052261922442631575"),
    );
    ensure!(hash_to::<Fq>(&m) == want, "reference", "the vector of the first group is not reproduced");
    let m = hex("8c944f8caa55d007728a2fc6e7ff3068dde103ed63fb399c59c24f1f826de4c8").to_bytes_be();
    let p = hash_to::<Fq2>(&m);
    let le = |b: [u8; 4]| BigUint::from_bytes_le(&b);
    let low = |x: Fq| BigUint::from(x) % (BigUint::from(1u32) << 32usize);
    let want = [[215, 186, 167, 113], [88, 110, 24, 185], [202, 105, 74, 230], [66, 124, 60, 101]];
    for (c, w) in coords(p).into_iter().zip(want) {
        ensure!(low(c) == le(w), "reference", "the vector of the second group is not reproduced");
    }
    Ok(())
}
fn compiled_case(r: &mut Rng, o: &mut Obs) -> CaseResult {
    let c = match r.below(6) {
        0 => prog::<Fq>(r, Some(0)),
        1 => prog::<Fq>(r, Some(1)),
        2 => prog::<Fq2>(r, Some(3)),
        3 => uncompress_case::<Fq>(r),
        4 => curve_case::<Fq2>(r),
        _ => equal_case::<Fq>(r),
    };
    let Some(want) = &c.want else { return Ok(()) };
    let x = m31s(&c.x);
    let k = build::<M31Config, _>(&c.g, x.len(), 48 * want.len()).map_err(|e| viol!("compile", "{} does not compile: {e}", c.desc))?;
    let y = run::<M31Config, _>(&c.g, &x, m31_hints()).map_err(|e| viol!("refused", "{} fails: {e}", c.desc))?;
    compare(want, &u::<M31Config>(&y)).map_err(|e| viol!("wrong-value", "{}: {e}", c.desc))?;
    let ok = k.accepts(&x, &y, &m31_hints()).map_err(|e| viol!("compiled-panics", "{}: {e}", c.desc))?;
    ensure!(ok, "compiled-refuses", "the compiled circuit refuses {}", c.desc);
    if !y.is_empty() {
        let mut z = y.clone();
        let i = r.below(z.len());
        z[i] += M31::from(1 + r.below(3) as u32);
        ensure!(!really(|| k.accepts(&x, &z, &m31_hints()).unwrap_or(false)), "compiled-accepts", "the compiled circuit accepts a wrong result for {}", c.desc);
    }
    o.count("compiled claims decided", 2);
    o.distinct(&(&c.g, &c.x, "compiled"));
    Ok(())
}
pub fn l08(d: &mut Driver) {
    d.scenario("reference vectors", |_, _| vectors());
    d.cases("reference", d.n(4, 20), |r, _| if r.chance(1, 2) { reference::<Fq>(r) } else { reference::<Fq2>(r) });
    d.cases("each point operation", d.n(96, 800), |r, o| {
        let k = r.below(8);
        let c = if r.chance(1, 2) { prog::<Fq>(r, Some(k)) } else { prog::<Fq2>(r, Some(k)) };
        check(&c, o)
    });
    for (name, k, n, t) in [
        ("point programs", 0, 120, 2000),
        ("curve parameter", 1, 8, 100),
        ("windowed multiples", 2, 8, 100),
        ("cofactors", 3, 8, 100),
        ("isogenies", 4, 30, 400),
        ("maps to the curve", 5, 120, 2000),
        ("maps to the group", 6, 6, 80),
        ("hashes", 7, 6, 80),
        ("encodings", 8, 80, 1500),
        ("equalities", 9, 120, 2000),
        ("on the curve", 10, 120, 2000),
        ("in the subgroup", 11, 24, 300),
    ] {
        d.cases(name, d.n(n, t), move |r, o| {
            let c = any_case(r, o, k);
            check(&c, o)
        });
    }
    d.cases("pairings", d.n(6, 60), pairing_case);
    d.cases("forged witnesses", d.n(6, 60), pairing_lies);
    for (name, k, n, t) in [("forged answers in programs", 0, 80, 1500), ("forged answers in maps", 5, 240, 4000), ("forged answers in encodings", 8, 240, 4000), ("forged answers in isogenies", 4, 20, 300), ("forged answers in memberships", 11, 12, 200)] {
        d.cases(name, d.n(n, t), move |r, o| lies(r, o, k));
    }
    d.cases("compiled", d.n(10, 120), compiled_case);
}
