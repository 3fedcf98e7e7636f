//! Poseidon, matrix products, word arithmetic and 2048-bit integers.
use crate::gad::*;
use crate::lookup::{by_big_field, really};
use arith::Field as _;
use circuit_std_rs::poseidon::{poseidon_m31::*, poseidon_u32::*, utils as pu};
use circuit_std_rs::sha256::m31_utils as mu;
use circuit_std_rs::utils::{register_hint, simple_lookup2, simple_select};
use circuit_std_rs::matmul::{MatMulCircuit, MatMulParams};
use circuit_std_rs::StdCircuit;
use ethnum::U256;
use expander_compiler::circuit::config::*;
use expander_compiler::frontend::extra::{EmptyHintCaller, HintRegistry};
use expander_compiler::frontend::internal::DumpLoadTwoVariables;
use expander_compiler::frontend::*;
use serde_json::json;
use vpc::{catch, ensure, viol, CaseResult, Driver, Obs, Rng};

const P31: u64 = (1 << 31) - 1;
pub fn m31_hints() -> HintRegistry<M31> {
    let mut h = HintRegistry::new();
    register_hint(&mut h);
    h
}

// ---------------------------------------------------------------- Poseidon
/// The permutation written from its description, over u64.
struct Spec {
    w: usize,
    rate: usize,
    full: usize,
    partial: usize,
    mds: Vec<u64>,
    rc: Vec<Vec<u64>>,
}
fn spec(w: usize, rate: usize, full: usize, partial: usize) -> Spec {
    use gkr_hashers::poseidon::r#impls::*;
    use tiny_keccak::{Hasher, Keccak};
    let hash = |m: &[u8]| {
        let mut k = Keccak::v256();
        k.update(m);
        let mut o = [0u8; 32];
        k.finalize(&mut o);
        o
    };
    let mds: Vec<u64> = match w {
        8 => MATRIX_CIRC_MDS_8_SML_ROW.iter().map(|v| *v as u64).collect(),
        12 => MATRIX_CIRC_MDS_12_SML_ROW.iter().map(|v| *v as u64).collect(),
        _ => MATRIX_CIRC_MDS_16_SML_ROW.iter().map(|v| *v as u64).collect(),
    };
    let mut seed = hash(format!("{POSEIDON_SEED_PREFIX}_Mersenne 31_{w}").as_bytes());
    let rc = (0..full + partial)
        .map(|_| {
            (0..w)
                .map(|_| {
                    seed = hash(&seed);
                    u32::from_le_bytes(seed[..4].try_into().unwrap()) as u64 % P31
                })
                .collect()
        })
        .collect();
    Spec { w, rate, full, partial, mds, rc }
}
impl Spec {
    fn permute(&self, s: &mut Vec<u64>) {
        for (k, rc) in self.rc.iter().enumerate() {
            let t: Vec<u64> = s.iter().zip(rc).map(|(a, b)| (a + b) % P31).collect();
            for (i, v) in s.iter_mut().enumerate() {
                *v = (0..self.w).fold(0, |a, j| (a + self.mds[(i + j) % self.w] * t[j]) % P31);
                if i == 0 || k < self.full / 2 || k >= self.full / 2 + self.partial {
                    *v = (0..4).fold(*v, |a, _| a * (*v) % P31);
                }
            }
        }
    }
    fn hash(&self, m: &[u64]) -> Vec<u64> {
        let mut s = vec![0; self.w];
        let mut m = m.to_vec();
        while m.len() % self.rate != 0 {
            m.push(0);
        }
        for c in m.chunks(self.rate) {
            for (i, v) in c.iter().enumerate() {
                let k = self.w - self.rate + i;
                s[k] = (s[k] + v) % P31;
            }
            self.permute(&mut s);
        }
        s
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Hash)]
enum Mode {
    Permute,
    Sponge,
    Flat,
}
#[derive(Clone, Debug)]
struct Pos(usize, usize, usize, usize, Mode);
impl Gadget<M31Config> for Pos {
    fn build<B: RootAPI<M31Config>>(&self, b: &mut B, x: &[Variable]) -> Vec<Variable> {
        let p = PoseidonM31Params::new(b, self.0, self.1, self.2, self.3);
        match self.4 {
            Mode::Permute => {
                let mut s = x.to_vec();
                p.permute(b, &mut s);
                s
            }
            Mode::Sponge => p.hash_to_state(b, x),
            Mode::Flat => p.hash_to_state_flatten(b, x),
        }
    }
}
fn rand31(r: &mut Rng) -> u64 {
    match r.below(6) {
        0 => *r.pick(&[0, 1, P31 - 1, P31 - 2, 1 << 30]),
        _ => r.u64() % P31,
    }
}
pub fn l02(d: &mut Driver) {
    d.scenario("known answer", |_, o| {
        let want: [u64; 16] = [
            1021105124, 1342990709, 1593716396, 2100280498, 330652568, 1371365483, 586650367, 345482939, 849034538, 175601510, 1454280121, 1362077584, 528171622, 187534772, 436020341, 1441052621,
        ];
        assert_eq!(spec(16, 8, 8, 14).hash(&[114514; 8]), want);
        o.count("published vector reproduced by the reference", 1);
        Ok(())
    });
    d.cases("digests", d.n(8000, 120000), |r, o| {
        let w = *r.pick(&[8usize, 12, 16, 16]);
        let standard = w == 16 && r.chance(1, 2);
        let (rate, full, partial) = if standard { (pu::POSEIDON_M31X16_RATE, pu::POSEIDON_M31X16_FULL_ROUNDS, pu::POSEIDON_M31X16_PARTIAL_ROUNDS) } else { (r.range(1, w), 2 * r.below(5), r.below(16)) };
        if full + partial == 0 {
            return Ok(());
        }
        let mode = *r.pick(&[Mode::Permute, Mode::Sponge, Mode::Flat]);
        let s = spec(w, rate, full, partial);
        let n = if mode == Mode::Permute { w } else { r.below(4 * rate + 2) };
        let x: Vec<u64> = (0..n).map(|_| rand31(r)).collect();
        let want = match mode {
            Mode::Permute => {
                let mut v = x.clone();
                s.permute(&mut v);
                v
            }
            _ => s.hash(&x),
        };
        let g = Pos(rate, w, full, partial, mode);
        let x32: Vec<u32> = x.iter().map(|v| *v as u32).collect();
        let xs = fs::<M31Config>(&x32);
        let out = run::<M31Config, _>(&g, &xs, m31_hints()).map_err(|e| viol!("refused", "{g:?} on {x:?} fails: {e}"))?;
        let got: Vec<u64> = u::<M31Config>(&out).iter().map(|v| *v as u64).collect();
        ensure!(got == want, "circuit-digest", "{g:?} on {x:?} gives {got:?} instead of {want:?}");
        o.count("circuit digests compared", 1);
        let q = PoseidonParams::new(rate, w, full, partial);
        let native = match mode {
            Mode::Permute => {
                let mut v = x32.clone();
                catch(|| q.permute(&mut v)).map_err(|e| viol!("native-panics", "{g:?} on {x:?}: {e}"))?;
                v
            }
            _ => catch(|| q.hash_to_state(&x32)).map_err(|e| viol!("native-panics", "{g:?} on {x:?}: {e}"))?,
        };
        ensure!(native.iter().map(|v| *v as u64).collect::<Vec<_>>() == want, "native-digest", "{g:?} computed natively on {x:?} gives {native:?} instead of {want:?}");
        if mode != Mode::Permute {
            let h = q.hash(&x32);
            ensure!(h.iter().map(|v| *v as u64).collect::<Vec<_>>() == want[..rate], "native-digest", "{g:?}: the native digest of {x:?} is not the start of its state");
        }
        o.count("native digests compared", 1);
        o.distinct(&(rate, w, full, partial, mode, &x));
        if o.wants_sample() {
            o.sample(json!({"width": w, "rate": rate, "full": full, "partial": partial, "mode": format!("{mode:?}"), "inputs": n}));
        }
        if mode == Mode::Flat && n > 0 {
            // a dishonest copy of the state
            let seed = r.u64();
            let e = run::<M31Config, _>(
                &g,
                &xs,
                Lying { inner: m31_hints(), lie: move |_, _: &[M31], v: &mut Vec<M31>| {
                    let i = seed as usize % v.len();
                    v[i] += M31::from(1 + (seed >> 8) as u32 % 1000);
                } },
            );
            ensure!(e.is_err(), "forged-copy", "{g:?} accepts a state copied wrongly");
            o.count("forged copies refused", 1);
        }
        Ok(())
    });
    d.cases("compiled circuits", d.n(160, 2400), |r, o| {
        let mode = *r.pick(&[Mode::Permute, Mode::Sponge, Mode::Flat]);
        let w = *r.pick(&[8usize, 12, 16]);
        let g = Pos(w / 2, w, 2 * r.range(1, 4), r.range(1, 14), mode);
        let n = if mode == Mode::Permute { w } else { r.range(1, w + 1) };
        let c = build::<M31Config, _>(&g, n, w).map_err(|e| viol!("compile", "{g:?}: {e}"))?;
        let s = spec(w, g.0, g.2, g.3);
        for _ in 0..4 {
            let x: Vec<u64> = (0..n).map(|_| rand31(r)).collect();
            let mut y = x.clone();
            if mode == Mode::Permute {
                s.permute(&mut y)
            } else {
                y = s.hash(&x)
            }
            let f = |v: &[u64]| -> Vec<M31> { v.iter().map(|v| M31::from(*v as u32)).collect() };
            ensure!(c.accepts(&f(&x), &f(&y), &m31_hints()).map_err(|e| viol!("compiled-panics", "{e}"))?, "compiled-digest", "compiled {g:?} refuses the digest of {x:?}");
            let i = r.below(w);
            y[i] = (y[i] + 1 + r.u64() % (P31 - 1)) % P31;
            ensure!(!c.accepts(&f(&x), &f(&y), &m31_hints()).unwrap_or(false), "wrong-digest-accepted", "compiled {g:?} accepts a wrong word {i} for {x:?}");
            o.count("compiled verdicts", 2);
            o.distinct(&(g.0, g.2, &x));
        }
        Ok(())
    });
}

// ---------------------------------------------------------------- matrix products
struct Flat<T>(Vec<T>);
impl<T: Clone> DumpLoadTwoVariables<T> for Flat<T> {
    fn dump_into(&self, v: &mut Vec<T>, _: &mut Vec<T>) {
        v.extend(self.0.iter().cloned())
    }
    fn load_from(&mut self, _: &mut &[T], _: &mut &[T]) {}
    fn num_vars(&self) -> (usize, usize) {
        (self.0.len(), 0)
    }
}
fn some_f<C: Config>(r: &mut Rng) -> F<C> {
    match r.below(4) {
        0 => F::<C>::zero(),
        1 => f::<C>(r.below(3) as u32),
        2 => -f::<C>(r.below(3) as u32),
        _ => F::<C>::from_u256(U256::from_words(0, r.u64() as u128 | (r.u64() as u128) << 64) % F::<C>::MODULUS),
    }
}
fn matmul_case<C: Config>(r: &mut Rng, o: &mut Obs) -> CaseResult {
    let (m1, n1, n2) = (r.range(1, 5), r.range(1, 5), r.range(1, 5));
    let ps = MatMulParams { m1, n1, m2: n1, n2 };
    let c = <MatMulCircuit as StdCircuit<C>>::new_circuit(&ps);
    let mut flat: Vec<F<C>> = vec![];
    use rand::SeedableRng;
    let a = <MatMulCircuit as StdCircuit<C>>::new_assignment(&ps, rand::rngs::StdRng::seed_from_u64(r.u64()));
    a.dump_into(&mut flat, &mut vec![]);
    let (e1, e2) = (m1 * n1, m1 * n1 + n1 * n2);
    ensure!(flat.len() == e2 + m1 * n2, "assignment-shape", "{ps:?}: the assignment has {} values", flat.len());
    let product = |x: &[F<C>]| -> Vec<F<C>> {
        let mut out = vec![F::<C>::zero(); m1 * n2];
        for i in 0..m1 {
            for j in 0..n2 {
                for k in 0..n1 {
                    out[i * n2 + j] += x[i * n1 + k] * x[e1 + k * n2 + j];
                }
            }
        }
        out
    };
    ensure!(product(&flat) == flat[e2..], "assignment", "{ps:?}: the generated assignment is not a product");
    if r.chance(2, 3) {
        for v in &mut flat[..e2] {
            *v = some_f::<C>(r);
        }
        let p = product(&flat);
        flat[e2..].copy_from_slice(&p);
    }
    let cc = if r.chance(1, 4) { Some(compile::<C, _>(&c, CompileOptions::default()).map_err(|e| viol!("compile", "{ps:?}: {e:?}"))?) } else { None };
    o.distinct(&format!("{ps:?} {flat:?}"));
    for k in 0..6 {
        let mut x = flat.clone();
        if k > 0 {
            for _ in 0..r.range(1, 2) {
                let i = if r.chance(1, 3) { r.below(e2) } else { r.range(e2, x.len() - 1) };
                match r.below(3) {
                    0 => x[i] = some_f::<C>(r),
                    1 => {
                        let j = r.range(e2, x.len() - 1);
                        x.swap(i, j);
                    }
                    _ => x[i] += f::<C>(1 + r.below(5) as u32),
                }
            }
        }
        let want = product(&x) == x[e2..];
        let got = really(|| catch(|| extra::debug_eval::<C, _, _, _>(&c, &Flat(x.clone()), EmptyHintCaller)).is_ok());
        ensure!(got == want, if want { "product-refused" } else { "non-product-accepted" }, "{ps:?}: first·second = result is {want}, the evaluator says {got}: {x:?}");
        if let Some(cc) = &cc {
            let got = really(|| cc.witness_solver.solve_witness(&Flat(x.clone())).is_ok_and(|w| cc.layered_circuit.run(&w).iter().all(|b| *b)));
            ensure!(got == want, if want { "product-refused" } else { "non-product-accepted" }, "{ps:?}: first·second = result is {want}, the compiled circuit says {got}: {x:?}");
            o.count("compiled verdicts", 1);
        }
        o.count(if want { "products accepted" } else { "non-products refused" }, 1);
    }
    if o.wants_sample() {
        o.sample(json!({"first": [m1, n1], "second": [n1, n2]}));
    }
    Ok(())
}
fn shapes_case<C: Config>(r: &mut Rng, o: &mut Obs) -> CaseResult {
    let ps = MatMulParams { m1: r.range(1, 4), n1: r.range(1, 4), m2: r.range(1, 4), n2: r.range(1, 4) };
    if ps.n1 == ps.m2 {
        return Ok(());
    }
    let c = <MatMulCircuit as StdCircuit<C>>::new_circuit(&ps);
    let n = ps.m1 * ps.n1 + ps.m2 * ps.n2 + ps.m1 * ps.n2;
    let x = vec![F::<C>::zero(); n];
    let d = catch(|| extra::debug_eval::<C, _, _, _>(&c, &Flat(x.clone()), EmptyHintCaller));
    ensure!(d.is_err(), "shape-accepted", "a product of {}×{} and {}×{} matrices is accepted", ps.m1, ps.n1, ps.m2, ps.n2);
    o.count("impossible shapes refused", 1);
    o.distinct(&format!("{ps:?}"));
    Ok(())
}
pub fn l05(d: &mut Driver) {
    d.cases("products", d.n(6000, 80000), |r, o| by_big_field!(r.below(4), matmul_case(r, o)));
    d.cases("impossible shapes", d.n(100, 400), |r, o| by_big_field!(r.below(4), shapes_case(r, o)));
}

// ---------------------------------------------------------------- words and limbs over M31
use num_bigint::BigInt;
use num_traits::ToPrimitive;
#[derive(Clone, Debug)]
enum Word {
    BytesToBits,
    Shift(usize),
    Rotate(usize),
    Mix,
    AddNoReduce,
    AddReduce(usize),
    Add(usize),
    Add26,
    Pack30,
    Pack26,
    Put26,
    Put30,
    Put64,
    Bits30,
    Bits26(usize),
    FromBinary,
    AllZero(usize),
    Const(String, usize, usize),
    Less(usize),
    BigLess(usize, usize),
    DivMod(u64),
    Xor(usize),
    Select,
    Lookup,
}
impl<C: Config> Gadget<C> for Word {
    fn build<B: RootAPI<C>>(&self, b: &mut B, x: &[Variable]) -> Vec<Variable> {
        let h = x.len() / 2;
        match self {
            Word::BytesToBits => mu::bytes_to_bits(b, x),
            Word::Shift(k) => mu::right_shift(b, x, *k),
            Word::Rotate(k) => mu::rotate_right(x, *k),
            Word::Mix => {
                let (p, q, s) = (&x[..32], &x[32..64], &x[64..]);
                [mu::sigma0(b, p), mu::sigma1(b, p), mu::cap_sigma0(b, p), mu::cap_sigma1(b, p), mu::ch(b, p, q, s), mu::maj(b, p, q, s)].concat()
            }
            Word::AddNoReduce => mu::big_array_add_no_reduce(b, &x[..h], &x[h..]),
            Word::AddReduce(n) => mu::big_array_add_reduce(b, &x[..h], &x[h..], *n),
            Word::Add(n) => mu::big_array_add(b, &x[..h], &x[h..], *n),
            Word::Add26 => mu::sha_m31_26_add(b, &x[..2], &x[2..], 26).to_vec(),
            Word::Pack30 => mu::bit_array_to_m31(b, x).to_vec(),
            Word::Pack26 => mu::bit_array_to_m31_26(b, x).to_vec(),
            Word::Put26 | Word::Put30 => {
                let mut out = vec![b.constant(0); 4];
                if matches!(self, Word::Put26) {
                    mu::m31_26_array_put_uint32(b, &mut out, [x[0], x[1]])
                } else {
                    mu::big_endian_m31_array_put_uint32(b, &mut out, [x[0], x[1]])
                }
                out
            }
            Word::Put64 => {
                let mut out = vec![b.constant(0); 8];
                mu::big_endian_put_uint64(b, &mut out, x[0]);
                out
            }
            Word::Bits30 => mu::m31_to_bit_array(b, x),
            Word::Bits26(n) => mu::m31_26_to_bit_array_seperate(b, x, *n),
            Word::FromBinary => vec![mu::from_binary(b, x.to_vec())],
            Word::AllZero(k) => vec![mu::big_is_zero(b, *k, x)],
            Word::Const(s, n, l) => mu::bigint_to_m31_array(b, BigInt::parse_bytes(s.as_bytes(), 10).unwrap(), *n, *l),
            Word::Less(n) => vec![mu::my_is_less(b, *n, x[0], x[1])],
            Word::BigLess(n, k) => vec![mu::big_less_than(b, *n, *k, &x[..h], &x[h..])],
            Word::DivMod(k) => {
                let (q, r) = mu::idiv_mod_bit(b, x[0], *k);
                vec![q, r]
            }
            Word::Xor(n) => vec![circuit_std_rs::gnark::utils::xor_variable(b, *n, x[0], x[1])],
            Word::Select => vec![simple_select(b, x[0], x[1], x[2])],
            Word::Lookup => vec![simple_lookup2(b, x[0], x[1], x[2], x[3], x[4], x[5])],
        }
    }
}
fn below_pow(r: &mut Rng, n: usize) -> u64 {
    match r.below(5) {
        0 => 0,
        1 => (1 << n) - 1,
        2 => 1 << r.below(n.max(1)) & ((1 << n) - 1),
        _ => r.u64() % (1 << n),
    }
}
fn lsb(v: u64, n: usize) -> Vec<u64> {
    (0..n).map(|i| v >> i & 1).collect()
}
/// A random operation with inputs; the expected outputs, or `None` when it must be refused.
fn word_case(r: &mut Rng) -> (Word, Vec<u64>, Option<Vec<u64>>) {
    let w32 = |r: &mut Rng| below_pow(r, 32);
    let k = r.below(24);
    match k {
        0 => {
            let n = r.range(1, 7);
            let mut x: Vec<u64> = (0..n).map(|_| below_pow(r, 8)).collect();
            let whole = x.iter().fold(0u64, |a, b| a << 8 | b);
            let mut want = Some(lsb(whole, 8 * n));
            if r.chance(1, 4) {
                let i = r.below(n);
                x[i] = 256 + r.u64() % (P31 - 256);
                want = None;
            }
            (Word::BytesToBits, x, want)
        }
        1 => {
            let (v, s) = (w32(r), r.below(32));
            (Word::Shift(s), lsb(v, 32), Some(lsb(v >> s, 32)))
        }
        2 => {
            let (v, s) = (w32(r), r.below(32));
            (Word::Rotate(s), lsb(v, 32), Some(lsb((v as u32).rotate_right(s as u32) as u64, 32)))
        }
        3 => {
            let (p, q, s) = (w32(r) as u32, w32(r) as u32, w32(r) as u32);
            let rr = |a: u32, b: u32| p.rotate_right(a) ^ p.rotate_right(b);
            let outs = [rr(7, 18) ^ p >> 3, rr(17, 19) ^ p >> 10, rr(2, 13) ^ p.rotate_right(22), rr(6, 11) ^ p.rotate_right(25), (p & q) ^ (!p & s), (p & q) ^ (p & s) ^ (q & s)];
            (Word::Mix, [p, q, s].iter().flat_map(|v| lsb(*v as u64, 32)).collect(), Some(outs.iter().flat_map(|v| lsb(*v as u64, 32)).collect()))
        }
        4..=6 => {
            let (l, n) = (r.range(1, 5), r.range(1, 29));
            let a: Vec<u64> = (0..l).map(|_| below_pow(r, n)).collect();
            let b: Vec<u64> = (0..l).map(|_| below_pow(r, n)).collect();
            let (mut want, mut c) = (vec![], 0);
            for i in 0..l {
                let s = a[i] + b[i] + c;
                if k == 4 {
                    want.push(a[i] + b[i]);
                } else if k == 6 && i + 1 == l {
                    want.push(s);
                } else {
                    want.push(s % (1 << n));
                    c = s >> n;
                }
            }
            (if k == 4 { Word::AddNoReduce } else if k == 5 { Word::AddReduce(n) } else { Word::Add(n) }, [a, b].concat(), Some(want))
        }
        7 => {
            let (a, b) = (w32(r), w32(r));
            let s = (a + b) % (1 << 32);
            let m = (1 << 26) - 1;
            (Word::Add26, vec![a & m, a >> 26, b & m, b >> 26], Some(vec![s & m, s >> 26]))
        }
        8 => {
            let n = r.range(30, 59);
            let v = below_pow(r, n);
            (Word::Pack30, lsb(v, n), Some(vec![v % (1 << 30), v >> 30]))
        }
        9 => {
            let n = r.range(26, 53);
            let v = below_pow(r, n);
            (Word::Pack26, lsb(v, n), Some(vec![v % (1 << 26), v >> 26]))
        }
        10 | 11 => {
            let v = w32(r);
            let n = if k == 10 { 26 } else { 30 };
            let word = if k == 10 { Word::Put26 } else { Word::Put30 };
            (word, vec![v % (1 << n), v >> n], Some((0..4).rev().map(|i| v >> (8 * i) & 255).collect()))
        }
        12 => {
            let v = below_pow(r, 30);
            (Word::Put64, vec![v], Some((0..8).rev().map(|i| v >> (8 * i) & 255).collect()))
        }
        13 => {
            let x: Vec<u64> = (0..r.range(1, 3)).map(|_| below_pow(r, 30)).collect();
            let want = x.iter().flat_map(|v| lsb(*v, 30)).collect();
            (Word::Bits30, x, Some(want))
        }
        14 => {
            // low limb with up to 4 bits of carry, high limb that fits 6+overflow bits
            let over = r.below(5);
            let (lo, hi) = (below_pow(r, 30), below_pow(r, 6 + over));
            let high = hi + (lo >> 26);
            let n = 6 + over + 1;
            let want = if high < 1 << n { Some([lsb(lo % (1 << 26), 26), lsb(high, n)].concat()) } else { None };
            (Word::Bits26(over), vec![lo, hi], want)
        }
        15 => {
            let n = r.range(1, 30);
            let v = below_pow(r, n);
            (Word::FromBinary, lsb(v, n), Some(vec![v]))
        }
        16 => {
            let n = r.range(1, 6);
            let k = r.range(1, n);
            let x: Vec<u64> = (0..n).map(|_| if r.chance(3, 4) { 0 } else { 1 + r.u64() % (P31 - 1) }).collect();
            let want = x[..k].iter().all(|v| *v == 0) as u64;
            (Word::AllZero(k), x, Some(vec![want]))
        }
        17 => {
            let (n, l) = (r.range(1, 30), r.range(1, 4));
            let v = below_pow(r, 60);
            (Word::Const(v.to_string(), n, l), vec![0], Some((0..l).map(|i| if n * i >= 64 { 0 } else { v >> (n * i) & ((1 << n) - 1) }).collect()))
        }
        18 => {
            let n = r.range(1, 29);
            let (a, b) = (below_pow(r, n), if r.chance(1, 5) { below_pow(r, n) } else { r.u64() % (1 << n) });
            (Word::Less(n), vec![a, b], Some(vec![(a < b) as u64]))
        }
        19 => {
            let (n, k) = (r.range(1, 29), r.range(2, 5));
            let a: Vec<u64> = (0..k).map(|_| below_pow(r, n)).collect();
            let mut b = a.clone();
            for _ in 0..r.below(3) {
                let i = r.below(k);
                b[i] = below_pow(r, n);
            }
            let lt = a.iter().rev().cmp(b.iter().rev()).is_lt() as u64;
            (Word::BigLess(n, k), [a, b].concat(), Some(vec![lt]))
        }
        20 => {
            let s = r.range(1, 29);
            let v = if r.chance(1, 6) { (1 << 30) + r.u64() % (P31 - (1 << 30)) } else { below_pow(r, 30) };
            (Word::DivMod(s as u64), vec![v], (v < 1 << 30).then(|| vec![v >> s, v % (1 << s)]))
        }
        21 => {
            let n = r.range(1, 29);
            let (mut a, b) = (below_pow(r, n), below_pow(r, n));
            let mut want = Some(vec![a ^ b]);
            if r.chance(1, 5) {
                a = (1 << n) + r.u64() % (P31 - (1 << n));
                want = None;
            }
            (Word::Xor(n), vec![a, b], want)
        }
        22 => {
            let (s, a, b) = (r.u64() & 1, rand31(r), rand31(r));
            (Word::Select, vec![s, a, b], Some(vec![if s == 1 { a } else { b }]))
        }
        _ => {
            let mut x = vec![r.u64() & 1, r.u64() & 1];
            x.extend((0..4).map(|_| rand31(r)));
            let w = x[2 + (x[0] + 2 * x[1]) as usize];
            (Word::Lookup, x, Some(vec![w]))
        }
    }
}
pub fn l06(d: &mut Driver) {
    d.cases("operations", d.n(200000, 4000000), |r, o| {
        let (g, x, want) = word_case(r);
        let xs: Vec<M31> = x.iter().map(|v| M31::from(*v as u32)).collect();
        let got = run::<M31Config, _>(&g, &xs, EmptyHintCaller);
        o.distinct(&format!("{g:?} {x:?}"));
        match (want, got) {
            (Some(w), Ok(v)) => {
                let v: Vec<u64> = u::<M31Config>(&v).iter().map(|v| *v as u64).collect();
                ensure!(v == w, "word", "{g:?} on {x:?} gives {v:?} instead of {w:?}");
                o.count("results compared", 1);
            }
            (Some(_), Err(e)) => return Err(viol!("refused", "{g:?} on {x:?} fails: {e}")),
            (None, Ok(v)) => return Err(viol!("out-of-range", "{g:?} accepts {x:?} and gives {v:?}")),
            (None, Err(_)) => o.count("out-of-range inputs refused", 1),
        }
        if o.wants_sample() {
            o.sample(json!({"operation": format!("{g:?}"), "inputs": x}));
        }
        Ok(())
    });
    d.cases("constants", d.n(2000, 10000), |r, o| {
        let digits: String = (0..r.range(1, 110)).map(|i| (b'0' + if i == 0 { 1 + r.below(9) as u8 } else { r.below(10) as u8 }) as char).collect();
        let n = r.range(8, 30) as u32;
        let got = mu::string_to_m31_array(&digits, n);
        let mut v = BigInt::parse_bytes(digits.as_bytes(), 10).unwrap();
        for (i, l) in got.iter().enumerate() {
            let w = (&v % &(BigInt::from(1) << n)).to_u32().unwrap();
            ensure!(*l == M31::from(w), "constant", "limb {i} of {digits} in base 2^{n} is {l:?}");
            v >>= n;
        }
        o.count("constants split", 1);
        o.distinct(&(digits, n));
        Ok(())
    });
    d.cases("compiled operations", d.n(3000, 60000), |r, o| {
        let (g, x, want) = word_case(r);
        let Some(w) = want else { return Ok(()) };
        if matches!(g, Word::Const(..)) {
            return Ok(());
        }
        let f = |v: &[u64]| -> Vec<M31> { v.iter().map(|v| M31::from(*v as u32)).collect() };
        let c = build::<M31Config, _>(&g, x.len(), w.len()).map_err(|e| viol!("compile", "{g:?}: {e}"))?;
        ensure!(c.accepts(&f(&x), &f(&w), &EmptyHintCaller).map_err(|e| viol!("compiled-panics", "{e}"))?, "compiled-word", "compiled {g:?} refuses {w:?} for {x:?}");
        for _ in 0..4 {
            let mut y = w.clone();
            let i = r.below(y.len());
            y[i] = if r.chance(1, 2) { (y[i] + 1) % P31 } else { (y[i] + 1 + r.u64() % (P31 - 1)) % P31 };
            ensure!(!c.accepts(&f(&x), &f(&y), &EmptyHintCaller).unwrap_or(false), "wrong-word-accepted", "compiled {g:?} accepts {y:?} for {x:?}");
            o.count("wrong results refused", 1);
        }
        o.distinct(&format!("c {g:?} {x:?}"));
        Ok(())
    });
}

// ---------------------------------------------------------------- 2048-bit integers
use circuit_std_rs::{byte_decomposition, U2048Variable, N_LIMBS};
const B120: usize = 120;
#[derive(Clone, Copy, Debug, PartialEq, Hash)]
enum Big {
    /// x + y = result + carry·modulus
    Add,
    /// x · y = result + carry·modulus
    Mul,
    Product,
    Less,
    GreaterEq,
    Equal,
    Hint,
    Bytes,
    Accumulate(usize),
}
type BN = BN254Config;
impl Gadget<BN> for Big {
    fn build<B: RootAPI<BN>>(&self, b: &mut B, x: &[Variable]) -> Vec<Variable> {
        let two = b.constant(BN254Fr::from_u256(U256::ONE << 120));
        let n = |i: usize| U2048Variable::from_raw(x[i * N_LIMBS..(i + 1) * N_LIMBS].try_into().unwrap());
        match self {
            Big::Add => {
                U2048Variable::assert_add(&n(0), &n(1), &n(2), &x[4 * N_LIMBS], &n(3), &two, b);
                vec![]
            }
            Big::Mul => {
                U2048Variable::assert_mul(&n(0), &n(1), &n(2), &n(4), &n(3), &two, b);
                vec![]
            }
            Big::Product => U2048Variable::mul_without_mod_reduction(&n(0), &n(1), &two, b),
            Big::Less => vec![n(0).assert_is_less_than(&n(1), b)],
            Big::GreaterEq => vec![n(0).assert_is_greater_eq(&n(1), b)],
            Big::Equal => vec![n(0).assert_is_equal(&n(1), b)],
            Big::Hint => vec![n(0).unconstrained_greater_eq(&n(1), b)],
            Big::Bytes => {
                let s: Vec<Variable> = (0..32).map(|i| b.constant(BN254Fr::from_u256(U256::ONE << (8 * i)))).collect();
                byte_decomposition(&x[0], &s, b)
            }
            Big::Accumulate(_) => {
                let (r, c) = circuit_std_rs::accumulate_u120(x, &two, b);
                vec![r, c]
            }
        }
    }
}
pub fn rand_big(r: &mut Rng, bits: usize) -> BigInt {
    let mut v = BigInt::from(0);
    let style = r.below(4);
    for i in 0..bits.div_ceil(60) {
        let n = (bits - 60 * i).min(60);
        let w = match style {
            0 => below_pow(r, n),
            1 if r.chance(2, 3) => 0,
            2 if r.chance(2, 3) => (1 << n) - 1,
            _ => r.u64() % (1 << n),
        };
        v += BigInt::from(w) << (60 * i);
    }
    v
}
fn to_fr(v: &BigInt) -> BN254Fr {
    let mut w = [0u64; 4];
    let mut v = v.clone();
    for x in &mut w {
        *x = (&v % &(BigInt::from(1) << 64)).to_u64().unwrap();
        v >>= 64;
    }
    BN254Fr::from_u256(U256::from_words(w[2] as u128 | (w[3] as u128) << 64, w[0] as u128 | (w[1] as u128) << 64))
}
fn limbs(v: &BigInt, n: usize) -> Vec<BN254Fr> {
    let base = BigInt::from(1) << B120;
    let mut v = v.clone();
    let out = (0..n)
        .map(|_| {
            let l = &v % &base;
            v >>= B120;
            to_fr(&l)
        })
        .collect();
    assert!(v == BigInt::from(0));
    out
}
fn big_case(r: &mut Rng, o: &mut Obs) -> CaseResult {
    let op = *r.pick(&[Big::Add, Big::Add, Big::Mul, Big::Mul, Big::Product, Big::Less, Big::Less, Big::GreaterEq, Big::Equal, Big::Hint, Big::Bytes, Big::Accumulate(0)]);
    let one = BigInt::from(1);
    let runs = |op: Big, x: &[BN254Fr]| run::<BN, _>(&op, x, EmptyHintCaller);
    match op {
        Big::Add | Big::Mul => {
            let bits = *r.pick(&[2048, 2048, 2048, 2000, 1000]);
            let mut m = rand_big(r, bits);
            if m == BigInt::from(0) {
                m = one.clone();
            }
            let (x, y) = (rand_big(r, 2048) % &m, rand_big(r, 2048) % &m);
            let t = if op == Big::Add { &x + &y } else { &x * &y };
            let (res, carry) = (&t % &m, &t / &m);
            let pack = |x: &BigInt, y: &BigInt, res: &BigInt, c: &BigInt| -> Vec<BN254Fr> {
                let mut v = [x, y, res, &m].iter().flat_map(|v| limbs(v, N_LIMBS)).collect::<Vec<_>>();
                v.extend(limbs(c, if op == Big::Add { 1 } else { N_LIMBS }));
                v
            };
            let good = pack(&x, &y, &res, &carry);
            o.distinct(&format!("{op:?} {good:?}"));
            let e = runs(op, &good);
            ensure!(e.is_ok(), "true-refused", "{op:?} of {x:?} and {y:?} modulo {m:?} is refused: {}", e.unwrap_err());
            o.count("true equations accepted", 1);
            for _ in 0..4 {
                let mut bad = good.clone();
                let i = match r.below(3) {
                    0 => r.below(bad.len()),
                    1 => r.range(2 * N_LIMBS, 3 * N_LIMBS - 1),
                    _ => r.below(2 * N_LIMBS),
                };
                let old = bad[i];
                bad[i] = match r.below(3) {
                    0 => old + BN254Fr::one(),
                    1 if old != BN254Fr::zero() => old - BN254Fr::one(),
                    _ => to_fr(&rand_big(r, 120)),
                };
                let val = |k: usize| (0..N_LIMBS).rev().fold(BigInt::from(0), |a, j| (a << B120) + BigInt::parse_bytes(bad[k * N_LIMBS + j].to_u256().to_string().as_bytes(), 10).unwrap());
                let too_wide = bad.iter().any(|v| v.to_u256() >= U256::ONE << 120);
                if too_wide {
                    continue;
                }
                let c = if op == Big::Add { BigInt::parse_bytes(bad[4 * N_LIMBS].to_u256().to_string().as_bytes(), 10).unwrap() } else { val(4) };
                let lhs = if op == Big::Add { val(0) + val(1) } else { val(0) * val(1) };
                let still = lhs == val(2) + &c * val(3) && (op == Big::Mul || (val(2) < val(3) && c < BigInt::from(2)));
                let e = runs(op, &bad);
                ensure!(e.is_ok() == still, if still { "true-refused" } else { "false-accepted" }, "{op:?}: the equation is {still} with limb {i} changed from {old:?} to {:?}, the evaluator says {}", bad[i], e.is_ok());
                o.count(if still { "true equations accepted" } else { "false equations refused" }, 1);
            }
            if op == Big::Add && x < m && res.clone() + &m < (one << 2048) && carry > BigInt::from(0) {
                // the unreduced sum without a carry
                let t = &res + &m;
                ensure!(runs(op, &pack(&x, &y, &t, &BigInt::from(0))).is_err(), "unreduced-accepted", "{op:?} accepts a result that is not below the modulus");
                o.count("unreduced results refused", 1);
            }
        }
        Big::Product => {
            let (x, y) = (rand_big(r, 2048), rand_big(r, 2048));
            let out = runs(op, &[limbs(&x, N_LIMBS), limbs(&y, N_LIMBS)].concat()).map_err(|e| viol!("refused", "product of {x:?} and {y:?}: {e}"))?;
            ensure!(out == limbs(&(&x * &y), 2 * N_LIMBS), "product", "the product of {x:?} and {y:?} is wrong");
            o.distinct(&format!("{x:?}{y:?}"));
            o.count("products compared", 1);
        }
        Big::Bytes => {
            let v = match r.below(3) {
                0 => {
                    let n = r.range(1, 31);
                    rand_big(r, 8 * n)
                }
                1 => BigInt::parse_bytes((BN254Fr::MODULUS - U256::from(1 + r.below(9) as u64)).to_string().as_bytes(), 10).unwrap(),
                _ => rand_big(r, 253),
            };
            let out = runs(op, &[to_fr(&v)]).map_err(|e| viol!("refused", "bytes of {v:?}: {e}"))?;
            let mut w = v.clone();
            for (i, b) in out.iter().enumerate() {
                ensure!(*b == to_fr(&(&w % &BigInt::from(256))), "bytes", "byte {i} of {v:?} is {b:?}");
                w >>= 8;
            }
            o.distinct(&format!("{v:?}"));
            o.count("byte decompositions compared", 1);
        }
        Big::Accumulate(_) => {
            let n = r.range(2, 40);
            let v: Vec<BigInt> = (0..n).map(|_| rand_big(r, 120)).collect();
            let s = v.iter().fold(BigInt::from(0), |a, b| a + b);
            let out = runs(Big::Accumulate(n), &v.iter().map(to_fr).collect::<Vec<_>>()).map_err(|e| viol!("refused", "sum of {v:?}: {e}"))?;
            ensure!(out == [to_fr(&(&s % &(one.clone() << B120))), to_fr(&(&s >> B120))], "accumulate", "the sum of {v:?} is {out:?}");
            o.distinct(&format!("{v:?}"));
            o.count("sums compared", 1);
        }
        _ => {
            let x = rand_big(r, 2048);
            let mut y = if r.chance(1, 3) { rand_big(r, 2048) } else { x.clone() };
            if r.chance(1, 2) {
                let l = one << (B120 * r.below(17) + r.below(119));
                y = if r.chance(1, 2) || y < l { y + l } else { y - l };
                if y.bits() > 2048 {
                    y = x.clone();
                }
            }
            let want = match op {
                Big::Less => x < y,
                Big::Equal => x == y,
                _ => x >= y,
            };
            let out = runs(op, &[limbs(&x, N_LIMBS), limbs(&y, N_LIMBS)].concat());
            o.distinct(&format!("{op:?}{x:?}{y:?}"));
            let out = out.map_err(|e| viol!("refused", "{op:?} of {x:?} and {y:?}: {e}"))?;
            ensure!(out == [BN254Fr::from(want as u32)], "comparison", "{op:?} of {x:?} and {y:?} gives {out:?}");
            o.count("comparisons compared", 1);
        }
    }
    if o.wants_sample() {
        o.sample(json!({"operation": format!("{op:?}")}));
    }
    Ok(())
}
pub fn l04(d: &mut Driver) {
    d.cases("operations", d.n(10000, 200000), big_case);
    d.cases("compiled operations", d.n(60, 1000), |r, o| {
        let op = *r.pick(&[Big::Add, Big::Add, Big::Mul, Big::Less, Big::Equal]);
        let n = match op {
            Big::Add => 4 * N_LIMBS + 1,
            Big::Mul => 5 * N_LIMBS,
            _ => 2 * N_LIMBS,
        };
        let outs = matches!(op, Big::Less | Big::Equal) as usize;
        let c = build::<BN, _>(&op, n, outs).map_err(|e| viol!("compile", "{op:?}: {e}"))?;
        for k in 0..3 {
            let m = rand_big(r, 2047) + BigInt::from(3);
            let (x, y) = (rand_big(r, 2048) % &m, rand_big(r, 2048) % &m);
            let t = if op == Big::Add { &x + &y } else { &x * &y };
            let mut v = [limbs(&x, N_LIMBS), limbs(&y, N_LIMBS)].concat();
            let mut y1 = vec![];
            if outs == 0 {
                v.extend(limbs(&(&t % &m), N_LIMBS));
                v.extend(limbs(&m, N_LIMBS));
                v.extend(limbs(&(&t / &m), n - 4 * N_LIMBS));
            } else {
                y1.push(BN254Fr::from(if op == Big::Less { x < y } else { x == y } as u32));
            }
            if k > 0 {
                if outs == 0 {
                    let i = r.range(2 * N_LIMBS, 3 * N_LIMBS - 1);
                    v[i] += BN254Fr::one();
                } else {
                    y1[0] = BN254Fr::one() - y1[0];
                }
            }
            let got = c.accepts(&v, &y1, &EmptyHintCaller).unwrap_or(false);
            ensure!(got == (k == 0), if k == 0 { "true-refused" } else { "false-accepted" }, "compiled {op:?} says {got} of a claim that is {}", k == 0);
            o.count("compiled verdicts", 1);
            o.distinct(&format!("{v:?}"));
        }
        Ok(())
    });
}
