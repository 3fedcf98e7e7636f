//! L09: the RSA signature circuit; L10: its native 2048-bit integers.
use crate::arithm::rand_big;
use circuit_std_rs::{MASK120, MASK8, N_LIMBS};
use expander_compiler::frontend::extra::debug_eval;
use expander_compiler::frontend::{compile, BN254Config, CompileOptions, CompileResult, EmptyHintCaller, Variable, WitnessSolver};
use halo2curves::bn256::Fr;
use num_bigint::{BigInt, BigUint};
use num_traits::ToPrimitive;
use rand::{rngs::StdRng, SeedableRng};
use rsa_circuit::native::{add_u120_with_carry, mul_u120_with_carry};
use rsa_circuit::vp::{self, Circuit, Num};
use serde_json::json;
use serdes::ExpSerde;
use std::sync::OnceLock;
use vpc::*;

const HASH_IN: usize = 1504;

fn base() -> BigInt {
    BigInt::from(1) << 120
}
fn uns(v: &BigInt) -> BigUint {
    v.to_biguint().unwrap()
}
fn sig(v: &BigUint) -> BigInt {
    BigInt::from(v.clone())
}
/// Independent of the repository: limbs from the integer.
fn split(v: &BigInt) -> [u128; N_LIMBS] {
    let mut v = v.clone();
    let mut out = [0; N_LIMBS];
    for l in &mut out {
        *l = (&v % &base()).to_u128().unwrap();
        v >>= 120;
    }
    assert!(v == BigInt::from(0));
    out
}
fn join(v: &[u128]) -> BigInt {
    v.iter().rev().fold(BigInt::from(0), |a, l| (a << 120) + BigInt::from(*l))
}
fn num(v: &BigInt) -> Num {
    Num::new(split(v))
}
fn fr(l: u128) -> Fr {
    Fr::from_raw([l as u64, (l >> 64) as u64, 0, 0])
}
fn un_fr(v: &Fr) -> u128 {
    let (hi, lo) = v.to_u256().into_words();
    assert!(hi == 0);
    lo
}
use arith::Field as _;

/// A modulus and a base below it.
fn key(r: &mut Rng) -> (BigInt, BigInt) {
    let one = BigInt::from(1);
    let n = match r.below(8) {
        0 => (one.clone() << 2048) - BigInt::from(1 + r.below(3) as u64),
        1 => {
            let k = r.range(1, 2047);
            (one.clone() << k) + BigInt::from(r.below(3) as u64)
        }
        2 => (one.clone() << 2047) + (one.clone() << (120 * r.range(0, 17))),
        3 => BigInt::from(1 + r.below(50) as u64),
        _ => {
            let bits = *r.pick(&[2048, 2048, 2041, 2040, 1024, 500]);
            rand_big(r, bits) | one.clone()
        }
    };
    let x = match r.below(6) {
        0 => BigInt::from(r.below(4) as u64) % &n,
        1 => &n - &one,
        2 => &n >> r.range(1, 40),
        _ => rand_big(r, 2048) % &n,
    };
    (n, x)
}
struct Trace {
    n: BigInt,
    x: BigInt,
    pow: Vec<BigInt>,
    quo: Vec<BigInt>,
}
fn trace(n: &BigInt, x: &BigInt) -> Trace {
    let (mut pow, mut quo) = (vec![], vec![]);
    let mut cur = x.clone();
    for k in 0..17 {
        let t = if k < 16 { &cur * &cur } else { &cur * x };
        cur = &t % n;
        quo.push(&t / n);
        pow.push(cur.clone());
    }
    Trace { n: n.clone(), x: x.clone(), pow, quo }
}
/// The values of an assignment and whether all 17 equations and the final equality are true of it.
struct Values {
    x: [u128; N_LIMBS],
    n: [u128; N_LIMBS],
    pow: [[u128; N_LIMBS]; 17],
    quo: [[u128; N_LIMBS]; 17],
    res: [u128; N_LIMBS],
}
impl Values {
    fn of(t: &Trace) -> Values {
        let a = |v: &[BigInt]| std::array::from_fn(|i| split(&v[i]));
        Values { x: split(&t.x), n: split(&t.n), pow: a(&t.pow), quo: a(&t.quo), res: split(&t.pow[16]) }
    }
    fn truth(&self) -> Result<(), String> {
        let (x, n) = (join(&self.x), join(&self.n));
        let pow: Vec<BigInt> = self.pow.iter().map(|p| join(p)).collect();
        for k in 0..17 {
            let lhs = match k {
                0 => &x * &x,
                16 => &x * &pow[15],
                _ => &pow[k - 1] * &pow[k - 1],
            };
            if lhs != &pow[k] + join(&self.quo[k]) * &n {
                return Err(format!("equation {k} is false"));
            }
        }
        if self.pow[16] != self.res {
            return Err("the result is not the last power".into());
        }
        Ok(())
    }
    fn put(&self, c: &mut Circuit<Fr>) {
        let (x, n, pow, quo, res) = vp::parts(c);
        let l = |v: &[u128; N_LIMBS]| v.map(fr);
        *x = l(&self.x);
        *n = l(&self.n);
        *pow = self.pow.map(|p| l(&p));
        *quo = self.quo.map(|p| l(&p));
        *res = l(&self.res);
    }
}
fn hash_bytes(r: &mut Rng) -> Vec<u8> {
    r.bytes(HASH_IN)
}
fn assignment(t: &Trace, r: &mut Rng) -> Result<Circuit<Fr>, String> {
    let (x, n, res) = (num(&t.x), num(&t.n), num(&t.pow[16]));
    let h = hash_bytes(r);
    catch(|| {
        let (p, c) = vp::traces(&x, &n, &res);
        vp::assign(&x, &n, p, c, &res, &h)
    })
}
fn evaluate(c: &Circuit<Fr>) -> Result<(), String> {
    catch(|| debug_eval::<BN254Config, _, _, _>(&Circuit::<Variable>::default(), c, EmptyHintCaller)).map(|_| ())
}
/// Change something; sometimes so that just one of the equations becomes false.
fn tamper(r: &mut Rng, t: &Trace, v: &mut Values) -> &'static str {
    let one = BigInt::from(1);
    match r.below(6) {
        0 | 1 => {
            // from power k on, the chain of another number: only equation k is false
            let k = r.below(16);
            let other = if r.chance(1, 2) { (&t.pow[k] + &one) % &t.n } else { rand_big(r, 2048) % &t.n };
            let mut pow = t.pow.clone();
            let mut quo = t.quo.clone();
            pow[k] = other;
            for j in k + 1..17 {
                let s = if j < 16 { &pow[j - 1] * &pow[j - 1] } else { &pow[15] * &t.x };
                pow[j] = &s % &t.n;
                quo[j] = &s / &t.n;
            }
            *v = Values::of(&Trace { n: t.n.clone(), x: t.x.clone(), pow, quo });
            "another chain"
        }
        2 => {
            // an unreduced power: still true of that equation, and made true of the next
            let k = r.below(17);
            let p = &t.pow[k] + &t.n;
            if t.quo[k] > BigInt::from(0) && p.bits() <= 2160 {
                v.pow[k] = split(&p);
                v.quo[k] = split(&(&t.quo[k] - &one));
                if k == 16 {
                    if r.chance(1, 2) {
                        v.res = v.pow[16];
                    }
                } else {
                    let s = if k < 15 { &p * &p } else { &p * &t.x };
                    v.quo[k + 1] = split(&((s - &t.pow[k + 1]) / &t.n));
                }
            }
            "an unreduced power"
        }
        _ => {
            let row: &mut [u128; N_LIMBS] = match r.below(8) {
                0 => &mut v.x,
                1 => &mut v.n,
                2 => &mut v.res,
                3 | 4 => &mut v.quo[r.below(17)],
                _ => &mut v.pow[r.below(17)],
            };
            let i = r.below(N_LIMBS);
            row[i] = match r.below(4) {
                0 => (row[i] + 1) & MASK120,
                1 => row[i].wrapping_sub(1) & MASK120,
                2 => row[i] ^ (1 << r.below(120)),
                _ => (r.u64() as u128 | (r.u64() as u128) << 64) & MASK120,
            };
            "one limb"
        }
    }
}
fn case(r: &mut Rng, o: &mut Obs) -> CaseResult {
    let (n, x) = key(r);
    let t = trace(&n, &x);
    let what = format!("x = {x:?}, n = {n:?}");
    o.distinct(&what);
    let mut c = assignment(&t, r).map_err(|e| viol!("no-assignment", "{what}: {e}"))?;
    let mut v = Values::of(&t);
    {
        let (cx, cn, cp, cq, cr) = vp::parts(&mut c);
        let same = |a: &[Fr; N_LIMBS], b: &[u128; N_LIMBS]| a.iter().map(un_fr).eq(b.iter().cloned());
        ensure!(same(cx, &v.x) && same(cn, &v.n) && same(cr, &v.res), "assignment", "the assignment of {what} does not hold its inputs");
        for k in 0..17 {
            ensure!(same(&cp[k], &v.pow[k]), "power", "power {k} of {what} is wrong");
            ensure!(same(&cq[k], &v.quo[k]), "quotient", "quotient {k} of {what} is wrong");
        }
    }
    o.count("powers and quotients compared", 34);
    assert!(v.truth().is_ok());
    let e = evaluate(&c);
    ensure!(e.is_ok(), "true-refused", "the circuit refuses the trace of {what}: {}", e.unwrap_err());
    o.count("true assignments accepted", 1);
    for _ in 0..3 {
        v = Values::of(&t);
        let kind = tamper(r, &t, &mut v);
        v.put(&mut c);
        let (want, got) = (v.truth(), evaluate(&c));
        ensure!(want.is_ok() || got.is_err(), "false-accepted", "{kind} changed in the trace of {what}: {}, yet the circuit accepts", want.unwrap_err());
        ensure!(want.is_err() || got.is_ok(), "true-refused", "{kind} changed in the trace of {what}: all equations are true, the circuit says {}", got.unwrap_err());
        o.count(if want.is_ok() { "true assignments accepted" } else { "false assignments refused" }, 1);
        if let Err(e) = want {
            o.distinct(&format!("{kind} {e}"));
        }
    }
    // a wrong result is no trace at all
    let wrong = num(&((&t.pow[16] + BigInt::from(1)) % (&n + BigInt::from(1))));
    if wrong != num(&t.pow[16]) {
        ensure!(catch(|| vp::traces(&num(&x), &num(&n), &wrong)).is_err(), "wrong-result", "a trace is built for a wrong power of {what}");
        o.count("wrong results refused by the trace builder", 1);
    }
    if o.wants_sample() {
        o.sample(json!({"modulus bits": n.bits(), "base bits": x.bits()}));
    }
    Ok(())
}
static COMPILED: OnceLock<Result<CompileResult<BN254Config>, String>> = OnceLock::new();
fn compiled() -> Result<&'static CompileResult<BN254Config>, Violation> {
    COMPILED
        .get_or_init(|| catch(|| compile(&Circuit::<Variable>::default(), CompileOptions::default())).and_then(|r| r.map_err(|e| format!("{e:?}"))))
        .as_ref()
        .map_err(|e| viol!("compile", "the circuit does not compile: {e}"))
}
fn compiled_case(r: &mut Rng, o: &mut Obs) -> CaseResult {
    let cr = compiled()?;
    let (n, x) = key(r);
    let t = trace(&n, &x);
    let what = format!("x = {x:?}, n = {n:?}");
    let mut c = assignment(&t, r).map_err(|e| viol!("no-assignment", "{what}: {e}"))?;
    let mut v = Values::of(&t);
    for k in 0..3 {
        if k > 0 {
            v = Values::of(&t);
            tamper(r, &t, &mut v);
            v.put(&mut c);
        }
        let want = v.truth().is_ok();
        let w = catch(|| cr.witness_solver.solve_witness(&c)).map_err(|e| viol!("solver", "{what}: {e}"))?;
        let got = match w {
            Err(e) if want => return Err(viol!("true-refused", "the solver declines the trace of {what}: {e:?}")),
            Err(_) => false,
            Ok(w) => catch(|| cr.layered_circuit.run(&w)).map_err(|e| viol!("run", "{what}: {e}"))?.iter().all(|b| *b),
        };
        ensure!(got == want, if want { "true-refused" } else { "false-accepted" }, "the compiled circuit says {got} of a {want} trace of {what}");
        o.count(if want { "true traces accepted by the compiled circuit" } else { "false traces refused by the compiled circuit" }, 1);
        o.distinct(&format!("compiled {k} {what}"));
    }
    Ok(())
}
fn demo(o: &mut Obs, dir: &std::path::Path) -> CaseResult {
    let back = std::env::current_dir().unwrap();
    std::env::set_current_dir(dir).unwrap();
    let e = catch(vp::demo);
    std::env::set_current_dir(back).unwrap();
    e.map_err(|e| viol!("demonstration", "the program breaks down: {e}"))?;
    let read = |f: &str| std::fs::read(dir.join(f)).map_err(|e| viol!("demonstration", "no {f}: {e}"));
    let bad = |f: &str, e: String| viol!("demonstration", "{f} cannot be read back: {e}");
    let c = catch(|| expander_compiler::circuit::layered::Circuit::<BN254Config, expander_compiler::circuit::layered::NormalInputType>::deserialize_from(&*read("circuit_rsa.txt").unwrap()))
        .and_then(|r| r.map_err(|e| format!("{e:?}")))
        .map_err(|e| bad("circuit_rsa.txt", e))?;
    let w = catch(|| expander_compiler::circuit::layered::witness::Witness::<BN254Config>::deserialize_from(&*read("witness_rsa.txt").unwrap()))
        .and_then(|r| r.map_err(|e| format!("{e:?}")))
        .map_err(|e| bad("witness_rsa.txt", e))?;
    let s = catch(|| WitnessSolver::<BN254Config>::deserialize_from(&*read("witness_rsa_solver.txt").unwrap()))
        .and_then(|r| r.map_err(|e| format!("{e:?}")))
        .map_err(|e| bad("witness_rsa_solver.txt", e))?;
    let out = catch(|| c.run(&w)).map_err(|e| viol!("demonstration", "the dumped circuit does not run: {e}"))?;
    ensure!(out == [true], "demonstration", "the dumped circuit says {out:?} of the dumped witness");
    o.count("dumped witnesses accepted by the dumped circuit", 1);
    // the dumped solver makes witnesses for the dumped circuit
    let r = &mut Rng::new(5);
    let (n, x) = key(r);
    let a = assignment(&trace(&n, &x), r).map_err(|e| viol!("no-assignment", "{e}"))?;
    let w = catch(|| s.solve_witness(&a)).and_then(|r| r.map_err(|e| format!("{e:?}"))).map_err(|e| viol!("demonstration", "the dumped solver fails: {e}"))?;
    ensure!(c.run(&w) == [true], "demonstration", "the dumped circuit refuses the dumped solver's witness");
    o.count("witnesses of the dumped solver accepted", 1);
    Ok(())
}
pub fn l09(d: &mut Driver) {
    d.cases("traces", d.n(500, 8000), case);
    let dir = d.scratch.clone();
    d.scenario("demonstration", move |_, o| demo(o, &dir));
    d.cases_seq("compiled", d.n(3, 60), compiled_case);
}

// ---------------------------------------------------------------- native integers
fn limb(r: &mut Rng) -> u128 {
    let v = r.u64() as u128 | (r.u64() as u128) << 64;
    match r.below(6) {
        0 => r.below(4) as u128,
        1 => MASK120 - r.below(4) as u128,
        2 => 1 << r.below(120),
        3 => v & ((1 << 60) - 1),
        _ => v & MASK120,
    }
}
fn native_case(r: &mut Rng, o: &mut Obs) -> CaseResult {
    let one = BigInt::from(1);
    match r.below(9) {
        0 => {
            let v = match r.below(3) {
                0 => (one.clone() << r.range(0, 2048)) - &one,
                1 => one.clone() << r.range(0, 2047),
                _ => {
                    let bits = r.range(1, 2048);
                    rand_big(r, bits)
                }
            };
            let e = catch(|| Num::from_big_uint(uns(&v))).map_err(|e| viol!("conversion", "{v:?}: {e}"))?;
            ensure!(e.data == split(&v), "conversion", "limbs of {v:?} are {:?}", e.data);
            ensure!(sig(&e.to_big_uint()) == v, "conversion", "{v:?} becomes {:?}", e.to_big_uint());
            ensure!(sig(&BigUint::from(e)) == v && Num::from(uns(&v)) == e, "conversion", "conversions of {v:?} differ");
            let f: [Fr; N_LIMBS] = e.into();
            ensure!(f.iter().map(un_fr).eq(e.data.iter().cloned()), "field", "the field elements of {v:?} are {f:?}");
            o.distinct(&format!("{v:?}"));
            o.count("numbers converted", 1);
        }
        1 => {
            let v = rand_big(r, 2160);
            if v.bits() > 2048 {
                ensure!(catch(|| Num::from_big_uint(uns(&v))).is_err(), "too-wide", "{v:?} is taken for a 2048-bit number");
                o.count("wider numbers refused", 1);
            }
            let e = Num::new(split(&v));
            ensure!(sig(&e.to_big_uint()) == v, "conversion", "limbs of {v:?} become {:?}", e.to_big_uint());
            let s = e.to_string();
            ensure!(s.len() == 540 && BigInt::parse_bytes(s.as_bytes(), 16) == Some(v.clone()), "string", "{v:?} is written {s}");
            ensure!(Num::from_string(&s) == e, "string", "{s} is read as {:?}", Num::from_string(&s).data);
            o.distinct(&s);
            o.count("strings written and read", 1);
        }
        2 => {
            let mut g = StdRng::seed_from_u64(r.u64());
            let (a, b) = (Num::random(&mut g), Num::random(&mut g));
            for v in [a, b] {
                ensure!(v.data[..N_LIMBS - 1].iter().all(|l| *l <= MASK120) && v.data[N_LIMBS - 1] <= MASK8, "random-range", "random number out of range: {:?}", v.data);
            }
            ensure!(a != b && a.data[..N_LIMBS - 1].iter().all(|l| *l > 0) && a.data[..N_LIMBS - 1].iter().chain(&b.data[..N_LIMBS - 1]).any(|l| l >> 119 == 1), "random-range", "random numbers are poor: {a:?} {b:?}");
            o.count("random numbers in range", 2);
        }
        3 => {
            for _ in 0..20 {
                let (a, b, c) = (limb(r), limb(r), limb(r));
                let (s, k) = add_u120_with_carry(&a, &b, &c);
                ensure!(s <= MASK120 && BigInt::from(a) + BigInt::from(b) + BigInt::from(c) == BigInt::from(s) + BigInt::from(k) * base(), "limb-sum", "{a} + {b} + {c} = {s} carry {k}");
                let (s, k) = catch(|| mul_u120_with_carry(&a, &b, &c)).map_err(|e| viol!("limb-product", "{a} * {b} + {c}: {e}"))?;
                ensure!(s <= MASK120 && BigInt::from(a) * BigInt::from(b) + BigInt::from(c) == BigInt::from(s) + BigInt::from(k) * base(), "limb-product", "{a} * {b} + {c} = {s} carry {k}");
                o.distinct(&format!("{a} {b} {c}"));
            }
            o.count("limb sums and products compared", 40);
        }
        4 | 5 => {
            let (n, x) = key(r);
            let y = rand_big(r, 2048) % &n;
            let t = &x + &y;
            let c = t >= n;
            let res = if c { &t - &n } else { t.clone() };
            let mut v = [split(&x), split(&y), split(&n), split(&res)];
            let f = |v: &[[u128; N_LIMBS]; 4], c: bool| {
                let w = v.map(Num::new);
                catch(|| Num::assert_addition(&w[0], &w[1], &w[2], &c, &w[3])).is_ok()
            };
            ensure!(f(&v, c), "true-refused", "{x:?} + {y:?} = {res:?} mod {n:?} (carry {c}) is refused");
            ensure!(!f(&v, !c), "false-accepted", "{x:?} + {y:?} = {res:?} mod {n:?} is accepted with carry {}", !c);
            for _ in 0..4 {
                let (k, i) = (r.below(4), r.below(N_LIMBS - 1));
                let old = v[k][i];
                v[k][i] = match r.below(3) {
                    0 => (old + 1) & MASK120,
                    1 => old ^ (1 << r.below(120)),
                    _ => limb(r),
                };
                let want = join(&v[0]) + join(&v[1]) == join(&v[3]) + if c { join(&v[2]) } else { BigInt::from(0) };
                ensure!(f(&v, c) == want, if want { "true-refused" } else { "false-accepted" }, "sum {v:?} carry {c} is {want}");
                o.count(if want { "true sums accepted" } else { "false sums refused" }, 1);
                v[k][i] = old;
            }
            o.count("true sums accepted", 1);
            o.count("false sums refused", 1);
            o.distinct(&format!("{x:?}{y:?}"));
        }
        6 | 7 => {
            let (n, x) = key(r);
            let y = rand_big(r, 2048) % &n;
            let t = &x * &y;
            let mut v = [split(&x), split(&y), split(&n), split(&(&t / &n)), split(&(&t % &n))];
            let f = |v: &[[u128; N_LIMBS]; 5]| {
                let w = v.map(Num::new);
                catch(|| Num::assert_multiplication(&w[0], &w[1], &w[2], &w[3], &w[4])).is_ok()
            };
            ensure!(f(&v), "true-refused", "{x:?} * {y:?} mod {n:?} is refused");
            for _ in 0..4 {
                let (k, i) = (r.below(5), r.below(N_LIMBS));
                let old = v[k][i];
                v[k][i] = match r.below(3) {
                    0 => (old + 1) & MASK120,
                    1 => old ^ (1 << r.below(120)),
                    _ => limb(r),
                };
                if i == N_LIMBS - 1 {
                    v[k][i] &= MASK8;
                }
                let want = join(&v[0]) * join(&v[1]) == join(&v[4]) + join(&v[2]) * join(&v[3]);
                ensure!(f(&v) == want, if want { "true-refused" } else { "false-accepted" }, "product {v:?} is {want}");
                o.count(if want { "true products accepted" } else { "false products refused" }, 1);
                v[k][i] = old;
            }
            o.count("true products accepted", 1);
            o.distinct(&format!("{x:?}{y:?}"));
        }
        _ => {
            let (n, x) = key(r);
            let y = rand_big(r, 2048) % &n;
            let t = &x * &y;
            let (a, b, m) = (num(&x), num(&y), num(&n));
            let (res, quo) = catch(|| a.slow_mul_mod(&b, &m)).map_err(|e| viol!("modular-product", "{x:?} * {y:?} mod {n:?}: {e}"))?;
            ensure!(res == num(&(&t % &n)) && quo == num(&(&t / &n)), "modular-product", "{x:?} * {y:?} mod {n:?} = {res:?} quotient {quo:?}");
            let res = catch(|| a.mod_mul(&b, &m)).map_err(|e| viol!("modular-product", "{x:?} * {y:?} mod {n:?}: {e}"))?;
            ensure!(res == num(&(&t % &n)), "modular-product", "mod_mul: {x:?} * {y:?} mod {n:?} = {:?}", res.to_big_uint());
            o.count("modular products compared", 2);
            o.distinct(&format!("{x:?}{y:?}"));
        }
    }
    Ok(())
}
pub fn l10(d: &mut Driver) {
    d.cases("native integers", d.n(100000, 2000000), native_case);
}
