//! Lookup tables and range proofs.
use crate::gad::*;
use arith::Field as _;
use circuit_std_rs::logup::*;
use circuit_std_rs::{LogUpCircuit, LogUpParams, StdCircuit};
use ethnum::U256;
use expander_compiler::circuit::config::*;
use expander_compiler::frontend::extra::{HintCaller, HintRegistry};
use expander_compiler::frontend::internal::DumpLoadTwoVariables;
use expander_compiler::frontend::*;
use serde_json::json;
use std::collections::HashMap;
use vpc::{catch, ensure, hash_of, viol, CaseResult, Driver, Obs, Rng, Violation};

macro_rules! by_big_field {
    ($k:expr, $f:ident ( $($a:expr),* )) => {
        match $k % 4 {
            0 => $f::<M31Config>($($a),*),
            1 => $f::<BN254Config>($($a),*),
            2 => $f::<GoldilocksConfig>($($a),*),
            _ => $f::<BabyBearConfig>($($a),*),
        }
    };
}
pub(crate) use by_big_field;

pub fn hints<C: Config>() -> HintRegistry<F<C>> {
    let mut h = HintRegistry::new();
    h.register("myhint.querycounthint", query_count_hint);
    h.register("myhint.querycountbykeyhint", query_count_by_key_hint);
    h.register("myhint.rangeproofhint", rangeproof_hint);
    h
}
fn bits<C: Config>() -> usize {
    let m = F::<C>::MODULUS;
    256 - m.leading_zeros() as usize
}
fn big<C: Config>(v: U256) -> F<C> {
    F::<C>::from_u256(v)
}
fn rand_f<C: Config>(r: &mut Rng) -> F<C> {
    let raw = U256::from_words(r.u64() as u128 | (r.u64() as u128) << 64, r.u64() as u128 | (r.u64() as u128) << 64);
    big::<C>(raw % F::<C>::MODULUS)
}
fn p<C: Config>() -> U256 {
    F::<C>::MODULUS
}
fn name<C: Config>() -> String {
    std::any::type_name::<F<C>>().rsplit("::").next().unwrap().to_string()
}

/// Accepted under three independent challenges: one alone may be unlucky.
pub fn really(mut f: impl FnMut() -> bool) -> bool {
    f() && f() && f()
}

// ---------------------------------------------------------------- range proofs
#[derive(Clone, Debug, Hash)]
struct Range {
    table_bits: usize,
    /// Width of each checked value; `None` is a bare table query.
    widths: Vec<Option<usize>>,
    /// Rows added by hand in front of the standard ones.
    by_hand: bool,
    counts_given: bool,
}
impl<C: Config> Gadget<C> for Range {
    fn build<B: RootAPI<C>>(&self, b: &mut B, x: &[Variable]) -> Vec<Variable> {
        let mut t = LogUpRangeProofTable::new(self.table_bits);
        if self.by_hand {
            for i in 0..1u32 << self.table_bits {
                let k = b.constant(i);
                t.add_table_row(k);
            }
        } else {
            t.initial(b);
        }
        for (w, v) in self.widths.iter().zip(x) {
            match w {
                None if self.by_hand => t.add_query(*v),
                None => t.query_range(*v),
                Some(n) if self.by_hand && *n <= self.table_bits => t.rangeproof_onechunk(b, *v, *n),
                Some(n) => t.rangeproof(b, *v, *n),
            }
        }
        if self.counts_given {
            t.final_check_with_query_count(b, &x[self.widths.len()..]);
        } else {
            t.final_check(b);
        }
        vec![]
    }
}
fn edge_value<C: Config>(r: &mut Rng, n: usize, tb: usize) -> U256 {
    let one = U256::ONE;
    let top = one << n as u32;
    match r.below(12) {
        0 => U256::ZERO,
        1 => top - one,
        2 => top,
        3 => p::<C>() - one,
        4 => p::<C>() - (U256::from(r.u64()) % top) - one,
        // values that come into range once shifted to whole chunks
        5 => {
            let w = n.div_ceil(tb) * tb;
            let shift = (one << w as u32) - top;
            let v = U256::from(r.u64()) % (one << w.min(60) as u32);
            (v + p::<C>() - shift % p::<C>()) % p::<C>()
        }
        6 => top + U256::from(r.u64()) % top,
        7 => top << (r.below(4) as u32),
        8 => rand_f::<C>(r).to_u256(),
        _ => (U256::from(r.u64()) | U256::from(r.u64()) << 64) % top,
    }
}
fn range_case<C: Config>(r: &mut Rng, o: &mut Obs) -> CaseResult {
    let tb = *r.pick(&[1usize, 2, 3, 4, 5, 8, 8]);
    let cap = (bits::<C>() - 2).min(128);
    let n_q = r.range(1, 5);
    let widths: Vec<Option<usize>> = (0..n_q)
        .map(|_| match r.below(6) {
            0 => None,
            1 => Some(tb),
            2 => Some(r.range(1, tb)),
            3 => Some(tb * r.range(1, cap / tb)),
            _ => Some(r.range(1, cap)),
        })
        .collect();
    let g = Range { table_bits: tb, widths: widths.clone(), by_hand: r.chance(1, 4), counts_given: false };
    let mut ok = true;
    let mut vals = vec![];
    let wild = r.chance(1, 2);
    let odd = r.below(n_q);
    for (i, w) in widths.iter().enumerate() {
        let n = w.unwrap_or(tb);
        let mut v = if wild && i == odd { edge_value::<C>(r, n, tb) } else { (U256::from(r.u64()) | U256::from(r.u64()) << 64) % (U256::ONE << n as u32) };
        v %= p::<C>();
        ok &= v < U256::ONE << n as u32;
        vals.push(v);
    }
    let x: Vec<F<C>> = vals.iter().map(|v| big::<C>(*v)).collect();
    let what = || format!("{}: table of {tb} bits, widths {widths:?}, values {vals:?}", name::<C>());
    o.distinct(&hash_of(&(&g, name::<C>(), format!("{vals:?}"))));
    if ok {
        let e = run::<C, _>(&g, &x, hints::<C>());
        ensure!(e.is_ok(), "in-range-refused", "values in range are refused ({}): {}", e.unwrap_err(), what());
        o.count("values in range accepted", n_q as u64);
        if o.wants_sample() {
            o.sample(json!({"field": name::<C>(), "table_bits": tb, "widths": widths, "values": vals.iter().map(|v| v.to_string()).collect::<Vec<_>>()}));
        }
        return Ok(());
    }
    // Out of range: no answer of the hints may make it pass.
    for attempt in 0..6 {
        let seed = r.u64();
        let e = || run::<C, _>(&g, &x, Lying { inner: hints::<C>(), lie: move |id, args: &[F<C>], out: &mut Vec<F<C>>| forge::<C>(attempt, seed, tb, id, args, out) });
        ensure!(!really(|| e().is_ok()), "out-of-range-accepted", "a value out of range is accepted (answers forged: {attempt}): {}", what());
        o.count("out-of-range attempts refused", 1);
    }
    Ok(())
}
/// Answers a dishonest prover may give.
fn forge<C: Config>(attempt: u32, seed: u64, tb: usize, id: usize, args: &[F<C>], out: &mut Vec<F<C>>) {
    use expander_compiler::hints::registry::hint_key_to_id as key;
    let mut r = Rng::new(seed);
    if id == key("myhint.rangeproofhint") {
        // limbs that add up to the value, not all of them within the table
        let k = out.len();
        let base = U256::ONE << tb as u32;
        match attempt {
            1 | 4 => {
                // everything above the first limb goes to the last one
                let mut rest = args[2];
                for (i, v) in out.iter_mut().enumerate() {
                    let w = big::<C>((U256::ONE << (tb * i) as u32) % p::<C>());
                    if i + 1 == k {
                        *v = rest * w.inv().unwrap_or(F::<C>::zero());
                    } else {
                        *v = if attempt == 1 { F::<C>::zero() } else { big::<C>(U256::from(r.u64()) % base) };
                        rest -= *v * w;
                    }
                }
            }
            2 => {
                // the value plus a multiple of the modulus, in base 2^tb
                let mut v = args[2].to_u256() + p::<C>() * U256::from(1 + r.below(3) as u64);
                for x in out.iter_mut() {
                    *x = big::<C>(v % base);
                    v /= base;
                }
            }
            3 => {
                out.iter_mut().for_each(|v| *v = big::<C>(U256::from(r.u64()) % base));
                out[0] = args[2];
                for (i, v) in out.clone().iter().enumerate().skip(1) {
                    let w = big::<C>((U256::ONE << (tb * i) as u32) % p::<C>());
                    out[0] -= *v * w;
                }
            }
            _ => {}
        }
    } else if id == key("myhint.querycounthint") {
        // honest counts for the keys that are in the table, whatever for the rest
        let mut c = vec![0u32; out.len()];
        let mut strays = 0;
        for a in args {
            let v = a.to_u256();
            if v < U256::from(c.len() as u64) {
                c[v.as_usize()] += 1;
            } else {
                strays += 1;
                match attempt {
                    1 => c[0] += 1,
                    2 => *c.last_mut().unwrap() += 1,
                    3 => c[(v % U256::from(out.len() as u64)).as_usize()] += 1,
                    _ => {}
                }
            }
        }
        for (o, c) in out.iter_mut().zip(&c) {
            *o = f::<C>(*c);
        }
        if strays > 0 && attempt == 5 {
            out.iter_mut().for_each(|v| *v = rand_f::<C>(&mut r));
        }
    } else if id == key("myhint.querycountbykeyhint") {
        match attempt {
            1 => {
                let i = r.below(out.len());
                out[i] += F::<C>::one();
            }
            2 => out.iter_mut().for_each(|v| *v = F::<C>::zero()),
            3 => out.iter_mut().for_each(|v| *v = F::<C>::one()),
            4 => out.iter_mut().for_each(|v| *v = rand_f::<C>(&mut r)),
            _ => {}
        }
    }
}
fn counts_case<C: Config>(r: &mut Rng, o: &mut Obs) -> CaseResult {
    let tb = r.range(1, 5);
    let n_q = r.range(1, 9);
    let g = Range { table_bits: tb, widths: vec![None; n_q], by_hand: false, counts_given: true };
    let vals: Vec<usize> = (0..n_q).map(|_| r.below(1 << tb)).collect();
    let mut counts = vec![0u32; 1 << tb];
    vals.iter().for_each(|v| counts[*v] += 1);
    let all = |v: &[usize], c: &[u32]| -> Vec<F<C>> { v.iter().map(|v| f::<C>(*v as u32)).chain(fs::<C>(c)).collect() };
    let h = hints::<C>;
    o.distinct(&(name::<C>(), tb, &vals));
    let e = run::<C, _>(&g, &all(&vals, &counts), h());
    ensure!(e.is_ok(), "right-counts-refused", "{}: queries {vals:?} with their counts are refused: {}", name::<C>(), e.unwrap_err());
    for _ in 0..4 {
        let (mut v, mut c) = (vals.clone(), counts.clone());
        match r.below(3) {
            0 => {
                let i = r.below(c.len());
                c[i] += 1 + r.below(3) as u32;
            }
            1 => {
                let (i, j) = (r.below(c.len()), r.below(c.len()));
                if c[i] == c[j] {
                    continue;
                }
                c.swap(i, j);
            }
            _ => {
                let i = r.below(v.len());
                v[i] = (1 << tb) + r.below(1 << 20);
            }
        }
        ensure!(!really(|| run::<C, _>(&g, &all(&v, &c), h()).is_ok()), "wrong-counts-accepted", "{}: queries {v:?} of a {tb}-bit table pass with counts {c:?}", name::<C>());
        o.count("wrong counts refused", 1);
    }
    o.count("right counts accepted", 1);
    Ok(())
}

// ---------------------------------------------------------------- keyed tables
#[derive(Clone, Debug, Hash)]
struct Keyed {
    rows: usize,
    queries: usize,
    width: usize,
    /// Which rows come from `new_table` (the rest one by one), which queries are batched.
    first_rows: usize,
    batched: usize,
    counts_given: bool,
}
impl<C: Config> Gadget<C> for Keyed {
    fn build<B: RootAPI<C>>(&self, b: &mut B, x: &[Variable]) -> Vec<Variable> {
        let w = 1 + self.width;
        let row = |i: usize| (x[i * w], x[i * w + 1..(i + 1) * w].to_vec());
        let mut t = LogUpSingleKeyTable::new(8);
        let (k, v) = (0..self.first_rows).map(row).unzip();
        t.new_table(k, v);
        for i in self.first_rows..self.rows {
            let (k, v) = row(i);
            t.add_table_row(k, v);
        }
        let (k, v) = (self.rows..self.rows + self.batched).map(row).unzip();
        t.batch_query(k, v);
        for i in self.rows + self.batched..self.rows + self.queries {
            let (k, v) = row(i);
            t.query(k, v);
        }
        if self.counts_given {
            t.final_check_with_query_count(b, &x[(self.rows + self.queries) * w..]);
        } else {
            t.final_check(b);
        }
        vec![]
    }
}
struct Table<C: Config> {
    keys: Vec<F<C>>,
    vals: Vec<Vec<F<C>>>,
}
fn table<C: Config>(r: &mut Rng, rows: usize, width: usize) -> Table<C> {
    let mut keys: Vec<F<C>> = vec![];
    while keys.len() < rows {
        let k = match r.below(4) {
            // keys that agree in their low 32 bits
            0 if bits::<C>() > 40 => {
                let low = U256::from(r.below(3) as u64);
                let high = U256::from(r.below(5) as u64) << (32 + r.below(8) as u32);
                big::<C>((low + high) % p::<C>())
            }
            1 => rand_f::<C>(r),
            2 => big::<C>(p::<C>() - U256::from(1 + r.below(8) as u64)),
            _ => f::<C>(r.below(40) as u32),
        };
        if !keys.contains(&k) {
            keys.push(k);
        }
    }
    let vals = (0..rows).map(|_| (0..width).map(|_| if r.chance(1, 3) { f::<C>(r.below(3) as u32) } else { rand_f::<C>(r) }).collect()).collect();
    Table { keys, vals }
}
fn keyed_case<C: Config>(r: &mut Rng, o: &mut Obs) -> CaseResult {
    let (rows, queries, width) = (r.range(1, 12), r.range(1, 12), r.below(4));
    let t = table::<C>(r, rows, width);
    let g = Keyed { rows, queries, width, first_rows: r.below(rows + 1), batched: r.below(queries + 1), counts_given: r.chance(1, 3) };
    let mut q: Vec<(F<C>, Vec<F<C>>)> = vec![];
    let mut counts = vec![0u32; rows];
    for _ in 0..queries {
        let i = r.below(rows);
        counts[i] += 1;
        q.push((t.keys[i], t.vals[i].clone()));
    }
    let flat = |q: &[(F<C>, Vec<F<C>>)], c: &[u32]| -> Vec<F<C>> {
        let mut x = vec![];
        for i in 0..rows {
            x.push(t.keys[i]);
            x.extend(&t.vals[i]);
        }
        for (k, v) in q {
            x.push(*k);
            x.extend(v);
        }
        if g.counts_given {
            x.extend(fs::<C>(c));
        }
        x
    };
    let show = |q: &[(F<C>, Vec<F<C>>)]| format!("{} {g:?}: keys {:?} values {:?} queries {q:?}", name::<C>(), t.keys, t.vals);
    o.distinct(&hash_of(&show(&q)));
    let e = run::<C, _>(&g, &flat(&q, &counts), hints::<C>());
    ensure!(e.is_ok(), "present-refused", "queries of rows that are present are refused ({}): {}", e.unwrap_err(), show(&q));
    o.count("lookups accepted", queries as u64);
    for _ in 0..4 {
        let mut bad = q.clone();
        let i = r.below(queries);
        let j = r.below(rows);
        match r.below(4) {
            // another row's values under this key
            0 if width > 0 => bad[i].1 = t.vals[j].clone(),
            1 if width > 0 => {
                let c = r.below(width);
                bad[i].1[c] += f::<C>(1 + r.below(4) as u32);
            }
            2 => bad[i].0 = t.keys[j],
            _ => bad[i].0 = rand_f::<C>(r),
        }
        let present = bad.iter().all(|(k, v)| (0..rows).any(|i| t.keys[i] == *k && t.vals[i] == *v));
        if present {
            continue;
        }
        for attempt in 0..5 {
            let seed = r.u64();
            let mut c = counts.clone();
            if attempt > 0 && g.counts_given {
                let i = r.below(rows);
                c[i] = r.below(queries + 1) as u32;
            }
            let e = || run::<C, _>(&g, &flat(&bad, &c), Lying { inner: hints::<C>(), lie: move |id, a: &[F<C>], out: &mut Vec<F<C>>| forge::<C>(attempt, seed, 0, id, a, out) });
            ensure!(!really(|| e().is_ok()), "absent-accepted", "a query that is not in the table passes (attempt {attempt}): {}", show(&bad));
            o.count("absent rows refused", 1);
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- the stand-alone circuit
struct Flat<T>(Vec<T>);
impl<T: Clone> DumpLoadTwoVariables<T> for Flat<T> {
    fn dump_into(&self, v: &mut Vec<T>, _: &mut Vec<T>) {
        v.extend(self.0.iter().cloned())
    }
    fn load_from(&mut self, _: &mut &[T], _: &mut &[T]) {}
    fn num_vars(&self) -> (usize, usize) {
        (self.0.len(), 0)
    }
}
fn circuit_case<C: Config>(r: &mut Rng, o: &mut Obs) -> CaseResult {
    let ps = LogUpParams { key_len: r.range(1, 3), value_len: r.range(1, 3), n_table_rows: r.range(1, 10), n_queries: r.range(1, 10) };
    let c = <LogUpCircuit as StdCircuit<C>>::new_circuit(&ps);
    use rand::SeedableRng;
    let a = <LogUpCircuit as StdCircuit<C>>::new_assignment(&ps, rand::rngs::StdRng::seed_from_u64(r.u64()));
    let mut flat = vec![];
    a.dump_into(&mut flat, &mut vec![]);
    let full = ps.key_len + ps.value_len;
    let (kl, vl) = (ps.key_len, ps.value_len);
    let (nt, nq) = (ps.n_table_rows, ps.n_queries);
    ensure!(flat.len() == full * (nt + nq) + nt, "assignment-shape", "{}: {ps:?}: the assignment has {} values", name::<C>(), flat.len());
    // layout: table keys, table values, query keys, query results, counts
    let row = |x: &[F<C>], q: bool, i: usize| -> Vec<F<C>> {
        let (n, base) = if q { (nq, nt * full) } else { (nt, 0) };
        [&x[base + i * kl..base + (i + 1) * kl], &x[base + n * kl + i * vl..base + n * kl + (i + 1) * vl]].concat()
    };
    let holds = |x: &[F<C>]| {
        let mut have: HashMap<String, F<C>> = HashMap::new();
        for i in 0..nt {
            let k = format!("{:?}", row(x, false, i));
            *have.entry(k).or_insert(F::<C>::zero()) += x[full * (nt + nq) + i];
        }
        let mut need: HashMap<String, F<C>> = HashMap::new();
        for i in 0..nq {
            *need.entry(format!("{:?}", row(x, true, i))).or_insert(F::<C>::zero()) += F::<C>::one();
        }
        let z = F::<C>::zero();
        have.iter().all(|(k, v)| need.get(k).unwrap_or(&z) == v) && need.keys().all(|k| have.contains_key(k))
    };
    ensure!(holds(&flat), "assignment", "{}: {ps:?}: the generated assignment does not satisfy the statement", name::<C>());
    let cc = if r.chance(1, 3) { Some(compile::<C, _>(&c, CompileOptions::default()).map_err(|e| viol!("compile", "{ps:?}: {e:?}"))?) } else { None };
    let check = |x: &[F<C>], o: &mut Obs| -> CaseResult {
        let a = Flat(x.to_vec());
        let want = holds(x);
        let d = really(|| catch(|| extra::debug_eval::<C, _, _, _>(&c, &a, hints::<C>())).is_ok());
        ensure!(d == want, if want { "present-refused" } else { "absent-accepted" }, "{} {ps:?}: the statement is {want}, the evaluator says {d}, on {x:?}", name::<C>());
        if let Some(cc) = &cc {
            let v = really(|| {
                let w = cc.witness_solver.solve_witness_with_hints(&a, &hints::<C>());
                w.is_ok_and(|w| cc.layered_circuit.run(&w).iter().all(|b| *b))
            });
            ensure!(v == want, if want { "present-refused" } else { "absent-accepted" }, "{} {ps:?}: the statement is {want}, the compiled circuit says {v}, on {x:?}", name::<C>());
            o.count("compiled verdicts", 1);
        }
        o.count(if want { "true statements accepted" } else { "false statements refused" }, 1);
        Ok(())
    };
    o.distinct(&format!("{ps:?} {flat:?}"));
    check(&flat, o)?;
    for _ in 0..6 {
        let mut x = flat.clone();
        match r.below(4) {
            0 => {
                let i = r.below(x.len());
                x[i] += f::<C>(1 + r.below(3) as u32);
            }
            1 => {
                let (i, j) = (r.below(x.len()), r.below(x.len()));
                x.swap(i, j);
            }
            2 => {
                // move a query to another row without its count
                let (q, t) = (r.below(nq), r.below(nt));
                for k in 0..kl {
                    x[full * nt + q * kl + k] = x[t * kl + k];
                }
                for k in 0..vl {
                    x[full * nt + nq * kl + q * vl + k] = x[nt * kl + t * vl + k];
                }
            }
            _ => {
                // columns of a row exchanged
                let q = r.below(nq);
                let (i, j) = (full * nt + q * kl + r.below(kl), full * nt + nq * kl + q * vl + r.below(vl));
                x.swap(i, j);
            }
        }
        check(&x, o)?;
    }
    Ok(())
}

pub fn l03(d: &mut Driver) {
    d.cases("range proofs", d.n(20000, 400000), |r, o| by_big_field!(r.below(4), range_case(r, o)));
    d.cases("counts given", d.n(4000, 60000), |r, o| by_big_field!(r.below(4), counts_case(r, o)));
    d.cases("keyed tables", d.n(8000, 150000), |r, o| by_big_field!(r.below(4), keyed_case(r, o)));
    d.cases("table circuits", d.n(4000, 60000), |r, o| by_big_field!(r.below(4), circuit_case(r, o)));
    d.cases("compiled range proofs", d.n(400, 6000), |r, o| by_big_field!(r.below(4), compiled_case(r, o)));
}
fn compiled_case<C: Config>(r: &mut Rng, o: &mut Obs) -> CaseResult {
    let tb = *r.pick(&[2usize, 3, 4, 5]);
    let cap = (bits::<C>() - 2).min(60);
    let widths: Vec<Option<usize>> = (0..2).map(|_| Some(r.range(1, cap))).collect();
    let g = Range { table_bits: tb, widths: widths.clone(), by_hand: false, counts_given: false };
    let c = build::<C, _>(&g, 2, 0).map_err(|e| viol!("compile", "{}: {g:?}: {e}", name::<C>()))?;
    for _ in 0..6 {
        let v: Vec<U256> = widths.iter().map(|w| if r.chance(1, 3) { edge_value::<C>(r, w.unwrap(), tb) % p::<C>() } else { U256::from(r.u64()) % (U256::ONE << w.unwrap() as u32) }).collect();
        let want = v.iter().zip(&widths).all(|(v, w)| *v < U256::ONE << w.unwrap() as u32);
        let x: Vec<F<C>> = v.iter().map(|v| big::<C>(*v)).collect();
        o.distinct(&format!("{g:?} {v:?}"));
        for attempt in 0..if want { 1 } else { 5 } {
            let seed = r.u64();
            let got = if want {
                c.accepts(&x, &[], &hints::<C>()).map_err(|e| viol!("compiled-panics", "{e}"))?
            } else {
                really(|| c.accepts(&x, &[], &Lying { inner: hints::<C>(), lie: move |id, a: &[F<C>], out: &mut Vec<F<C>>| forge::<C>(attempt, seed, tb, id, a, out) }).unwrap_or(false))
            };
            ensure!(got == want, if want { "in-range-refused" } else { "out-of-range-accepted" }, "{}: compiled {g:?} says {got} of {v:?} (attempt {attempt})", name::<C>());
            o.count("compiled range verdicts", 1);
        }
    }
    Ok(())
}
