//! Plays a dishonest prover against compiled circuits: the values a prover computes by hints are
//! replaced, the inputs proper kept, and whatever the circuit then accepts must still say what the
//! program says.
use crate::equiv::Built;
use crate::lang::*;
use arith::Field as _;
use expander_compiler::circuit::config::Config;
use expander_compiler::circuit::layered::{Circuit, Coef, Input, InputType, InputUsize, Segment};
use vpc::{viol, CaseResult, Obs, Rng, Violation};

enum K<C: Config> {
    Val(F<C>),
    Rand(usize),
}
struct Gate<C: Config> {
    out: usize,
    /// (layers back, offset)
    ins: [(usize, usize); 2],
    n: usize,
    k: K<C>,
}
/// A layered circuit unrolled into plain gate lists (for fixed public inputs).
pub struct Flat<C: Config> {
    layers: Vec<(usize, Vec<Gate<C>>)>,
    n_rand: usize,
    zeroes: usize,
    actual: usize,
    pub n_gates: usize,
}
impl<C: Config> Flat<C> {
    pub fn new<I: InputType>(c: &Circuit<C, I>, pubs: &[F<C>]) -> Self {
        let mut f = Flat { layers: vec![], n_rand: 0, zeroes: c.expected_num_output_zeroes, actual: c.num_actual_outputs, n_gates: 0 };
        for id in &c.layer_ids {
            let s = &c.segments[*id];
            let mut gates = vec![];
            f.seg(c, s, &vec![0; s.num_inputs.len()], 0, pubs, &mut gates);
            f.n_gates += gates.len();
            f.layers.push((s.num_outputs, gates));
        }
        f
    }
    fn seg<I: InputType>(&mut self, c: &Circuit<C, I>, s: &Segment<C, I>, off: &[usize], oo: usize, pubs: &[F<C>], gates: &mut Vec<Gate<C>>) {
        let mut coef = |k: &Coef<C>| match k {
            Coef::Constant(c) => K::Val(*c),
            Coef::PublicInput(i) => K::Val(pubs[*i]),
            Coef::Random => {
                self.n_rand += 1;
                K::Rand(self.n_rand - 1)
            }
        };
        let at = |i: &I::Input| (i.layer(), off[i.layer()] + i.offset());
        for g in &s.gate_muls {
            gates.push(Gate { out: oo + g.output, ins: [at(&g.inputs[0]), at(&g.inputs[1])], n: 2, k: coef(&g.coef) });
        }
        for g in &s.gate_adds {
            gates.push(Gate { out: oo + g.output, ins: [at(&g.inputs[0]), (0, 0)], n: 1, k: coef(&g.coef) });
        }
        for g in &s.gate_consts {
            gates.push(Gate { out: oo + g.output, ins: [(0, 0); 2], n: 0, k: coef(&g.coef) });
        }
        for (id, allocs) in &s.child_segs {
            for a in allocs {
                let o2: Vec<usize> = a.input_offset.iter().enumerate().map(|(l, x)| off[l] + x).collect();
                self.seg(c, &c.segments[*id], &o2, oo + a.output_offset, pubs, gates);
            }
        }
    }
    fn challenges(&self, seed: u64) -> Vec<F<C>> {
        let mut r = Rng::new(seed);
        (0..self.n_rand)
            .map(|_| {
                let v = ethnum::U256::from_words(((r.u64() as u128) << 64) | r.u64() as u128, ((r.u64() as u128) << 64) | r.u64() as u128);
                F::<C>::from_u256(v % F::<C>::MODULUS)
            })
            .collect()
    }
    /// The last layer: outputs that must vanish, then the program's outputs.
    pub fn run(&self, input: &[F<C>], rnd: &[F<C>]) -> Vec<F<C>> {
        let mut ls: Vec<Vec<F<C>>> = vec![input.to_vec()];
        for (w, gates) in &self.layers {
            let mut out = vec![F::<C>::zero(); *w];
            let top = ls.len() - 1;
            for g in gates {
                let k = match &g.k {
                    K::Val(c) => *c,
                    K::Rand(i) => rnd[*i],
                };
                let get = |i: usize| ls[top - g.ins[i].0][g.ins[i].1];
                out[g.out] += match g.n {
                    0 => k,
                    1 => k * get(0),
                    _ => k * get(0) * get(1),
                };
            }
            ls.push(out);
        }
        let mut l = ls.pop().unwrap();
        l.truncate(self.actual);
        l
    }
    /// Derivatives of the vanishing outputs with respect to the inputs `cols`.
    fn jacobian(&self, input: &[F<C>], rnd: &[F<C>], cols: &[usize]) -> Vec<Vec<F<C>>> {
        let m = cols.len();
        let zero = F::<C>::zero();
        let mut d0 = vec![vec![]; input.len()];
        for (k, c) in cols.iter().enumerate() {
            let mut v = vec![zero; m];
            v[k] = F::<C>::one();
            d0[*c] = v;
        }
        // an empty derivative stands for zero
        let mut ls: Vec<(Vec<F<C>>, Vec<Vec<F<C>>>)> = vec![(input.to_vec(), d0)];
        for (w, gates) in &self.layers {
            let mut out = vec![zero; *w];
            let mut der: Vec<Vec<F<C>>> = vec![vec![]; *w];
            let top = ls.len() - 1;
            for g in gates {
                let k = match &g.k {
                    K::Val(c) => *c,
                    K::Rand(i) => rnd[*i],
                };
                let get = |i: usize| ls[top - g.ins[i].0].0[g.ins[i].1];
                let dget = |i: usize| &ls[top - g.ins[i].0].1[g.ins[i].1];
                out[g.out] += match g.n {
                    0 => k,
                    1 => k * get(0),
                    _ => k * get(0) * get(1),
                };
                for i in 0..g.n {
                    let d = dget(i);
                    if d.is_empty() {
                        continue;
                    }
                    let f = if g.n == 1 { k } else { k * get(1 - i) };
                    if f.is_zero() {
                        continue;
                    }
                    let t = &mut der[g.out];
                    if t.is_empty() {
                        t.resize(m, zero);
                    }
                    for (a, b) in t.iter_mut().zip(d) {
                        *a += f * b;
                    }
                }
            }
            ls.push((out, der));
        }
        let mut d = ls.pop().unwrap().1;
        d.truncate(self.zeroes);
        d.retain(|x| !x.is_empty());
        d
    }
}

/// A basis of the null space of `rows` (each of width m).
fn null_space<T: arith::Field>(mut rows: Vec<Vec<T>>, m: usize) -> Vec<Vec<T>> {
    let mut piv: Vec<usize> = vec![];
    let mut k = 0;
    for c in 0..m {
        let Some(p) = (k..rows.len()).find(|i| !rows[*i][c].is_zero()) else { continue };
        rows.swap(k, p);
        let inv = rows[k][c].inv().unwrap();
        for x in rows[k].iter_mut() {
            *x *= inv;
        }
        let top = rows[k].clone();
        for (i, r) in rows.iter_mut().enumerate() {
            if i != k && !r[c].is_zero() {
                let f = r[c];
                for (a, b) in r.iter_mut().zip(&top) {
                    *a -= f * b;
                }
            }
        }
        piv.push(c);
        k += 1;
        if k == rows.len() {
            break;
        }
    }
    (0..m)
        .filter(|c| !piv.contains(c))
        .map(|c| {
            let mut v = vec![T::zero(); m];
            v[c] = T::one();
            for (i, p) in piv.iter().enumerate() {
                v[*p] = -rows[i][c];
            }
            v
        })
        .collect()
}

pub struct Forge<'a, C: Config> {
    flat: Flat<C>,
    seeds: Vec<Vec<F<C>>>,
    /// What the program says about the inputs at hand: its outputs, or that it is not satisfied.
    want: Option<Vec<F<C>>>,
    hints: Vec<usize>,
    budget: u64,
    o: &'a mut Obs,
}
impl<C: Config> Forge<'_, C> {
    /// First vanishing output under the first challenges.
    fn residual(&self, w: &[F<C>]) -> Option<F<C>> {
        self.flat.run(w, &self.seeds[0])[..self.flat.zeroes].iter().find(|x| !x.is_zero()).copied()
    }
    fn attempt(&mut self, w: &[F<C>], what: &str) -> Result<(), String> {
        self.o.count("attempts", 1);
        self.budget = self.budget.saturating_sub(self.flat.n_gates as u64 + 10);
        let mut outs = vec![];
        for (i, s) in self.seeds.iter().enumerate() {
            let mut l = self.flat.run(w, s);
            let out = l.split_off(self.flat.zeroes);
            if l.iter().any(|x| !x.is_zero()) {
                if i > 0 {
                    self.o.count("lucky_challenges", 1);
                }
                return Ok(());
            }
            outs.push(out);
        }
        self.o.count("accepted", 1);
        match &self.want {
            None => Err(format!("{what}: accepted although the program is not satisfied")),
            Some(v) if outs.iter().any(|o| o != v) => Err(format!("{what}: accepted with outputs {:?}, the program's are {v:?}", outs[0])),
            _ => {
                self.o.count("accepted_harmless", 1);
                Ok(())
            }
        }
    }
    fn go(&mut self, w: &[F<C>], r: &mut Rng) -> Result<(), String> {
        let one = F::<C>::one();
        let zero = F::<C>::zero();
        let tiny = F::<C>::FIELD_SIZE == 1;
        self.attempt(w, "honest hints")?;
        let h = self.hints.clone();
        if h.is_empty() {
            self.o.count("no_hints", 1);
            return Ok(());
        }
        if tiny && h.len() <= 8 {
            for mask in 0u32..1 << h.len() {
                let mut v = w.to_vec();
                for (k, i) in h.iter().enumerate() {
                    v[*i] = F::<C>::from((mask >> k) & 1);
                }
                self.attempt(&v, "every assignment of the hints")?;
            }
            self.o.count("exhausted", 1);
            return Ok(());
        }
        // one value at a time
        for &i in &h {
            let x = w[i];
            let mut alts = vec![zero, one, -one, x + one, x - one, -x, x + x, rand_field::<C>(r), w[r.below(w.len())], w[*r.pick(&h)]];
            if let Some(y) = x.inv() {
                alts.push(y);
            }
            if tiny {
                alts = vec![x + one];
            }
            for a in alts {
                if a != x {
                    let mut v = w.to_vec();
                    v[i] = a;
                    self.attempt(&v, "one value replaced")?;
                }
            }
            if self.budget == 0 {
                break;
            }
        }
        // one value replaced, another solved for
        let n_pairs = if h.len() <= 8 { h.len() * h.len() } else { 60 };
        for k in 0..n_pairs {
            if self.budget == 0 {
                break;
            }
            let (i, j) = if h.len() <= 8 { (h[k / h.len()], h[k % h.len()]) } else { (*r.pick(&h), *r.pick(&h)) };
            if i == j {
                continue;
            }
            let mut v = w.to_vec();
            v[j] = if w[j].is_zero() || w[j] == one { one - w[j] } else { *r.pick(&[zero, one, -w[j], w[j] + one]) };
            self.solve(&mut v, i, "one value replaced, one solved for")?;
        }
        // bits of the same value plus the modulus
        let p = F::<C>::MODULUS;
        let bits: Vec<bool> = h.iter().map(|i| w[*i].is_zero() || w[*i] == one).collect();
        let full = bitlen(p);
        if !tiny {
            let mut s = 0;
            while s < h.len() {
                let mut e = s;
                while e < h.len() && bits[e] && h[e] == h[s] + (e - s) {
                    e += 1;
                }
                let last = e.saturating_sub(full);
                for a in if e - s >= full { vec![s, last, s + r.below(last - s + 1)] } else { vec![] } {
                    for back in [false, true] {
                        let mut v = w.to_vec();
                        let pos = |k: usize| if back { a + full - 1 - k } else { a + k };
                        let mut x = ethnum::U256::ZERO;
                        for k in 0..full {
                            if w[h[pos(k)]] == one {
                                x |= ethnum::U256::ONE << k as u32;
                            }
                        }
                        let y = if x >= p { x - p } else { x.wrapping_add(p) };
                        if bitlen(y) > full || y < p && x < p {
                            continue;
                        }
                        for k in 0..full {
                            v[h[pos(k)]] = F::<C>::from(((y >> k as u32) & 1).as_u32());
                        }
                        self.o.count("shifted_by_modulus", 1);
                        self.attempt(&v, "bits of the value plus the modulus")?;
                    }
                }
                s = e.max(s + 1);
            }
        }
        // random replacements of several
        for _ in 0..12 {
            let mut v = w.to_vec();
            let all = r.chance(1, 3);
            for &i in &h {
                if all || r.chance(1, 3) {
                    v[i] = match r.below(5) {
                        0 => zero,
                        1 => one,
                        2 => w[*r.pick(&h)],
                        3 if w[i].is_zero() || w[i] == one => one - w[i],
                        _ => rand_field::<C>(r),
                    };
                }
            }
            self.attempt(&v, "several values replaced")?;
            if r.chance(1, 2) {
                self.solve(&mut v, *r.pick(&h), "several values replaced, one solved for")?;
            }
        }
        // directions in which the constraints do not move
        if tiny || w.len() < 2 || self.residual(w).is_some() {
            return Ok(());
        }
        let cols: Vec<usize> = if h.len() <= 20 {
            h.clone()
        } else if r.chance(1, 2) {
            let s = r.below(h.len() - 19);
            h[s..s + 20].to_vec()
        } else {
            let mut c = h.clone();
            r.shuffle(&mut c);
            c.truncate(20);
            c
        };
        if (self.flat.n_gates * cols.len() * cols.len()) as u64 > self.budget {
            self.o.count("directions_skipped", 1);
            return Ok(());
        }
        let mut rows = vec![];
        for k in 0..cols.len() + 3 {
            let rnd = self.flat.challenges(900 + k as u64);
            rows.extend(self.flat.jacobian(w, &rnd, &cols));
        }
        let dirs = null_space(rows, cols.len());
        self.o.count("jacobians", 1);
        self.o.count("free_directions", dirs.len() as u64);
        for d in dirs {
            for t in [one, -one, rand_field::<C>(r)] {
                let mut v = w.to_vec();
                for (c, x) in cols.iter().zip(&d) {
                    v[*c] += t * x;
                }
                self.attempt(&v, "moved along a direction the constraints do not see")?;
            }
        }
        Ok(())
    }
    /// Chooses position `i` so that the vanishing outputs vanish, if they depend on it linearly.
    fn solve(&mut self, v: &mut [F<C>], i: usize, what: &str) -> Result<(), String> {
        let old = v[i];
        v[i] = F::<C>::zero();
        let a = self.flat.run(v, &self.seeds[0]);
        v[i] = F::<C>::one();
        let b = self.flat.run(v, &self.seeds[0]);
        self.budget = self.budget.saturating_sub(2 * self.flat.n_gates as u64);
        for z in 0..self.flat.zeroes {
            let d = b[z] - a[z];
            if !d.is_zero() {
                v[i] = -(a[z] * d.inv().unwrap());
                if v[i] == old {
                    break;
                }
                self.o.count("solved_for", 1);
                return self.attempt(v, what);
            }
        }
        Ok(())
    }
}

/// Attacks a compiled program on one assignment of its inputs.
pub fn attack<C: Config, I: InputType>(b: &Built<C, I>, p: &Prog<C>, ins: &[F<C>], pubs: &[F<C>], r: &mut Rng, o: &mut Obs, budget: u64) -> CaseResult {
    let (want, t) = RefEval::run(p, ins, pubs);
    if t.zero_by_zero || t.undefined {
        o.count("free_by_definition", 1);
        return Ok(());
    }
    if t.op_fail && !t.con_fail && !p.all_live {
        o.count("undetermined", 1);
        return Ok(());
    }
    let root = &b.ws.circuit.circuits[&0];
    let n_in = root.num_inputs;
    let reg = registry::<C>();
    let solved = vpc::catch(|| b.ws.solve_witness_from_raw_inputs(ins.to_vec(), pubs.to_vec(), &reg));
    let w: Vec<F<C>> = match solved {
        Ok(Ok(w)) => w.iter_scalar().next().unwrap().0,
        _ => {
            o.count("made_up_witness", 1);
            root.outputs.iter().map(|x| if *x <= n_in { ins[*x - 1] } else { rand_field::<C>(r) }).collect()
        }
    };
    let hints: Vec<usize> = (0..root.outputs.len()).filter(|i| root.outputs[*i] > n_in).collect();
    for (i, x) in root.outputs.iter().enumerate() {
        if *x <= n_in && w[i] != ins[*x - 1] {
            return Err(viol!("witness-input", "witness value {i} is not the input it stands for"));
        }
    }
    o.count("hint_values", hints.len() as u64);
    o.count(if t.accepts() { "satisfied_statements" } else { "false_statements" }, 1);
    let flat = Flat::new(&b.lc, pubs);
    let n = if F::<C>::FIELD_SIZE == 1 { 40 } else { 3 };
    let seeds = (0..n).map(|k| flat.challenges(k + 1)).collect();
    let mut f = Forge { flat, seeds, want: t.accepts().then_some(want), hints, budget, o };
    f.go(&w, r).map_err(|m| -> Violation { viol!("forged", "{m}: inputs {ins:?}, public {pubs:?}: {}", crate::equiv::render(p)) })
}
