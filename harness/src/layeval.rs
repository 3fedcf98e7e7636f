//! Independent interpreter and structural checker of layered circuits.
use arith::Field as _;
use expander_compiler::circuit::config::Config;
use expander_compiler::circuit::layered::{Circuit, Coef, Input, InputType, InputUsize, Segment};
use expander_compiler::frontend::CircuitField;
use vpc::Rng;

pub type F<C> = CircuitField<C>;

pub struct LayEval<'a, C: Config, I: InputType> {
    pub c: &'a Circuit<C, I>,
    pub pubs: &'a [F<C>],
    pub rng: Rng,
    pub gates: u64,
    /// Value of random coefficients, when they are to be fixed.
    pub fixed: Option<F<C>>,
}
impl<C: Config, I: InputType> LayEval<'_, C, I> {
    fn coef(&mut self, k: &Coef<C>) -> F<C> {
        match k {
            Coef::Constant(c) => *c,
            Coef::PublicInput(i) => self.pubs[*i],
            Coef::Random if self.fixed.is_some() => self.fixed.unwrap(),
            Coef::Random => {
                let v = ethnum::U256::from_words(
                    ((self.rng.u64() as u128) << 64) | self.rng.u64() as u128,
                    ((self.rng.u64() as u128) << 64) | self.rng.u64() as u128,
                );
                F::<C>::from_u256(v % F::<C>::MODULUS)
            }
        }
    }
    fn seg(&mut self, s: &Segment<C, I>, layers: &[&[F<C>]], off: &[usize], out: &mut [F<C>], oo: usize) -> Result<(), String> {
        let get = |i: &I::Input| -> Result<F<C>, String> {
            let l = i.layer();
            if l >= s.num_inputs.len() {
                return Err(format!("gate input layer {l} outside segment"));
            }
            if i.offset() >= s.num_inputs.get(l) {
                return Err(format!("gate input offset {} outside segment input {}", i.offset(), s.num_inputs.get(l)));
            }
            layers[l].get(off[l] + i.offset()).copied().ok_or_else(|| format!("gate reads wire {} of a layer of {}", off[l] + i.offset(), layers[l].len()))
        };
        let put = |o: usize, v: F<C>, out: &mut [F<C>]| -> Result<(), String> {
            if o >= s.num_outputs || oo + o >= out.len() {
                return Err(format!("gate writes output {o} of {}", s.num_outputs));
            }
            out[oo + o] += v;
            Ok(())
        };
        for g in &s.gate_muls {
            let k = self.coef(&g.coef);
            put(g.output, get(&g.inputs[0])? * get(&g.inputs[1])? * k, out)?;
            self.gates += 1;
        }
        for g in &s.gate_adds {
            let k = self.coef(&g.coef);
            put(g.output, get(&g.inputs[0])? * k, out)?;
            self.gates += 1;
        }
        for g in &s.gate_consts {
            let k = self.coef(&g.coef);
            put(g.output, k, out)?;
            self.gates += 1;
        }
        // custom gates have no meaning of their own; any function that depends on everything will do
        for g in &s.gate_customs {
            let mut v = F::<C>::from(g.gate_type as u32 + 1);
            for i in &g.inputs {
                v = v * (get(i)? + F::<C>::from(3u32)) + F::<C>::from(7u32);
            }
            let k = self.coef(&g.coef);
            put(g.output, v * k, out)?;
            self.gates += 1;
        }
        for (id, allocs) in &s.child_segs {
            let c = self.c;
            let ch = c.segments.get(*id).ok_or("child segment id out of range")?;
            for a in allocs {
                if a.input_offset.len() != ch.num_inputs.len() {
                    return Err("allocation arity".into());
                }
                let o2: Vec<usize> = a.input_offset.iter().enumerate().map(|(l, x)| off[l] + x).collect();
                for (l, (o, n)) in a.input_offset.iter().zip(ch.num_inputs.iter()).enumerate() {
                    if o + n > s.num_inputs.get(l) {
                        return Err("child input window outside parent".into());
                    }
                }
                if a.output_offset + ch.num_outputs > s.num_outputs {
                    return Err("child output window outside parent".into());
                }
                self.seg(ch, layers, &o2, out, oo + a.output_offset)?;
            }
        }
        Ok(())
    }
    /// Returns (outputs, zero-constraints hold).
    pub fn run(&mut self, input: &[F<C>]) -> Result<(Vec<F<C>>, bool), String> {
        let c = self.c;
        let mut layers: Vec<Vec<F<C>>> = vec![input.to_vec()];
        for id in &c.layer_ids {
            let s = &c.segments[*id];
            let n = s.num_inputs.len();
            if n > layers.len() {
                return Err("segment reads before the input layer".into());
            }
            let ins: Vec<&[F<C>]> = (0..n).map(|i| layers[layers.len() - 1 - i].as_slice()).collect();
            for (i, l) in ins.iter().enumerate() {
                if l.len() != s.num_inputs.get(i) {
                    return Err(format!("layer width {} but segment expects {}", l.len(), s.num_inputs.get(i)));
                }
            }
            let mut out = vec![F::<C>::zero(); s.num_outputs];
            let off = vec![0; n];
            self.seg(s, &ins, &off, &mut out, 0)?;
            layers.push(out);
        }
        let last = layers.last().unwrap();
        if c.num_actual_outputs > last.len() || c.expected_num_output_zeroes > c.num_actual_outputs {
            return Err("output counts out of range".into());
        }
        let ok = last[..c.expected_num_output_zeroes].iter().all(|x| x.is_zero());
        Ok((last[c.expected_num_output_zeroes..c.num_actual_outputs].to_vec(), ok))
    }
}
pub fn run<C: Config, I: InputType>(c: &Circuit<C, I>, input: &[F<C>], pubs: &[F<C>], seed: u64) -> Result<(Vec<F<C>>, bool), String> {
    LayEval { c, pubs, rng: Rng::new(seed), gates: 0, fixed: None }.run(input)
}

/// Structural well-formedness, written from the documented format (independent of the code's own
/// validation). Returns the number of gates reached.
pub fn structure<C: Config, I: InputType>(c: &Circuit<C, I>) -> Result<u64, String> {
    if c.layer_ids.is_empty() {
        return Err("no layers".into());
    }
    for (i, s) in c.segments.iter().enumerate() {
        if s.num_inputs.len() == 0 {
            return Err(format!("segment {i} has no input layer"));
        }
        for n in s.num_inputs.iter() {
            if n == 0 || !n.is_power_of_two() {
                return Err(format!("segment {i} input width {n}"));
            }
        }
        if s.num_outputs == 0 || !s.num_outputs.is_power_of_two() {
            return Err(format!("segment {i} output width {}", s.num_outputs));
        }
        for (id, al) in &s.child_segs {
            let ch = c.segments.get(*id).ok_or(format!("segment {i}: child {id} missing"))?;
            for a in al {
                if ch.num_inputs.len() > s.num_inputs.len() || a.input_offset.len() != ch.num_inputs.len() {
                    return Err(format!("segment {i}: child reads more layers than its parent"));
                }
                for (o, n) in a.input_offset.iter().zip(ch.num_inputs.iter()) {
                    if o % n != 0 {
                        return Err(format!("segment {i}: child input offset {o} not a multiple of {n}"));
                    }
                }
                if a.output_offset % ch.num_outputs != 0 {
                    return Err(format!("segment {i}: child output offset not aligned"));
                }
            }
        }
    }
    for w in c.layer_ids.windows(2) {
        if c.segments[w[0]].num_outputs != c.segments[w[1]].num_inputs.get(0) {
            return Err("consecutive layer widths differ".into());
        }
    }
    // Termination of the segment graph and all index ranges: interpret once on zeros.
    if has_cycle(c) {
        return Err("segment graph is cyclic".into());
    }
    let mut npub = vec![F::<C>::zero(); c.num_public_inputs];
    for (i, x) in npub.iter_mut().enumerate() {
        *x = F::<C>::from(i as u32);
    }
    let mut e = LayEval { c, pubs: &npub, rng: Rng::new(1), gates: 0, fixed: None };
    for s in &c.segments {
        for k in s.gate_muls.iter().map(|g| &g.coef).chain(s.gate_adds.iter().map(|g| &g.coef)).chain(s.gate_consts.iter().map(|g| &g.coef)) {
            if let Coef::PublicInput(i) = k {
                if *i >= c.num_public_inputs {
                    return Err(format!("public input {i} of {}", c.num_public_inputs));
                }
            }
        }
    }
    let n = c.segments[c.layer_ids[0]].num_inputs.get(0);
    e.run(&vec![F::<C>::zero(); n])?;
    Ok(e.gates)
}
fn has_cycle<C: Config, I: InputType>(c: &Circuit<C, I>) -> bool {
    fn go<C: Config, I: InputType>(c: &Circuit<C, I>, i: usize, st: &mut [u8]) -> bool {
        if st[i] == 1 {
            return true;
        }
        if st[i] == 2 {
            return false;
        }
        st[i] = 1;
        for (ch, _) in &c.segments[i].child_segs {
            if *ch < c.segments.len() && go(c, *ch, st) {
                return true;
            }
        }
        st[i] = 2;
        false
    }
    let mut st = vec![0u8; c.segments.len()];
    (0..c.segments.len()).any(|i| go(c, i, &mut st))
}
/// Largest number of multiplication gates (fully expanded) that one wire feeds.
pub fn max_mul_fanout<C: Config, I: InputType>(c: &Circuit<C, I>) -> usize {
    use std::collections::HashMap;
    // (layer index from the input, wire) -> count; squares count twice
    let mut cnt: HashMap<(usize, usize), usize> = HashMap::new();
    fn go<C: Config, I: InputType>(c: &Circuit<C, I>, id: usize, layer: usize, off: &[usize], cnt: &mut HashMap<(usize, usize), usize>) {
        let s = &c.segments[id];
        for g in &s.gate_muls {
            for i in &g.inputs {
                *cnt.entry((layer - i.layer(), off[i.layer()] + i.offset())).or_default() += 1;
            }
        }
        for (ch, al) in &s.child_segs {
            for a in al {
                let o2: Vec<usize> = a.input_offset.iter().enumerate().map(|(l, x)| off[l] + x).collect();
                go(c, *ch, layer, &o2, cnt);
            }
        }
    }
    for (l, id) in c.layer_ids.iter().enumerate() {
        let n = c.segments[*id].num_inputs.len();
        go(c, *id, l, &vec![0; n], &mut cnt);
    }
    cnt.values().copied().max().unwrap_or(0)
}
