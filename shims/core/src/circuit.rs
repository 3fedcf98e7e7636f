//! Stand-in for Expander's `circuit` crate: recursive circuit, flattening and evaluation.
use crate::arith::*;
use crate::engine::*;
use serdes::{ExpSerde, SerdeError, SerdeResult};
use std::io::{Read, Write};
use std::mem::ManuallyDrop;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum CoefType {
    Constant,
    Random,
    PublicInput(usize),
}
#[derive(Clone, Debug, PartialEq)]
pub struct Gate<F: FieldEngine, const N: usize> {
    pub i_ids: [usize; N],
    pub o_id: usize,
    pub coef: F::CircuitField,
    pub coef_type: CoefType,
    pub gate_type: usize,
}
pub type GateMul<F> = Gate<F, 2>;
pub type GateAdd<F> = Gate<F, 1>;
pub type GateUni<F> = Gate<F, 1>;
pub type GateConst<F> = Gate<F, 0>;
#[derive(Clone, Debug, PartialEq)]
pub struct Allocation {
    pub i_offset: usize,
    pub o_offset: usize,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Segment<F: FieldEngine> {
    pub i_var_num: usize,
    pub o_var_num: usize,
    pub child_segs: Vec<(usize, Vec<Allocation>)>,
    pub gate_muls: Vec<GateMul<F>>,
    pub gate_adds: Vec<GateAdd<F>>,
    pub gate_consts: Vec<GateConst<F>>,
    pub gate_uni: Vec<GateUni<F>>,
}
#[derive(Clone, Debug, PartialEq)]
pub struct RecursiveCircuit<F: FieldEngine> {
    pub segments: Vec<Segment<F>>,
    pub layers: Vec<usize>,
    pub num_public_inputs: usize,
    pub num_outputs: usize,
    pub expected_num_output_zeros: usize,
}
#[derive(Clone, Debug, Default)]
pub struct CircuitLayer<F: FieldEngine> {
    pub input_var_num: usize,
    pub output_var_num: usize,
    pub input_vals: Vec<F::SimdCircuitField>,
    pub output_vals: Vec<F::SimdCircuitField>,
    pub mul: Vec<GateMul<F>>,
    pub add: Vec<GateAdd<F>>,
    pub const_: Vec<GateConst<F>>,
    pub uni: Vec<GateUni<F>>,
}
#[derive(Clone, Debug, Default)]
pub struct Circuit<F: FieldEngine> {
    pub layers: Vec<CircuitLayer<F>>,
    pub public_input: Vec<F::SimdCircuitField>,
    pub expected_num_output_zeros: usize,
    pub rnd_coefs_identified: bool,
}

impl<F: FieldEngine> RecursiveCircuit<F> {
    fn emit(&self, id: usize, i: usize, o: usize, l: &mut CircuitLayer<F>) {
        let s = &self.segments[id];
        for (c, allocs) in &s.child_segs {
            for a in allocs {
                self.emit(*c, i + a.i_offset, o + a.o_offset, l);
            }
        }
        fn shift<F: FieldEngine, const N: usize>(g: &Gate<F, N>, i: usize, o: usize) -> Gate<F, N> {
            let mut g = g.clone();
            for x in g.i_ids.iter_mut() {
                *x += i;
            }
            g.o_id += o;
            g
        }
        l.mul.extend(s.gate_muls.iter().map(|g| shift(g, i, o)));
        l.add.extend(s.gate_adds.iter().map(|g| shift(g, i, o)));
        l.const_.extend(s.gate_consts.iter().map(|g| shift(g, i, o)));
        l.uni.extend(s.gate_uni.iter().map(|g| shift(g, i, o)));
    }
    pub fn flatten(&self) -> Circuit<F> {
        let mut c = Circuit { expected_num_output_zeros: self.expected_num_output_zeros, ..Default::default() };
        for &id in &self.layers {
            let s = &self.segments[id];
            let mut l = CircuitLayer { input_var_num: s.i_var_num, output_var_num: s.o_var_num, ..Default::default() };
            self.emit(id, 0, 0, &mut l);
            c.layers.push(l);
        }
        c
    }
}
impl<F: FieldEngine> Circuit<F> {
    pub fn log_input_size(&self) -> usize {
        self.layers[0].input_var_num
    }
    pub fn pre_process_gkr(&mut self) {
        self.rnd_coefs_identified = true;
        for l in &mut self.layers {
            l.input_vals = vec![F::SimdCircuitField::ZERO; 1 << l.input_var_num];
            l.output_vals = vec![F::SimdCircuitField::ZERO; 1 << l.output_var_num];
        }
    }
    pub fn fill_rnd_coefs<T: Transcript>(&mut self, t: &mut T) {
        for l in &mut self.layers {
            for g in l.mul.iter_mut().filter(|g| g.coef_type == CoefType::Random) {
                g.coef = t.generate_field_element();
            }
            for g in l.add.iter_mut().filter(|g| g.coef_type == CoefType::Random) {
                g.coef = t.generate_field_element();
            }
            for g in l.const_.iter_mut().filter(|g| g.coef_type == CoefType::Random) {
                g.coef = t.generate_field_element();
            }
            for g in l.uni.iter_mut().filter(|g| g.coef_type == CoefType::Random) {
                g.coef = t.generate_field_element();
            }
        }
    }
    fn coef<const N: usize>(g: &Gate<F, N>, pi: &[F::SimdCircuitField]) -> F::SimdCircuitField {
        match g.coef_type {
            CoefType::PublicInput(i) => pi[i],
            _ => F::SimdCircuitField::pack_full(&g.coef),
        }
    }
    pub fn evaluate(&mut self) {
        let n = self.layers.len();
        for i in 0..n {
            let mut out = vec![F::SimdCircuitField::ZERO; 1 << self.layers[i].output_var_num];
            {
                let l = &self.layers[i];
                let x = &l.input_vals;
                assert_eq!(x.len(), 1 << l.input_var_num);
                for g in &l.mul {
                    out[g.o_id] += Self::coef(g, &self.public_input) * x[g.i_ids[0]] * x[g.i_ids[1]];
                }
                for g in &l.add {
                    out[g.o_id] += Self::coef(g, &self.public_input) * x[g.i_ids[0]];
                }
                for g in &l.const_ {
                    out[g.o_id] += Self::coef(g, &self.public_input);
                }
                for g in &l.uni {
                    let v = x[g.i_ids[0]];
                    let v = match g.gate_type {
                        12345 => v * v * v * v * v,
                        12346 => v,
                        t => panic!("unknown uni gate {t}"),
                    };
                    out[g.o_id] += Self::coef(g, &self.public_input) * v;
                }
            }
            if i + 1 < n {
                assert_eq!(self.layers[i + 1].input_var_num, self.layers[i].output_var_num);
                // written in place: the buffers may be slices of a batch allocation
                let dst = &mut self.layers[i + 1].input_vals;
                assert_eq!(dst.len(), out.len());
                dst.copy_from_slice(&out);
            }
            let dst = &mut self.layers[i].output_vals;
            if dst.len() == out.len() {
                dst.copy_from_slice(&out);
            } else {
                *dst = out;
            }
        }
    }
    /// `n` copies whose value buffers are slices of flat allocations and whose gate vectors alias
    /// this circuit's: they must go back through `drop_batch`.
    ///
    /// # Safety
    /// The copies must not outlive `self` or the returned buffers.
    #[allow(clippy::type_complexity)]
    pub unsafe fn create_batch(&self, n: usize) -> (Vec<Circuit<F>>, Vec<Vec<F::SimdCircuitField>>) {
        unsafe fn alias<T>(v: &[T]) -> Vec<T> {
            Vec::from_raw_parts(v.as_ptr() as *mut T, v.len(), v.len())
        }
        let mut bufs: Vec<Vec<F::SimdCircuitField>> = vec![];
        // with AddressSanitizer each copy gets buffers of its own, to tell apart what lies side by side
        #[cfg(vp_asan)]
        let n_bufs = n;
        #[cfg(not(vp_asan))]
        let n_bufs = 1;
        for l in (0..n_bufs).flat_map(|_| &self.layers) {
            let n = n / n_bufs;
            bufs.push(vec![F::SimdCircuitField::ZERO; n << l.input_var_num]);
            bufs.push(vec![F::SimdCircuitField::ZERO; n << l.output_var_num]);
        }
        for b in &bufs {
            crate::monitor::register(b.as_ptr() as *mut u8, 0);
            crate::monitor::unregister(b.as_ptr() as *mut u8);
        }
        let cs = (0..n)
            .map(|k| Circuit {
                layers: self
                    .layers
                    .iter()
                    .enumerate()
                    .map(|(i, l)| {
                        let (a, b) = (1 << l.input_var_num, 1 << l.output_var_num);
                        let (i, k) = if n_bufs > 1 { (k * self.layers.len() + i, 0) } else { (i, k) };
                        CircuitLayer {
                            input_var_num: l.input_var_num,
                            output_var_num: l.output_var_num,
                            input_vals: alias(&bufs[2 * i][k * a..(k + 1) * a]),
                            output_vals: alias(&bufs[2 * i + 1][k * b..(k + 1) * b]),
                            mul: alias(&l.mul),
                            add: alias(&l.add),
                            const_: alias(&l.const_),
                            uni: alias(&l.uni),
                        }
                    })
                    .collect(),
                public_input: self.public_input.clone(),
                expected_num_output_zeros: self.expected_num_output_zeros,
                rnd_coefs_identified: true,
            })
            .collect();
        (cs, bufs)
    }
    /// # Safety
    /// Only for circuits made by `create_batch`.
    pub unsafe fn drop_batch(cs: Vec<Circuit<F>>) {
        for c in cs {
            for l in c.layers {
                let _ = ManuallyDrop::new(l);
            }
        }
    }
    /// The byte format the crate under test writes (`layered::Circuit::serialize_into`), read independently.
    pub fn single_thread_prover_load_circuit<C: GKREngine<FieldConfig = F>>(path: &str) -> Self {
        Self::load(path)
    }
    pub fn verifier_load_circuit<C: GKREngine<FieldConfig = F>>(path: &str) -> Self {
        Self::load(path)
    }
    fn load(path: &str) -> Self {
        let b = std::fs::read(path).expect("circuit file");
        let rc = RecursiveCircuit::<F>::read(&b[..]).expect("circuit file format");
        let mut c = rc.flatten();
        c.pre_process_gkr();
        c
    }
}
const MAGIC_NUM: usize = 3914834606642317635;
impl<F: FieldEngine> RecursiveCircuit<F> {
    pub fn read(mut r: impl Read) -> SerdeResult<Self> {
        let bad = || SerdeError::DeserializeError;
        if usize::deserialize_from(&mut r)? != MAGIC_NUM {
            return Err(bad());
        }
        let m = ethnum::U256::deserialize_from(&mut r)?;
        if m != F::CircuitField::MODULUS {
            return Err(bad());
        }
        let num_public_inputs = usize::deserialize_from(&mut r)?;
        let num_outputs = usize::deserialize_from(&mut r)?;
        let expected_num_output_zeros = usize::deserialize_from(&mut r)?;
        let n = usize::deserialize_from(&mut r)?;
        let mut segments = vec![];
        for _ in 0..n {
            let i_len = usize::deserialize_from(&mut r)?;
            let o_len = usize::deserialize_from(&mut r)?;
            if !i_len.is_power_of_two() || !o_len.is_power_of_two() {
                return Err(bad());
            }
            let nc = usize::deserialize_from(&mut r)?;
            let mut child_segs = vec![];
            for _ in 0..nc {
                let id = usize::deserialize_from(&mut r)?;
                let na = usize::deserialize_from(&mut r)?;
                let mut a = vec![];
                for _ in 0..na {
                    a.push(Allocation {
                        i_offset: usize::deserialize_from(&mut r)?,
                        o_offset: usize::deserialize_from(&mut r)?,
                    });
                }
                child_segs.push((id, a));
            }
            fn gates<F: FieldEngine, const N: usize>(mut r: impl Read, custom: bool) -> SerdeResult<Vec<Gate<F, N>>> {
                let n = usize::deserialize_from(&mut r)?;
                let mut v = vec![];
                for _ in 0..n {
                    let mut gate_type = 0;
                    let mut i_ids = [0; N];
                    if custom {
                        gate_type = usize::deserialize_from(&mut r)?;
                        let k = usize::deserialize_from(&mut r)?;
                        if k != N {
                            return Err(SerdeError::DeserializeError);
                        }
                    }
                    for x in i_ids.iter_mut() {
                        *x = usize::deserialize_from(&mut r)?;
                    }
                    let o_id = usize::deserialize_from(&mut r)?;
                    let (coef, coef_type) = match u8::deserialize_from(&mut r)? {
                        1 => (F::CircuitField::deserialize_from(&mut r)?, CoefType::Constant),
                        2 => (F::CircuitField::ZERO, CoefType::Random),
                        3 => (F::CircuitField::ZERO, CoefType::PublicInput(usize::deserialize_from(&mut r)?)),
                        _ => return Err(SerdeError::DeserializeError),
                    };
                    v.push(Gate { i_ids, o_id, coef, coef_type, gate_type });
                }
                Ok(v)
            }
            segments.push(Segment {
                i_var_num: i_len.trailing_zeros() as usize,
                o_var_num: o_len.trailing_zeros() as usize,
                child_segs,
                gate_muls: gates::<F, 2>(&mut r, false)?,
                gate_adds: gates::<F, 1>(&mut r, false)?,
                gate_consts: gates::<F, 0>(&mut r, false)?,
                gate_uni: gates::<F, 1>(&mut r, true)?,
            });
        }
        let layers = Vec::<usize>::deserialize_from(&mut r)?;
        Ok(Self { segments, layers, num_public_inputs, num_outputs, expected_num_output_zeros })
    }
}
/// `executor` of Expander's `bin` crate.
pub mod executor {
    use super::*;
    pub fn prove<C: GKREngine>(
        c: &mut Circuit<C::FieldConfig>,
        mpi: MPIConfig,
    ) -> (<C::FieldConfig as FieldEngine>::ChallengeField, Proof) {
        let mut t = C::TranscriptConfig::new();
        c.fill_rnd_coefs(&mut t);
        c.evaluate();
        let mut sp = crate::gkr::ProverScratchPad::new(0, 0, 1);
        let (v, _) = crate::gkr::gkr_prove(c, &mut sp, &mut t, &mpi);
        (v, t.finalize_and_get_proof())
    }
    pub fn verify<C: GKREngine>(
        c: &mut Circuit<C::FieldConfig>,
        mpi: MPIConfig,
        proof: &Proof,
        v: &<C::FieldConfig as FieldEngine>::ChallengeField,
    ) -> bool {
        let mut t = C::TranscriptConfig::new();
        c.fill_rnd_coefs(&mut t);
        let mut cur = std::io::Cursor::new(&proof.bytes);
        let pi = c.public_input.clone();
        let (ok, _, _, _) = crate::gkr::gkr_verify(mpi.world_size(), c, &pi, v, &mut t, &mut cur);
        // the witness the caller loaded must be the one the proof is about, and every checked output zero
        ok && crate::gkr::proof_inputs::<C::FieldConfig>(&proof.bytes).is_some_and(|p| p == c.layers[0].input_vals)
            && {
                c.evaluate();
                let o = &c.layers.last().unwrap().output_vals;
                o[..c.expected_num_output_zeros].iter().all(|x| x.is_zero())
            }
    }
    pub fn dump_proof_and_claimed_v<F: Field>(p: &Proof, v: &F) -> SerdeResult<Vec<u8>> {
        let mut b = vec![];
        p.serialize_into(&mut b)?;
        v.serialize_into(&mut b)?;
        Ok(b)
    }
    pub fn load_proof_and_claimed_v<F: Field>(b: &[u8]) -> SerdeResult<(Proof, F)> {
        let mut r = b;
        Ok((Proof::deserialize_from(&mut r)?, F::deserialize_from(&mut r)?))
    }
}
pub fn _unused(_: impl Write) {}
