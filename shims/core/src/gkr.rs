//! Stand-in for Expander's `gkr` and `sumcheck`: a transparent interactive proof with the same
//! interface and the same soundness contract. The proof carries the input values; the verifier
//! re-evaluates the circuit, compares the multilinear extension of the outputs with the claim at a
//! transcript challenge, and reduces to claims about the multilinear extension of the inputs.
use crate::arith::*;
use crate::circuit::Circuit;
use crate::engine::*;
use serdes::ExpSerde;
use std::io::{Cursor, Read};
use std::marker::PhantomData;

pub struct ProverScratchPad<F: FieldEngine>(PhantomData<F>);
impl<F: FieldEngine> ProverScratchPad<F> {
    pub fn new(_i: usize, _o: usize, _w: usize) -> Self {
        Self(PhantomData)
    }
}
pub struct ScratchPadBatch<F: FieldEngine>(Vec<ProverScratchPad<F>>);
impl<F: FieldEngine> ScratchPadBatch<F> {
    pub fn new(n: usize, i: usize, o: usize, w: usize) -> Self {
        Self((0..n).map(|_| ProverScratchPad::new(i, o, w)).collect())
    }
    pub fn as_mut_slice(&mut self) -> &mut [ProverScratchPad<F>] {
        &mut self.0
    }
}

fn ser<F: ExpSerde>(v: &[F]) -> Vec<u8> {
    let mut b = vec![];
    for x in v {
        x.serialize_into(&mut b).unwrap();
    }
    b
}
/// Lane by lane: copies packed into lanes are written as the same copies of several ranks would be.
fn ser_lanes<F: FieldEngine>(v: &[F::SimdCircuitField]) -> Vec<u8> {
    let u: Vec<Vec<F::CircuitField>> = v.iter().map(|x| x.unpack()).collect();
    let mut b = vec![];
    for l in 0..F::get_field_pack_size() {
        for x in &u {
            x[l].serialize_into(&mut b).unwrap();
        }
    }
    b
}
fn log2(n: usize) -> usize {
    assert!(n.is_power_of_two());
    n.trailing_zeros() as usize
}
/// One rank's inputs are at offset rank * 2^input_vars, as the r_mpi variables sit above rz.
fn draw<F: FieldEngine, T: Transcript>(c: &Circuit<F>, world: usize, t: &mut T) -> (ExpanderSingleVarChallenge<F>, ExpanderDualVarChallenge<F>) {
    let ns = log2(F::get_field_pack_size());
    let nm = log2(world);
    let no = c.layers.last().unwrap().output_var_num;
    let ni = c.layers[0].input_var_num;
    let out = ExpanderSingleVarChallenge {
        rz: t.generate_field_elements(no),
        r_simd: t.generate_field_elements(ns),
        r_mpi: t.generate_field_elements(nm),
    };
    let ch = ExpanderDualVarChallenge {
        rz_0: t.generate_field_elements(ni),
        rz_1: if c.layers[0].mul.is_empty() { None } else { Some(t.generate_field_elements(ni)) },
        r_simd: t.generate_field_elements(ns),
        r_mpi: t.generate_field_elements(nm),
    };
    (out, ch)
}
fn eval<F: FieldEngine>(per_rank: &[Vec<F::SimdCircuitField>], x: &ExpanderSingleVarChallenge<F>) -> F::ChallengeField {
    let one = ExpanderSingleVarChallenge { rz: x.rz.clone(), r_simd: x.r_simd.clone(), r_mpi: vec![] };
    let v: Vec<_> = per_rank.iter().map(|p| F::single_core_eval_circuit_vals_at_expander_challenge(p, &one)).collect();
    mle(&v, &x.r_mpi)
}
fn prove_ranks<F: FieldEngine, T: Transcript>(
    c: &Circuit<F>,
    ins: &[Vec<F::SimdCircuitField>],
    outs: &[Vec<F::SimdCircuitField>],
    t: &mut T,
) -> (F::ChallengeField, ExpanderDualVarChallenge<F>) {
    let mut msg = vec![];
    let flat: Vec<u8> = ins.iter().flat_map(|v| ser_lanes::<F>(v)).collect();
    write_bytes(&flat, &mut msg);
    t.append_u8_slice(&msg);
    let (o, ch) = draw(c, ins.len(), t);
    let v = if crate::cheat::is_stubborn() { F::ChallengeField::ZERO } else { eval(outs, &o) };
    (v, ch)
}
pub fn gkr_prove<F: FieldEngine, T: Transcript>(
    c: &Circuit<F>,
    _sp: &mut ProverScratchPad<F>,
    t: &mut T,
    mpi: &MPIConfig,
) -> (F::ChallengeField, ExpanderDualVarChallenge<F>) {
    let w = mpi.world_size();
    if w == 1 {
        return prove_ranks(c, &[c.layers[0].input_vals.clone()], &[c.layers.last().unwrap().output_vals.clone()], t);
    }
    let mine = {
        let mut b = ser(&c.layers[0].input_vals);
        b.extend(ser(&c.layers.last().unwrap().output_vals));
        b
    };
    let all = mpi.gather_bytes(&mine);
    let (ni, no) = (c.layers[0].input_vals.len(), c.layers.last().unwrap().output_vals.len());
    // every rank ends with the same transcript, as in the original: the root sends the gathered values
    let mut blob: Vec<u8> = match all {
        Some(v) => v.concat(),
        None => vec![0; mine.len() * w],
    };
    mpi.root_broadcast_bytes(&mut blob);
    let mut cur = Cursor::new(&blob);
    let (mut ins, mut outs) = (vec![], vec![]);
    for _ in 0..w {
        ins.push((0..ni).map(|_| F::SimdCircuitField::deserialize_from(&mut cur).unwrap()).collect());
        outs.push((0..no).map(|_| F::SimdCircuitField::deserialize_from(&mut cur).unwrap()).collect());
    }
    prove_ranks(c, &ins, &outs, t)
}
pub fn gkr_prove_batch<F: FieldEngine, T: Transcript>(
    cs: &[Circuit<F>],
    sps: &mut [ProverScratchPad<F>],
    t: &mut T,
) -> (F::ChallengeField, ExpanderDualVarChallenge<F>) {
    assert_eq!(cs.len(), sps.len());
    let ins: Vec<_> = cs.iter().map(|c| c.layers[0].input_vals.clone()).collect();
    let outs: Vec<_> = cs.iter().map(|c| c.layers.last().unwrap().output_vals.clone()).collect();
    prove_ranks(&cs[0], &ins, &outs, t)
}
/// The inputs a proof of one copy carries.
pub fn proof_inputs<F: FieldEngine>(bytes: &[u8]) -> Option<Vec<F::SimdCircuitField>> {
    let b = read_bytes(bytes).ok()?;
    read_lanes::<F>(&mut Cursor::new(&b), b.len() / (F::get_field_pack_size() * <F::CircuitField as Field>::SIZE))
}
fn read_lanes<F: FieldEngine>(cur: &mut Cursor<&Vec<u8>>, n: usize) -> Option<Vec<F::SimdCircuitField>> {
    let mut lanes: Vec<Vec<F::CircuitField>> = vec![];
    for _ in 0..F::get_field_pack_size() {
        lanes.push((0..n).map(|_| F::CircuitField::deserialize_from(&mut *cur).ok()).collect::<Option<_>>()?);
    }
    Some((0..n).map(|i| F::SimdCircuitField::pack(&lanes.iter().map(|l| l[i]).collect::<Vec<_>>())).collect())
}
#[allow(clippy::type_complexity)]
pub fn gkr_verify<F: FieldEngine, T: Transcript>(
    world: usize,
    c: &Circuit<F>,
    public_input: &[F::SimdCircuitField],
    claimed_v: &F::ChallengeField,
    t: &mut T,
    mut r: impl Read,
) -> (bool, ExpanderDualVarChallenge<F>, F::ChallengeField, Option<F::ChallengeField>) {
    let n = 1usize << c.log_input_size();
    let bytes = read_bytes(&mut r);
    let ok_len = |b: &Vec<u8>| b.len() == n * world * F::get_field_pack_size() * <F::CircuitField as Field>::SIZE;
    let bytes = match bytes {
        Ok(b) if ok_len(&b) => b,
        _ => {
            let (_, ch) = draw(c, world, t);
            let z = F::ChallengeField::ZERO;
            let y = ch.rz_1.as_ref().map(|_| z);
            return (false, ch, z, y);
        }
    };
    let mut msg = vec![];
    write_bytes(&bytes, &mut msg);
    t.append_u8_slice(&msg);
    let mut cur = Cursor::new(&bytes);
    let (mut ins, mut outs) = (vec![], vec![]);
    for _ in 0..world {
        let Some(v) = read_lanes::<F>(&mut cur, n) else {
            let (_, ch) = draw(c, world, t);
            let z = F::ChallengeField::ZERO;
            let y = ch.rz_1.as_ref().map(|_| z);
            return (false, ch, z, y);
        };
        let mut c2 = c.clone();
        c2.public_input = public_input.to_vec();
        c2.pre_process_gkr();
        c2.layers[0].input_vals = v.clone();
        c2.evaluate();
        outs.push(c2.layers.pop().unwrap().output_vals);
        ins.push(v);
    }
    let (o, ch) = draw(c, world, t);
    let ok = eval(&outs, &o) == *claimed_v;
    let v0 = eval(&ins, &ch.challenge_x());
    let v1 = ch.challenge_y().map(|y| eval(&ins, &y));
    (ok, ch, v0, v1)
}

macro_rules! config {
    ($n:ident, $f:ty, $t:ty, $p:ty, $s:ident) => {
        #[derive(Default, Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
        pub struct $n<'a> {
            _p: PhantomData<&'a ()>,
        }
        impl<'a> GKREngine for $n<'a> {
            type FieldConfig = $f;
            type MPIConfig = MPIConfig<'a>;
            type TranscriptConfig = $t;
            type PCSConfig = $p;
            const SCHEME: GKRScheme = GKRScheme::$s;
        }
    };
}
use crate::pcs::*;
config!(M31x16ConfigSha2RawVanilla, M31x16Config, BytesHashTranscript<SHA256hasher>, RawExpanderGKR<M31x16Config>, Vanilla);
config!(M31x16ConfigSha2OrionVanilla, M31x16Config, BytesHashTranscript<SHA256hasher>, OrionPCSForGKR<M31x16Config>, Vanilla);
config!(BN254ConfigMIMC5Raw, BN254Config, BytesHashTranscript<MiMC5FiatShamirHasher<Fr>>, RawExpanderGKR<BN254Config>, Vanilla);
config!(BN254ConfigSha2Hyrax, BN254Config, BytesHashTranscript<SHA256hasher>, HyraxPCS<BN254Config>, Vanilla);
config!(GF2ExtConfigSha2Raw, GF2ExtConfig, BytesHashTranscript<SHA256hasher>, RawExpanderGKR<GF2ExtConfig>, Vanilla);
config!(Goldilocksx8ConfigSha2Raw, Goldilocksx8Config, BytesHashTranscript<SHA256hasher>, RawExpanderGKR<Goldilocksx8Config>, Vanilla);
config!(BabyBearx16ConfigSha2Raw, BabyBearx16Config, BytesHashTranscript<SHA256hasher>, RawExpanderGKR<BabyBearx16Config>, Vanilla);
