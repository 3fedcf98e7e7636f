//! Stand-in for Expander's `poly_commit`: a transparent binding commitment. The commitment holds the
//! committed values, an opening holds a transcript-dependent tag (so prover and verifier transcripts
//! must agree), and verification recomputes the evaluation.
use crate::arith::*;
use crate::engine::*;
use rand::RngCore;
use serdes::ExpSerde;
use std::marker::PhantomData;

#[derive(Clone, Debug, Default, PartialEq, ExpSerde)]
pub struct Key {
    pub n_vars: usize,
}
#[derive(Clone, Debug, Default, PartialEq, ExpSerde)]
pub struct Srs {
    pub n_vars: usize,
}
impl StructuredReferenceString for Srs {
    type PKey = Key;
    type VKey = Key;
    fn into_keys(self) -> (Key, Key) {
        (Key { n_vars: self.n_vars }, Key { n_vars: self.n_vars })
    }
}
#[derive(Clone, Debug, PartialEq)]
pub struct ValuesCommitment<S> {
    pub vals: Vec<S>,
}
impl<S> Default for ValuesCommitment<S> {
    fn default() -> Self {
        Self { vals: vec![] }
    }
}
impl<S> AsRef<ValuesCommitment<S>> for ValuesCommitment<S> {
    fn as_ref(&self) -> &Self {
        self
    }
}
impl<S: ExpSerde> ExpSerde for ValuesCommitment<S> {
    fn serialize_into<W: std::io::Write>(&self, w: W) -> serdes::SerdeResult<()> {
        self.vals.serialize_into(w)
    }
    fn deserialize_from<R: std::io::Read>(r: R) -> serdes::SerdeResult<Self> {
        Ok(Self { vals: Vec::deserialize_from(r)? })
    }
}
/// The state an Orion-like scheme keeps between commit and open.
#[derive(Clone, Debug, Default, PartialEq, ExpSerde)]
pub struct Scratch {
    pub committed: u64,
}
fn digest<S: ExpSerde>(v: &[S]) -> u64 {
    use sha2::Digest;
    let mut b = vec![];
    for x in v {
        x.serialize_into(&mut b).unwrap();
    }
    let d = sha2::Sha256::digest(&b);
    u64::from_le_bytes(d[..8].try_into().unwrap()) | 1
}
fn eval_strict<F: FieldEngine>(vals: &[F::SimdCircuitField], x: &ExpanderSingleVarChallenge<F>) -> Option<F::ChallengeField> {
    if !vals.len().is_power_of_two()
        || vals.len().trailing_zeros() as usize != x.rz.len()
        || x.r_simd.len() != F::get_field_pack_size().trailing_zeros() as usize
        || !x.r_mpi.is_empty()
    {
        return None;
    }
    Some(F::single_core_eval_circuit_vals_at_expander_challenge(vals, x))
}
macro_rules! pcs {
    ($n:ident, $g:ident, [$($b:tt)*], $f:ty, $name:expr, $ty:ident, $stateful:expr) => {
        #[derive(Clone, Debug, Default, PartialEq)]
        pub struct $n<$g>(PhantomData<$g>);
        unsafe impl<$g> Send for $n<$g> {}
        unsafe impl<$g> Sync for $n<$g> {}
        impl<$($b)*> ExpanderPCS<$f> for $n<$g> {
            const NAME: &'static str = $name;
            const PCS_TYPE: PolynomialCommitmentType = PolynomialCommitmentType::$ty;
            type Params = usize;
            type ScratchPad = Scratch;
            type SRS = Srs;
            type Commitment = ValuesCommitment<<$f as FieldEngine>::SimdCircuitField>;
            type Opening = Vec<u8>;
            type BatchOpening = Vec<u8>;
            fn gen_params(n: usize, _w: usize) -> usize {
                n
            }
            fn gen_srs(p: &usize, _m: &impl MPIEngine, _r: impl RngCore) -> Srs {
                Srs { n_vars: *p }
            }
            fn init_scratch_pad(_p: &usize, _m: &impl MPIEngine) -> Scratch {
                Scratch::default()
            }
            fn commit(
                p: &usize,
                _m: &impl MPIEngine,
                k: &Key,
                poly: &impl MultilinearExtension<<$f as FieldEngine>::SimdCircuitField>,
                s: &mut Scratch,
            ) -> Option<Self::Commitment> {
                let v = crate::cheat::swap(poly.evals(), crate::cheat::COMMIT);
                assert!(v.len().is_power_of_two(), "pcs: commit to a non power of two");
                assert_eq!(v.len(), 1 << *p, "pcs: parameters do not fit the polynomial");
                assert!(k.n_vars >= *p, "pcs: key too small");
                s.committed = digest(&v);
                Some(ValuesCommitment { vals: v.to_vec() })
            }
            fn open(
                _p: &usize,
                _m: &impl MPIEngine,
                _k: &Key,
                poly: &impl MultilinearExtension<<$f as FieldEngine>::SimdCircuitField>,
                _x: &ExpanderSingleVarChallenge<$f>,
                t: &mut impl Transcript,
                s: &Scratch,
            ) -> Option<Vec<u8>> {
                if $stateful {
                    assert_eq!(s.committed, digest(&crate::cheat::swap(poly.evals(), crate::cheat::OPEN)), "pcs: opening without the commitment state");
                }
                Some(t.generate_u8_slice(16))
            }
            fn verify(
                p: &usize,
                k: &Key,
                c: &Self::Commitment,
                x: &ExpanderSingleVarChallenge<$f>,
                v: <$f as FieldEngine>::ChallengeField,
                t: &mut impl Transcript,
                o: &Vec<u8>,
            ) -> bool {
                let tag = t.generate_u8_slice(16);
                k.n_vars >= *p && c.vals.len() == 1 << *p && eval_strict::<$f>(&c.vals, x) == Some(v) && *o == tag
            }
            fn multi_points_batch_open(
                _p: &usize,
                _m: &impl MPIEngine,
                k: &Key,
                polys: &[impl MultilinearExtension<<$f as FieldEngine>::SimdCircuitField>],
                x: &[ExpanderSingleVarChallenge<$f>],
                _s: &Scratch,
                t: &mut impl Transcript,
            ) -> (Vec<<$f as FieldEngine>::ChallengeField>, Vec<u8>) {
                assert_eq!(polys.len(), x.len());
                let v = polys
                    .iter()
                    .zip(x)
                    .map(|(p, x)| {
                        assert!(p.evals().len() <= 1 << k.n_vars, "pcs: key too small");
                        eval_strict::<$f>(&crate::cheat::swap(p.evals(), crate::cheat::EVAL), x).expect("pcs: challenge does not fit the polynomial")
                    })
                    .collect();
                (v, t.generate_u8_slice(16))
            }
            fn multi_points_batch_verify(
                _p: &usize,
                _k: &Key,
                c: &[impl AsRef<Self::Commitment>],
                x: &[ExpanderSingleVarChallenge<$f>],
                v: &[<$f as FieldEngine>::ChallengeField],
                o: &Vec<u8>,
                t: &mut impl Transcript,
            ) -> bool {
                let tag = t.generate_u8_slice(16);
                c.len() == x.len()
                    && c.len() == v.len()
                    && *o == tag
                    && (0..c.len()).all(|i| eval_strict::<$f>(&c[i].as_ref().vals, &x[i]) == Some(v[i]))
            }
        }
    };
}
pcs!(RawExpanderGKR, F, [F: FieldEngine], F, "RawExpanderGKR", Raw, false);
pcs!(OrionPCSForGKR, F, [F: FieldEngine], F, "OrionPCSForGKR", Orion, true);
pcs!(HyraxPCS, F, [F: FieldEngine], F, "HyraxPCS", Hyrax, false);
pcs!(HyperUniKZGPCS, E, [E: Send + Sync], BN254Config, "HyperUniKZGPCS", KZG, false);

#[allow(clippy::type_complexity)]
pub fn expander_pcs_init_testing_only<F: FieldEngine, P: ExpanderPCS<F>>(
    n: usize,
    mpi: &MPIConfig,
) -> (
    P::Params,
    <P::SRS as StructuredReferenceString>::PKey,
    <P::SRS as StructuredReferenceString>::VKey,
    P::ScratchPad,
) {
    let p = P::gen_params(n, mpi.world_size());
    let (pk, vk) = P::gen_srs(&p, mpi, rand::rngs::mock::StepRng::new(1, 1)).into_keys();
    let s = P::init_scratch_pad(&p, mpi);
    (p, pk, vk, s)
}
