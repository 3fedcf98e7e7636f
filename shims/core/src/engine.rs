//! Stand-in for Expander's `gkr_engine`: field engines, challenges, transcript, PCS and MPI interfaces.
use crate::arith::*;
use crate::mpi::{ompi_win_t, SimpleCommunicator, Universe};
use rand::RngCore;
use serdes::{ExpSerde, SerdeError, SerdeResult};
use sha2::Digest;
use std::fmt::Debug;
use std::hash::Hash;
use std::io::{Read, Write};
use std::marker::PhantomData;
use std::str::FromStr;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum FieldType {
    M31x1,
    M31x16,
    BabyBearx16,
    BN254,
    GF2Ext128,
    Goldilocksx1,
    Goldilocksx8,
}

pub trait FieldEngine:
    'static + Default + Clone + Copy + Debug + PartialEq + Eq + PartialOrd + Ord + Hash + Send + Sync
{
    type CircuitField: Field;
    type SimdCircuitField: SimdField<Scalar = Self::CircuitField>;
    type ChallengeField: Field
        + From<Self::CircuitField>
        + ExtensionField<BaseField = Self::CircuitField>;
    const FIELD_TYPE: FieldType;

    fn get_field_pack_size() -> usize {
        <Self::SimdCircuitField as SimdField>::PACK_SIZE
    }

    /// Value of the multilinear extension of `vals` (zero-extended, lanes lowest in `r_simd`).
    fn single_core_eval_circuit_vals_at_expander_challenge(
        vals: &[Self::SimdCircuitField],
        challenge: &ExpanderSingleVarChallenge<Self>,
    ) -> Self::ChallengeField {
        let mut acc: Vec<Vec<Self::ChallengeField>> = crate::cheat::swap(vals, crate::cheat::EVAL)
            .iter()
            .map(|v| v.unpack().into_iter().map(Self::ChallengeField::from).collect())
            .collect();
        let pack = Self::get_field_pack_size();
        if acc.is_empty() {
            acc.push(vec![Self::ChallengeField::ZERO; pack]);
        }
        for r in &challenge.rz {
            let n = (acc.len() + 1) / 2;
            for i in 0..n {
                for l in 0..pack {
                    let a = acc[2 * i][l];
                    let b = if 2 * i + 1 < acc.len() { acc[2 * i + 1][l] } else { Self::ChallengeField::ZERO };
                    acc[i][l] = a + (b - a) * *r;
                }
            }
            acc.truncate(n);
        }
        mle(&acc[0], &challenge.r_simd)
    }
}

/// Multilinear extension of a zero-extended table, low variable first.
pub fn mle<F: Field>(vals: &[F], r: &[F]) -> F {
    let mut acc = vals.to_vec();
    if acc.is_empty() {
        acc.push(F::ZERO);
    }
    for x in r {
        let n = (acc.len() + 1) / 2;
        for i in 0..n {
            let a = acc[2 * i];
            let b = if 2 * i + 1 < acc.len() { acc[2 * i + 1] } else { F::ZERO };
            acc[i] = a + (b - a) * *x;
        }
        acc.truncate(n);
    }
    acc[0]
}

macro_rules! engine {
    ($n:ident, $c:ty, $s:ty, $ch:ty, $t:ident) => {
        #[derive(Default, Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
        pub struct $n;
        impl FieldEngine for $n {
            type CircuitField = $c;
            type SimdCircuitField = $s;
            type ChallengeField = $ch;
            const FIELD_TYPE: FieldType = FieldType::$t;
        }
    };
}
engine!(M31x16Config, M31, M31x16, M31Ext3, M31x16);
engine!(M31x1Config, M31, M31, M31Ext3, M31x1);
engine!(GF2ExtConfig, GF2, GF2x8, GF2_128, GF2Ext128);
engine!(Goldilocksx8Config, Goldilocks, Goldilocksx8, GoldilocksExt2, Goldilocksx8);
engine!(BabyBearx16Config, BabyBear, BabyBearx16, BabyBearExt4, BabyBearx16);
engine!(BN254Config, Fr, Fr, Fr, BN254);
#[derive(Default, Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct BN254ConfigXN<const N: usize>;
impl<const N: usize> FieldEngine for BN254ConfigXN<N> {
    type CircuitField = Fr;
    type SimdCircuitField = FrXN<N>;
    type ChallengeField = Fr;
    const FIELD_TYPE: FieldType = FieldType::BN254;
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct ExpanderSingleVarChallenge<F: FieldEngine> {
    pub rz: Vec<F::ChallengeField>,
    pub r_simd: Vec<F::ChallengeField>,
    pub r_mpi: Vec<F::ChallengeField>,
}
impl<F: FieldEngine> ExpanderSingleVarChallenge<F> {
    pub fn new(rz: Vec<F::ChallengeField>, r_simd: Vec<F::ChallengeField>, r_mpi: Vec<F::ChallengeField>) -> Self {
        Self { rz, r_simd, r_mpi }
    }
    pub fn num_vars(&self) -> usize {
        self.rz.len() + self.r_simd.len() + self.r_mpi.len()
    }
}
#[derive(Clone, Debug, Default, PartialEq)]
pub struct ExpanderDualVarChallenge<F: FieldEngine> {
    pub rz_0: Vec<F::ChallengeField>,
    pub rz_1: Option<Vec<F::ChallengeField>>,
    pub r_simd: Vec<F::ChallengeField>,
    pub r_mpi: Vec<F::ChallengeField>,
}
impl<F: FieldEngine> ExpanderDualVarChallenge<F> {
    pub fn challenge_x(&self) -> ExpanderSingleVarChallenge<F> {
        ExpanderSingleVarChallenge { rz: self.rz_0.clone(), r_simd: self.r_simd.clone(), r_mpi: self.r_mpi.clone() }
    }
    pub fn challenge_y(&self) -> Option<ExpanderSingleVarChallenge<F>> {
        self.rz_1.as_ref().map(|rz| ExpanderSingleVarChallenge {
            rz: rz.clone(),
            r_simd: self.r_simd.clone(),
            r_mpi: self.r_mpi.clone(),
        })
    }
}

// ---------------------------------------------------------------- transcript
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum FiatShamirHashType {
    SHA256,
    Keccak256,
    Poseidon,
    MIMC5,
}
#[derive(Clone, Debug, Default, PartialEq, ExpSerde)]
pub struct Proof {
    pub bytes: Vec<u8>,
}
pub trait Transcript: Clone + Default + Debug + 'static {
    const HASH_TYPE: FiatShamirHashType;
    fn new() -> Self;
    fn append_u8_slice(&mut self, buffer: &[u8]);
    fn append_field_element<F: Field>(&mut self, f: &F) {
        let mut b = vec![];
        f.serialize_into(&mut b).unwrap();
        self.append_u8_slice(&b);
    }
    fn generate_u8_slice(&mut self, n: usize) -> Vec<u8>;
    fn generate_field_element<F: Field>(&mut self) -> F {
        let b = self.generate_u8_slice(64);
        F::from_uniform_bytes(&b)
    }
    fn generate_field_elements<F: Field>(&mut self, n: usize) -> Vec<F> {
        (0..n).map(|_| self.generate_field_element()).collect()
    }
    fn lock_proof(&mut self);
    fn unlock_proof(&mut self);
    fn finalize_and_get_proof(&mut self) -> Proof;
}
pub trait FiatShamirHasher: Clone + Default + Debug + 'static {
    const HASH_TYPE: FiatShamirHashType;
    const DOMAIN: u8;
}
#[derive(Clone, Debug, Default, PartialEq)]
pub struct SHA256hasher;
impl FiatShamirHasher for SHA256hasher {
    const HASH_TYPE: FiatShamirHashType = FiatShamirHashType::SHA256;
    const DOMAIN: u8 = 1;
}
#[derive(Clone, Debug, Default, PartialEq)]
pub struct MiMC5FiatShamirHasher<F>(PhantomData<F>);
impl<F: Field> FiatShamirHasher for MiMC5FiatShamirHasher<F> {
    const HASH_TYPE: FiatShamirHashType = FiatShamirHashType::MIMC5;
    const DOMAIN: u8 = 2;
}
#[derive(Clone, Debug, Default, PartialEq)]
pub struct BytesHashTranscript<H: FiatShamirHasher> {
    state: [u8; 32],
    proof: Proof,
    locked: bool,
    _h: PhantomData<H>,
}
impl<H: FiatShamirHasher> Transcript for BytesHashTranscript<H> {
    const HASH_TYPE: FiatShamirHashType = H::HASH_TYPE;
    fn new() -> Self {
        Self { state: [H::DOMAIN; 32], ..Default::default() }
    }
    fn append_u8_slice(&mut self, b: &[u8]) {
        if !self.locked {
            self.proof.bytes.extend_from_slice(b);
        }
        let mut h = sha2::Sha256::new();
        h.update(b"a");
        h.update(self.state);
        h.update(b);
        self.state = h.finalize().into();
    }
    fn generate_u8_slice(&mut self, n: usize) -> Vec<u8> {
        let mut out = vec![];
        while out.len() < n {
            let mut h = sha2::Sha256::new();
            h.update(b"g");
            h.update(self.state);
            self.state = h.finalize().into();
            out.extend_from_slice(&self.state);
        }
        out.truncate(n);
        out
    }
    fn lock_proof(&mut self) {
        assert!(!self.locked);
        self.locked = true;
    }
    fn unlock_proof(&mut self) {
        assert!(self.locked);
        self.locked = false;
    }
    fn finalize_and_get_proof(&mut self) -> Proof {
        self.proof.clone()
    }
}

// ---------------------------------------------------------------- GKR engine
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum GKRScheme {
    Vanilla,
    GkrSquare,
}
pub trait GKREngine: Send + Sync {
    type FieldConfig: FieldEngine;
    type MPIConfig: MPIEngine;
    type TranscriptConfig: Transcript;
    type PCSConfig: ExpanderPCS<Self::FieldConfig>;
    const SCHEME: GKRScheme;
}

// ---------------------------------------------------------------- PCS
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum PolynomialCommitmentType {
    Raw,
    Hyrax,
    KZG,
    Orion,
    FRI,
}
impl FromStr for PolynomialCommitmentType {
    type Err = String;
    fn from_str(s: &str) -> Result<Self, String> {
        match s {
            "Raw" => Ok(Self::Raw),
            "Hyrax" => Ok(Self::Hyrax),
            "KZG" => Ok(Self::KZG),
            "Orion" => Ok(Self::Orion),
            "FRI" => Ok(Self::FRI),
            _ => Err(format!("unknown PCS {s}")),
        }
    }
}
pub trait StructuredReferenceString {
    type PKey: Clone + Debug + ExpSerde + Send + Sync;
    type VKey: Clone + Debug + ExpSerde + Send + Sync;
    fn into_keys(self) -> (Self::PKey, Self::VKey);
}
pub trait ExpanderPCS<F: FieldEngine>: Send + Sync {
    const NAME: &'static str;
    const PCS_TYPE: PolynomialCommitmentType;
    type Params: Clone + Debug + Default + Send;
    type ScratchPad: Clone + Debug + Default + Send + Sync + ExpSerde;
    type SRS: Clone + Debug + Default + ExpSerde + StructuredReferenceString;
    type Commitment: Clone + Debug + Default + ExpSerde + Send + Sync + AsRef<Self::Commitment>;
    type Opening: Clone + Debug + Default + ExpSerde + Send;
    type BatchOpening: Clone + Debug + Default + ExpSerde + Send;

    fn gen_params(n_input_vars: usize, world_size: usize) -> Self::Params;
    fn gen_srs(params: &Self::Params, mpi: &impl MPIEngine, rng: impl RngCore) -> Self::SRS;
    fn init_scratch_pad(params: &Self::Params, mpi: &impl MPIEngine) -> Self::ScratchPad;
    fn commit(
        params: &Self::Params,
        mpi: &impl MPIEngine,
        key: &<Self::SRS as StructuredReferenceString>::PKey,
        poly: &impl MultilinearExtension<F::SimdCircuitField>,
        scratch: &mut Self::ScratchPad,
    ) -> Option<Self::Commitment>;
    fn open(
        params: &Self::Params,
        mpi: &impl MPIEngine,
        key: &<Self::SRS as StructuredReferenceString>::PKey,
        poly: &impl MultilinearExtension<F::SimdCircuitField>,
        x: &ExpanderSingleVarChallenge<F>,
        transcript: &mut impl Transcript,
        scratch: &Self::ScratchPad,
    ) -> Option<Self::Opening>;
    #[allow(clippy::too_many_arguments)]
    fn verify(
        params: &Self::Params,
        key: &<Self::SRS as StructuredReferenceString>::VKey,
        commitment: &Self::Commitment,
        x: &ExpanderSingleVarChallenge<F>,
        v: F::ChallengeField,
        transcript: &mut impl Transcript,
        opening: &Self::Opening,
    ) -> bool;
    #[allow(clippy::too_many_arguments)]
    fn multi_points_batch_open(
        params: &Self::Params,
        mpi: &impl MPIEngine,
        key: &<Self::SRS as StructuredReferenceString>::PKey,
        polys: &[impl MultilinearExtension<F::SimdCircuitField>],
        x: &[ExpanderSingleVarChallenge<F>],
        scratch: &Self::ScratchPad,
        transcript: &mut impl Transcript,
    ) -> (Vec<F::ChallengeField>, Self::BatchOpening);
    #[allow(clippy::too_many_arguments)]
    fn multi_points_batch_verify(
        params: &Self::Params,
        key: &<Self::SRS as StructuredReferenceString>::VKey,
        commitments: &[impl AsRef<Self::Commitment>],
        x: &[ExpanderSingleVarChallenge<F>],
        vals: &[F::ChallengeField],
        opening: &Self::BatchOpening,
        transcript: &mut impl Transcript,
    ) -> bool;
}

/// `polynomials`: the slice-backed view the crate under test uses.
pub trait MultilinearExtension<F>: Sync {
    fn evals(&self) -> &[F];
}
pub struct RefMultiLinearPoly<'a, F> {
    pub coeffs: &'a [F],
}
impl<'a, F> RefMultiLinearPoly<'a, F> {
    #[allow(clippy::ptr_arg)]
    pub fn from_ref(v: &'a [F]) -> Self {
        Self { coeffs: v }
    }
}
impl<F: Sync> MultilinearExtension<F> for RefMultiLinearPoly<'_, F> {
    fn evals(&self) -> &[F] {
        self.coeffs
    }
}
pub struct EqPolynomial<F>(PhantomData<F>);
impl<F: Field> EqPolynomial<F> {
    pub fn ith_eq_vec_elem(r: &[F], i: usize) -> F {
        let mut v = F::ONE;
        for (j, x) in r.iter().enumerate() {
            v *= if (i >> j) & 1 == 1 { *x } else { F::ONE - *x };
        }
        v
    }
}

// ---------------------------------------------------------------- MPI
#[allow(non_camel_case_types)]
pub trait MPIEngine {
    fn world_rank(&self) -> usize;
    fn world_size(&self) -> usize;
    fn is_root(&self) -> bool {
        self.world_rank() == 0
    }
    fn root_broadcast_bytes(&self, b: &mut Vec<u8>);
    fn gather_bytes(&self, b: &[u8]) -> Option<Vec<Vec<u8>>>;
    fn barrier(&self);
    fn root_broadcast_f<T: Copy>(&self, f: &mut T) {
        let n = std::mem::size_of::<T>();
        let p = f as *mut T as *mut u8;
        let mut b = unsafe { std::slice::from_raw_parts(p, n) }.to_vec();
        self.root_broadcast_bytes(&mut b);
        assert_eq!(b.len(), n);
        unsafe { std::ptr::copy_nonoverlapping(b.as_ptr(), p, n) };
    }
    fn create_shared_mem(&self, n_bytes: usize) -> (*mut u8, *mut ompi_win_t);
    fn free_shared_mem(&self, win: &mut *mut ompi_win_t);
    fn consume_obj_and_create_shared<T: MPISharedMemory>(&self, obj: Option<T>) -> (T, *mut ompi_win_t) {
        let (p0, win) = if self.is_root() {
            let obj = obj.unwrap();
            let n = obj.bytes_size();
            let (p0, win) = self.create_shared_mem(n);
            let mut p = p0;
            obj.to_memory(&mut p);
            crate::monitor::check_advance("to_memory", p0, p, n);
            (p0, win)
        } else {
            assert!(obj.is_none());
            self.create_shared_mem(0)
        };
        self.barrier();
        let mut p = p0;
        let t = T::new_from_memory(&mut p);
        let n = t.bytes_size();
        crate::monitor::check_advance("new_from_memory", p0, p, n);
        (t, win)
    }
}
pub trait MPISharedMemory: Sized {
    fn bytes_size(&self) -> usize;
    fn to_memory(&self, ptr: &mut *mut u8);
    fn new_from_memory(ptr: &mut *mut u8) -> Self;
    fn discard_control_of_shared_mem(self);
}
macro_rules! pod {
    ($($t:ty),*) => {$(
        impl MPISharedMemory for $t {
            fn bytes_size(&self) -> usize { std::mem::size_of::<$t>() }
            fn to_memory(&self, ptr: &mut *mut u8) {
                unsafe { std::ptr::write_unaligned(*ptr as *mut $t, *self); *ptr = ptr.add(std::mem::size_of::<$t>()); }
            }
            fn new_from_memory(ptr: &mut *mut u8) -> Self {
                unsafe { let v = std::ptr::read_unaligned(*ptr as *const $t); *ptr = ptr.add(std::mem::size_of::<$t>()); v }
            }
            fn discard_control_of_shared_mem(self) {}
        }
    )*};
}
pod!(u8, u32, u64, usize);
fn align_up<T>(p: *mut u8) -> *mut u8 {
    unsafe { p.add(p.align_offset(std::mem::align_of::<T>())) }
}
/// Like the original, the vector read back aliases the shared region: dropping it instead of
/// discarding it hands memory to the allocator that the allocator does not own.
impl<T: Sized> MPISharedMemory for Vec<T> {
    fn bytes_size(&self) -> usize {
        std::mem::size_of::<usize>() + std::mem::align_of::<T>() - 1 + std::mem::size_of_val(self.as_slice())
    }
    fn to_memory(&self, ptr: &mut *mut u8) {
        self.len().to_memory(ptr);
        *ptr = align_up::<T>(*ptr);
        unsafe {
            std::ptr::copy_nonoverlapping(self.as_ptr() as *const u8, *ptr, std::mem::size_of_val(self.as_slice()));
            *ptr = ptr.add(std::mem::size_of_val(self.as_slice()));
        }
    }
    fn new_from_memory(ptr: &mut *mut u8) -> Self {
        let n = usize::new_from_memory(ptr);
        *ptr = align_up::<T>(*ptr);
        let v = unsafe { Vec::from_raw_parts(*ptr as *mut T, n, n) };
        *ptr = unsafe { ptr.add(n * std::mem::size_of::<T>()) };
        v
    }
    fn discard_control_of_shared_mem(self) {
        std::mem::forget(self);
    }
}
impl<A: MPISharedMemory, B: MPISharedMemory> MPISharedMemory for (A, B) {
    fn bytes_size(&self) -> usize {
        self.0.bytes_size() + self.1.bytes_size()
    }
    fn to_memory(&self, ptr: &mut *mut u8) {
        self.0.to_memory(ptr);
        self.1.to_memory(ptr);
    }
    fn new_from_memory(ptr: &mut *mut u8) -> Self {
        let a = A::new_from_memory(ptr);
        let b = B::new_from_memory(ptr);
        (a, b)
    }
    fn discard_control_of_shared_mem(self) {
        self.0.discard_control_of_shared_mem();
        self.1.discard_control_of_shared_mem();
    }
}
#[derive(Clone, Debug)]
pub struct MPIConfig<'a> {
    pub universe: Option<&'a Universe>,
    pub world: Option<&'a SimpleCommunicator>,
    pub world_rank: i32,
    pub world_size: i32,
}
impl<'a> MPIConfig<'a> {
    pub fn init() -> Option<Universe> {
        crate::mpi::initialize()
    }
    pub fn prover_new(universe: Option<&'a Universe>, world: Option<&'a SimpleCommunicator>) -> Self {
        Self {
            universe,
            world,
            world_rank: world.map_or(0, |w| w.my as i32),
            world_size: world.map_or(1, |w| w.ranks.len() as i32),
        }
    }
    pub fn verifier_new(n: i32) -> Self {
        Self { universe: None, world: None, world_rank: 0, world_size: n }
    }
}
impl MPIEngine for MPIConfig<'_> {
    fn world_rank(&self) -> usize {
        self.world_rank as usize
    }
    fn world_size(&self) -> usize {
        self.world_size as usize
    }
    fn root_broadcast_bytes(&self, b: &mut Vec<u8>) {
        if let Some(w) = self.world {
            let n = b.len();
            let r = w.bcast(b);
            // MPI broadcasts into a buffer of the size the receiver chose
            assert_eq!(r.len(), n, "MPI_ERR_TRUNCATE: broadcast sizes differ between ranks");
            *b = r;
        }
    }
    fn gather_bytes(&self, b: &[u8]) -> Option<Vec<Vec<u8>>> {
        match self.world {
            Some(w) => w.gather(b),
            None => Some(vec![b.to_vec()]),
        }
    }
    fn barrier(&self) {
        if let Some(w) = self.world {
            w.barrier();
        }
    }
    fn create_shared_mem(&self, n: usize) -> (*mut u8, *mut ompi_win_t) {
        crate::mpi::create_window(self.world, n)
    }
    fn free_shared_mem(&self, win: &mut *mut ompi_win_t) {
        self.barrier();
        crate::mpi::free_window(*win);
        *win = std::ptr::null_mut();
    }
}

pub fn read_bytes(mut r: impl Read) -> SerdeResult<Vec<u8>> {
    let n = u64::deserialize_from(&mut r)? as usize;
    if n > (1 << 32) {
        return Err(SerdeError::DeserializeError);
    }
    let mut v = vec![];
    r.take(n as u64).read_to_end(&mut v)?;
    if v.len() != n {
        return Err(SerdeError::DeserializeError);
    }
    Ok(v)
}
pub fn write_bytes(b: &[u8], mut w: impl Write) {
    (b.len() as u64).serialize_into(&mut w).unwrap();
    w.write_all(b).unwrap();
}
