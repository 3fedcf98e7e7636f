//! Stand-in for Expander's `crosslayer_prototype`: recursive cross-layer circuit and its evaluation.
pub use crate::circuit::CoefType;
use crate::engine::FieldEngine;

#[derive(Clone, Debug, PartialEq)]
pub struct SimpleGate<F: FieldEngine, const N: usize> {
    pub i_ids: [usize; N],
    pub o_id: usize,
    pub coef: F::CircuitField,
    pub coef_type: CoefType,
}
pub type SimpleGateMul<F> = SimpleGate<F, 2>;
pub type SimpleGateAdd<F> = SimpleGate<F, 1>;
pub type SimpleGateCst<F> = SimpleGate<F, 0>;
#[derive(Clone, Debug, PartialEq)]
pub struct CrossLayerRelay<F: FieldEngine> {
    pub i_id: usize,
    pub o_id: usize,
    pub i_layer: usize,
    pub coef: F::CircuitField,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Allocation {
    pub i_offset: Vec<usize>,
    pub o_offset: usize,
}
#[derive(Clone, Debug, PartialEq)]
pub struct CrossLayerSegment<F: FieldEngine> {
    pub input_size: Vec<usize>,
    pub output_size: usize,
    pub child_segs: Vec<(usize, Vec<Allocation>)>,
    pub gate_muls: Vec<SimpleGateMul<F>>,
    pub gate_adds: Vec<SimpleGateAdd<F>>,
    pub gate_csts: Vec<SimpleGateCst<F>>,
    pub gate_relay: Vec<CrossLayerRelay<F>>,
}
#[derive(Clone, Debug, PartialEq)]
pub struct CrossLayerRecursiveCircuit<F: FieldEngine> {
    pub num_public_inputs: usize,
    pub num_outputs: usize,
    pub expected_num_output_zeros: usize,
    pub layers: Vec<usize>,
    pub segments: Vec<CrossLayerSegment<F>>,
}
