//! Random layered circuits, built directly (not by the compiler).
use crate::lang::*;
use expander_compiler::circuit::config::Config;
use expander_compiler::circuit::layered::*;
use vpc::Rng;

pub struct LayCfg {
    pub rand_coef: bool,
    /// Custom gates with this many inputs at most.
    pub custom: usize,
    pub max_pub: usize,
    /// Cross-layer wires only through additions with constant coefficients.
    pub relays_only: bool,
}
fn coef<C: Config>(r: &mut Rng, cfg: &LayCfg, n_pub: usize) -> Coef<C> {
    match r.below(6) {
        0 if cfg.rand_coef => Coef::Random,
        1 | 2 if n_pub > 0 => Coef::PublicInput(r.below(n_pub)),
        _ => Coef::Constant(rand_field::<C>(r)),
    }
}
fn input<I: InputType>(r: &mut Rng, sizes: &[usize], near: bool) -> I::Input {
    let l = if near || !I::CROSS_LAYER_RELAY { 0 } else { r.below(sizes.len()) };
    <I::Input as Input>::new(l, r.below(sizes[l]))
}
/// A segment reading windows of `sizes` and writing `out` wires.
fn segment<C: Config, I: InputType>(r: &mut Rng, cfg: &LayCfg, n_pub: usize, segs: &[Segment<C, I>], sizes: &[usize], out: usize, full: bool) -> Segment<C, I> {
    let mut s = Segment::<C, I> {
        num_inputs: <I::InputUsize as InputUsize>::from_vec(sizes.to_vec()),
        num_outputs: out,
        child_segs: vec![],
        gate_muls: vec![],
        gate_adds: vec![],
        gate_consts: vec![],
        gate_customs: vec![],
    };
    for _ in 0..r.below(5) {
        s.gate_muls.push(Gate { inputs: [input::<I>(r, sizes, cfg.relays_only), input::<I>(r, sizes, cfg.relays_only)], output: r.below(out), coef: coef(r, cfg, n_pub) });
    }
    for _ in 0..r.below(5) {
        let i = input::<I>(r, sizes, false);
        let k = if cfg.relays_only && i.layer() > 0 { Coef::Constant(rand_field::<C>(r)) } else { coef(r, cfg, n_pub) };
        s.gate_adds.push(Gate { inputs: [i], output: r.below(out), coef: k });
    }
    for _ in 0..r.below(3) {
        s.gate_consts.push(Gate { inputs: [], output: r.below(out), coef: coef(r, cfg, n_pub) });
    }
    if cfg.custom > 0 {
        for _ in 0..r.below(3) {
            s.gate_customs.push(GateCustom {
                gate_type: r.range(12345, 12346),
                inputs: (0..r.range(1, cfg.custom)).map(|_| input::<I>(r, sizes, true)).collect(),
                output: r.below(out),
                coef: coef(r, cfg, n_pub),
            });
        }
    }
    for (id, ch) in segs.iter().enumerate() {
        let ci = ch.num_inputs.to_vec();
        if ci.len() > sizes.len() || ci.iter().zip(sizes).any(|(a, b)| a > b) || ch.num_outputs > out || !r.chance(1, 2) {
            continue;
        }
        let al = (0..r.range(1, 3))
            .map(|_| Allocation {
                input_offset: <I::InputUsize as InputUsize>::from_vec(ci.iter().zip(sizes).map(|(a, b)| a * r.below(b / a)).collect()),
                output_offset: ch.num_outputs * r.below(out / ch.num_outputs),
            })
            .collect();
        s.child_segs.push((id, al));
    }
    if full {
        for o in 0..out {
            s.gate_consts.push(Gate { inputs: [], output: o, coef: coef(r, cfg, n_pub) });
        }
    }
    s
}
pub fn gen_layered<C: Config, I: InputType>(r: &mut Rng, cfg: &LayCfg) -> Circuit<C, I> {
    let n_pub = r.below(cfg.max_pub + 1);
    let n_layers = r.range(1, 4);
    let widths: Vec<usize> = (0..=n_layers).map(|_| 1 << r.below(4)).collect();
    let mut segs: Vec<Segment<C, I>> = vec![];
    for _ in 0..r.below(4) {
        let k = if I::CROSS_LAYER_RELAY { r.range(1, n_layers.min(2)) } else { 1 };
        let sizes: Vec<usize> = (0..k).map(|_| 1 << r.below(2)).collect();
        let out = 1 << r.below(2);
        let s = segment(r, cfg, n_pub, &segs, &sizes, out, false);
        segs.push(s);
    }
    let mut layer_ids = vec![];
    for l in 0..n_layers {
        let k = if I::CROSS_LAYER_RELAY { r.range(1, l + 1) } else { 1 };
        let sizes: Vec<usize> = (0..k).map(|j| widths[l - j]).collect();
        let s = segment(r, cfg, n_pub, &segs, &sizes, widths[l + 1], true);
        layer_ids.push(segs.len());
        segs.push(s);
    }
    let num_actual_outputs = r.range(1, widths[n_layers]);
    Circuit { num_public_inputs: n_pub, num_actual_outputs, expected_num_output_zeroes: r.below(num_actual_outputs + 1), segments: segs, layer_ids }
}
/// Makes the zero constraints hold often: scales the coefficients of what feeds them with zero.
pub fn lucky<C: Config, I: InputType>(r: &mut Rng, c: &mut Circuit<C, I>) {
    if r.chance(1, 2) {
        let id = *c.layer_ids.last().unwrap();
        let z = c.expected_num_output_zeroes;
        let s = &mut c.segments[id];
        s.gate_consts.retain(|g| g.output >= z);
        if r.chance(1, 2) {
            s.gate_muls.retain(|g| g.output >= z);
            s.gate_adds.retain(|g| g.output >= z);
            s.child_segs.clear();
        }
    }
}
