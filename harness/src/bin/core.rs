//! Compiler checks.
use expander_compiler::circuit::config::*;
use expander_compiler::circuit::layered::{CrossLayerInputType, InputType, NormalInputType};
use vp::by_field;
use vp::equiv::*;
use vp::lang::*;
use vpc::{Check, Driver, Obs, Rng, CaseResult};

fn equiv_random<C: Config, I: InputType>(r: &mut Rng, o: &mut Obs) -> CaseResult {
    let cfg = GenCfg::random(r);
    equiv_case::<C, I>(r, o, &cfg, 4)
}
fn equiv<I: InputType>(d: &mut Driver) {
    d.cases("random", d.n(80000, 1500000), |r, o| {
        let k = r.below(5);
        by_field!(k, equiv_random::<I>(r, o))
    });
}
fn main() {
    vpc::main(&[
        Check { id: "C01", rule: "one random program compiled with random options and run on several assignments, compared with the reference interpreter; distinct = different (program, options)", run: equiv::<NormalInputType> },
        Check { id: "C02", rule: "as C01, for the cross-layer target", run: equiv::<CrossLayerInputType> },
    ])
}
