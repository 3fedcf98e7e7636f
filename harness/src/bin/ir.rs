//! Intermediate representations: every pass on its own, well-formedness, fan-out, determinism.
use expander_compiler::circuit::config::*;
use expander_compiler::circuit::input_mapping::{InputMapping, EMPTY};
use expander_compiler::circuit::ir::{self, common::IrConfig, common::RootCircuit, expr::VarSpec};
use expander_compiler::circuit::layered::{self, Coef, CrossLayerInputType, InputType, NormalInputType};
use expander_compiler::compile::{compile_with_options, CompileOptions};
use expander_compiler::{builder, layering};
use serde_json::json;
use std::cell::RefCell;
use vp::equiv::*;
use vp::lang::*;
use vp::laygen::*;
use vp::{by_field, layeval};
use vpc::{catch, ensure, viol, CaseResult, Check, Driver, Obs, Rng};

/// What an assignment must lead to at every stage.
#[derive(Clone)]
struct Asg<C: Config> {
    ins: Vec<F<C>>,
    want: Option<Vec<F<C>>>,
}
thread_local! {
    static TRAIL: RefCell<Vec<String>> = const { RefCell::new(vec![]) };
}
fn step(s: impl Into<String>) {
    TRAIL.with(|t| t.borrow_mut().push(s.into()));
}
fn trail() -> String {
    TRAIL.with(|t| t.borrow().join(" > "))
}
fn eval<Irc: IrConfig>(rc: &RootCircuit<Irc>, asg: &[Asg<Irc::Config>], o: &mut Obs) -> CaseResult {
    match catch(|| rc.validate()) {
        Err(m) => return Err(viol!("pass-invalid", "validation panics ({m}) after {}", trail())),
        Ok(Err(e)) => return Err(viol!("pass-invalid", "invalid circuit ({e:?}) after {}", trail())),
        Ok(Ok(())) => {}
    }
    for a in asg {
        ensure!(a.ins.len() == rc.input_size(), "pass-inputs", "{} inputs expected, mapping yields {} after {}", rc.input_size(), a.ins.len(), trail());
        o.count("stage_evaluations", 1);
        let got = match catch(|| rc.eval_unsafe_with_errors(a.ins.clone())) {
            Err(m) if a.want.is_none() && m.contains("hints/builtin.rs") => None,
            Err(m) => return Err(viol!("pass-panic", "evaluation panics ({m}) after {}", trail())),
            Ok(Err(_)) => None,
            Ok(Ok((_, false))) => None,
            Ok(Ok((v, true))) => Some(v),
        };
        judge(&got, a)?;
    }
    Ok(())
}
fn judge<C: Config>(got: &Option<Vec<F<C>>>, a: &Asg<C>) -> CaseResult {
    match (got, &a.want) {
        (None, None) => Ok(()),
        (Some(_), None) => Err(viol!("pass-accepts", "a violated assignment is accepted after {}", trail())),
        (None, Some(_)) => Err(viol!("pass-rejects", "a satisfying assignment is rejected after {}", trail())),
        (Some(g), Some(w)) => {
            ensure!(g == w, "pass-output", "outputs {g:?} instead of {w:?} after {}", trail());
            Ok(())
        }
    }
}
fn remap<C: Config>(im: &InputMapping, asg: &mut [Asg<C>], all_read: bool) -> CaseResult {
    // every new position must come from exactly one old input (layers may be padded)
    let mut used = vec![false; im.next_size()];
    for m in im.mapping() {
        if *m != EMPTY {
            ensure!(*m < used.len() && !used[*m], "pass-mapping", "input mapping is not injective after {}", trail());
            used[*m] = true;
        }
    }
    ensure!(!all_read || used.iter().all(|x| *x), "pass-mapping", "an input of the result has no source after {}", trail());
    for a in asg {
        ensure!(im.cur_size() == a.ins.len(), "pass-mapping", "mapping of {} inputs for {} after {}", im.cur_size(), a.ins.len(), trail());
        let n: Vec<F<C>> = im.map_inputs(&a.ins);
        let mut mine = vec![F::<C>::zero(); im.next_size()];
        for (i, m) in im.mapping().iter().enumerate() {
            if *m != EMPTY {
                mine[*m] = a.ins[i];
            }
        }
        ensure!(n == mine, "pass-mapping", "map_inputs does not follow the mapping");
        a.ins = n;
    }
    Ok(())
}
use arith::Field as _;
fn common_passes<Irc: IrConfig>(r: &mut Rng, rc: &mut RootCircuit<Irc>, asg: &mut [Asg<Irc::Config>], o: &mut Obs, max: usize) -> CaseResult {
    for _ in 0..r.range(0, max) {
        match r.below(4) {
            0 | 1 => {
                step("remove_unreachable");
                let (n, im) = catch(|| rc.remove_unreachable()).map_err(|m| viol!("pass-panic", "{m} in {}", trail()))?;
                remap(&im, asg, true)?;
                *rc = n;
                o.count("remove_unreachable", 1);
            }
            k => {
                let force = k == 3;
                step(format!("reassign_duplicates({force})"));
                catch(|| rc.reassign_duplicate_sub_circuit_outputs(force)).map_err(|m| viol!("pass-panic", "{m} in {}", trail()))?;
                o.count("reassign_duplicates", 1);
            }
        }
        eval(rc, asg, o)?;
    }
    Ok(())
}
fn fanout<C: Config>(rc: &ir::dest::RootCircuitRelaxed<C>) -> usize {
    let mut worst = 0;
    for c in rc.circuits.values() {
        let mut n = vec![0usize; c.get_num_variables() + 1];
        for i in &c.instructions {
            if let ir::dest::Instruction::InternalVariable { expr } = i {
                for t in expr.iter() {
                    if let VarSpec::Quad(x, y) = t.vars {
                        n[x] += 1;
                        n[y] += 1;
                    }
                }
            }
        }
        worst = worst.max(n.into_iter().max().unwrap_or(0));
    }
    worst
}
fn limit<C: Config>(r: &mut Rng, rc: &mut ir::dest::RootCircuitRelaxed<C>, asg: &[Asg<C>], o: &mut Obs) -> CaseResult {
    let l = match r.below(4) {
        0 => 2,
        1 => r.range(2, 4),
        2 => r.range(2, 9),
        _ => r.range(9, 80),
    };
    step(format!("solve_mul_fanout_limit({l})"));
    let before = fanout(rc);
    *rc = catch(|| rc.solve_mul_fanout_limit(l)).map_err(|m| viol!("pass-panic", "{m} in {}", trail()))?;
    let after = fanout(rc);
    o.count("fanout_before_total", before as u64);
    o.count("fanout_reduced", (before > l) as u64);
    ensure!(after <= l, "fanout", "a variable feeds {after} multiplications although the limit is {l} (before: {before}) after {}", trail());
    eval(rc, asg, o)
}
struct Mode {
    free: bool,
    fan_only: bool,
}
fn stages<C: Config, I: InputType>(r: &mut Rng, o: &mut Obs, mode: &Mode) -> CaseResult {
    TRAIL.with(|t| t.borrow_mut().clear());
    let mut cfg = GenCfg::random(r);
    cfg.rand = false;
    cfg.custom_hints = false;
    cfg.free &= mode.free;
    if mode.fan_only && r.chance(2, 3) {
        cfg.max_in = 2;
        cfg.max_ops = 60;
        cfg.max_subs = cfg.max_subs.min(2);
        cfg.cons = false;
    }
    let pubs: Vec<F<C>> = (0..cfg.max_pub).map(|i| Coef::<C>::PublicInput(i).get_value_unsafe()).collect();
    let (p, ins, pubs) = gen_prog_pubs::<C>(r, &cfg, pubs);
    run_stages::<C, I>(r, o, mode, &p, &ins, &pubs).map_err(|mut v| {
        v.msg = format!("{}: {}", v.msg, render(&p));
        v
    })?;
    o.distinct(&(fingerprint(&p), trail()));
    if o.wants_sample() && size(&p) < 5 {
        o.sample(json!({"program": render(&p), "stages": trail()}));
    }
    Ok(())
}
fn run_stages<C: Config, I: InputType>(r: &mut Rng, o: &mut Obs, mode: &Mode, p: &Prog<C>, ins: &[F<C>], pubs: &[F<C>]) -> CaseResult {
    let mut asg: Vec<Asg<C>> = vec![];
    let mut all = vec![];
    for (i, q) in assignments(r, p, ins, pubs, 4) {
        if q != pubs {
            continue;
        }
        all.push((i.clone(), q.clone()));
        let (out, t) = RefEval::run(p, &i, &q);
        if t.undefined {
            continue;
        }
        if t.con_fail || (t.op_fail && p.all_live) {
            asg.push(Asg { ins: i, want: None });
        } else if !t.op_fail {
            asg.push(Asg { ins: i, want: Some(out) });
        }
    }
    // ---- source
    let mut src = lower(p);
    step("source");
    eval(&src, &asg, o)?;
    step("remove_unreachable");
    let (n, im) = catch(|| src.remove_unreachable()).map_err(|m| viol!("pass-panic", "{m} in {}", trail()))?;
    remap(&im, &mut asg, true)?;
    src = n;
    eval(&src, &asg, o)?;
    if !mode.fan_only {
        for _ in 0..r.range(0, 4) {
            if r.chance(1, 2) {
                step("detect_chains");
                catch(|| src.detect_chains()).map_err(|m| viol!("pass-panic", "{m} in {}", trail()))?;
                o.count("detect_chains", 1);
                // operations absorbed into a chain are left hollow until the next clean-up
                step("remove_unreachable");
                let (n, im) = catch(|| src.remove_unreachable()).map_err(|m| viol!("pass-panic", "{m} in {}", trail()))?;
                remap(&im, &mut asg, true)?;
                src = n;
                eval(&src, &asg, o)?;
            } else {
                common_passes(r, &mut src, &mut asg, o, 2)?;
            }
        }
    }
    // ---- hint normalized
    step("hint_normalize");
    let mut hn = match catch(|| builder::hint_normalize::process(&src)).map_err(|m| viol!("pass-panic", "{m} in {}", trail()))? {
        Ok(x) => x,
        Err(e) => {
            ensure!(e.is_user(), "pass-internal", "internal error {e:?} in {}", trail());
            return declined_ok(p, &e.to_string(), &all, o);
        }
    };
    eval(&hn, &asg, o)?;
    // the compiler always removes unreachable parts before exporting hints
    let (n, im) = catch(|| hn.remove_unreachable()).map_err(|m| viol!("pass-panic", "{m} in remove_unreachable"))?;
    step("remove_unreachable");
    remap(&im, &mut asg, true)?;
    hn = n;
    eval(&hn, &asg, o)?;
    if !mode.fan_only {
        common_passes(r, &mut hn, &mut asg, o, 3)?;
    }
    step("remove_and_export_hints");
    let (mut hl, he) = catch(|| hn.remove_and_export_hints()).map_err(|m| viol!("pass-panic", "{m} in {}", trail()))?;
    he.validate().map_err(|e| viol!("pass-invalid", "invalid hint program ({e:?}) after {}", trail()))?;
    let reg = registry::<C>();
    let mut next = vec![];
    for a in &asg {
        match catch(|| he.eval_safe(a.ins.clone(), pubs, &reg)) {
            Err(m) => return Err(viol!("pass-panic", "exported hint program panics ({m}) after {}", trail())),
            Ok(Ok(v)) => next.push(Asg { ins: v, want: a.want.clone() }),
            Ok(Err(e)) => ensure!(a.want.is_none(), "pass-rejects", "exported hint program fails ({e:?}) on a satisfying assignment after {}", trail()),
        }
    }
    let mut asg = next;
    eval(&hl, &asg, o)?;
    // ---- hint less
    if !mode.fan_only {
        common_passes(r, &mut hl, &mut asg, o, 3)?;
    }
    // ---- destination
    let opt = r.chance(3, 4);
    step(if opt { "final_build_opt" } else { "final_build" });
    let built = catch(|| if opt { builder::final_build_opt::process(&hl) } else { builder::final_build::process(&hl) });
    let mut d = match built.map_err(|m| viol!("pass-panic", "{m} in {}", trail()))? {
        Ok(x) => x,
        Err(e) => {
            ensure!(e.is_user(), "pass-internal", "internal error {e:?} in {}", trail());
            return declined_ok(p, &e.to_string(), &all, o);
        }
    };
    o.count(if opt { "final_build_opt" } else { "final_build" }, 1);
    eval(&d, &asg, o)?;
    if mode.fan_only {
        return limit(r, &mut d, &asg, o);
    }
    common_passes(r, &mut d, &mut asg, o, 3)?;
    if r.chance(1, 2) {
        limit(r, &mut d, &asg, o)?;
    }
    let exported = !C::ENABLE_RANDOM_COMBINATION || r.chance(1, 3);
    if exported {
        step("export_constraints");
        d = catch(|| d.export_constraints()).map_err(|m| viol!("pass-panic", "{m} in {}", trail()))?;
        ensure!(d.circuits.values().all(|c| c.constraints.is_empty()), "pass-constraints", "constraints left after {}", trail());
        eval(&d, &asg, o)?;
        o.count("export_constraints", 1);
        step("reassign_duplicates(false)");
        catch(|| d.reassign_duplicate_sub_circuit_outputs(false)).map_err(|m| viol!("pass-panic", "{m} in {}", trail()))?;
        eval(&d, &asg, o)?;
        step("remove_unreachable");
        let (n, im) = catch(|| d.remove_unreachable()).map_err(|m| viol!("pass-panic", "{m} in {}", trail()))?;
        remap(&im, &mut asg, true)?;
        d = n;
        eval(&d, &asg, o)?;
    }
    if !I::CROSS_LAYER_RELAY || r.chance(1, 4) {
        step("split_to_single_layer");
        d = catch(|| layering::ir_split::split_to_single_layer(&d)).map_err(|m| viol!("pass-panic", "{m} in {}", trail()))?;
        o.count("split_to_single_layer", 1);
        eval(&d, &asg, o)?;
        step("remove_unreachable");
        let (n, im) = catch(|| d.remove_unreachable()).map_err(|m| viol!("pass-panic", "{m} in {}", trail()))?;
        remap(&im, &mut asg, true)?;
        d = n;
        eval(&d, &asg, o)?;
    }
    step("reassign_duplicates(true)");
    catch(|| d.reassign_duplicate_sub_circuit_outputs(true)).map_err(|m| viol!("pass-panic", "{m} in {}", trail()))?;
    eval(&d, &asg, o)?;
    step("solve_duplicates");
    let mut s = catch(|| d.solve_duplicates()).map_err(|m| viol!("pass-panic", "{m} in {}", trail()))?;
    eval(&s, &asg, o)?;
    o.count("solve_duplicates", 1);
    step("remove_unreachable");
    let (n, im) = catch(|| s.remove_unreachable()).map_err(|m| viol!("pass-panic", "{m} in {}", trail()))?;
    remap(&im, &mut asg, true)?;
    s = n;
    eval(&s, &asg, o)?;
    if s.validate_circuit_has_inputs().is_err() {
        o.count("no_inputs", 1);
        return Ok(());
    }
    // ---- layered
    let allow = r.chance(1, 2);
    step(format!("layering(reorder {allow})"));
    let (mut lc, im) = catch(|| layering::compile::<C, I>(&s, layering::CompileOptions { allow_input_reorder: allow })).map_err(|m| viol!("pass-panic", "{m} in {}", trail()))?;
    if !allow {
        let order: Vec<usize> = im.mapping().iter().copied().filter(|x| *x != EMPTY).collect();
        ensure!(order.windows(2).all(|w| w[0] < w[1]), "input-order", "inputs are reordered ({:?}) although that was not allowed", im.mapping());
        o.count("input_order_kept", 1);
    }
    remap(&im, &mut asg, false)?;
    layered_eval(&lc, &asg, pubs, o)?;
    for _ in 0..r.range(1, 5) {
        let k = r.below(4);
        let name = ["dedup_gates", "expand_small_segments", "find_common_parts", "sort_everything"][k];
        step(name);
        lc = catch(|| {
            let mut lc = lc.clone();
            match k {
                0 => lc.dedup_gates(),
                1 => lc = lc.expand_small_segments(),
                2 => lc = lc.find_common_parts(),
                _ => lc.sort_everything(),
            }
            lc
        })
        .map_err(|m| viol!("pass-panic", "{m} in {}", trail()))?;
        o.count(name, 1);
        layered_eval(&lc, &asg, pubs, o)?;
    }
    Ok(())
}
/// The passes over layered circuits, on circuits of any form.
fn layered_passes<C: Config, I: InputType>(r: &mut Rng, o: &mut Obs) -> CaseResult {
    TRAIL.with(|t| t.borrow_mut().clear());
    let cfg = LayCfg { rand_coef: r.chance(1, 2), custom: r.below(3), max_pub: 2, relays_only: false };
    let mut lc: layered::Circuit<C, I> = gen_layered(r, &cfg);
    if r.chance(2, 3) {
        lc.expected_num_output_zeroes = 0;
    }
    if r.chance(1, 2) {
        twins(r, &mut lc);
    }
    let pubs: Vec<F<C>> = (0..lc.num_public_inputs).map(|_| rand_field::<C>(r)).collect();
    let points: Vec<(Vec<F<C>>, F<C>)> = (0..4).map(|_| ((0..lc.input_size()).map(|_| rand_field::<C>(r)).collect(), rand_field::<C>(r))).collect();
    let random = |lc: &layered::Circuit<C, I>| -> u64 {
        let per: Vec<u64> = lc.segments.iter().fold(vec![], |mut v, s| {
            let own = s.gate_muls.iter().filter(|g| g.coef == Coef::Random).count() + s.gate_adds.iter().filter(|g| g.coef == Coef::Random).count() + s.gate_consts.iter().filter(|g| g.coef == Coef::Random).count() + s.gate_customs.iter().filter(|g| g.coef == Coef::Random).count();
            let ch: u64 = s.child_segs.iter().map(|(k, a)| v[*k] * a.len() as u64).sum();
            v.push(own as u64 + ch);
            v
        });
        lc.layer_ids.iter().map(|i| per[*i]).sum()
    };
    let all = |lc: &layered::Circuit<C, I>| -> Result<Vec<(Vec<F<C>>, bool)>, String> {
        points.iter().map(|(x, k)| layeval::LayEval { c: lc, pubs: &pubs, rng: Rng::new(1), gates: 0, fixed: Some(*k) }.run(x)).collect()
    };
    let want = all(&lc).map_err(|e| viol!("harness", "{e}"))?;
    let draws = random(&lc);
    let src = format!("{lc:?}");
    for _ in 0..r.range(1, 5) {
        let k = r.below(5);
        let name = ["dedup_gates", "expand_small_segments", "find_common_parts", "sort_everything", "compile_step_3"][k];
        step(name);
        let opts = rand_opts(r);
        lc = catch(|| {
            let mut lc = lc.clone();
            match k {
                0 => lc.dedup_gates(),
                1 => lc = lc.expand_small_segments(),
                2 => lc = lc.find_common_parts(),
                3 => lc.sort_everything(),
                _ => return expander_compiler::compile::compile_step_3(lc, opts),
            }
            Ok(lc)
        })
        .map_err(|m| viol!("pass-panic", "{m} in {}", trail()))?
        .map_err(|e| viol!("pass-invalid", "{e:?} in {}", trail()))?;
        match catch(|| lc.validate()) {
            Ok(Ok(())) => {}
            e => return Err(viol!("pass-invalid", "invalid layered circuit ({e:?}) after {}: {src}", trail())),
        }
        layeval::structure(&lc).map_err(|e| viol!("pass-invalid", "malformed layered circuit: {e} after {}: {src}", trail()))?;
        let got = all(&lc).map_err(|e| viol!("pass-invalid", "{e} after {}: {src}", trail()))?;
        ensure!(got == want, "pass-output", "outputs {got:?} instead of {want:?} after {}: {src}", trail());
        ensure!(random(&lc) == draws, "pass-random", "{} random coefficients instead of {draws} after {}: {src}", random(&lc), trail());
        o.count(name, 1);
        o.count("stage_evaluations", points.len() as u64);
    }
    o.distinct(&src);
    Ok(())
}
/// Adds gates that agree with others in all but one respect.
fn twins<C: Config, I: InputType>(r: &mut Rng, lc: &mut layered::Circuit<C, I>) {
    fn more<C: Config, G: Clone>(r: &mut Rng, n_pub: usize, out: usize, v: &mut Vec<G>, coef: fn(&mut G) -> (&mut Coef<C>, &mut usize)) {
        for i in 0..v.len() {
            if r.chance(1, 2) {
                let mut g = v[i].clone();
                let (k, o) = coef(&mut g);
                match r.below(5) {
                    0 => *o = r.below(out),
                    1 => *k = Coef::Constant(rand_field::<C>(r)),
                    2 => {
                        if let Coef::Constant(c) = *k {
                            *k = Coef::Constant(F::<C>::zero() - c)
                        }
                    }
                    3 if n_pub > 0 => *k = Coef::PublicInput(r.below(n_pub)),
                    _ => {}
                }
                v.push(g);
            }
        }
    }
    let n = lc.num_public_inputs;
    for s in lc.segments.iter_mut() {
        let out = s.num_outputs;
        more::<C, _>(r, n, out, &mut s.gate_muls, |g| (&mut g.coef, &mut g.output));
        more::<C, _>(r, n, out, &mut s.gate_adds, |g| (&mut g.coef, &mut g.output));
        more::<C, _>(r, n, out, &mut s.gate_consts, |g| (&mut g.coef, &mut g.output));
        more::<C, _>(r, n, out, &mut s.gate_customs, |g| (&mut g.coef, &mut g.output));
        for i in 0..s.gate_customs.len() {
            if r.chance(1, 2) {
                let mut g = s.gate_customs[i].clone();
                g.gate_type += 1;
                s.gate_customs.push(g);
            }
        }
    }
}
fn layered_eval<C: Config, I: InputType>(lc: &layered::Circuit<C, I>, asg: &[Asg<C>], pubs: &[F<C>], o: &mut Obs) -> CaseResult {
    match catch(|| lc.validate()) {
        Err(m) => return Err(viol!("pass-invalid", "validation panics ({m}) after {}", trail())),
        Ok(Err(e)) => return Err(viol!("pass-invalid", "invalid layered circuit ({e:?}) after {}", trail())),
        Ok(Ok(())) => {}
    }
    layeval::structure(lc).map_err(|e| viol!("pass-invalid", "malformed layered circuit: {e} after {}", trail()))?;
    for a in asg {
        o.count("stage_evaluations", 1);
        let (out, ok) = layeval::run(lc, &a.ins, pubs, 5).map_err(|e| viol!("pass-invalid", "{e} after {}", trail()))?;
        let got = ok.then_some(out);
        if F::<C>::FIELD_SIZE == 1 && a.want.is_none() && got.is_some() && C::ENABLE_RANDOM_COMBINATION {
            continue;
        }
        judge(&got, a)?;
    }
    Ok(())
}

fn c06(d: &mut Driver) {
    d.cases("single-layer", d.n(14000, 700000), |r, o| {
        let k = r.below(5);
        by_field!(k, stages::<NormalInputType>(r, o, &Mode { free: true, fan_only: false }))
    });
    d.cases("cross-layer", d.n(7000, 350000), |r, o| {
        let k = r.below(5);
        by_field!(k, stages::<CrossLayerInputType>(r, o, &Mode { free: true, fan_only: false }))
    });
    d.cases("layered-passes", d.n(12000, 600000), |r, o| {
        let k = r.below(5);
        if r.chance(1, 2) { by_field!(k, layered_passes::<NormalInputType>(r, o)) } else { by_field!(k, layered_passes::<CrossLayerInputType>(r, o)) }
    });
}
/// The option of the compiler: counted on the wires of the finished circuit.
fn fan_compiled<C: Config, I: InputType>(r: &mut Rng, o: &mut Obs) -> CaseResult {
    let mut cfg = GenCfg::random(r);
    cfg.max_subs = 0;
    cfg.max_in = r.range(1, 3);
    cfg.max_ops = 60;
    cfg.cons = r.chance(1, 2);
    let (p, _, _) = gen_prog::<C>(r, &cfg);
    let limit = if r.chance(1, 2) { 2 } else { r.range(2, 9) };
    let mut opts = rand_opts(r);
    opts.mul_fanout_limit = Some(limit);
    let src = lower(&p);
    let Ok(b) = build::<C, I>(&src, &opts)? else { return Ok(()) };
    opts.mul_fanout_limit = None;
    let Ok(free) = build::<C, I>(&src, &opts)? else { return Err(viol!("fanout-declined", "the limit {limit} makes the compiler decline: {}", render(&p))) };
    let (m, m0) = (vp::layeval::max_mul_fanout(&b.lc), vp::layeval::max_mul_fanout(&free.lc));
    ensure!(m <= limit, "fanout-compiled", "a wire feeds {m} multiplications although the limit is {limit}: {}", render(&p));
    o.count("compiled_over_limit_without_it", (m0 > limit) as u64);
    o.distinct(&(fingerprint(&p), limit));
    Ok(())
}
fn c04(d: &mut Driver) {
    d.cases("compiled", d.n(6000, 200000), |r, o| {
        let k = r.below(5);
        if r.chance(1, 2) { by_field!(k, fan_compiled::<NormalInputType>(r, o)) } else { by_field!(k, fan_compiled::<CrossLayerInputType>(r, o)) }
    });
    d.cases("random", d.n(30000, 900000), |r, o| {
        let k = r.below(5);
        by_field!(k, stages::<NormalInputType>(r, o, &Mode { free: false, fan_only: true }))
    });
}

// ---------------------------------------------------------------- determinism
fn bytes<C: Config, I: InputType>(src: &ir::source::RootCircuit<C>, opts: &CompileOptions) -> Result<Option<(ir::hint_normalized::RootCircuit<C>, layered::Circuit<C, I>, Vec<u8>)>, String> {
    use serdes::ExpSerde;
    let r = catch(|| compile_with_options::<C, I>(src, opts.clone()))?;
    match r {
        Err(_) => Ok(None),
        Ok((a, b)) => {
            let mut y = vec![];
            catch(|| b.serialize_into(&mut y).unwrap())?;
            Ok(Some((a, b, y)))
        }
    }
}
fn determinism<C: Config, I: InputType>(r: &mut Rng, o: &mut Obs) -> CaseResult {
    let cfg = GenCfg::random(r);
    let (p, _, _) = gen_prog::<C>(r, &cfg);
    let opts = rand_opts(r);
    let first = bytes::<C, I>(&lower(&p), &opts).map_err(|m| viol!("compile-panic", "compile panicked: {m}: {}", render(&p)))?;
    for k in 0..3 {
        // freshly built maps are iterated in another order
        let again = bytes::<C, I>(&lower(&p), &opts).map_err(|m| viol!("compile-panic", "compile panicked: {m}: {}", render(&p)))?;
        match (&first, &again) {
            (None, None) => {}
            (Some(a), Some(b)) => {
                ensure!(a.1 == b.1 && a.2 == b.2, "nondeterministic-layered", "compilation {k} of the same program yields another layered circuit ({opts:?}): {}", render(&p));
                // (the order in which its sub-circuits are serialised is left open)
                ensure!(a.0 == b.0, "nondeterministic-witness", "compilation {k} of the same program yields another witness program ({opts:?}): {}", render(&p));
            }
            _ => return Err(viol!("nondeterministic-verdict", "the same program is once compiled and once declined ({opts:?}): {}", render(&p))),
        }
        o.count("recompilations", 1);
    }
    o.count("compiled", first.is_some() as u64);
    o.count("with_sub_circuits", !p.subs.is_empty() as u64);
    o.distinct(&(fingerprint(&p), format!("{opts:?}")));
    Ok(())
}
fn c05(d: &mut Driver) {
    d.cases("single-layer", d.n(7000, 300000), |r, o| {
        let k = r.below(5);
        by_field!(k, determinism::<NormalInputType>(r, o))
    });
    d.cases("cross-layer", d.n(4000, 200000), |r, o| {
        let k = r.below(5);
        by_field!(k, determinism::<CrossLayerInputType>(r, o))
    });
}

// ---------------------------------------------------------------- well-formedness
fn well_formed<C: Config, I: InputType>(r: &mut Rng, o: &mut Obs) -> CaseResult {
    let cfg = GenCfg::random(r);
    let (p, _, _) = gen_prog::<C>(r, &cfg);
    let opts = rand_opts(r);
    let src = lower(&p);
    let b = match build::<C, I>(&src, &opts)? {
        Err(_) => {
            o.count("declined", 1);
            return Ok(());
        }
        Ok(b) => b,
    };
    shape(&p, &src, &b, &opts, o)?;
    o.count("segments", b.lc.segments.len() as u64);
    o.count("layers", b.lc.layer_ids.len() as u64);
    o.count("child_segments", b.lc.segments.iter().map(|s| s.child_segs.len() as u64).sum());
    o.distinct(&(fingerprint(&p), format!("{opts:?}")));
    Ok(())
}
fn c03(d: &mut Driver) {
    d.cases("single-layer", d.n(30000, 600000), |r, o| {
        let k = r.below(5);
        by_field!(k, well_formed::<NormalInputType>(r, o))
    });
    d.cases("cross-layer", d.n(20000, 400000), |r, o| {
        let k = r.below(5);
        by_field!(k, well_formed::<CrossLayerInputType>(r, o))
    });
    // plain arithmetic, so that the order of inputs is always observable
    d.cases("input-order", d.n(10000, 200000), |r, o| {
        fn go<C: Config, I: InputType>(r: &mut Rng, o: &mut Obs) -> CaseResult {
            let mut cfg = GenCfg::random(r);
            cfg.free = false;
            cfg.rand = false;
            cfg.max_in = 8;
            let (mut p, _, pubs) = gen_prog::<C>(r, &cfg);
            for b in p.subs.iter_mut().chain([&mut p.root]) {
                b.cons.clear();
                for op in b.ops.iter_mut() {
                    *op = match op.clone() {
                        Op::Div { x, y, .. } | Op::Bool { x, y, .. } => Op::Mul(vec![x, y]),
                        Op::IsZero(x) => Op::Lin { terms: vec![(x, F::<C>::one())], c: F::<C>::one() },
                        Op::ToBin { x, n } => Op::Ident(vec![x; n]),
                        op => op,
                    };
                }
                // keep variable numbering: replace multi-result identities by linear combinations
                let ops = std::mem::take(&mut b.ops);
                for op in ops {
                    match op {
                        Op::Ident(xs) => b.ops.extend(xs.into_iter().enumerate().map(|(i, x)| Op::Lin { terms: vec![(x, F::<C>::from(i as u32 + 2))], c: F::<C>::zero() })),
                        op => b.ops.push(op),
                    }
                }
            }
            // outputs reading several inputs, some of them deep
            let mut n = 1 + p.root.n_in + p.root.ops.iter().map(|op| op.n_out()).sum::<usize>();
            for _ in 0..if p.root.n_in == 0 { 0 } else { r.below(5) } {
                let pick: Vec<usize> = (0..r.range(2, 4)).map(|_| r.range(1, p.root.n_in)).collect();
                for _ in 0..r.below(3) {
                    p.root.ops.push(Op::Mul(pick.clone()));
                    n += 1;
                    let k = n - 1;
                    p.root.ops.push(Op::Mul(vec![k, pick[0]]));
                    n += 1;
                }
                let k = if r.chance(1, 2) { n - 1 } else { pick[0] };
                p.root.ops.push(Op::Lin { terms: vec![(k, F::<C>::from(3u32)), (pick[pick.len() - 1], F::<C>::from(5u32))], c: F::<C>::one() });
                p.root.outs.push(n);
                n += 1;
            }
            let mut opts = rand_opts(r);
            opts.allow_input_reorder = r.chance(1, 8);
            let src = lower(&p);
            let Ok(b) = build::<C, I>(&src, &opts)? else { return Ok(()) };
            shape(&p, &src, &b, &opts, o)?;
            let ins: Vec<F<C>> = (0..p.root.n_in).map(|_| rand_field::<C>(r) + F::<C>::from(12345u32)).collect();
            let w = catch(|| b.ws.solve_witness_from_raw_inputs(ins.clone(), pubs.clone(), &registry::<C>())).map_err(|m| viol!("solver-panic", "{m}"))?;
            let w = w.map_err(|e| viol!("solver-rejects", "witness solving failed on plain arithmetic: {e:?}"))?;
            let vals = w.iter_scalar().next().unwrap().0;
            // greedy embedding: the witness (without padding zeros) must be a subsequence of the inputs
            if !opts.allow_input_reorder && F::<C>::FIELD_SIZE > 1 {
                let distinct: std::collections::HashSet<String> = ins.iter().map(|x| format!("{x:?}")).collect();
                if distinct.len() == ins.len() && !ins.iter().any(|x| x.is_zero()) {
                    let seq: Vec<usize> = vals.iter().filter_map(|v| ins.iter().position(|x| x == v)).collect();
                    // positions nothing reads repeat the lowest input in use, wherever they are
                    let low = seq.iter().min().copied();
                    let mut d: Vec<usize> = seq.iter().copied().filter(|x| Some(*x) != low).collect();
                    d.dedup();
                    ensure!(d.windows(2).all(|w| w[0] < w[1]), "input-order", "inputs {seq:?} although reordering was not allowed ({opts:?}): {}", render(&p));
                    o.count("input_orders_checked", 1);
                    o.count("inputs_in_order", d.len() as u64);
                }
            }
            o.distinct(&(fingerprint(&p), format!("{opts:?}")));
            Ok(())
        }
        let k = r.below(5);
        if r.chance(1, 2) { by_field!(k, go::<NormalInputType>(r, o)) } else { by_field!(k, go::<CrossLayerInputType>(r, o)) }
    });
}

// ---------------------------------------------------------------- input mappings
fn mapping_case(r: &mut Rng, o: &mut Obs) -> CaseResult {
    fn rand_map(r: &mut Rng, cur: usize, tight: bool) -> (InputMapping, Vec<Option<usize>>) {
        let keep: Vec<usize> = (0..cur).filter(|_| r.chance(3, 4)).collect();
        let next = keep.len() + if tight { 0 } else { r.below(4) };
        let mut tgt: Vec<usize> = (0..next).collect();
        r.shuffle(&mut tgt);
        let mut m = vec![None; cur];
        for (i, k) in keep.iter().enumerate() {
            m[*k] = Some(tgt[i]);
        }
        (InputMapping::new(next, m.iter().map(|x| x.unwrap_or(EMPTY)).collect()), m)
    }
    fn apply(m: &[Option<usize>], next: usize, v: &[u64]) -> Vec<u64> {
        let mut out = vec![0; next];
        for (i, t) in m.iter().enumerate() {
            if let Some(t) = t {
                out[*t] = v[i];
            }
        }
        out
    }
    let n = r.below(10);
    let id = InputMapping::new_identity(n);
    let v: Vec<u64> = (0..n).map(|_| r.u64() | 1).collect();
    ensure!(id.map_inputs(&v) == v && id.validate() && id.cur_size() == n && id.next_size() == n, "identity", "identity mapping of {n} is not the identity");
    // a chain of mappings, composed in both ways
    let mut acc = id.clone();
    let mut acc2 = id;
    let mut val = v.clone();
    let mut last_ok = true;
    for _ in 0..r.range(1, 4) {
        let tight = r.chance(1, 2);
        let (m, spec) = rand_map(r, val.len(), tight);
        ensure!(m.cur_size() == val.len(), "sizes", "cur_size");
        let full = (0..m.next_size()).all(|t| spec.contains(&Some(t)));
        ensure!(m.validate() == full, "validate", "validate() is {} for {:?}", m.validate(), m);
        ensure!(m.mapping().iter().enumerate().all(|(i, x)| m.map(i) == *x), "map", "map() differs from mapping()");
        val = apply(&spec, m.next_size(), &val);
        let before = acc.clone();
        acc = acc.compose(&m);
        acc2.compose_in_place(&m);
        ensure!(acc == acc2, "compose", "compose and compose_in_place differ: {before:?} with {m:?}");
        ensure!(acc.cur_size() == v.len() && acc.next_size() == m.next_size(), "sizes", "sizes after composition");
        let got = acc.map_inputs(&v);
        ensure!(got == val, "compose", "composition maps {v:?} to {got:?}, one after the other to {val:?}");
        last_ok &= full;
        o.count("compositions", 1);
    }
    // invalid mappings are recognised
    let n2 = r.range(2, 8);
    let (m, _) = rand_map(r, n2, true);
    let used: Vec<usize> = (0..m.cur_size()).filter(|i| m.map(*i) != EMPTY).collect();
    if used.len() >= 2 {
        let mut w = m.mapping().clone();
        match r.below(3) {
            0 => w[used[0]] = w[used[1]],
            1 => w[used[0]] = m.next_size() + r.below(3),
            _ => w[used[0]] = EMPTY,
        }
        let bad = InputMapping::new(m.next_size(), w);
        ensure!(!bad.validate(), "validate", "an invalid mapping passes validation: {bad:?}");
        o.count("invalid_recognised", 1);
    }
    use serdes::ExpSerde;
    let mut buf = vec![];
    acc.serialize_into(&mut buf).map_err(|e| viol!("serde", "{e:?}"))?;
    let back = InputMapping::deserialize_from(&buf[..]).map_err(|e| viol!("serde", "{e:?}"))?;
    ensure!(back == acc, "serde", "a mapping does not survive serialisation");
    o.distinct(&format!("{acc:?}"));
    Ok(())
}
fn c07(d: &mut Driver) {
    d.cases("random", d.n(100000, 3000000), |r, o| mapping_case(r, o));
}

fn main() {
    vpc::main(&[
        Check { id: "C03", rule: "one random program compiled with random options and inspected; distinct = different (program, options)", run: c03 },
        Check { id: "C07", rule: "one random chain of input mappings composed and applied; distinct = different composed mappings", run: c07 },
        Check { id: "C04", rule: "one random program lowered to the destination IR, limited to a random fan-out, counted and evaluated; distinct = different (program, limit)", run: c04 },
        Check { id: "C05", rule: "one random program compiled four times with the same options; distinct = different (program, options)", run: c05 },
        Check { id: "C06", rule: "one random program taken through a random sequence of passes, evaluated after each; distinct = different (program, pass sequence)", run: c06 },
    ])
}
