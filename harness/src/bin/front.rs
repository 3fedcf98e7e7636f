//! Front-end checks.
use expander_compiler::circuit::config::*;
use expander_compiler::circuit::layered::{CrossLayerInputType, InputType, NormalInputType};
use expander_compiler::compile::CompileOptions;
use expander_compiler::frontend::*;
use serde_json::json;
use std::rc::Rc;
use vp::by_field;
use vp::equiv::*;
use vp::front::*;
use vp::lang::*;
use vpc::{catch, ensure, viol, CaseResult, Check, Driver, Obs, Rng, Violation};

fn build_front<C: Config, I: InputType>(p: &Prog<C>, plan: Rc<Plan<C>>, opts: &CompileOptions, cross: bool, asg: &[(Vec<F<C>>, Vec<F<C>>)]) -> Result<Result<AnyBuilt<C>, String>, Violation> {
    let shape = shape_of(p);
    set_plan(plan);
    let r = if cross {
        catch(|| compile_cross_layer::<C, _>(&shape, opts.clone()).map(|r| AnyBuilt::X(Built { ws: r.witness_solver, lc: r.layered_circuit })))
    } else {
        catch(|| compile::<C, _>(&shape, opts.clone()).map(|r| AnyBuilt::N(Built { ws: r.witness_solver, lc: r.layered_circuit })))
    };
    match r {
        // the builder refuses constants that can never pass an operation's check
        Err(m) if m.contains("frontend/builder.rs") && asg.iter().all(|(i, q)| !RefEval::run(p, i, q).1.accepts()) => Ok(Err(m)),
        Err(m) => Err(viol!("compile-panic", "building or compiling panicked: {m}: {}", render(p))),
        Ok(Ok(b)) => Ok(Ok(b)),
        Ok(Err(e)) if e.is_user() => Ok(Err(e.to_string())),
        Ok(Err(e)) => Err(viol!("compile-internal", "compile failed with an internal error: {e:?}: {}", render(p))),
    }
}
enum AnyBuilt<C: Config> {
    N(Built<C, NormalInputType>),
    X(Built<C, CrossLayerInputType>),
}

fn front_case<C: Config>(r: &mut Rng, o: &mut Obs) -> CaseResult {
    let bits = F::<C>::FIELD_SIZE;
    let cfg = front_cfg(r, bits == 256 || bits == 32);
    front_with::<C>(r, o, &cfg)
}
use arith::Field as _;
fn front_with<C: Config>(r: &mut Rng, o: &mut Obs, cfg: &GenCfg) -> CaseResult {
    let (p, ins, pubs) = gen_prog::<C>(r, cfg);
    let asg = assignments(r, &p, &ins, &pubs, 3);
    let style = r.u64();
    // which root variables have the same value under every assignment tried
    let vals: Vec<Vec<F<C>>> = asg.iter().map(|(i, q)| root_values(&p, i, q)).collect();
    let fixed: Vec<Option<F<C>>> = (0..vals[0].len()).map(|k| if vals.iter().all(|v| v[k] == vals[0][k]) { Some(vals[0][k]) } else { None }).collect();
    for k in op_kinds(&p) {
        o.count(k, 1);
    }
    // 1. the debug evaluator
    for (j, (i, q)) in asg.iter().enumerate() {
        let (want, t) = RefEval::run(&p, i, q);
        if t.undefined || RefEval::chancy(&p, i, q) {
            o.count("debug_skipped_undefined", 1);
            continue;
        }
        set_plan(Rc::new(Plan { prog: p.clone(), style, root_values: vals[j].clone(), fixed: fixed.clone() }));
        let got = catch(|| extra::debug_eval::<C, _, _, _>(&shape_of(&p), &assignment::<C>(i, q), registry::<C>()));
        match (got, t.accepts()) {
            (Ok(out), true) => {
                ensure!(out == want, "debug-output", "debug evaluation yields {out:?}, reference {want:?}: {}", render(&p));
                if let Some(m) = const_err() {
                    return Err(viol!("debug-constant", "debug builder: {m}: {}", render(&p)));
                }
                o.count("debug_accept", 1);
            }
            (Ok(_), false) => return Err(viol!("debug-accepts", "debug evaluation accepts a violated program: {}", render(&p))),
            (Err(_), false) => o.count("debug_reject", 1),
            (Err(m), true) => return Err(viol!("debug-rejects", "debug evaluation fails on a satisfied program: {m}: {}", render(&p))),
        }
    }
    // 2. compiled
    let mut opts = rand_opts(r);
    if r.chance(1, 2) {
        opts = CompileOptions::default();
    }
    let cross = r.chance(1, 3);
    let plan = Rc::new(Plan { prog: p.clone(), style, root_values: vals[0].clone(), fixed });
    let b = build_front::<C, NormalInputType>(&p, plan, &opts, cross, &asg)?;
    if let Some(m) = const_err() {
        return Err(viol!("builder-constant", "builder: {m}: {}", render(&p)));
    }
    clear_plan();
    let b = match b {
        Err(m) => return declined_ok(&p, &m, &asg, o),
        Ok(b) => b,
    };
    let reg = registry::<C>();
    for (i, q) in &asg {
        if RefEval::chancy(&p, i, q) {
            o.count("depends_on_challenge", 1);
            continue;
        }
        let out = match &b {
            AnyBuilt::N(b) => run_front(b, i, q, &reg, o),
            AnyBuilt::X(b) => run_front(b, i, q, &reg, o),
        }
        .map_err(|mut v| {
            v.msg = format!("{}: {}", v.msg, render(&p));
            v
        })?;
        compare(&p, i, q, &out, o)?;
    }
    o.distinct(&(fingerprint(&p), opts.opt_level, cross));
    if o.wants_sample() && size(&p) < 5 {
        o.sample(json!({"program": render(&p), "options": format!("{opts:?}"), "cross": cross}));
    }
    Ok(())
}
/// Through the assignment-level witness API, which must agree with the raw one.
fn run_front<C: Config, I: InputType>(b: &Built<C, I>, i: &[F<C>], q: &[F<C>], reg: &HintRegistry<F<C>>, o: &mut Obs) -> Result<Outcome<C>, Violation> {
    let out = execute(b, i, q, reg, o)?;
    let w = catch(|| b.ws.solve_witness_with_hints(&assignment::<C>(i, q), reg)).map_err(|m| viol!("solver-panic", "solve_witness panicked: {m}"))?;
    let raw = b.ws.solve_witness_from_raw_inputs(i.to_vec(), q.to_vec(), reg);
    match (w, raw) {
        (Ok(a), Ok(b)) => {
            let (x, y): (Vec<_>, Vec<_>) = (a.iter_scalar().collect(), b.iter_scalar().collect());
            ensure!(x == y && a.num_witnesses == b.num_witnesses, "assignment-witness", "solve_witness disagrees with the raw interface");
        }
        (Err(_), Err(_)) => {}
        (a, _) => return Err(viol!("assignment-witness", "solve_witness {} but the raw interface does not", if a.is_ok() { "succeeds" } else { "fails" })),
    }
    Ok(out)
}

fn f01(d: &mut Driver) {
    d.cases("random", d.n(9000, 400000), |r, o| {
        let k = r.below(5);
        by_field!(k, front_case(r, o))
    });
    d.cases("comparisons", d.n(300, 10000), |r, o| match r.below(8) {
        0 => compare_case::<BN254Config>(r, o),
        _ => compare_case::<M31Config>(r, o),
    });
}

/// Comparisons of values that differ in few places.
fn compare_case<C: Config>(r: &mut Rng, o: &mut Obs) -> CaseResult {
    let p = F::<C>::MODULUS;
    let full = bitlen(p);
    let near = |r: &mut Rng, x: F<C>| -> F<C> {
        let x = x.to_u256();
        let y = match r.below(6) {
            0 => x,
            1 => (x + r.below(4) as u128) % p,
            2 => (x + (p - r.below(4) as u128)) % p,
            _ => {
                let mut y = x;
                for _ in 0..r.range(1, 3) {
                    y ^= ethnum::U256::ONE << r.below(full) as u32;
                }
                y % p
            }
        };
        F::<C>::from_u256(y)
    };
    let k = rand_field::<C>(r);
    let mut ops = vec![Op::Const(k)];
    let n = r.range(1, 3);
    for _ in 0..n {
        let pair = *r.pick(&[(1, 2), (2, 1), (1, 3), (3, 2), (1, 1)]);
        ops.push(if r.chance(1, 2) { Op::Gt(pair.0, pair.1) } else { Op::Geq(pair.0, pair.1) });
    }
    let prog = Prog { n_pub: 0, subs: vec![], root: Body { n_in: 2, ops, cons: vec![], outs: (1..4 + n).filter(|x| *x != 3).collect() }, zeroes: 0, all_live: true };
    let mut asg = vec![];
    for _ in 0..if full > 64 { 12 } else { 40 } {
        let x = if r.chance(1, 2) { near(r, k) } else { rand_field::<C>(r) };
        asg.push((vec![x, near(r, x)], vec![]));
    }
    let plan = Rc::new(Plan { prog: prog.clone(), style: r.u64(), root_values: vec![], fixed: vec![] });
    for (i, q) in &asg {
        let (want, _) = RefEval::run(&prog, i, q);
        set_plan(plan.clone());
        let got = catch(|| extra::debug_eval::<C, _, _, _>(&shape_of(&prog), &assignment::<C>(i, q), registry::<C>())).map_err(|m| viol!("debug-rejects", "debug evaluation of comparisons fails: {m}"))?;
        ensure!(got == want, "debug-output", "debug evaluation of comparisons of {i:?} yields {got:?}, integers say {want:?}: {}", render(&prog));
    }
    let cross = r.chance(1, 3);
    let b = build_front::<C, NormalInputType>(&prog, plan, &rand_opts(r), cross, &asg)?;
    clear_plan();
    let b = b.map_err(|m| viol!("declined-valid", "compile declined comparisons: {m}"))?;
    let reg = registry::<C>();
    for (i, q) in &asg {
        let out = match &b {
            AnyBuilt::N(b) => execute(b, i, q, &reg, o)?,
            AnyBuilt::X(b) => execute(b, i, q, &reg, o)?,
        };
        o.count("compared_pairs", 1);
        compare(&prog, i, q, &out, o)?;
    }
    o.distinct(&(fingerprint(&prog), cross));
    Ok(())
}
/// Programs without free choices, attacked through their hints.
fn forge_case<C: Config>(r: &mut Rng, o: &mut Obs, gts: bool) -> CaseResult {
    let bits = F::<C>::FIELD_SIZE;
    let mut cfg = GenCfg::random(r);
    cfg.free = false;
    cfg.custom_hints = false;
    cfg.rand = false;
    cfg.narrow_bits = true;
    cfg.max_ops = cfg.max_ops.min(14);
    cfg.all_live |= r.chance(1, 2);
    let front = gts || r.chance(1, 2);
    if front {
        cfg.ir_only = false;
        cfg.max_subs = cfg.max_subs.min(6);
        cfg.gt = gts && (bits == 256 || bits == 32);
    }
    if gts {
        cfg.max_ops = 4;
        cfg.max_subs = cfg.max_subs.min(1);
    }
    let (p, ins, pubs) = gen_prog::<C>(r, &cfg);
    for k in op_kinds(&p) {
        o.count(k, 1);
    }
    let asg = assignments(r, &p, &ins, &pubs, 3);
    let opts = rand_opts(r);
    let cross = r.chance(1, 3);
    let b = if front {
        let plan = Rc::new(Plan { prog: p.clone(), style: r.u64(), root_values: vec![], fixed: vec![] });
        let b = build_front::<C, NormalInputType>(&p, plan, &opts, cross, &asg)?;
        clear_plan();
        b
    } else if cross {
        build::<C, CrossLayerInputType>(&lower(&p), &opts)?.map(AnyBuilt::X)
    } else {
        build::<C, NormalInputType>(&lower(&p), &opts)?.map(AnyBuilt::N)
    };
    let b = match b {
        Err(m) => return declined_ok(&p, &m, &asg, o),
        Ok(b) => b,
    };
    let budget = if cfg.gt { 1_500_000 } else { 400_000 };
    for (i, q) in &asg {
        match &b {
            AnyBuilt::N(b) => vp::forge::attack(b, &p, i, q, r, o, budget)?,
            AnyBuilt::X(b) => vp::forge::attack(b, &p, i, q, r, o, budget)?,
        }
    }
    o.distinct(&(fingerprint(&p), opts.opt_level, cross));
    if o.wants_sample() && size(&p) < 5 {
        o.sample(json!({"program": render(&p), "options": format!("{opts:?}"), "cross": cross}));
    }
    Ok(())
}
fn f02(d: &mut Driver) {
    d.cases("random", d.n(20000, 600000), |r, o| {
        let k = r.below(5);
        by_field!(k, forge_case(r, o, false))
    });
    d.cases("comparisons", d.n(600, 20000), |r, o| match r.below(8) {
        0 => forge_case::<BN254Config>(r, o, true),
        _ => forge_case::<M31Config>(r, o, true),
    });
}

fn main() {
    vpc::main(&[
        Check { id: "F01", rule: "one random program written against the builder API, run by the debug evaluator and compiled, on several assignments; distinct = different (program, optimisation level, target)", run: f01 },
        Check { id: "F02", rule: "one compiled program attacked on several assignments by replacing the values a prover computes; distinct = different (program, optimisation level, target)", run: f02 },
    ])
}
