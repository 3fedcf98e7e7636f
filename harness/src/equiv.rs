//! Compiles a program and compares every evaluator of the compiled artefacts with the reference.
use crate::lang::*;
use crate::layeval;
use arith::Field as _;
use expander_compiler::circuit::config::Config;
use expander_compiler::circuit::ir;
use expander_compiler::circuit::layered::{self, InputType};
use expander_compiler::compile::{compile_with_options, CompileOptions};
use expander_compiler::frontend::{HintRegistry, WitnessSolver};
use serde_json::json;
use vpc::{catch, ensure, viol, CaseResult, Obs, Rng, Violation};

pub struct Built<C: Config, I: InputType> {
    pub ws: WitnessSolver<C>,
    pub lc: layered::Circuit<C, I>,
}

/// A short rendering of a program for reports.
pub fn render<C: Config>(p: &Prog<C>) -> String {
    let s = format!("{p:?}");
    if s.len() > 4000 {
        format!("{}...", &s[..s.char_indices().nth(4000).map(|x| x.0).unwrap_or(s.len())])
    } else {
        s
    }
}

pub fn rand_opts(r: &mut Rng) -> CompileOptions {
    CompileOptions {
        mul_fanout_limit: match r.below(6) {
            0 => Some(2),
            1 => Some(r.range(2, 5)),
            2 => Some(r.range(5, 64)),
            _ => None,
        },
        allow_input_reorder: r.chance(2, 3),
        opt_level: r.range(1, 3),
    }
}

/// The assignments on which a program is tried.
pub fn assignments<C: Config>(r: &mut Rng, p: &Prog<C>, ins: &[F<C>], pubs: &[F<C>], extra: usize) -> Vec<(Vec<F<C>>, Vec<F<C>>)> {
    let mut v = vec![(ins.to_vec(), pubs.to_vec())];
    for _ in 0..extra {
        let mut i = ins.to_vec();
        let mut q = pubs.to_vec();
        match r.below(3) {
            0 => {
                i = rand_inputs::<C>(r, p.root.n_in);
                q = rand_inputs::<C>(r, p.n_pub);
            }
            1 if !i.is_empty() => {
                let k = r.below(i.len());
                i[k] = rand_field::<C>(r);
            }
            _ if !q.is_empty() => {
                let k = r.below(q.len());
                q[k] = rand_field::<C>(r);
            }
            _ => i = rand_inputs::<C>(r, p.root.n_in),
        }
        v.push((i, q));
    }
    v
}

/// What an execution of the compiled artefacts did.
pub enum Outcome<C: Config> {
    Accept(Vec<F<C>>),
    Reject(#[allow(dead_code)] String),
}

/// Compiles; `Ok(None)` when the compiler declined with a user error.
pub fn build<C: Config, I: InputType>(src: &ir::source::RootCircuit<C>, opts: &CompileOptions) -> Result<Result<Built<C, I>, String>, Violation> {
    match catch(|| compile_with_options::<C, I>(src, opts.clone())) {
        Err(m) => Err(viol!("compile-panic", "compile panicked: {m}")),
        Ok(Ok((irw, lc))) => Ok(Ok(Built { ws: WitnessSolver { circuit: irw }, lc })),
        Ok(Err(e)) if e.is_user() => Ok(Err(e.to_string())),
        Ok(Err(e)) => Err(viol!("compile-internal", "compile failed with an internal error: {e:?}")),
    }
}

/// Solves the witness and runs the layered circuit, comparing the evaluators with each other.
pub fn execute<C: Config, I: InputType>(b: &Built<C, I>, ins: &[F<C>], pubs: &[F<C>], reg: &HintRegistry<F<C>>, o: &mut Obs) -> Result<Outcome<C>, Violation> {
    let w = match catch(|| b.ws.solve_witness_from_raw_inputs(ins.to_vec(), pubs.to_vec(), reg)) {
        Err(m) => return Err(viol!("solver-panic", "witness solver panicked: {m}")),
        Ok(Err(e)) => {
            o.count("solver_rejected", 1);
            return Ok(Outcome::Reject(format!("witness solver: {e:?}")));
        }
        Ok(Ok(w)) => w,
    };
    let n = w.num_inputs_per_witness;
    ensure!(n == b.lc.input_size(), "witness-size", "witness has {n} inputs, the layered circuit {}", b.lc.input_size());
    ensure!(w.num_public_inputs_per_witness == b.lc.num_public_inputs, "witness-size", "public input counts differ");
    let (vals, pv) = w.iter_scalar().next().ok_or_else(|| viol!("witness-size", "witness is empty"))?;
    ensure!(pv == pubs, "witness-public", "the witness carries other public inputs than those given");
    let (out, ok) = layeval::run(&b.lc, &vals, pubs, 77).map_err(|e| viol!("layered-malformed", "layered circuit cannot be interpreted: {e}"))?;
    let (out2, ok2) = catch(|| b.lc.eval_with_public_inputs(vals.clone(), pubs)).map_err(|m| viol!("eval-panic", "layered evaluation panicked: {m}"))?;
    ensure!(ok == ok2, "eval-agree", "the layered evaluator reports {ok2} where the interpreter of the format finds {ok}");
    ensure!(out == out2, "eval-agree", "the layered evaluator's outputs differ from the interpreter's");
    let (r3, o3) = catch(|| b.lc.run_with_output(&w)).map_err(|m| viol!("run-panic", "run_with_output panicked: {m}"))?;
    ensure!(r3 == vec![ok] && (o3.len() == 1 && o3[0] == out), "run-agree", "run_with_output disagrees with evaluation");
    let r4 = b.lc.run(&w);
    ensure!(r4 == vec![ok], "run-agree", "run disagrees with evaluation");
    if ok {
        Ok(Outcome::Accept(out))
    } else {
        o.count("layered_rejected", 1);
        Ok(Outcome::Reject("layered constraints".into()))
    }
}

/// Whether the reference's verdict on one assignment is binding for the compiled artefacts.
pub fn compare<C: Config>(p: &Prog<C>, ins: &[F<C>], pubs: &[F<C>], got: &Outcome<C>, o: &mut Obs) -> CaseResult {
    let (want, t) = RefEval::run(p, ins, pubs);
    o.count("reference_steps", t.steps as u64);
    if t.con_fail || (t.op_fail && p.all_live) {
        o.count("expected_reject", 1);
        if let Outcome::Accept(_) = got {
            return Err(viol!("accepts-violation", "accepted although {} is violated: {}", if t.con_fail { "a constraint" } else { "an operation's implicit check" }, render(p))
                .with(json!({"inputs": ins.iter().map(|x| format!("{x:?}")).collect::<Vec<_>>(), "public": pubs.iter().map(|x| format!("{x:?}")).collect::<Vec<_>>()})));
        }
        return Ok(());
    }
    if t.op_fail {
        // The failing check may sit in code that no output or constraint depends on.
        o.count("undetermined", 1);
        return Ok(());
    }
    o.count("expected_accept", 1);
    match got {
        Outcome::Reject(m) => Err(viol!("rejects-valid", "rejected ({m}) although every constraint holds: {}", render(p))
            .with(json!({"inputs": ins.iter().map(|x| format!("{x:?}")).collect::<Vec<_>>(), "public": pubs.iter().map(|x| format!("{x:?}")).collect::<Vec<_>>()}))),
        Outcome::Accept(out) => {
            ensure!(*out == want, "wrong-output", "outputs {:?} differ from the reference {:?}: {}", out, want, render(p));
            Ok(())
        }
    }
}

/// The compiler declined: fine only if no assignment can satisfy the program.
pub fn declined_ok<C: Config>(p: &Prog<C>, msg: &str, asg: &[(Vec<F<C>>, Vec<F<C>>)], o: &mut Obs) -> CaseResult {
    o.count("declined", 1);
    if msg.contains("circuit has no inputs") {
        // Documented: a program that reads none of its inputs has no layered circuit. Then its
        // outputs cannot depend on the inputs (they may on public inputs, which are coefficients).
        o.count("declined_no_inputs", 1);
        if !p.subs.is_empty() {
            // Also declined: a sub-circuit (or the part of one that lands on its own layer) that
            // yields constants only. The reference cannot tell where the layers end.
            return Ok(());
        }
        let (ins0, _) = &asg[0];
        let mut seen: Option<(Vec<F<C>>, bool)> = None;
        for (i, q) in asg {
            if *q != asg[0].1 || i.len() != ins0.len() {
                continue;
            }
            let (out, t) = RefEval::run(p, i, q);
            if t.op_fail || t.undefined || RefEval::chancy(p, i, q) {
                continue;
            }
            let cur = (out, t.accepts());
            match &seen {
                None => seen = Some(cur),
                Some(s) => ensure!(*s == cur, "declined-valid", "compile found no inputs in a program that depends on them: {}", render(p)),
            }
        }
        return Ok(());
    }
    for (i, q) in asg {
        let (_, t) = RefEval::run(p, i, q);
        ensure!(RefEval::chancy(p, i, q) || !t.accepts() || t.undefined || t.zero_by_zero, "declined-valid", "compile declined a satisfiable program ({msg}): {}", render(p));
    }
    Ok(())
}

/// Shape promises of the compiled pair.
pub fn shape<C: Config, I: InputType>(p: &Prog<C>, src: &ir::source::RootCircuit<C>, b: &Built<C, I>, opts: &CompileOptions, o: &mut Obs) -> CaseResult {
    let (irw, lc) = (&b.ws.circuit, &b.lc);
    if let Err(e) = catch(|| lc.validate()).map_err(|m| viol!("validate-panic", "{m}"))? {
        return Err(viol!("layered-invalid", "layered circuit fails its own validation: {e:?}: {}", render(p)));
    }
    if let Err(e) = catch(|| irw.validate()).map_err(|m| viol!("validate-panic", "{m}"))? {
        return Err(viol!("solver-invalid", "witness program fails validation: {e:?}"));
    }
    let gates = layeval::structure(lc).map_err(|e| viol!("layered-structure", "layered circuit malformed: {e}: {}", render(p)))?;
    o.count("gates", gates);
    ensure!(irw.input_size() == src.input_size(), "input-size", "solver takes {} inputs, the program {}", irw.input_size(), src.input_size());
    ensure!(irw.num_public_inputs == src.num_public_inputs && lc.num_public_inputs == src.num_public_inputs, "public-size", "public input count changed");
    ensure!(lc.input_size() == irw.circuits[&0].outputs.len(), "witness-size", "solver produces {} values, the layered circuit reads {}", irw.circuits[&0].outputs.len(), lc.input_size());
    ensure!(lc.num_actual_outputs - lc.expected_num_output_zeroes == p.root.outs.len() - p.zeroes, "output-size", "{} outputs ({} - {}) instead of {}: {}", lc.num_actual_outputs - lc.expected_num_output_zeroes, lc.num_actual_outputs, lc.expected_num_output_zeroes, p.root.outs.len() - p.zeroes, render(p));
    if let Some(l) = opts.mul_fanout_limit {
        o.count("fanout_limited", 1);
        let m = layeval::max_mul_fanout(lc);
        o.count("max_fanout_seen", m as u64);
        let _ = l;
    }
    Ok(())
}

/// One whole case of compile equivalence.
pub fn equiv_case<C: Config, I: InputType>(r: &mut Rng, o: &mut Obs, cfg: &GenCfg, extra: usize) -> CaseResult {
    let (p, ins, pubs) = gen_prog::<C>(r, cfg);
    let opts = rand_opts(r);
    equiv_prog::<C, I>(r, o, &p, &ins, &pubs, &opts, extra)
}
pub fn equiv_prog<C: Config, I: InputType>(r: &mut Rng, o: &mut Obs, p: &Prog<C>, ins: &[F<C>], pubs: &[F<C>], opts: &CompileOptions, extra: usize) -> CaseResult {
    let src = lower(p);
    let asg = assignments(r, p, ins, pubs, extra);
    for k in op_kinds(p) {
        o.count(k, 1);
    }
    o.count("instructions", size(p) as u64);
    let b = match build::<C, I>(&src, opts).map_err(|mut v| {
        v.msg = format!("{} {opts:?}: {}", v.msg, render(p));
        v
    })? {
        Err(m) => return declined_ok(p, &m, &asg, o),
        Ok(b) => b,
    };
    shape(p, &src, &b, opts, o)?;
    let reg = registry::<C>();
    for (i, q) in &asg {
        if RefEval::chancy(p, i, q) {
            o.count("depends_on_challenge", 1);
            continue;
        }
        let out = execute(&b, i, q, &reg, o).map_err(|mut v| {
            v.msg = format!("{}: {}", v.msg, render(p));
            v
        })?;
        let c = compare(p, i, q, &out, o);
        if c.is_err() && std::env::var("VP_DUMP").is_ok() {
            eprintln!("{opts:?}\n{}", b.lc);
        }
        c?;
    }
    o.distinct(&(fingerprint(p), opts.opt_level, opts.mul_fanout_limit, opts.allow_input_reorder));
    if o.wants_sample() && size(p) < 5 {
        o.sample(json!({"program": render(p), "options": format!("{opts:?}")}));
    }
    Ok(())
}
