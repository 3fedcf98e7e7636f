//! Proofs over computation graphs: completeness, soundness, and saved graphs.
use expander_compiler::circuit::config::*;
use expander_compiler::zkcuda::context::*;
use expander_compiler::zkcuda::proving_system::expander_local_deferred::api::ExpanderLocalDeferred;
use expander_compiler::zkcuda::proving_system::*;
use gkr::BN254ConfigSha2Hyrax;
use vp::by_field;
use vp::proving::*;
use vp::zkmodel::*;
use vpc::{catch, ensure, viol, CaseResult, Check, Driver, Obs, Rng};

/// Runs `$f` with one of the proving systems over one of the fields.
macro_rules! by_prover {
    ($k:expr, $f:ident ( $($a:expr),* )) => {
        match $k % 17 {
            0 => $f::<M31Config, DummyProvingSystem<M31Config>, _>("dummy", $($a),*),
            1 => $f::<GF2Config, DummyProvingSystem<GF2Config>, _>("dummy", $($a),*),
            2 => $f::<BN254Config, DummyProvingSystem<BN254Config>, _>("dummy", $($a),*),
            3 => $f::<GoldilocksConfig, DummyProvingSystem<GoldilocksConfig>, _>("dummy", $($a),*),
            4 => $f::<BabyBearConfig, DummyProvingSystem<BabyBearConfig>, _>("dummy", $($a),*),
            5 => $f::<M31Config, Expander<M31Config>, _>("expander", $($a),*),
            6 => $f::<GF2Config, Expander<GF2Config>, _>("expander", $($a),*),
            7 => $f::<BN254Config, Expander<BN254Config>, _>("expander", $($a),*),
            8 => $f::<GoldilocksConfig, Expander<GoldilocksConfig>, _>("expander", $($a),*),
            9 => $f::<BabyBearConfig, Expander<BabyBearConfig>, _>("expander", $($a),*),
            10 => $f::<BN254Config, Expander<BN254ConfigSha2Hyrax<'static>>, _>("expander", $($a),*),
            11 => $f::<M31Config, ExpanderLocalDeferred<M31Config>, _>("batch", $($a),*),
            12 => $f::<GF2Config, ExpanderLocalDeferred<GF2Config>, _>("batch", $($a),*),
            13 => $f::<BN254Config, ExpanderLocalDeferred<BN254Config>, _>("batch", $($a),*),
            14 => $f::<GoldilocksConfig, ExpanderLocalDeferred<GoldilocksConfig>, _>("batch", $($a),*),
            15 => $f::<BabyBearConfig, ExpanderLocalDeferred<BabyBearConfig>, _>("batch", $($a),*),
            _ => $f::<M31Config, ExpanderLocalDeferred<M31OrionConfig>, _>("batch", $($a),*),
        }
    };
}

fn honest<C: Config, P, K>(name: &str, r: &mut Rng, wide: bool, o: &mut Obs) -> CaseResult
where
    K: KernelWiseProvingSystem<C>,
    P: ProvingSystem<C, Proof = CombinedProof<C, K>>,
{
    let able = Able::any(r, wide);
    complete::<C, P, K>(name, r, &able, o)
}
fn tamper<C: Config, P, K>(name: &str, r: &mut Rng, o: &mut Obs) -> CaseResult
where
    K: KernelWiseProvingSystem<C>,
    P: ProvingSystem<C, Proof = CombinedProof<C, K>>,
{
    let able = Able::any(r, false);
    sound::<C, P, K>(name, r, &able, o)
}

fn z05(d: &mut Driver) {
    d.cases("honest", d.n(3000, 400_000), |r, o| {
        let k = r.below(17);
        by_prover!(k, honest(r, false, o))
    });
    // many instances matter to the batch prover only
    d.cases("wide", d.n(60, 2000), |r, o| {
        let k = r.range(11, 16);
        by_prover!(k, honest(r, true, o))
    });
}

fn z06(d: &mut Driver) {
    d.cases("tampering", d.n(3000, 300_000), |r, o| {
        let k = r.below(17);
        by_prover!(k, tamper(r, o))
    });
    d.scenario("cancelling-expander-m31", |_, o| forge::<M31Config, Expander<M31Config>, _, <M31Config as gkr_engine::GKREngine>::TranscriptConfig>("expander", "known-coefficients-expander", o));
    d.scenario("cancelling-expander-bn254", |_, o| forge::<BN254Config, Expander<BN254Config>, _, <BN254Config as gkr_engine::GKREngine>::TranscriptConfig>("expander", "known-coefficients-expander", o));
    d.scenario("cancelling-batch-m31", |_, o| forge::<M31Config, ExpanderLocalDeferred<M31Config>, _, <M31Config as gkr_engine::GKREngine>::TranscriptConfig>("batch", "known-coefficients-batch", o));
    d.scenario("cancelling-batch-bn254", |_, o| forge::<BN254Config, ExpanderLocalDeferred<BN254Config>, _, <BN254Config as gkr_engine::GKREngine>::TranscriptConfig>("batch", "known-coefficients-batch", o));
}

// ---------------------------------------------------------------- saved graphs
fn saved<C: Config>(r: &mut Rng, o: &mut Obs) -> CaseResult {
    let able = Able::any(r, false);
    let Some(j) = job::<C>(r, &able, o)? else { return Ok(()) };
    let cg: ComputationGraph<C> = reread(&j.cg, "the graph")?;
    ensure!(cg.kernels() == j.cg.kernels() && cg.proof_templates() == j.cg.proof_templates() && cg.commitments_lens() == j.cg.commitments_lens(), "graph-reread", "a graph written and read differs");
    let load = |log: &[Step<C>]| -> Result<(Ctx<C>, Result<bool, String>), String> {
        let mut ctx = repeat(log, &j.s.kerns)?;
        let l = catch(|| ctx.load_computation_graph(cg.clone()).is_ok());
        Ok((ctx, l))
    };
    // the same session
    let (mut ctx, l) = load(&j.s.log).map_err(|m| viol!("repeat", "repeating the calls panicked: {m}"))?;
    ensure!(l == Ok(true), "load", "the graph of a session is refused by the same session: {l:?}: {}", describe(&j));
    let mems = solve_and_export(&mut ctx)?;
    ensure!(mems == j.mems, "load-memories", "the memories differ when the graph was loaded: {}", describe(&j));
    ensure!(catch(|| ctx.load_computation_graph(cg.clone())).is_err(), "load-twice", "a graph was loaded into a finished session");
    o.count("loaded", 1);
    // other data, proved and verified
    if let Some(Other { log, cg: cg2, mems: mems2, .. }) = other_data(r, &j)? {
        ensure!(cg2.proof_templates() == cg.proof_templates() && cg2.commitments_lens() == cg.commitments_lens() && cg2.kernels() == cg.kernels(), "graph-data", "the graph of the same calls depends on the data: {}", describe(&j));
        let (mut ctx, l) = load(&log).map_err(|m| viol!("repeat", "{m}"))?;
        ensure!(l == Ok(true), "load", "the graph of a session is refused by the same session on other data: {l:?}: {}", describe(&j));
        let mems = solve_and_export(&mut ctx)?;
        ensure!(mems == mems2, "load-memories", "the memories differ when the graph was loaded: {}", describe(&j));
        let (ps, vs) = <Expander<C> as ProvingSystem<C>>::setup(&j.cg);
        let p = catch(|| Expander::<C>::prove(&ps, &cg, mems)).map_err(|m| viol!("prove-panic", "{m}"))?;
        ensure!(verify::<C, Expander<C>>(&vs, &j.cg, &p) == Ok(true), "verify", "the proof of a session with a loaded graph is refused: {}", describe(&j));
        o.count("loaded_other_data_proved", 1);
    }
    // other sessions
    for _ in 0..3 {
        let mut log = j.s.log.clone();
        let n_mems = j.s.n_mem;
        match r.below(5) {
            0 => {
                log.pop();
            }
            1 => {
                let n = 1 + r.below(4);
                let d = rand_simd::<C>(r, n);
                let n = d.len();
                log.insert(0, Step::Copy(d, vec![n]));
                for s in &mut log {
                    if let Step::Call(_, _, ios) = s {
                        for x in ios.iter_mut().flatten() {
                            x.0 += 1;
                        }
                    }
                }
            }
            2 => {
                if let Some(Step::Call(k, n, ios)) = log.last().cloned() {
                    log.push(Step::Call(k, n, ios));
                }
            }
            3 => {
                let i = r.below(log.len());
                if let Step::Call(_, _, ios) = &mut log[i] {
                    let some: Vec<usize> = (0..ios.len()).filter(|x| ios[*x].is_some()).collect();
                    if let Some(x) = some.get(r.below(some.len().max(1))) {
                        let m = r.below(n_mems);
                        ios[*x].as_mut().unwrap().0 = m;
                    }
                }
            }
            _ => {
                let i = r.below(log.len());
                if let Step::Call(k, _, _) = &mut log[i] {
                    *k = r.below(j.s.kerns.len());
                }
            }
        }
        // what that session's own graph would be
        let Ok(mut ctx) = repeat(&log, &j.s.kerns) else { continue };
        let Ok(Ok(own)) = catch(|| ctx.compile_computation_graph()) else { continue };
        // the memory for values a kernel's hints supply is the loaded graph's business
        let nm = log.iter().map(|s| match s {
            Step::Copy(..) => 1,
            Step::Call(k, ..) => j.s.kerns[*k].ios.iter().filter(|x| x.out).count(),
        }).sum::<usize>();
        let strip = |g: &ComputationGraph<C>| {
            let ts: Vec<_> = g.proof_templates().iter().map(|t| {
                let real = |i: &usize| t.commitment_indices[*i] < nm;
                let pick: Vec<usize> = (0..t.commitment_indices.len()).filter(real).collect();
                let of = |i: usize| (t.commitment_indices[i], t.commitment_bit_orders[i].clone(), t.is_broadcast[i]);
                (pick.into_iter().map(of).collect::<Vec<_>>(), t.parallel_count)
            }).collect();
            (ts, g.commitments_lens()[..nm.min(g.commitments_lens().len())].to_vec())
        };
        let same = strip(&own) == strip(&cg);
        let Ok((_, l)) = load(&log) else { continue };
        ensure!(same || l != Ok(true), "load-other", "the graph of one session was loaded into another: {:?} {:?} instead of {}", own.proof_templates(), own.commitments_lens(), describe(&j));
        o.count(if same { "equal_sessions" } else { "other_sessions_refused" }, 1);
    }
    o.distinct(&(C::CONFIG_ID, bytes(&j.cg)));
    Ok(())
}
fn z07(d: &mut Driver) {
    d.cases("saved", d.n(6000, 400_000), |r, o| by_field!(o.case, saved(r, o)));
}

/// Sessions with AddressSanitizer watching: honest ones, and verifiers given altered proofs.
fn m03(d: &mut Driver) {
    vp::asan::awake(d);
    d.cases("honest", d.n(500, 60_000), |r, o| {
        let k = r.below(17);
        by_prover!(k, honest(r, false, o))
    });
    // the batch prover hands out raw memory to its instances
    d.cases("batch", d.n(500, 60_000), |r, o| {
        let k = 11 + r.below(6);
        by_prover!(k, honest(r, false, o))
    });
    d.cases("wide", d.n(40, 1000), |r, o| {
        let k = 11 + r.below(6);
        by_prover!(k, honest(r, true, o))
    });
    d.cases("tampering", d.n(400, 30_000), |r, o| {
        let k = r.below(17);
        by_prover!(k, tamper(r, o))
    });
}

fn main() {
    vpc::main(&[
        Check { id: "Z05", rule: "Every honest session is proved and its proof accepted, also after storage.", run: z05 },
        Check { id: "Z06", rule: "No proof is accepted for a wrong statement, or with parts missing, mixed or corrupted.", run: z06 },
        Check { id: "Z07", rule: "A saved graph fits exactly the sessions that make the same calls.", run: z07 },
        Check { id: "M03", rule: "Provers and verifiers touch no memory but their own.", run: m03 },
    ]);
}
