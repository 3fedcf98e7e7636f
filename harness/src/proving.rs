//! Sessions that are proved: completeness and soundness of a proving system.
use crate::lang::*;
use crate::zkmodel::{self as zm, *};
use arith::{Field as _, SimdField as _};
use expander_compiler::circuit::config::*;
use expander_compiler::zkcuda::context::*;
use expander_compiler::zkcuda::proving_system::*;
use serde_json::json;
use serdes::ExpSerde;
use shimcore::cheat::{self, COMMIT, EVAL, OPEN};
use std::rc::Rc;
use vpc::{catch, ensure, viol, CaseResult, Obs, Rng};

pub type PS<C, P> = <P as ProvingSystem<C>>::Proof;

pub fn scfg(r: &mut Rng, wide: bool) -> SCfg {
    SCfg {
        transposes: false,
        mixed: r.chance(1, 3),
        max_calls: if wide { 2 } else { *r.pick(&[1, 2, 3, 5]) },
        max_np: if wide { 700 } else { *r.pick(&[1, 4, 9, 17]) },
        bad: false,
        kern: if wide { Some(KCfg { max_in: 3, cons: false, free: false, subs: false, input_only: false }) } else { None },
        max_kernels: 3,
    }
}
/// What a proving system can be asked to prove.
pub struct Able<'a, C: Config> {
    pub cfg: SCfg,
    /// Whether it takes such kernels.
    pub takes: &'a dyn Fn(&ComputationGraph<C>) -> bool,
    /// Parts of a proof besides those of the calls.
    pub extra: usize,
}
impl<C: Config> Able<'_, C> {
    pub fn any(r: &mut Rng, wide: bool) -> Self {
        Able { cfg: scfg(r, wide), takes: &|_| true, extra: 0 }
    }
}
/// The provers that open all commitments together decline products of inputs.
pub fn single_claims<C: Config>(cg: &ComputationGraph<C>) -> bool {
    cg.kernels().iter().all(|k| k.layered_circuit().export_to_expander_flatten().layers[0].mul.is_empty())
}
pub struct Job<C: Config> {
    pub s: Session<C>,
    pub cg: ComputationGraph<C>,
    pub mems: Vec<Vec<S<C>>>,
}
pub fn job<C: Config>(r: &mut Rng, able: &Able<C>, o: &mut Obs) -> Result<Option<Job<C>>, vpc::Violation> {
    let Some(mut s) = gen_session::<C>(r, &able.cfg, o)? else { return Ok(None) };
    let Some((cg, mems)) = finish(&mut s.ctx)? else { return Ok(None) };
    if !(able.takes)(&cg) {
        o.count("declined", 1);
        return Ok(None);
    }
    Ok(Some(Job { s, cg, mems }))
}
pub type Finished<C> = (ComputationGraph<C>, Vec<Vec<S<C>>>);
/// Compiles and solves; `None` when the splittings or the program are refused.
pub fn finish<C: Config>(ctx: &mut Ctx<C>) -> Result<Option<Finished<C>>, vpc::Violation> {
    let cg = match catch(|| ctx.compile_computation_graph()) {
        Err(m) if m.contains(ILLEGAL) => return Ok(None),
        Err(m) => return Err(viol!("graph-panic", "compiling the graph panicked: {m}")),
        Ok(Err(e)) if e.is_user() => return Ok(None),
        Ok(Err(e)) => return Err(viol!("graph-internal", "{e:?}")),
        Ok(Ok(g)) => g,
    };
    Ok(Some((cg, solve_and_export(ctx)?)))
}
pub fn solve_and_export<C: Config>(ctx: &mut Ctx<C>) -> Result<Vec<Vec<S<C>>>, vpc::Violation> {
    match catch(|| ctx.solve_witness()) {
        Err(m) => return Err(viol!("solve-panic", "{m}")),
        Ok(Err(e)) => return Err(viol!("solve-error", "{e:?}")),
        Ok(Ok(())) => {}
    }
    catch(|| ctx.export_device_memories()).map_err(|m| viol!("export-panic", "{m}"))
}
pub fn bytes<T: ExpSerde>(x: &T) -> Vec<u8> {
    let mut b = vec![];
    x.serialize_into(&mut b).unwrap();
    b
}
pub fn reread<T: ExpSerde>(x: &T, what: &str) -> Result<T, vpc::Violation> {
    let b = bytes(x);
    let mut c = std::io::Cursor::new(&b);
    let y = match catch(|| T::deserialize_from(&mut c)) {
        Ok(Ok(y)) => y,
        Ok(Err(e)) => return Err(viol!("reread", "{what} does not read back: {e:?}")),
        Err(m) => return Err(viol!("reread", "{what} does not read back: {m}")),
    };
    // tables keyed by hashes are written in any order
    ensure!(c.position() as usize == b.len() && bytes(&y).len() == b.len(), "reread", "{what} changes when written and read");
    Ok(y)
}
/// `Some(accepted)`; a panic of the verifier is a refusal.
pub fn verify<C: Config, P: ProvingSystem<C>>(vs: &P::VerifierSetup, cg: &ComputationGraph<C>, p: &P::Proof) -> Result<bool, String> {
    catch(|| P::verify(vs, cg, p))
}
pub fn describe<C: Config>(j: &Job<C>) -> String {
    let calls: Vec<_> = j.s.calls.iter().map(|c| format!("{}x{:?} of {}", c.np, j.s.kerns[c.kern].ios, crate::equiv::render(&j.s.kerns[c.kern].prog))).collect();
    format!("{} {:?} {:?}", calls.join(" ;; "), j.cg.proof_templates(), j.cg.commitments_lens()).chars().take(3000).collect()
}

// ---------------------------------------------------------------- completeness
pub fn complete<C: Config, P, K>(name: &str, r: &mut Rng, able: &Able<C>, o: &mut Obs) -> CaseResult
where
    K: KernelWiseProvingSystem<C>,
    P: ProvingSystem<C, Proof = CombinedProof<C, K>>,
{
    let Some(j) = job::<C>(r, able, o)? else { return Ok(()) };
    let (ps, vs) = catch(|| P::setup(&j.cg)).map_err(|m| viol!("setup-panic", "{name}: set-up panicked: {m}: {}", describe(&j)))?;
    let ps = if r.chance(1, 2) { reread(&ps, "the prover's set-up")? } else { ps };
    let vs = if r.chance(1, 2) { reread(&vs, "the verifier's set-up")? } else { vs };
    let proof = catch(|| P::prove(&ps, &j.cg, j.mems.clone())).map_err(|m| viol!("prove-panic", "{name}: proving an honest session panicked: {m}: {}", describe(&j)))?;
    ensure!(proof.proofs.len() == j.cg.proof_templates().len() + able.extra && proof.commitments.len() == j.mems.len(), "proof-shape", "{name}: {} proofs and {} commitments for {} calls and {} memories", proof.proofs.len(), proof.commitments.len(), j.cg.proof_templates().len(), j.mems.len());
    let cg = if r.chance(1, 2) { reread(&j.cg, "the graph")? } else { j.cg.clone() };
    let got = verify::<C, P>(&vs, &cg, &proof);
    ensure!(got == Ok(true), "verify", "{name}: the proof of an honest session is refused ({got:?}): {}", describe(&j));
    let p2: PS<C, P> = reread(&proof, "the proof")?;
    let got = verify::<C, P>(&vs, &cg, &p2);
    ensure!(got == Ok(true), "verify-reread", "{name}: the proof of an honest session is refused once written and read ({got:?}): {}", describe(&j));
    P::post_process();
    o.count("proofs_accepted", 1);
    o.count("kernel_instances_proved", j.cg.proof_templates().iter().map(|t| t.parallel_count as u64).sum());
    o.distinct(&(name.to_string(), C::CONFIG_ID, bytes(&j.cg)));
    if o.wants_sample() {
        o.sample(json!({"prover": name, "field": C::CONFIG_ID, "templates": format!("{:?}", j.cg.proof_templates())}));
    }
    Ok(())
}
// ---------------------------------------------------------------- soundness
#[derive(Debug, PartialEq, Clone, Copy)]
pub enum Truth {
    True,
    False,
    Unknown,
}
/// Whether the calls of a session hold between the given (unpadded) values of its memories.
pub fn truth<C: Config>(s: &Session<C>, hints: &[bool], vals: &[Vec<S<C>>], kerns: &[Rc<Kern<C>>]) -> Truth {
    let mut res = Truth::True;
    for (n, c) in s.calls.iter().enumerate() {
        let k = &kerns[c.kern];
        let at = |a: &Arr<C>| -> Vec<S<C>> { a.src.iter().map(|i| vals[a.mem][*i]).collect() };
        let ins: Vec<Option<(Vec<S<C>>, bool)>> = c.ins.iter().map(|x| x.as_ref().map(|(a, b)| (at(a), *b))).collect();
        let outs: Vec<Option<Vec<S<C>>>> = c.outs.iter().map(|x| x.as_ref().map(at)).collect();
        let ins_same = c.ins.iter().zip(&ins).all(|(a, b)| a.as_ref().map(|a| &a.0.data) == b.as_ref().map(|b| &b.0));
        if hints[n] && !ins_same {
            res = Truth::Unknown;
            continue;
        }
        for q in 0..c.np {
            let mut iv = vec![];
            for (io, a) in k.ios.iter().zip(&ins) {
                if let (true, Some((a, bc))) = (io.inp, a) {
                    let n = zm::prod(&io.shape);
                    iv.extend_from_slice(if *bc { a } else { &a[q * n..(q + 1) * n] });
                }
            }
            let mut now = vec![];
            for (io, a) in k.ios.iter().zip(&outs) {
                if let (true, Some(a)) = (io.out, a) {
                    let n = zm::prod(&io.shape);
                    now.extend_from_slice(&a[q * n..(q + 1) * n]);
                }
            }
            let mut v = Verdict::default();
            let ov = kernel_ref(&k.prog, &iv, &mut v);
            if v.con_fail {
                return Truth::False;
            }
            if v.soft || v.op_fail {
                res = Truth::Unknown;
            } else if ov != now {
                return Truth::False;
            }
        }
    }
    res
}
/// One value of one memory altered consistently; the altered logical and exported values.
#[allow(clippy::type_complexity)]
pub fn alter<C: Config>(r: &mut Rng, j: &Job<C>) -> Option<(usize, Vec<Vec<S<C>>>, Vec<Vec<S<C>>>)> {
    let m = r.below(j.s.n_mem);
    let v = &j.s.mem_vals[m];
    let ls = layouts(v, &j.mems[m]);
    if ls.len() != 1 || v.is_empty() {
        return None;
    }
    let e = r.below(v.len());
    let lane = r.below(S::<C>::PACK_SIZE);
    let mut x = v[e].unpack();
    let old = x[lane];
    for _ in 0..50 {
        x[lane] = rand_field::<C>(r);
        if x[lane] != old {
            break;
        }
    }
    if x[lane] == old {
        return None;
    }
    let nv = S::<C>::pack(&x);
    let (mut vals, mut mems) = (j.s.mem_vals.clone(), j.mems.clone());
    vals[m][e] = nv;
    for (p, q) in mems[m].iter_mut().zip(&ls[0]) {
        if *q == e {
            *p = nv;
        }
    }
    Some((m, vals, mems))
}
/// The same calls over fresh data for the copied memories, if that data suits the kernels.
pub struct Other<C: Config> {
    pub log: Vec<Step<C>>,
    pub cg: ComputationGraph<C>,
    pub mems: Vec<Vec<S<C>>>,
    pub vals: Vec<Vec<S<C>>>,
}
pub fn other_data<C: Config>(r: &mut Rng, j: &Job<C>) -> Result<Option<Other<C>>, vpc::Violation> {
    for t in 0..4 {
        let log: Vec<Step<C>> = j
            .s
            .log
            .iter()
            .map(|s| match s {
                Step::Copy(d, sh) => {
                    let mut d = d.clone();
                    if t == 0 || r.chance(1, 2) {
                        let n = if t == 0 { d.len() } else { 1.min(d.len()) };
                        for _ in 0..n {
                            let i = r.below(d.len());
                            d[i] = rand_simd::<C>(r, 1)[0];
                        }
                    }
                    Step::Copy(d, sh.clone())
                }
                s => s.clone(),
            })
            .collect();
        let (vals, v) = model_run(&log, &j.s.kerns);
        if !v.clean() {
            continue;
        }
        let mut ctx = match repeat(&log, &j.s.kerns) {
            Ok(c) => c,
            Err(m) => return Err(viol!("repeat", "the same calls on other valid data panicked: {m}")),
        };
        match finish(&mut ctx)? {
            Some((cg, mems)) => return Ok(Some(Other { log, cg, mems, vals })),
            None => return Err(viol!("repeat", "the same calls on other valid data are refused")),
        }
    }
    Ok(None)
}
/// A kernel computing something else, with the same interface.
pub fn mutate_kernel<C: Config>(r: &mut Rng, k: &Kern<C>) -> Option<Kern<C>> {
    let mut prog = k.prog.clone();
    let consts: Vec<usize> = prog.root.ops.iter().enumerate().filter(|x| matches!(x.1, Op::Lin { .. } | Op::Const(_))).map(|x| x.0).collect();
    if !consts.is_empty() && r.chance(3, 4) {
        let i = *r.pick(&consts);
        match &mut prog.root.ops[i] {
            Op::Lin { terms, c } => {
                let k = r.below(terms.len() + 1);
                *(if k == terms.len() { c } else { &mut terms[k].1 }) = rand_field::<C>(r);
            }
            Op::Const(c) => *c = rand_field::<C>(r),
            _ => {}
        }
    } else if !prog.root.outs.is_empty() {
        let i = r.below(prog.root.outs.len());
        let n_vars = prog.root.n_in + prog.root.ops.iter().map(|o| o.n_out()).sum::<usize>();
        prog.root.outs[i] = r.range(1, n_vars);
    }
    let style = r.u64();
    let prim = compile_kernel(&prog, &k.ios, style).ok()??;
    Some(Kern { prim, prog, ios: k.ios.clone(), honest: k.honest.clone() })
}

pub fn sound<C: Config, P, K>(name: &str, r: &mut Rng, able: &Able<C>, o: &mut Obs) -> CaseResult
where
    K: KernelWiseProvingSystem<C>,
    P: ProvingSystem<C, Proof = CombinedProof<C, K>>,
{
    let Some(j) = job::<C>(r, able, o)? else { return Ok(()) };
    let hints: Vec<bool> = j.cg.proof_templates().iter().map(|t| j.cg.kernels()[t.kernel_id()].hint_solver().is_some()).collect();
    let (ps, vs) = P::setup(&j.cg);
    let proof = catch(|| P::prove(&ps, &j.cg, j.mems.clone())).map_err(|m| viol!("prove-panic", "{name}: {m}"))?;
    let refuse = |p: &PS<C, P>, o: &mut Obs, what: &str, class: &'static str| -> CaseResult {
        match verify::<C, P>(&vs, &j.cg, p) {
            Ok(true) => Err(viol!("accepted", "{name}: {what} is accepted: {}", describe(&j))),
            Ok(false) => {
                o.count(class, 1);
                Ok(())
            }
            Err(_) => {
                o.count("refused_by_panic", 1);
                o.count(class, 1);
                Ok(())
            }
        }
    };
    let nt = proof.proofs.len();
    let nc = nt - able.extra;
    // 1. false statements given to the prover
    for _ in 0..3 {
        let Some((m, vals, mems)) = alter(r, &j) else { continue };
        let t = truth(&j.s, &hints, &vals, &j.s.kerns);
        if t == Truth::Unknown {
            continue;
        }
        match catch(|| P::prove(&ps, &j.cg, mems.clone())) {
            Err(m) if t == Truth::True => return Err(viol!("prove-panic", "{name}: proving true statements panicked: {m}: {}", describe(&j))),
            Err(_) => {
                o.count("false_refused_by_prover", 1);
                // a prover that goes on regardless
                let g = cheat::stubborn();
                let p = catch(|| P::prove(&ps, &j.cg, mems.clone()));
                drop(g);
                let Ok(p) = p else {
                    o.count("stubborn_prover_failed", 1);
                    continue;
                };
                refuse(&p, o, &format!("a proof of a statement that is wrong in memory {m}, by a prover that goes on regardless,"), "false_refused_by_verifier")?;
                // its parts one by one beside those of the honest proof
                for i in 0..nc {
                    let mut p2 = p.clone();
                    for k in 0..nc {
                        if k != i && able.extra == 0 {
                            p2.proofs[k] = proof.proofs[k].clone();
                        }
                    }
                    if able.extra == 0 && name != "dummy" {
                        refuse(&p2, o, "the commitments of a false statement with parts of the honest proof", "mixed_refused")?;
                    }
                }
            }
            Ok(p) => {
                if t == Truth::False {
                    refuse(&p, o, &format!("a proof with a wrong value in memory {m}"), "false_refused_by_verifier")?;
                } else {
                    let got = verify::<C, P>(&vs, &j.cg, &p);
                    ensure!(got == Ok(true), "verify", "{name}: the proof of a true statement is refused ({got:?}): {}", describe(&j));
                }
                // the honest proof with the altered commitment
                if t == Truth::False {
                    let mut p2 = proof.clone();
                    p2.commitments[m] = p.commitments[m].clone();
                    refuse(&p2, o, &format!("an honest proof beside the commitment to altered values of memory {m}"), "mixed_refused")?;
                }
            }
        }
    }
    // a prover that reasons about true values and commits to false ones
    for _ in 0..3 {
        let Some((m, vals, mems)) = alter(r, &j) else { continue };
        if truth(&j.s, &hints, &vals, &j.s.kerns) != Truth::False {
            continue;
        }
        let parts = *r.pick(&[COMMIT | EVAL | OPEN, COMMIT | EVAL | OPEN, COMMIT | OPEN]);
        let dm = j.mems.clone();
        let g = cheat::replace(&dm, &mems, parts);
        let p = catch(|| P::prove(&ps, &j.cg, dm));
        drop(g);
        let Ok(p) = p else {
            o.count("two_faced_prover_failed", 1);
            continue;
        };
        if bytes(&p.commitments[m]) == bytes(&proof.commitments[m]) {
            // the prover works on a copy of the values
            o.count("two_faced_prover_honest", 1);
            continue;
        }
        refuse(&p, o, &format!("a proof about true values beside the commitment to a wrong value in memory {m}"), "two_faced_refused")?;
    }
    // 2. a true statement of other kernels with the same interface
    for _ in 0..2 {
        let which = r.below(j.s.kerns.len());
        let Some(mk) = mutate_kernel(r, &j.s.kerns[which]) else { continue };
        let mut kerns = j.s.kerns.clone();
        kerns[which] = Rc::new(mk);
        let t = truth(&j.s, &hints, &j.s.mem_vals, &kerns);
        if !model_run(&j.s.log, &kerns).1.clean() {
            continue;
        }
        let mut ctx = repeat(&j.s.log, &kerns).map_err(|m| viol!("repeat", "{m}"))?;
        let Some((cg2, mems2)) = finish(&mut ctx)? else { continue };
        if !(able.takes)(&cg2) {
            continue;
        }
        // the honest proof under the other kernels
        let hints2: Vec<bool> = cg2.proof_templates().iter().map(|t| cg2.kernels()[t.kernel_id()].hint_solver().is_some()).collect();
        if t == Truth::False && !hints2.iter().any(|x| *x) {
            if let Ok(true) = catch(|| P::verify(&P::setup(&cg2).1, &cg2, &proof)) {
                return Err(viol!("accepted-other", "{name}: the proof of one graph is accepted for another whose kernels compute something else: {}", describe(&j)));
            }
            o.count("other_kernel_refused", 1);
        }
        // what is true for the other kernels under these
        if hints.iter().chain(&hints2).any(|x| *x) || mems2.len() != j.mems.len() || mems2.iter().zip(&j.mems).any(|(a, b)| a.len() != b.len()) {
            continue;
        }
        let (vals, v) = model_run(&j.s.log, &kerns);
        if v.clean() && truth(&j.s, &hints, &vals, &j.s.kerns) == Truth::False {
            let (ps2, _) = P::setup(&cg2);
            let p2 = catch(|| P::prove(&ps2, &cg2, mems2.clone())).map_err(|m| viol!("prove-panic", "{name}: {m}: {}", describe(&j)))?;
            refuse(&p2, o, "a proof made for other kernels, of values that are wrong for these,", "forged_refused")?;
        }
    }
    // 3. parts missing
    for i in 0..nt {
        let mut p = proof.clone();
        p.proofs.remove(i);
        refuse(&p, o, &format!("a proof without the part of call {i} of {nt}"), "truncated_refused")?;
    }
    let mut p = proof.clone();
    p.proofs.clear();
    refuse(&p, o, "an empty proof", "truncated_refused")?;
    for i in 0..proof.commitments.len() {
        let used = j.cg.proof_templates().iter().any(|t| t.commitment_indices().contains(&i));
        if used {
            let mut p = proof.clone();
            p.commitments.truncate(i);
            refuse(&p, o, &format!("a proof without the commitments from {i} on"), "truncated_refused")?;
        }
    }
    // 4. parts of a proof about other data
    if let Some(Other { cg: cg2, mems: mems2, vals: vals2, .. }) = other_data(r, &j)? {
        if cg2.proof_templates() == j.cg.proof_templates() && cg2.kernels() == j.cg.kernels() {
            let p2 = catch(|| P::prove(&ps, &j.cg, mems2.clone())).map_err(|m| viol!("prove-panic", "{name}: {m}: {}", describe(&j)))?;
            let got = verify::<C, P>(&vs, &j.cg, &p2);
            ensure!(got == Ok(true), "verify", "{name}: the proof of an honest session is refused ({got:?}): {}", describe(&j));
            for (i, t) in j.cg.proof_templates().iter().enumerate() {
                // with the dummy system the parts say nothing about the data
                if name != "dummy" && t.commitment_indices().iter().any(|m| mems2[*m] != j.mems[*m]) {
                    let mut p = proof.clone();
                    p.proofs[i] = p2.proofs[i].clone();
                    if able.extra > 0 && bytes(&p) == bytes(&proof) {
                        continue;
                    }
                    refuse(&p, o, &format!("the part of call {i} of a proof about other data"), "mixed_refused")?;
                }
            }
            for m in 0..j.s.n_mem {
                let mut vals = j.s.mem_vals.clone();
                vals[m] = vals2[m].clone();
                if truth(&j.s, &hints, &vals, &j.s.kerns) == Truth::False {
                    let mut p = proof.clone();
                    p.commitments[m] = p2.commitments[m].clone();
                    refuse(&p, o, &format!("the commitment to other values of memory {m}"), "mixed_refused")?;
                    // and with every part that reads it
                    for (i, t) in j.cg.proof_templates().iter().enumerate() {
                        if t.commitment_indices().contains(&m) {
                            p.proofs[i] = p2.proofs[i].clone();
                        }
                    }
                    refuse(&p, o, &format!("the commitment to other values of memory {m}, with its proofs,"), "mixed_refused")?;
                    if able.extra > 0 {
                        for i in nc..nt {
                            p.proofs[i] = p2.proofs[i].clone();
                        }
                        refuse(&p, o, &format!("the commitment to other values of memory {m}, with its proofs and openings,"), "mixed_refused")?;
                    }
                }
            }
        }
    }
    // 5. parts exchanged
    if nc > 1 && name != "dummy" {
        let (a, b) = (r.below(nc), r.below(nc));
        let tp = |i: usize| &j.cg.proof_templates()[i];
        if a != b && bytes(&proof.proofs[a]) != bytes(&proof.proofs[b]) && tp(a) != tp(b) {
            let mut p = proof.clone();
            p.proofs.swap(a, b);
            refuse(&p, o, &format!("a proof with the parts of calls {a} and {b} exchanged"), "exchanged_refused")?;
        }
    }
    // 6. corrupted bytes
    let b = bytes(&proof);
    for _ in 0..12 {
        let mut c = b.clone();
        let i = r.below(c.len());
        c[i] ^= 1 << r.below(8);
        let Ok(Ok(p)) = catch(|| PS::<C, P>::deserialize_from(std::io::Cursor::new(&c))) else {
            o.count("corrupted_unreadable", 1);
            continue;
        };
        if bytes(&p) == b {
            continue;
        }
        // a memory no call uses may be committed to at will
        if p.commitments.len() == proof.commitments.len() {
            let unused = (0..p.commitments.len()).any(|m| bytes(&p.commitments[m]) != bytes(&proof.commitments[m]) && !j.cg.proof_templates().iter().any(|t| t.commitment_indices().contains(&m)));
            if unused {
                continue;
            }
        }
        if name == "dummy" && p.commitments.len() == proof.commitments.len() && (0..p.commitments.len()).any(|m| bytes(&p.commitments[m]) != bytes(&proof.commitments[m])) {
            // other values, which may do as well
            continue;
        }
        refuse(&p, o, &format!("a proof with bit flipped in byte {i} of {}", b.len()), "corrupted_refused")?;
    }
    o.distinct(&(name.to_string(), C::CONFIG_ID, bytes(&j.cg)));
    if o.wants_sample() {
        o.sample(json!({"prover": name, "field": C::CONFIG_ID, "templates": format!("{:?}", j.cg.proof_templates())}));
    }
    Ok(())
}

/// The coefficients that merge the constraints of a kernel must not be known before the values are
/// committed to: else errors can be chosen that cancel out.
pub fn forge<C, P, K, T>(name: &str, key: &'static str, o: &mut Obs) -> CaseResult
where
    C: Config,
    K: KernelWiseProvingSystem<C>,
    P: ProvingSystem<C, Proof = CombinedProof<C, K>>,
    T: gkr_engine::Transcript,
{
    let one = F::<C>::from(1);
    let sub = |x: usize, y: usize| Op::Lin { terms: vec![(x, one), (y, -one)], c: F::<C>::zero() };
    let root = Body { n_in: 4, ops: vec![sub(1, 2), sub(3, 4)], cons: vec![(Con::Zero, 5), (Con::Zero, 6)], outs: vec![] };
    let prog = Prog { n_pub: 0, subs: vec![], root, zeroes: 0, all_live: false };
    let ios = vec![Io { shape: vec![4], inp: true, out: false }];
    let Some(prim) = compile_kernel(&prog, &ios, 0)? else { return Ok(()) };
    let kern = Rc::new(Kern { prim, prog, ios, honest: vec![one; 4] });
    let full = |x: F<C>| S::<C>::pack_full(&x);
    let mut vals: Vec<S<C>> = vec![full(one); 4];
    let log = vec![Step::Copy(vals.clone(), vec![1, 4]), Step::Call(0, 1, vec![Some((0, vec![]))])];
    let mut ctx = repeat(&log, &[kern]).map_err(|m| viol!("repeat", "{m}"))?;
    let Some((cg, mems)) = finish(&mut ctx)? else { return Ok(()) };
    ensure!(mems == [vals.clone()], "memories", "the only memory is {mems:?}");
    let err = |e: [F<C>; 2]| -> F<C> {
        let mut c = cg.kernels()[0].layered_circuit().export_to_expander_flatten();
        c.fill_rnd_coefs(&mut T::new());
        let n = 1 << c.log_input_size();
        c.layers[0].input_vals = vec![full(F::<C>::zero()); n];
        c.layers[0].input_vals[0] = full(e[0]);
        c.layers[0].input_vals[2] = full(e[1]);
        c.evaluate();
        let out: S<C> = c.layers.last().unwrap().output_vals[0];
        out.unpack()[0]
    };
    let (v1, v2) = (err([one, F::<C>::zero()]), err([F::<C>::zero(), one]));
    if v1.is_zero() || v2.is_zero() {
        return Ok(());
    }
    vals[0] += full(v2);
    vals[2] -= full(v1);
    let (ps, vs) = P::setup(&cg);
    let p = catch(|| P::prove(&ps, &cg, vec![vals.clone()]));
    let ok = match p {
        Err(_) => false,
        Ok(p) => verify::<C, P>(&vs, &cg, &p) == Ok(true),
    };
    o.count("cancelling_errors_tried", 1);
    ensure!(!ok, key, "{name}: errors in two constraints chosen to cancel out are accepted: the coefficients that merge the constraints do not depend on the committed values");
    Ok(())
}
