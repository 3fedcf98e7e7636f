//! Witness solving, batched evaluation, hints, serialisation and export.
use arith::{Field as _, SimdField as _};
use expander_compiler::circuit::config::*;
use expander_compiler::circuit::ir;
use expander_compiler::circuit::ir::common::Instruction as _;
use expander_compiler::circuit::layered::witness::{Witness, WitnessValues};
use expander_compiler::circuit::layered::{self, Circuit, Coef, CrossLayerInputType, Input, InputType, InputUsize, NormalInputType};
use expander_compiler::frontend::{Error, HintRegistry, WitnessSolver};
use expander_compiler::hints::registry::{hint_key_to_id, EmptyHintCaller, HintCaller, StubHintCaller};
use expander_compiler::hints::{self, BuiltinHintIds};
use serdes::ExpSerde;
use serde_json::json;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use vp::by_field;
use vp::equiv::*;
use vp::lang::*;
use vp::layeval::{self, LayEval};
use vp::laygen::*;
use vpc::{catch, ensure, viol, CaseResult, Check, Driver, Obs, Rng, Violation};

/// Remembers the largest single request of each thread.
struct Watch;
thread_local! {
    static BIGGEST: Cell<usize> = const { Cell::new(0) };
}
fn note(n: usize) {
    let _ = BIGGEST.try_with(|b| b.set(b.get().max(n)));
}
unsafe impl GlobalAlloc for Watch {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        note(l.size());
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        note(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        note(n);
        System.realloc(p, l, n)
    }
}
#[global_allocator]
static A: Watch = Watch;

type S<C> = SIMDField<C>;

// ---------------------------------------------------------------- batches of witnesses
fn batch_size(r: &mut Rng, pack: usize) -> usize {
    match r.below(6) {
        0 => 1,
        1 => pack,
        2 => pack + 1,
        3 => (2 * pack).saturating_sub(1).max(1),
        4 => r.range(1, pack.max(2)),
        _ => r.range(1, 3 * pack + 2),
    }
}
fn pad<T: Copy>(v: &[T], n: usize) -> Vec<T> {
    (0..n).map(|i| v[i.min(v.len() - 1)]).collect()
}
/// All readings of a witness must present exactly these values.
fn views<C: Config>(w: &Witness<C>, want: &[(Vec<F<C>>, Vec<F<C>>)], o: &mut Obs) -> CaseResult {
    let pack = S::<C>::PACK_SIZE;
    ensure!(w.num_witnesses == want.len(), "count", "{} witnesses instead of {}", w.num_witnesses, want.len());
    let got: Vec<_> = catch(|| w.iter_scalar().collect::<Vec<_>>()).map_err(|m| viol!("iter-panic", "iter_scalar: {m}"))?;
    ensure!(got == want, "iter-scalar", "scalar iteration over {} witnesses differs from solving one by one", want.len());
    let blocks: Vec<_> = catch(|| w.iter_simd().collect::<Vec<_>>()).map_err(|m| viol!("iter-panic", "iter_simd: {m}"))?;
    ensure!(blocks.len() == (want.len() + pack - 1) / pack, "iter-simd", "{} packed blocks for {} witnesses", blocks.len(), want.len());
    for (k, (a, b)) in blocks.iter().enumerate() {
        let part = &want[k * pack..want.len().min((k + 1) * pack)];
        for (lane, (x, y)) in pad(&part.iter().collect::<Vec<_>>(), pack).iter().enumerate() {
            let gx: Vec<F<C>> = a.iter().map(|v| v.unpack()[lane]).collect();
            let gy: Vec<F<C>> = b.iter().map(|v| v.unpack()[lane]).collect();
            ensure!(gx == *x && gy == *y, "iter-simd", "lane {lane} of block {k} differs ({} witnesses)", want.len());
            o.count("lanes_compared", 1);
        }
    }
    fn simd<C: Config, T: arith::SimdField<Scalar = F<C>> + 'static>(w: &Witness<C>, want: &[(Vec<F<C>>, Vec<F<C>>)]) -> CaseResult {
        let (a, b) = catch(|| w.to_simd::<T>()).map_err(|m| viol!("to-simd-panic", "to_simd: {m}"))?;
        let lanes = pad(&want.iter().take(T::PACK_SIZE).collect::<Vec<_>>(), T::PACK_SIZE);
        for (lane, (x, y)) in lanes.iter().enumerate() {
            let gx: Vec<F<C>> = a.iter().map(|v| v.unpack()[lane]).collect();
            let gy: Vec<F<C>> = b.iter().map(|v| v.unpack()[lane]).collect();
            ensure!(gx == *x && gy == *y, "to-simd", "to_simd (width {}): lane {lane} differs ({} witnesses)", T::PACK_SIZE, want.len());
        }
        Ok(())
    }
    simd::<C, S<C>>(w, want)
}
fn batch_case<C: Config, I: InputType>(r: &mut Rng, o: &mut Obs) -> CaseResult {
    let mut cfg = GenCfg::random(r);
    cfg.rand = false;
    let (p, ins, pubs) = gen_prog::<C>(r, &cfg);
    let opts = rand_opts(r);
    let Ok(b) = build::<C, I>(&lower(&p), &opts)? else {
        o.count("declined", 1);
        return Ok(());
    };
    let n = batch_size(r, S::<C>::PACK_SIZE);
    let mut asg = assignments(r, &p, &ins, &pubs, 2 * n);
    if r.chance(1, 2) {
        // only assignments that can be solved
        let reg = registry::<C>();
        asg.retain(|(i, q)| matches!(catch(|| b.ws.solve_witness_from_raw_inputs(i.clone(), q.clone(), &reg)), Ok(Ok(_))));
        if asg.is_empty() {
            return Ok(());
        }
        asg = (0..n).map(|_| asg[r.below(asg.len())].clone()).collect();
    } else {
        asg.truncate(n);
        r.shuffle(&mut asg);
    }
    let n = asg.len();
    HINT_FAIL.with(|f| f.set(if r.chance(1, 5) { 7 } else { 0 }));
    let res = batch_with(&p, &b, &asg, o);
    HINT_FAIL.with(|f| f.set(0));
    res.map_err(|mut v| {
        v.msg = format!("{} ({n} assignments): {}", v.msg, render(&p));
        v
    })?;
    o.distinct(&(fingerprint(&p), n));
    Ok(())
}
fn batch_with<C: Config, I: InputType>(p: &Prog<C>, b: &Built<C, I>, asg: &[(Vec<F<C>>, Vec<F<C>>)], o: &mut Obs) -> CaseResult {
    let reg = registry::<C>();
    let mut one = vec![];
    let mut bad = 0;
    for (i, q) in asg {
        let w = catch(|| b.ws.solve_witness_from_raw_inputs(i.clone(), q.clone(), &reg)).map_err(|m| viol!("solver-panic", "{m}"))?;
        match w {
            Ok(w) => {
                ensure!(w.num_public_inputs_per_witness == q.len(), "public-count", "public inputs");
                one.push(w.iter_scalar().next().unwrap());
                views(&w, &one[one.len() - 1..], o)?;
            }
            Err(_) => bad += 1,
        }
    }
    let all = catch(|| b.ws.solve_witnesses_from_raw_inputs(asg.len(), |k| asg[k].clone(), &reg)).map_err(|m| viol!("solver-panic", "batch: {m}"))?;
    let asgs: Vec<_> = asg.iter().map(|(i, q)| vp::front::assignment::<C>(i, q)).collect();
    let typed = catch(|| b.ws.solve_witnesses_with_hints(&asgs, &reg)).map_err(|m| viol!("solver-panic", "typed batch: {m}"))?;
    ensure!(all.is_ok() == typed.is_ok(), "typed", "batch interfaces disagree");
    let empty = catch(|| b.ws.solve_witnesses(&asgs)).map_err(|m| viol!("solver-panic", "batch without hints: {m}"))?;
    let uses = b.ws.circuit.circuits.values().any(|c| c.instructions.iter().any(|i| matches!(i, ir::hint_normalized::Instruction::Hint { hint_id, .. } if BuiltinHintIds::from_usize(*hint_id).is_none())));
    match (&all, bad) {
        (Ok(w), 0) => {
            views(w, &one, o)?;
            views(typed.as_ref().unwrap(), &one, o)?;
            match empty {
                Ok(e) => {
                    ensure!(!hint_called(b), "missing-hint", "solving succeeds although a needed hint is not registered");
                    views(&e, &one, o)?;
                }
                Err(_) => ensure!(uses, "no-hint-error", "solving without hints fails although none is used"),
            }
            // the circuit on the batch
            let single: Vec<(bool, Vec<F<C>>)> = one
                .iter()
                .map(|(a, q)| {
                    let (v, ok) = layeval::run(&b.lc, a, q, 1).map_err(|e| viol!("layered", "{e}"))?;
                    Ok((ok, v))
                })
                .collect::<Result<_, Violation>>()?;
            // challenges only combine zero constraints here, so neither verdict nor outputs depend on them
            run_agrees(&b.lc, w, &single, o)?;
            o.count("batches_ok", 1);
            o.count("witnesses", one.len() as u64);
            o.count("partial_blocks", (one.len() % S::<C>::PACK_SIZE != 0) as u64);
        }
        (Err(_), 0) => return Err(viol!("batch-rejects", "the batch fails although every assignment can be solved alone")),
        (Ok(_), _) => return Err(viol!("batch-accepts", "the batch is solved although {bad} assignments fail alone")),
        (Err(_), _) => o.count("batches_rejected", 1),
    }
    let _ = p;
    Ok(())
}
/// Whether the witness program reaches a custom hint from its root.
fn hint_called<C: Config, I: InputType>(b: &Built<C, I>) -> bool {
    fn go<C: Config>(rc: &ir::hint_normalized::RootCircuit<C>, id: usize) -> bool {
        rc.circuits[&id].instructions.iter().any(|i| match i {
            ir::hint_normalized::Instruction::Hint { hint_id, .. } => BuiltinHintIds::from_usize(*hint_id).is_none(),
            ir::hint_normalized::Instruction::SubCircuitCall { sub_circuit_id, .. } => go(rc, *sub_circuit_id),
            _ => false,
        })
    }
    go(&b.ws.circuit, 0)
}
fn run_agrees<C: Config, I: InputType>(c: &Circuit<C, I>, w: &Witness<C>, single: &[(bool, Vec<F<C>>)], o: &mut Obs) -> CaseResult {
    let (r, out) = catch(|| c.run_with_output(w)).map_err(|m| viol!("run-panic", "run_with_output on {} witnesses: {m}", w.num_witnesses))?;
    let want: Vec<bool> = single.iter().map(|x| x.0).collect();
    ensure!(r == want, "run-verdict", "running {} witnesses yields verdicts {r:?} instead of {want:?}", w.num_witnesses);
    ensure!(out.len() == single.len() && out.iter().zip(single).all(|(a, b)| *a == b.1), "run-output", "outputs of a batch of {} differ from one by one", w.num_witnesses);
    let r2 = catch(|| c.run(w)).map_err(|m| viol!("run-panic", "run: {m}"))?;
    ensure!(r2 == want, "run-verdict", "run disagrees with run_with_output");
    o.count("verdict_true", want.iter().filter(|x| **x).count() as u64);
    o.count("verdict_false", want.iter().filter(|x| !**x).count() as u64);
    Ok(())
}
fn w01(d: &mut Driver) {
    d.cases("compiled", d.n(30000, 600000), |r, o| {
        let k = r.below(5);
        if r.chance(2, 3) { by_field!(k, batch_case::<NormalInputType>(r, o)) } else { by_field!(k, batch_case::<CrossLayerInputType>(r, o)) }
    });
}

// ---------------------------------------------------------------- batched evaluation of any circuit
fn pack_values<C: Config>(v: &[(Vec<F<C>>, Vec<F<C>>)]) -> Vec<S<C>> {
    let pack = S::<C>::PACK_SIZE;
    let mut out = vec![];
    for blk in v.chunks(pack) {
        let l = pad(&blk.iter().collect::<Vec<_>>(), pack);
        let n = l[0].0.len() + l[0].1.len();
        for k in 0..n {
            let lanes: Vec<F<C>> = l.iter().map(|(a, b)| if k < a.len() { a[k] } else { b[k - a.len()] }).collect();
            out.push(S::<C>::pack(&lanes));
        }
    }
    out
}
fn rand_witness<C: Config>(r: &mut Rng, n: usize, a: usize, b: usize, simd: bool) -> (Witness<C>, Vec<(Vec<F<C>>, Vec<F<C>>)>) {
    let v: Vec<(Vec<F<C>>, Vec<F<C>>)> = (0..n).map(|_| (rand_inputs::<C>(r, a), rand_inputs::<C>(r, b))).collect();
    let values = if simd {
        WitnessValues::Simd(pack_values::<C>(&v))
    } else {
        WitnessValues::Scalar(v.iter().flat_map(|(a, b)| a.iter().chain(b).copied()).collect())
    };
    (Witness { num_witnesses: n, num_inputs_per_witness: a, num_public_inputs_per_witness: b, values }, v)
}
fn eval_case<C: Config, I: InputType>(r: &mut Rng, o: &mut Obs) -> CaseResult {
    let mut c = gen_layered::<C, I>(r, &LayCfg { rand_coef: false, custom: 0, max_pub: 3, relays_only: false });
    lucky(r, &mut c);
    ensure!(catch(|| c.validate()).is_ok_and(|x| x.is_ok()), "validate", "a well-formed circuit fails validation: {:?}", c.validate());
    let n = batch_size(r, S::<C>::PACK_SIZE);
    let simd = r.chance(1, 2);
    let (w, v) = rand_witness::<C>(r, n, c.input_size(), c.num_public_inputs, simd);
    views(&w, &v, o)?;
    let mut single = vec![];
    for (a, q) in &v {
        let mut e = LayEval { c: &c, pubs: q, rng: Rng::new(0), gates: 0, fixed: None };
        let (out, ok) = e.run(a).map_err(|e| viol!("layered", "{e}"))?;
        o.count("gates_evaluated", e.gates);
        let (o2, k2) = catch(|| c.eval_with_public_inputs(a.clone(), q)).map_err(|m| viol!("eval-panic", "{m}"))?;
        ensure!((&o2, k2) == (&out, ok), "eval", "scalar evaluation differs from the format's meaning: {c}");
        single.push((ok, out));
    }
    run_agrees(&c, &w, &single, o)?;
    // packed evaluation proper
    for (k, (a, q)) in w.iter_simd().enumerate() {
        let (out, ok) = catch(|| c.eval_with_public_inputs_simd(a.clone(), &q)).map_err(|m| viol!("eval-panic", "packed: {m}"))?;
        for lane in 0..S::<C>::PACK_SIZE {
            let (wok, wout) = &single[(k * S::<C>::PACK_SIZE + lane).min(n - 1)];
            ensure!(ok[lane] == *wok && out.iter().zip(wout).all(|(x, y)| x.unpack()[lane] == *y) && out.len() == wout.len(), "eval-simd", "lane {lane} of packed evaluation differs");
        }
    }
    o.distinct(&(format!("{c:?}").len(), vpc::hash_of(&format!("{c:?}")), n, simd));
    if o.wants_sample() && c.segments.len() < 3 {
        o.sample(json!({"circuit": c.to_string(), "witnesses": n}));
    }
    Ok(())
}
fn w02(d: &mut Driver) {
    d.cases("layered", d.n(400000, 8000000), |r, o| {
        let k = r.below(5);
        if r.chance(1, 2) { by_field!(k, eval_case::<NormalInputType>(r, o)) } else { by_field!(k, eval_case::<CrossLayerInputType>(r, o)) }
    });
}

// ---------------------------------------------------------------- hints
fn builtin_case<C: Config>(r: &mut Rng, o: &mut Obs) -> CaseResult {
    use BuiltinHintIds::*;
    let x = rand_field::<C>(r);
    let y = if r.chance(1, 6) { x } else if r.chance(1, 3) { F::<C>::from(r.below(300) as u32) } else { rand_field::<C>(r) };
    let z = rand_field::<C>(r);
    let (zero, one) = (F::<C>::zero(), F::<C>::one());
    let b = |t: bool| if t { one } else { zero };
    let ub = |op: UOp| ubin::<C>(op, x, y);
    let n = r.range(1, 300);
    let (id, name, ins, nout, want): (BuiltinHintIds, &str, Vec<F<C>>, usize, Option<Vec<F<C>>>) = match r.below(20) {
        0 => {
            let v: Vec<F<C>> = (0..r.range(1, 6)).map(|_| rand_field::<C>(r)).collect();
            (Identity, "identity", v.clone(), v.len(), Some(v))
        }
        1 => (Div, "div", vec![x, y], 1, Some(vec![if y.is_zero() { zero } else { x * y.inv().unwrap() }])),
        2 => (Eq, "eq", vec![x, y], 1, Some(vec![b(x == y)])),
        3 => (NotEq, "not_eq", vec![x, y], 1, Some(vec![b(x != y)])),
        4 => (BoolOr, "bool_or", vec![x, y], 1, Some(vec![b(x != zero || y != zero)])),
        5 => (BoolAnd, "bool_and", vec![x, y], 1, Some(vec![b(x != zero && y != zero)])),
        6 => (BitOr, "bit_or", vec![x, y], 1, ub(UOp::BitOr).map(|v| vec![v])),
        7 => (BitAnd, "bit_and", vec![x, y], 1, ub(UOp::BitAnd).map(|v| vec![v])),
        8 => (BitXor, "bit_xor", vec![x, y], 1, ub(UOp::BitXor).map(|v| vec![v])),
        9 => (Select, "select", vec![x, y, z], 1, Some(vec![if x.is_zero() { z } else { y }])),
        10 => (Pow, "pow", vec![x, y], 1, ub(UOp::Pow).map(|v| vec![v])),
        11 => (IntDiv, "int_div", vec![x, y], 1, if y.is_zero() { Some(vec![zero]) } else { ub(UOp::IntDiv).map(|v| vec![v]) }),
        12 => (Mod, "mod", vec![x, y], 1, if y.is_zero() { Some(vec![zero]) } else { ub(UOp::Mod).map(|v| vec![v]) }),
        13 => (ShiftL, "shift_l", vec![x, y], 1, ub(UOp::ShiftL).map(|v| vec![v])),
        14 => (ShiftR, "shift_r", vec![x, y], 1, ub(UOp::ShiftR).map(|v| vec![v])),
        15 => (LesserEq, "lesser_eq", vec![x, y], 1, ub(UOp::LesserEq).map(|v| vec![v])),
        16 => (GreaterEq, "greater_eq", vec![x, y], 1, ub(UOp::GreaterEq).map(|v| vec![v])),
        17 => (Lesser, "lesser", vec![x, y], 1, ub(UOp::Lesser).map(|v| vec![v])),
        18 => (Greater, "greater", vec![x, y], 1, ub(UOp::Greater).map(|v| vec![v])),
        _ => {
            let v = if r.chance(1, 2) { F::<C>::from(r.below(1 << 12) as u32) } else { x };
            let u = v.to_u256();
            let fits = n >= 256 || (u >> n as u32) == ethnum::U256::ZERO;
            let bits = (0..n).map(|i| b(i < 256 && (u >> i as u32) & ethnum::U256::ONE == ethnum::U256::ONE)).collect();
            (ToBinary, "to_binary", vec![v], n, if fits { Some(bits) } else { None })
        }
    };
    let idn = id as u64 as usize;
    ensure!(BuiltinHintIds::from_usize(idn).is_some_and(|k| k as u64 as usize == idn), "id", "built-in id {idn:#x} is not recognised");
    ensure!(hints::validate_hint(idn, ins.len(), nout).is_ok(), "arity", "{name} with {} inputs and {nout} outputs is refused", ins.len());
    for (i, k) in [(ins.len() + 1, nout), (ins.len(), nout + 1), (0, nout), (ins.len(), 0)] {
        // to_binary takes any number of outputs
        if name == "to_binary" && i == 1 && k > 0 {
            continue;
        }
        ensure!(hints::validate_hint(idn, i, k).is_err(), "arity", "{name} with {i} inputs and {k} outputs passes validation");
    }
    let reg = HintRegistry::<F<C>>::new();
    let got = catch(|| hints::safe_impl(&reg, idn, &ins, nout)).map_err(|m| viol!("hint-panic", "{name}({ins:?}): {m}"))?;
    match (got, want) {
        (Ok(g), Some(w)) => ensure!(g == w, "hint-value", "{name}({ins:?}) = {g:?}, expected {w:?}"),
        (Ok(g), None) if name == "to_binary" => return Err(viol!("hint-range", "{name}({ins:?}) into {nout} bits succeeds: {g:?}")),
        (Ok(_), None) => o.count("unspecified", 1),
        (Err(_), None) => o.count("range_errors", 1),
        (Err(e), Some(_)) => return Err(viol!("hint-error", "{name}({ins:?}): {e:?}")),
    }
    match hints::safe_impl(&EmptyHintCaller, idn, &ins, nout) {
        Ok(_) => {}
        Err(_) => ensure!(name == "to_binary", "hint-error", "{name} needs a registry"),
    }
    o.count(Box::leak(format!("builtin_{name}").into_boxed_str()), 1);
    o.distinct(&(name, format!("{ins:?}"), nout));
    Ok(())
}
fn registry_case(r: &mut Rng, o: &mut Obs) -> CaseResult {
    use tiny_keccak::Hasher;
    type M = CircuitField<M31Config>;
    fn good(i: &[M], o: &mut [M]) -> Result<(), Error> {
        for (k, x) in o.iter_mut().enumerate() {
            *x = i.iter().copied().sum::<M>() + M::from(k as u32);
        }
        Ok(())
    }
    fn other(_: &[M], o: &mut [M]) -> Result<(), Error> {
        o.iter_mut().for_each(|x| *x = M::from(77u32));
        Ok(())
    }
    fn bad(i: &[M], _: &mut [M]) -> Result<(), Error> {
        Err(Error::UserError(format!("refused {}", i.len())))
    }
    let fs: [fn(&[M], &mut [M]) -> Result<(), Error>; 3] = [good, other, bad];
    let n = r.range(1, 8);
    let keys: Vec<String> = (0..n)
        .map(|i| {
            let len = r.below(12);
            let s: String = (0..len).map(|_| (b'a' + r.below(26) as u8) as char).collect();
            format!("{s}.{i}")
        })
        .collect();
    let mut reg = HintRegistry::<M>::new();
    let pick: Vec<usize> = (0..n).map(|_| r.below(3)).collect();
    for (k, f) in keys.iter().zip(&pick) {
        let mut h = tiny_keccak::Keccak::v256();
        h.update(k.as_bytes());
        let mut out = [0u8; 32];
        h.finalize(&mut out);
        ensure!(hint_key_to_id(k) == usize::from_le_bytes(out[..8].try_into().unwrap()), "key-id", "identifier of key {k:?}");
        reg.register(k, fs[*f]);
    }
    let copy = reg.clone();
    for _ in 0..6 {
        let k = r.below(n);
        let args: Vec<M> = (0..r.range(1, 5)).map(|_| rand_field::<M31Config>(r)).collect();
        let m = r.range(1, 5);
        for g in [&reg, &copy] {
            let got = HintCaller::call(g, hint_key_to_id(&keys[k]), &args, m);
            let mut want = vec![M::zero(); m];
            let w = fs[pick[k]](&args, &mut want);
            match (&got, &w) {
                (Ok(v), Ok(())) => ensure!(*v == want, "registry-call", "hint {:?} returns {v:?}", keys[k]),
                (Err(a), Err(b)) => ensure!(a == b, "registry-error", "error of a hint is not passed on"),
                _ => return Err(viol!("registry-call", "hint {:?} returns {got:?}, its function {w:?}", keys[k])),
            }
            o.count("registry_calls", 1);
        }
    }
    ensure!(catch(|| reg.clone().register(&keys[0], good)).is_err(), "duplicate-key", "a key can be registered twice");
    ensure!(catch(|| HintCaller::call(&reg, hint_key_to_id("no such key"), &[M::one()], 1)).is_ok_and(|x| x.is_err()), "unknown-key", "an unknown hint is not reported as an error");
    ensure!(HintCaller::<M>::call(&EmptyHintCaller::new(), hint_key_to_id(&keys[0]), &[M::one()], 1).is_err(), "empty-caller", "the empty caller answers");
    let st = |a: &[M]| HintCaller::<M>::call(&StubHintCaller, hint_key_to_id(&keys[0]), a, 2).unwrap();
    ensure!(st(&[M::one()]) == st(&[M::one()]) && st(&[M::one()]).len() == 2, "stub", "the stub caller is not a function");
    o.distinct(&keys);
    Ok(())
}
/// Custom hints are only called on values the program really computes.
fn calls_case<C: Config>(r: &mut Rng, o: &mut Obs) -> CaseResult {
    let mut cfg = GenCfg::random(r);
    cfg.free = true;
    cfg.custom_hints = true;
    cfg.rand = false;
    let (p, ins, pubs) = gen_prog::<C>(r, &cfg);
    if !op_kinds(&p).contains("hint") {
        return Ok(());
    }
    let opts = rand_opts(r);
    let Ok(b) = build::<C, NormalInputType>(&lower(&p), &opts)? else { return Ok(()) };
    let reg = registry::<C>();
    for (i, q) in assignments(r, &p, &ins, &pubs, 2) {
        REF_HINTS.with(|l| *l.borrow_mut() = Some(vec![]));
        let (_, t) = RefEval::run(&p, &i, &q);
        let want: std::collections::HashSet<_> = REF_HINTS.with(|l| l.borrow_mut().take()).unwrap().into_iter().collect();
        if !t.accepts() || t.undefined || t.zero_by_zero {
            continue;
        }
        HINT_LOG.with(|l| *l.borrow_mut() = Some(vec![]));
        let w = catch(|| b.ws.solve_witness_from_raw_inputs(i.clone(), q.clone(), &reg));
        let got = HINT_LOG.with(|l| l.borrow_mut().take()).unwrap();
        let w = w.map_err(|m| viol!("solver-panic", "{m}: {}", render(&p)))?;
        ensure!(w.is_ok(), "solver-rejects", "a satisfied program cannot be solved: {}", render(&p));
        for g in &got {
            ensure!(want.contains(g), "hint-arguments", "hint called with {g:?}, the program calls {want:?}: {}", render(&p));
        }
        o.count("hint_invocations", got.len() as u64);
        // a failing hint makes solving fail with its error
        if let Some((h, _)) = got.first() {
            HINT_FAIL.with(|f| f.set(1));
            let w = catch(|| b.ws.solve_witness_from_raw_inputs(i.clone(), q.clone(), &reg));
            HINT_FAIL.with(|f| f.set(0));
            match w.map_err(|m| viol!("solver-panic", "failing hint: {m}"))? {
                Ok(_) => return Err(viol!("hint-error-lost", "a hint failed but the witness was solved: {}", render(&p))),
                Err(e) => ensure!(e.to_string().contains(&format!("hint {h} refuses")), "hint-error-lost", "a hint's error is replaced by {e}"),
            }
            o.count("failures_propagated", 1);
        }
        o.distinct(&(fingerprint(&p), format!("{i:?}")));
    }
    Ok(())
}
fn f05(d: &mut Driver) {
    d.cases("builtin", d.n(300000, 8000000), |r, o| {
        let k = r.below(5);
        by_field!(k, builtin_case(r, o))
    });
    d.cases("registry", d.n(8000, 100000), |r, o| registry_case(r, o));
    d.cases("calls", d.n(20000, 500000), |r, o| {
        let k = r.below(5);
        by_field!(k, calls_case(r, o))
    });
}

// ---------------------------------------------------------------- serialisation
fn ser<T: ExpSerde>(x: &T) -> Result<Vec<u8>, Violation> {
    let mut b = vec![];
    catch(|| x.serialize_into(&mut b)).map_err(|m| viol!("serialize-panic", "{m}"))?.map_err(|e| viol!("serialize", "{e:?}"))?;
    Ok(b)
}
/// Deserialises from exactly these bytes, through a reader that hands out small pieces.
fn de<T: ExpSerde>(b: &[u8], r: &mut Rng) -> Result<T, Violation> {
    struct Dribble<'a>(&'a [u8], Rng);
    impl std::io::Read for Dribble<'_> {
        fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
            let n = buf.len().min(self.0.len()).min(1 + self.1.below(9));
            buf[..n].copy_from_slice(&self.0[..n]);
            self.0 = &self.0[n..];
            Ok(n)
        }
    }
    let mut d = Dribble(b, Rng::new(r.u64()));
    let x = catch(|| T::deserialize_from(&mut d)).map_err(|m| viol!("deserialize-panic", "{m}"))?.map_err(|e| viol!("deserialize", "own output is refused: {e:?}"))?;
    ensure!(d.0.is_empty(), "leftover", "{} bytes are left over after reading", d.0.len());
    Ok(x)
}
fn layered_rt<C: Config, I: InputType>(r: &mut Rng, o: &mut Obs) -> CaseResult {
    let c: Circuit<C, I> = if r.chance(2, 3) {
        gen_layered(r, &LayCfg { rand_coef: true, custom: 3, max_pub: 3, relays_only: false })
    } else {
        let cfg = GenCfg::random(r);
        let (p, _, _) = gen_prog::<C>(r, &cfg);
        let Ok(b) = build::<C, I>(&lower(&p), &rand_opts(r))? else { return Ok(()) };
        b.lc
    };
    let b = ser(&c)?;
    let back: Circuit<C, I> = de(&b, r)?;
    ensure!(back == c, "changed", "a layered circuit changes when written and read: {c}");
    ensure!(ser(&back)? == b, "bytes", "writing again yields other bytes");
    // concatenated objects stay separable
    let mut two = b.clone();
    two.extend(&b);
    let mut rd = &two[..];
    let x = Circuit::<C, I>::deserialize_from(&mut rd).map_err(|e| viol!("deserialize", "{e:?}"))?;
    let y = Circuit::<C, I>::deserialize_from(&mut rd).map_err(|e| viol!("deserialize", "second of two: {e:?}"))?;
    ensure!(x == c && y == c && rd.is_empty(), "concatenation", "two circuits in a row are not read back");
    // other fields and files are refused
    ensure!(foreign::<C>(|k| by_field!(k, refuse_layered::<I>(&b))), "foreign", "a circuit over another field is accepted");
    let mut m = b.clone();
    let i = r.below(8);
    m[i] ^= 1 << r.below(8);
    ensure!(Circuit::<C, I>::deserialize_from(&m[..]).is_err(), "magic", "a file with a wrong leading word is accepted");
    o.count("bytes", b.len() as u64);
    o.distinct(&vpc::hash_of(&b));
    Ok(())
}
fn refuse_layered<C: Config, I: InputType>(b: &[u8]) -> bool {
    Circuit::<C, I>::deserialize_from(b).is_err()
}
/// `f(k)` for every field other than that of `C`.
fn foreign<C: Config>(f: impl Fn(usize) -> bool) -> bool {
    (0..5).all(|k| {
        fn id<C: Config>() -> usize {
            C::CONFIG_ID
        }
        by_field!(k, id()) == C::CONFIG_ID || f(k)
    })
}
fn s01(d: &mut Driver) {
    d.cases("layered", d.n(80000, 1500000), |r, o| {
        let k = r.below(5);
        if r.chance(1, 2) { by_field!(k, layered_rt::<NormalInputType>(r, o)) } else { by_field!(k, layered_rt::<CrossLayerInputType>(r, o)) }
    });
}
fn witness_rt<C: Config>(r: &mut Rng, o: &mut Obs) -> CaseResult {
    let n = if r.chance(1, 10) { 0 } else { batch_size(r, S::<C>::PACK_SIZE) };
    let (a, b) = (r.range(1, 5), r.below(3));
    let seed = r.u64();
    let simd = n > 0 && r.chance(1, 2);
    let (w, v) = rand_witness::<C>(&mut Rng::new(seed), n, a, b, simd);
    let bytes = ser(&w)?;
    if n > 0 {
        let (w2, _) = rand_witness::<C>(&mut Rng::new(seed), n, a, b, !simd);
        ensure!(ser(&w2)? == bytes, "representation", "the written form depends on the in-memory representation ({n} witnesses)");
    }
    let back: Witness<C> = de(&bytes, r)?;
    ensure!((back.num_witnesses, back.num_inputs_per_witness, back.num_public_inputs_per_witness) == (n, a, b), "sizes", "sizes change");
    if n > 0 {
        views(&back, &v, o)?;
    } else {
        ensure!(back.iter_scalar().next().is_none() && back.iter_simd().next().is_none(), "empty", "an empty witness yields values");
    }
    ensure!(ser(&back)? == bytes, "bytes", "writing again yields other bytes ({n} witnesses)");
    ensure!(foreign::<C>(|k| by_field!(k, refuse_witness(&bytes))), "foreign", "a witness over another field is accepted");
    o.count("witnesses", n as u64);
    o.distinct(&(C::CONFIG_ID, n, a, b, seed));
    Ok(())
}
fn refuse_witness<C: Config>(b: &[u8]) -> bool {
    Witness::<C>::deserialize_from(b).is_err()
}
fn s02(d: &mut Driver) {
    d.cases("witness", d.n(600000, 12000000), |r, o| {
        let k = r.below(5);
        by_field!(k, witness_rt(r, o))
    });
}
fn ir_rt<C: Config>(r: &mut Rng, o: &mut Obs) -> CaseResult {
    let cfg = GenCfg::random(r);
    let (p, ins, pubs) = gen_prog::<C>(r, &cfg);
    let src = lower(&p);
    let b = ser(&src)?;
    let back: ir::source::RootCircuit<C> = de(&b, r)?;
    ensure!(back == src, "changed", "a source program changes when written and read: {}", render(&p));
    ensure!(ser(&back)?.len() == b.len(), "bytes", "written length changes");
    ensure!(foreign::<C>(|k| by_field!(k, refuse_source(&b))), "foreign", "a program for another field is accepted");
    let opts = rand_opts(r);
    let Ok(bt) = build::<C, NormalInputType>(&src, &opts)? else { return Ok(()) };
    let wb = ser(&bt.ws)?;
    let ws: WitnessSolver<C> = de(&wb, r)?;
    ensure!(ws.circuit == bt.ws.circuit, "changed", "a witness program changes when written and read: {}", render(&p));
    ensure!(foreign::<C>(|k| by_field!(k, refuse_solver(&wb))), "foreign", "a witness program for another field is accepted");
    let reg = registry::<C>();
    let f = |s: &WitnessSolver<C>| catch(|| s.solve_witness_from_raw_inputs(ins.clone(), pubs.clone(), &reg).map(|w| w.iter_scalar().next()).map_err(|e| e.to_string()));
    ensure!(f(&ws) == f(&bt.ws), "behaviour", "a reloaded witness program behaves differently: {}", render(&p));
    // compiling the reloaded program is compiling the program
    let again = build::<C, NormalInputType>(&back, &opts)?;
    ensure!(again.is_ok_and(|x| x.lc == bt.lc), "behaviour", "a reloaded program compiles differently: {}", render(&p));
    o.count("bytes", (b.len() + wb.len()) as u64);
    o.distinct(&fingerprint(&p));
    Ok(())
}
fn refuse_source<C: Config>(b: &[u8]) -> bool {
    ir::source::RootCircuit::<C>::deserialize_from(b).is_err()
}
fn refuse_solver<C: Config>(b: &[u8]) -> bool {
    WitnessSolver::<C>::deserialize_from(b).is_err()
}
fn s03(d: &mut Driver) {
    d.cases("programs", d.n(16000, 400000), |r, o| {
        let k = r.below(5);
        by_field!(k, ir_rt(r, o))
    });
}

// ---------------------------------------------------------------- corrupted files
fn corrupt(r: &mut Rng, b: &[u8]) -> (Vec<u8>, String) {
    let mut m = b.to_vec();
    let mut how = String::new();
    for _ in 0..r.range(1, 3) {
        if m.is_empty() {
            break;
        }
        match r.below(6) {
            0 => {
                let n = r.below(m.len());
                m.truncate(n);
                how += &format!("truncate {n};");
            }
            1 => {
                let i = r.below(m.len());
                m[i] ^= 1 << r.below(8);
                how += &format!("flip {i};");
            }
            2 | 3 if m.len() >= 8 => {
                // most words are aligned to 8 up to the first field element
                let i = if r.chance(2, 3) { 8 * r.below(m.len() / 8) } else { r.below(m.len() - 7) };
                let v: u64 = match r.below(8) {
                    0 => 0,
                    1 => 1,
                    2 => u64::MAX,
                    3 => 1 << 63,
                    4 => 1 << r.below(64),
                    5 => r.below(40) as u64,
                    6 => (1 << 32) - 1,
                    _ => u64::MAX - r.below(16) as u64,
                };
                m[i..i + 8].copy_from_slice(&v.to_le_bytes());
                how += &format!("word {i}={v:#x};");
            }
            4 => {
                let i = r.below(m.len());
                let n = r.below((m.len() - i).min(40) + 1);
                m.drain(i..i + n);
                how += &format!("cut {i}+{n};");
            }
            _ => {
                let i = r.below(m.len());
                let n = r.below((m.len() - i).min(40) + 1);
                let t = m[i..i + n].to_vec();
                let j = r.below(m.len());
                m.splice(j..j, t);
                how += &format!("copy {i}+{n} to {j};");
            }
        }
    }
    (m, how)
}
fn read_bad<T: ExpSerde>(b: &[u8], what: &str, how: &str, o: &mut Obs) -> Result<Option<T>, Violation> {
    BIGGEST.with(|x| x.set(0));
    let res = catch(|| T::deserialize_from(b));
    let big = BIGGEST.with(|x| x.get());
    let res = res.map_err(|m| viol!("corrupt-panic", "reading a corrupted {what} of {} bytes panics ({how}): {m}", b.len()))?;
    ensure!(big <= 64 * b.len() + (1 << 16), "corrupt-alloc", "reading a corrupted {what} of {} bytes requests {big} bytes at once ({how})", b.len());
    o.count("corrupted_read", 1);
    match res {
        Ok(x) => {
            o.count("corrupted_accepted", 1);
            Ok(Some(x))
        }
        Err(_) => Ok(None),
    }
}
fn bad_layered<C: Config, I: InputType>(r: &mut Rng, o: &mut Obs) -> CaseResult {
    let rand_coef = r.chance(1, 4);
    let c: Circuit<C, I> = gen_layered(r, &LayCfg { rand_coef, custom: 0, max_pub: 2, relays_only: false });
    let (b, how) = corrupt(r, &ser(&c)?);
    let what = "layered circuit";
    let Some(x) = read_bad::<Circuit<C, I>>(&b, what, &how, o)? else {
        o.distinct(&vpc::hash_of(&b));
        return Ok(());
    };
    // sizes of honest but unwieldy circuits are not the point
    let small = |s: &layered::Segment<C, I>| s.num_outputs <= 1 << 12 && s.num_inputs.iter().all(|n| n <= 1 << 12);
    if !x.segments.iter().all(small) || x.num_public_inputs > 1 << 12 {
        return Ok(());
    }
    let v = catch(|| x.validate()).map_err(|m| viol!("validate-panic", "validating a corrupted {what} panics ({how}): {m}"))?;
    if v.is_ok() {
        o.count("corrupted_valid", 1);
        let n = x.input_size();
        let pubs = rand_inputs::<C>(r, x.num_public_inputs);
        let ins = rand_inputs::<C>(r, n);
        if !x.segments.iter().any(|s| !s.gate_customs.is_empty()) {
            catch(|| x.eval_with_public_inputs(ins, &pubs)).map_err(|m| viol!("validated-panic", "a corrupted {what} passes validation but evaluating it panics ({how}): {m}"))?;
        }
    }
    o.distinct(&vpc::hash_of(&b));
    Ok(())
}
fn bad_witness<C: Config>(r: &mut Rng, o: &mut Obs) -> CaseResult {
    let n = r.below(20);
    let (a, b) = (r.range(1, 4), r.below(3));
    let (w, _) = rand_witness::<C>(r, n, a, b, false);
    let (b, how) = corrupt(r, &ser(&w)?);
    if let Some(x) = read_bad::<Witness<C>>(&b, "witness", &how, o)? {
        if x.num_witnesses <= 1 << 12 {
            let v = catch(|| (x.iter_scalar().count(), x.iter_simd().count())).map_err(|m| viol!("iterate-panic", "iterating over a corrupted witness panics ({how}): {m}"))?;
            ensure!(v.0 == x.num_witnesses, "iterate", "{} of {} witnesses are iterated over", v.0, x.num_witnesses);
        }
    }
    o.distinct(&vpc::hash_of(&b));
    Ok(())
}
fn bad_ir<C: Config>(r: &mut Rng, o: &mut Obs) -> CaseResult {
    let mut cfg = GenCfg::random(r);
    cfg.max_ops = cfg.max_ops.min(8);
    let (p, _, _) = gen_prog::<C>(r, &cfg);
    let src = lower(&p);
    let (b, how) = corrupt(r, &ser(&src)?);
    if let Some(x) = read_bad::<ir::source::RootCircuit<C>>(&b, "source program", &how, o)? {
        let v = catch(|| x.validate()).map_err(|m| viol!("validate-panic", "validating a corrupted source program panics ({how}): {m}"))?;
        let size: usize = x.circuits.values().map(|c| c.num_inputs.saturating_add(c.instructions.iter().fold(0usize, |a, i| a.saturating_add(i.num_outputs())))).fold(0, usize::saturating_add);
        if v.is_ok() && size < 1 << 10 && x.num_public_inputs < 1 << 10 {
            // a valid program is compiled or declined
            let opts = rand_opts(r);
            build::<C, NormalInputType>(&x, &opts).map_err(|mut e| {
                e.msg = format!("corrupted but valid source program ({how}): {}: {x:?} {opts:?}", e.msg);
                e
            })?;
            o.count("corrupted_compiled", 1);
        }
    }
    if let Ok(bt) = build::<C, NormalInputType>(&src, &rand_opts(r))? {
        let (b, how) = corrupt(r, &ser(&bt.ws)?);
        if let Some(x) = read_bad::<WitnessSolver<C>>(&b, "witness program", &how, o)? {
            let v = catch(|| x.circuit.validate()).map_err(|m| viol!("validate-panic", "validating a corrupted witness program panics ({how}): {m}"))?;
            let size: usize = x.circuit.circuits.values().map(|c| c.num_inputs.saturating_add(c.instructions.iter().fold(0usize, |a, i| a.saturating_add(i.num_outputs())))).fold(0, usize::saturating_add);
            if v.is_ok() && size < 1 << 10 && x.circuit.num_public_inputs < 1 << 10 {
                let (i, q) = (rand_inputs::<C>(r, x.circuit.input_size()), rand_inputs::<C>(r, x.circuit.num_public_inputs));
                catch(|| x.solve_witness_from_raw_inputs(i, q, &StubHintCaller).is_ok()).map_err(|m| viol!("solve-panic", "solving a corrupted but valid witness program panics ({how}): {m}"))?;
                o.count("corrupted_valid", 1);
            }
        }
        o.distinct(&vpc::hash_of(&b));
    }
    Ok(())
}
fn s04(d: &mut Driver) {
    d.cases("layered", d.n(200000, 5000000), |r, o| {
        let k = r.below(5);
        if r.chance(1, 2) { by_field!(k, bad_layered::<NormalInputType>(r, o)) } else { by_field!(k, bad_layered::<CrossLayerInputType>(r, o)) }
    });
    d.cases("witness", d.n(300000, 5000000), |r, o| {
        let k = r.below(5);
        by_field!(k, bad_witness(r, o))
    });
    d.cases("programs", d.n(50000, 1200000), |r, o| {
        let k = r.below(5);
        by_field!(k, bad_ir(r, o))
    });
}

// ---------------------------------------------------------------- export
fn ecoef<C: Config>(c: F<C>, t: &expander_circuit::CoefType, q: &[F<C>], fixed: F<C>) -> F<C> {
    match t {
        expander_circuit::CoefType::Constant => c,
        expander_circuit::CoefType::Random => fixed,
        expander_circuit::CoefType::PublicInput(i) => q[*i],
    }
}
fn custom<C: Config>(t: usize, x: F<C>) -> F<C> {
    if t == 12345 { x * x * x * x * x } else { x }
}
/// Interprets the prover's recursive format.
fn run_exported<C: Config>(e: &expander_circuit::RecursiveCircuit<C::FieldConfig>, ins: &[F<C>], q: &[F<C>], fixed: F<C>) -> Result<Vec<F<C>>, String> {
    type Rc<C> = expander_circuit::RecursiveCircuit<<C as gkr_engine::GKREngine>::FieldConfig>;
    fn seg<C: Config>(e: &Rc<C>, id: usize, x: &[F<C>], y: &mut [F<C>], q: &[F<C>], fixed: F<C>) -> Result<(), String> {
        let s = &e.segments[id];
        if x.len() != 1 << s.i_var_num || y.len() != 1 << s.o_var_num {
            return Err(format!("segment {id} is {}x{} but placed on {}x{}", s.i_var_num, s.o_var_num, x.len(), y.len()));
        }
        for g in &s.gate_muls {
            y[g.o_id] += x[g.i_ids[0]] * x[g.i_ids[1]] * ecoef::<C>(g.coef, &g.coef_type, q, fixed);
        }
        for g in &s.gate_adds {
            y[g.o_id] += x[g.i_ids[0]] * ecoef::<C>(g.coef, &g.coef_type, q, fixed);
        }
        for g in &s.gate_consts {
            y[g.o_id] += ecoef::<C>(g.coef, &g.coef_type, q, fixed);
        }
        for g in &s.gate_uni {
            y[g.o_id] += custom::<C>(g.gate_type, x[g.i_ids[0]]) * ecoef::<C>(g.coef, &g.coef_type, q, fixed);
        }
        for (ch, al) in &s.child_segs {
            let (i, o) = (1 << e.segments[*ch].i_var_num, 1 << e.segments[*ch].o_var_num);
            for a in al {
                if a.i_offset + i > x.len() || a.o_offset + o > y.len() {
                    return Err("child outside parent".into());
                }
                seg::<C>(e, *ch, &x[a.i_offset..a.i_offset + i], &mut y[a.o_offset..a.o_offset + o], q, fixed)?;
            }
        }
        Ok(())
    }
    let mut cur = ins.to_vec();
    for id in &e.layers {
        let mut next = vec![F::<C>::zero(); 1 << e.segments[*id].o_var_num];
        seg::<C>(e, *id, &cur, &mut next, q, fixed)?;
        cur = next;
    }
    Ok(cur)
}
/// All wires of the last layer, of a circuit possibly with one-input custom gates.
fn full_outputs<C: Config, I: InputType>(c: &Circuit<C, I>) -> Circuit<C, I> {
    let mut f = c.clone();
    f.expected_num_output_zeroes = 0;
    f.num_actual_outputs = f.segments[*f.layer_ids.last().unwrap()].num_outputs;
    f
}
fn export_normal<C: Config>(r: &mut Rng, o: &mut Obs) -> CaseResult {
    let c: Circuit<C, NormalInputType> = if r.chance(1, 2) {
        gen_layered(r, &LayCfg { rand_coef: true, custom: 0, max_pub: 3, relays_only: false })
    } else {
        let cfg = GenCfg::random(r);
        let (p, _, _) = gen_prog::<C>(r, &cfg);
        let Ok(b) = build::<C, NormalInputType>(&lower(&p), &rand_opts(r))? else { return Ok(()) };
        b.lc
    };
    let e = catch(|| c.export_to_expander::<C::FieldConfig>()).map_err(|m| viol!("export-panic", "{m}: {c}"))?;
    ensure!(e.num_public_inputs == c.num_public_inputs && e.num_outputs == c.num_actual_outputs && e.expected_num_output_zeros == c.expected_num_output_zeroes, "header", "counts change in the export");
    let full = full_outputs(&c);
    let rnd = |k: &Circuit<C, NormalInputType>| -> usize { k.segments.iter().map(|s| s.gate_muls.iter().filter(|g| g.coef == Coef::Random).count() + s.gate_adds.iter().filter(|g| g.coef == Coef::Random).count() + s.gate_consts.iter().filter(|g| g.coef == Coef::Random).count()).sum() };
    let is_r = |t: &expander_circuit::CoefType| *t == expander_circuit::CoefType::Random;
    let erand: usize = e.segments.iter().map(|s| s.gate_muls.iter().filter(|g| is_r(&g.coef_type)).count() + s.gate_adds.iter().filter(|g| is_r(&g.coef_type)).count() + s.gate_consts.iter().filter(|g| is_r(&g.coef_type)).count()).sum();
    ensure!(erand == rnd(&c), "random", "{} challenge coefficients become {erand}", rnd(&c));
    for _ in 0..2 {
        let ins: Vec<F<C>> = (0..c.input_size()).map(|_| rand_field::<C>(r)).collect();
        let q: Vec<F<C>> = (0..c.num_public_inputs).map(|_| rand_field::<C>(r)).collect();
        let fixed = rand_field::<C>(r);
        let want = LayEval { c: &full, pubs: &q, rng: Rng::new(0), gates: 0, fixed: Some(fixed) }.run(&ins).map_err(|e| viol!("layered", "{e}"))?.0;
        let got = run_exported::<C>(&e, &ins, &q, fixed).map_err(|m| viol!("export-shape", "the export is malformed: {m}: {c}"))?;
        ensure!(got == want, "export-value", "the exported circuit computes {got:?}, the circuit {want:?}: {c}");
        // flattened and preprocessed
        if rnd(&c) == 0 {
            let mut fl = catch(|| c.export_to_expander_flatten()).map_err(|m| viol!("export-panic", "flatten: {m}"))?;
            ensure!(fl.layers.len() == c.layer_ids.len() && fl.log_input_size() == c.input_size().trailing_zeros() as usize, "flat-shape", "layers of the flattened export");
            ensure!(fl.expected_num_output_zeros == c.expected_num_output_zeroes, "header", "expected zeroes of the flattened export");
            for (x, v) in fl.layers[0].input_vals.iter_mut().zip(&ins) {
                *x = S::<C>::pack_full(v);
            }
            fl.public_input = q.iter().map(|v| S::<C>::pack_full(v)).collect();
            fl.evaluate();
            let got: Vec<F<C>> = fl.layers.last().unwrap().output_vals.iter().map(|x| x.unpack()[0]).collect();
            ensure!(got == want, "flat-value", "the flattened circuit computes other values: {c}");
            o.count("flattened", 1);
        }
        o.count("challenge_coefficients", rnd(&c) as u64);
    }
    o.distinct(&vpc::hash_of(&format!("{c:?}")));
    Ok(())
}
/// One-input custom gates keep their kind, wires and coefficient.
fn export_custom<C: Config>(r: &mut Rng, o: &mut Obs) -> CaseResult {
    let c: Circuit<C, NormalInputType> = gen_layered(r, &LayCfg { rand_coef: true, custom: 1, max_pub: 3, relays_only: false });
    let e = catch(|| c.export_to_expander::<C::FieldConfig>()).map_err(|m| viol!("export-panic", "{m}: {c}"))?;
    for (s, t) in c.segments.iter().zip(&e.segments) {
        ensure!(s.gate_customs.len() == t.gate_uni.len(), "custom", "custom gates are lost");
        for (g, h) in s.gate_customs.iter().zip(&t.gate_uni) {
            let (k, ty) = match g.coef {
                Coef::Constant(k) => (Some(k), expander_circuit::CoefType::Constant),
                Coef::Random => (None, expander_circuit::CoefType::Random),
                Coef::PublicInput(i) => (None, expander_circuit::CoefType::PublicInput(i)),
            };
            ensure!(h.gate_type == g.gate_type && h.o_id == g.output && h.i_ids == [g.inputs[0].offset()] && h.coef_type == ty && k.is_none_or(|k| k == h.coef), "custom", "custom gate {g:?} becomes {h:?}");
            o.count("custom_gates", 1);
        }
    }
    o.distinct(&vpc::hash_of(&format!("{c:?}")));
    Ok(())
}
fn export_cross<C: Config>(r: &mut Rng, o: &mut Obs) -> CaseResult {
    use crosslayer_prototype as cp;
    let c: Circuit<C, CrossLayerInputType> = if r.chance(1, 2) {
        gen_layered(r, &LayCfg { rand_coef: true, custom: 0, max_pub: 3, relays_only: true })
    } else {
        let cfg = GenCfg::random(r);
        let (p, _, _) = gen_prog::<C>(r, &cfg);
        let Ok(b) = build::<C, CrossLayerInputType>(&lower(&p), &rand_opts(r))? else { return Ok(()) };
        b.lc
    };
    let e = catch(|| c.export_to_expander::<C::FieldConfig>()).map_err(|m| viol!("export-panic", "{m}: {c}"))?;
    ensure!(e.num_public_inputs == c.num_public_inputs && e.num_outputs == c.num_actual_outputs && e.expected_num_output_zeros == c.expected_num_output_zeroes && e.layers == c.layer_ids, "header", "counts change in the export");
    type Rc<C> = cp::CrossLayerRecursiveCircuit<<C as gkr_engine::GKREngine>::FieldConfig>;
    fn seg<C: Config>(e: &Rc<C>, id: usize, xs: &[&[F<C>]], y: &mut [F<C>], q: &[F<C>], fixed: F<C>) -> Result<(), String> {
        let s = &e.segments[id];
        if s.input_size.len() != xs.len() || s.input_size.iter().zip(xs).any(|(a, b)| *a != b.len()) || s.output_size != y.len() {
            return Err(format!("segment {id} does not fit where it is placed"));
        }
        for g in &s.gate_muls {
            y[g.o_id] += xs[0][g.i_ids[0]] * xs[0][g.i_ids[1]] * ecoef::<C>(g.coef, &g.coef_type, q, fixed);
        }
        for g in &s.gate_adds {
            y[g.o_id] += xs[0][g.i_ids[0]] * ecoef::<C>(g.coef, &g.coef_type, q, fixed);
        }
        for g in &s.gate_csts {
            y[g.o_id] += ecoef::<C>(g.coef, &g.coef_type, q, fixed);
        }
        for g in &s.gate_relay {
            y[g.o_id] += xs[g.i_layer][g.i_id] * g.coef;
        }
        for (ch, al) in &s.child_segs {
            let c = &e.segments[*ch];
            for a in al {
                let sub: Vec<&[F<C>]> = a.i_offset.iter().zip(&c.input_size).enumerate().map(|(l, (o, n))| &xs[l][*o..o + n]).collect();
                seg::<C>(e, *ch, &sub, &mut y[a.o_offset..a.o_offset + c.output_size], q, fixed)?;
            }
        }
        Ok(())
    }
    let full = full_outputs(&c);
    for _ in 0..2 {
        let ins: Vec<F<C>> = (0..c.input_size()).map(|_| rand_field::<C>(r)).collect();
        let q: Vec<F<C>> = (0..c.num_public_inputs).map(|_| rand_field::<C>(r)).collect();
        let fixed = rand_field::<C>(r);
        let want = LayEval { c: &full, pubs: &q, rng: Rng::new(0), gates: 0, fixed: Some(fixed) }.run(&ins).map_err(|e| viol!("layered", "{e}"))?.0;
        let mut cur = vec![ins];
        for id in &e.layers {
            let mut next = vec![F::<C>::zero(); e.segments[*id].output_size];
            let xs: Vec<&[F<C>]> = (0..e.segments[*id].input_size.len()).map(|j| &cur[cur.len() - 1 - j][..]).collect();
            seg::<C>(&e, *id, &xs, &mut next, &q, fixed).map_err(|m| viol!("export-shape", "{m}: {c}"))?;
            cur.push(next);
        }
        ensure!(*cur.last().unwrap() == want, "export-value", "the exported cross-layer circuit computes other values: {c}");
    }
    o.count("relays", e.segments.iter().map(|s| s.gate_relay.len() as u64).sum());
    o.distinct(&vpc::hash_of(&format!("{c:?}")));
    Ok(())
}
fn s05(d: &mut Driver) {
    d.cases("single-layer", d.n(40000, 900000), |r, o| {
        let k = r.below(5);
        by_field!(k, export_normal(r, o))
    });
    d.cases("custom-gates", d.n(10000, 300000), |r, o| {
        let k = r.below(5);
        by_field!(k, export_custom(r, o))
    });
    d.cases("cross-layer", d.n(30000, 900000), |r, o| {
        let k = r.below(5);
        by_field!(k, export_cross(r, o))
    });
}

// ---------------------------------------------------------------- statistics
/// The gates of the expanded circuit, counted one by one.
#[derive(Default)]
struct Tally {
    mul: usize,
    add: usize,
    cst: usize,
    written: std::collections::HashSet<usize>,
    /// (how many layers back, position)
    read: std::collections::HashSet<(usize, usize)>,
}
fn tally<C: Config, I: InputType>(c: &Circuit<C, I>, id: usize, off: &[usize], oo: usize, t: &mut Tally) {
    let s = &c.segments[id];
    let mut see = |ins: &[I::Input], out: usize| {
        for i in ins {
            t.read.insert((i.layer(), off[i.layer()] + i.offset()));
        }
        t.written.insert(oo + out);
    };
    for g in &s.gate_muls {
        see(&g.inputs, g.output);
    }
    for g in &s.gate_adds {
        see(&g.inputs, g.output);
    }
    for g in &s.gate_consts {
        see(&[], g.output);
    }
    for g in &s.gate_customs {
        see(&g.inputs, g.output);
    }
    t.mul += s.gate_muls.len();
    t.add += s.gate_adds.len();
    t.cst += s.gate_consts.len();
    for (ch, allocs) in &s.child_segs {
        for a in allocs {
            let off: Vec<usize> = a.input_offset.iter().enumerate().map(|(l, x)| off[l] + x).collect();
            tally(c, *ch, &off, oo + a.output_offset, t);
        }
    }
}
fn stats_case<C: Config, I: InputType>(r: &mut Rng, o: &mut Obs) -> CaseResult {
    let (c, kind) = if r.chance(1, 2) {
        let cfg = LayCfg { rand_coef: true, custom: r.below(4), max_pub: 2, relays_only: false };
        let mut c: Circuit<C, I> = gen_layered(r, &cfg);
        // wires that nothing writes
        for k in 0..c.segments.len() {
            if r.chance(1, 2) {
                let n = r.below(c.segments[k].gate_consts.len() + 1);
                c.segments[k].gate_consts.truncate(n);
            }
        }
        (c, "drawn")
    } else {
        let cfg = GenCfg::random(r);
        let (p, _, _) = gen_prog::<C>(r, &cfg);
        match build::<C, I>(&lower(&p), &rand_opts(r))? {
            Ok(b) => (b.lc, "compiled"),
            Err(_) => return Ok(()),
        }
    };
    let s = catch(|| c.get_stats()).map_err(|m| viol!("stats-panic", "statistics of {c}: {m}"))?;
    let (mut mul, mut add, mut cst, mut total, mut used) = (0, 0, 0, 0, 0);
    let mut inputs = std::collections::HashSet::new();
    for (l, id) in c.layer_ids.iter().enumerate() {
        let mut t = Tally::default();
        tally(&c, *id, &vec![0; c.segments[*id].num_inputs.len()], 0, &mut t);
        mul += t.mul;
        add += t.add;
        cst += t.cst;
        total += c.segments[*id].num_outputs;
        used += t.written.len();
        inputs.extend(t.read.iter().filter(|(back, _)| *back == l).map(|(_, k)| *k));
    }
    let sum = |f: fn(&layered::Segment<C, I>) -> usize| c.segments.iter().map(f).sum::<usize>();
    let cost = c.input_size() * C::COST_INPUT + total * C::COST_VARIABLE + mul * C::COST_MUL + add * C::COST_ADD + cst * C::COST_CONST;
    for (what, got, want) in [
        ("layers", s.num_layers, c.layer_ids.len()),
        ("segments", s.num_segments, c.segments.len()),
        ("used inputs", s.num_inputs, inputs.len()),
        ("multiplications of all segments", s.num_total_mul, sum(|s| s.gate_muls.len())),
        ("additions of all segments", s.num_total_add, sum(|s| s.gate_adds.len())),
        ("constants of all segments", s.num_total_cst, sum(|s| s.gate_consts.len())),
        ("expanded multiplications", s.num_expanded_mul, mul),
        ("expanded additions", s.num_expanded_add, add),
        ("expanded constants", s.num_expanded_cst, cst),
        ("wires", s.num_total_gates, total),
        ("written wires", s.num_used_gates, used),
        ("cost", s.total_cost, cost),
    ] {
        ensure!(got == want, "statistics", "{what}: reported {got}, counted {want}, in the {kind} circuit {c}");
    }
    o.count("statistics compared", 12);
    o.count(if kind == "drawn" { "drawn circuits" } else { "compiled circuits" }, 1);
    o.count("gates counted in expansions", (mul + add + cst) as u64);
    o.distinct(&vpc::hash_of(&format!("{c:?}")));
    if o.wants_sample() {
        o.sample(json!({"kind": kind, "layers": s.num_layers, "segments": s.num_segments, "expanded multiplications": mul, "written wires": used, "wires": total}));
    }
    Ok(())
}
fn s06(d: &mut Driver) {
    d.cases("single-layer", d.n(30000, 600000), |r, o| {
        let k = r.below(5);
        by_field!(k, stats_case::<NormalInputType>(r, o))
    });
    d.cases("cross-layer", d.n(30000, 600000), |r, o| {
        let k = r.below(5);
        by_field!(k, stats_case::<CrossLayerInputType>(r, o))
    });
}

fn main() {
    vpc::main(&[
        Check { id: "S06", rule: "one layered circuit whose statistics are compared with a count over its expansion; distinct = different circuits", run: s06 },
        Check { id: "W01", rule: "one random program compiled; its witnesses solved one by one, in a batch and through the typed interface; distinct = different (program, batch size)", run: w01 },
        Check { id: "W02", rule: "one random layered circuit run on a random batch in scalar and packed form; distinct = different (circuit, batch size, representation)", run: w02 },
        Check { id: "F05", rule: "one call of a built-in hint, one random hint registry, or one program whose hint calls are recorded; distinct = different calls, registries, programs with inputs", run: f05 },
        Check { id: "S01", rule: "one layered circuit written and read; distinct = different byte strings", run: s01 },
        Check { id: "S02", rule: "one batch of witness values written and read; distinct = different batches", run: s02 },
        Check { id: "S03", rule: "one program and its witness program written and read; distinct = different programs", run: s03 },
        Check { id: "S04", rule: "one corrupted file read and validated; distinct = different byte strings", run: s04 },
        Check { id: "S05", rule: "one circuit exported to the prover's format and interpreted there; distinct = different circuits", run: s05 },
    ])
}
