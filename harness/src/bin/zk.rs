//! Device arrays, kernels, computation graphs and proofs over them.
use arith::{Field as _, SimdField as _};
use expander_compiler::circuit::config::*;
use expander_compiler::zkcuda::context::*;
use expander_compiler::zkcuda::kernel::*;
use expander_compiler::zkcuda::shape::*;
use vp::layeval::LayEval;
use expander_compiler::zkcuda::vec_shaped::*;
use serde_json::json;
use serdes::ExpSerde;
use vp::by_field;
use vp::lang::*;
use vp::zkmodel::{self as zm, *};
use vpc::{catch, ensure, viol, CaseResult, Check, Driver, Obs, Rng};

// ---------------------------------------------------------------- shapes
/// What a handle denotes: for every position, the position of the initial vector it reads.
fn shape_ops(r: &mut Rng, n: usize, legal: bool) -> (Vec<usize>, Vec<ShOp>) {
    let mut ops = vec![];
    if !legal {
        let s0 = zm::rand_shape(r, n, true);
        let mut rank = s0.len();
        for _ in 0..r.below(7) {
            if r.chance(1, 2) {
                let s = zm::rand_shape(r, n, true);
                rank = s.len();
                ops.push(ShOp::Re(s));
            } else {
                ops.push(ShOp::Tr(zm::perm(r, rank)));
            }
        }
        return (s0, ops);
    }
    // every shape groups neighbouring atoms of one fixed splitting, so no two ever conflict
    let mut atoms = zm::rand_shape(r, n, false);
    let group = |r: &mut Rng, atoms: &[usize]| -> Vec<Vec<usize>> {
        let mut g: Vec<Vec<usize>> = vec![];
        for a in atoms {
            if g.is_empty() || r.chance(1, 2) {
                g.push(vec![*a]);
            } else {
                g.last_mut().unwrap().push(*a);
            }
            if r.chance(1, 6) && g.len() < 6 {
                g.push(vec![]);
            }
        }
        g
    };
    let dims = |g: &[Vec<usize>]| g.iter().map(|x| zm::prod(x)).collect::<Vec<_>>();
    let mut g = group(r, &atoms);
    let s0 = dims(&g);
    for _ in 0..r.below(7) {
        if r.chance(1, 2) {
            g = group(r, &atoms);
            ops.push(ShOp::Re(dims(&g)));
        } else {
            let p = zm::perm(r, g.len());
            g = p.iter().map(|i| g[*i].clone()).collect();
            ops.push(ShOp::Tr(p));
            atoms = g.iter().flatten().copied().collect();
        }
    }
    (s0, ops)
}
fn shape_case(r: &mut Rng, o: &mut Obs) -> CaseResult {
    let n = *r.pick(&[1, 2, 3, 4, 6, 7, 8, 9, 12, 15, 16, 18, 24, 30, 36, 48, 60, 64, 90, 120]);
    let legal = r.chance(1, 2);
    let (s0, ops) = shape_ops(r, n, legal);
    let ctx = format!("{s0:?} then {ops:?}");
    let mut h = ShapeHistory::new(s0.clone());
    let mut shape = s0.clone();
    let mut src: Vec<usize> = (0..n).collect();
    let walk = || -> CaseResult {
        for op in &ops {
            match op {
                ShOp::Re(s) => {
                    h = h.reshape(s);
                    shape = s.clone();
                }
                ShOp::Tr(a) => {
                    h = h.transpose(a);
                    (shape, src) = zm::transpose(&shape, &src, a);
                }
            }
            ensure!(h.shape() == shape, "shape", "shape is {:?} instead of {shape:?} after {ctx}", h.shape());
            let ids: Vec<usize> = (0..n).collect();
            ensure!(h.permute_vec(&ids) == src, "permute", "reading through {ctx} gives {:?} instead of {src:?}", h.permute_vec(&ids));
            let ident = src.iter().enumerate().all(|(i, x)| i == *x);
            ensure!(!h.is_identity_permutation() || ident, "identity", "{ctx} is claimed to be the identity");
            o.count("views_compared", 1);
        }
        Ok(())
    };
    match catch(walk) {
        Ok(r) => r?,
        Err(m) => return Err(viol!("shape-panic", "{ctx}: {m}")),
    }
    // the handle survives the file format
    let mut buf = vec![];
    h.serialize_into(&mut buf).map_err(|e| viol!("serde", "{e:?}"))?;
    let h2 = ShapeHistory::deserialize_from(&buf[..]).map_err(|e| viol!("serde", "{ctx}: {e:?}"))?;
    ensure!(format!("{h:?}") == format!("{h2:?}"), "serde", "history changed by saving: {ctx}");
    // memory layouts
    for split_first in [false, true] {
        let list = match catch(|| h.get_initial_split_list(split_first)) {
            Ok(l) => l,
            Err(m) if m.contains(ILLEGAL) && !legal => {
                o.count("splittings_refused", 1);
                continue;
            }
            Err(m) => return Err(viol!("split-panic", "{ctx}: computing the splitting panicked: {m}")),
        };
        ensure!(list[0] == 1 && *list.last().unwrap() == n, "split-range", "{ctx}: splitting {list:?} of {n}");
        let mut dims = vec![];
        for w in list.windows(2) {
            ensure!(w[1] % w[0] == 0, "split-chain", "{ctx}: splitting {list:?} is not a chain of divisors");
            if w[1] > w[0] {
                dims.push(w[1] / w[0]);
            }
        }
        // a finer splitting must do as well
        let mut fine = vec![];
        let refine = r.chance(1, 2);
        for d in &dims {
            if refine {
                fine.extend(zm::rand_shape(r, *d, false));
            } else {
                fine.push(*d);
            }
        }
        let fine = if refine && !legal {
            // other uses of the same vector may only add splits the history can carry
            match catch(|| h.get_transposed_shape_and_bit_order(&fine)) {
                Ok(_) => fine,
                Err(_) => dims.clone(),
            }
        } else {
            fine
        };
        let (ts, order) = catch(|| h.get_transposed_shape_and_bit_order(&fine)).map_err(|m| viol!("layout-panic", "{ctx}: layout for splitting {fine:?} panicked: {m}"))?;
        ensure!(zm::prod(&ts) == n, "layout-size", "{ctx}: layout {ts:?}");
        let ids: Vec<usize> = (0..n).collect();
        let phys = catch(|| multi_dimension_data_padding(&fine, &ids)).map_err(|m| viol!("pad-panic", "{fine:?}: {m}"))?;
        ensure!(phys == zm::pad(&fine, &ids), "padding", "padding of {fine:?} is {phys:?}");
        ensure!(1usize << order.len() == phys.len(), "order-bits", "{ctx}: {} bits for a memory of {}", order.len(), phys.len());
        let mut sorted = order.clone();
        sorted.sort();
        ensure!(sorted == (0..order.len()).collect::<Vec<_>>(), "order-perm", "{ctx}: bit order {order:?} is not a permutation");
        let read: Vec<usize> = (0..phys.len())
            .map(|i| {
                let j: usize = order.iter().enumerate().map(|(k, b)| ((i >> k) & 1) << b).sum();
                phys[j]
            })
            .collect();
        ensure!(read == zm::pad(&ts, &src), "order", "{ctx}, splitting {fine:?}: reading the memory in bit order {order:?} gives {read:?} instead of {:?}", zm::pad(&ts, &src));
        if split_first && !shape.is_empty() && shape[0] > 1 {
            let mut p = 1;
            let ok = ts.iter().any(|d| {
                p *= d;
                p == shape[0]
            });
            ensure!(ok, "first-dim", "{ctx}: layout {ts:?} cuts through the first axis of {shape:?}");
            let a = keep_shape_until(&ts, shape[0]);
            let b = keep_shape_since(&ts, shape[0]);
            ensure!(a.len() + b.len() == ts.len() && zm::prod(&a) == shape[0] && [a, b].concat() == ts, "keep", "cutting {ts:?} at {}", shape[0]);
        }
        // positions of the elements inside the padded memory
        let im = shape_padded_mapping(&fine);
        ensure!(im.next_size() == phys.len() && im.mapping().len() == n, "mapping-size", "padded mapping of {fine:?}");
        for (i, m) in im.mapping().iter().enumerate() {
            ensure!(phys[*m] == i, "mapping", "{fine:?}: element {i} mapped to {m}");
        }
        ensure!(shape_vec_padded_len(&fine) == phys.len() && shape_vec_len(&fine) == n, "lengths", "{fine:?}");
        ensure!(prefix_products_to_shape(&prefix_products(&fine)) == fine, "products", "{fine:?}");
        o.count("layouts_checked", 1);
        o.distinct(&(&ctx, split_first, &fine));
    }
    if o.wants_sample() {
        o.sample(json!({"history": ctx, "shape": shape}));
    }
    Ok(())
}
fn z01(d: &mut Driver) {
    d.cases("shapes", d.n(60_000, 6_000_000), shape_case);
    d.cases("refusals", d.n(3000, 100_000), |r, o| {
        let n = *r.pick(&[6, 12, 15, 24]);
        let h = ShapeHistory::new(vec![n]);
        let m = n + r.range(1, 5);
        let s = zm::rand_shape(r, m, true);
        ensure!(catch(|| h.reshape(&s)).is_err(), "reshape-accepted", "a vector of {n} was reshaped to {s:?}");
        // two splittings that do not nest are refused, nesting ones merge to the union
        let a: Vec<usize> = prefix_products(&zm::rand_shape(r, n, false));
        let b: Vec<usize> = prefix_products(&zm::rand_shape(r, n, false));
        let mut u: Vec<usize> = a.iter().chain(&b).copied().collect();
        u.sort();
        u.dedup();
        let chain = u.windows(2).all(|w| w[1] % w[0] == 0);
        match catch(|| merge_shape_products(&a, &b)) {
            Ok(x) => ensure!(chain && x == u, "merge", "merging {a:?} and {b:?} gave {x:?}"),
            Err(m) => ensure!(!chain && m.contains(ILLEGAL), "merge", "merging {a:?} and {b:?} panicked: {m}"),
        }
        o.distinct(&(n, s, a, b));
        Ok(())
    });
}

// ---------------------------------------------------------------- host and device copies
fn copy_case<C: Config>(r: &mut Rng, o: &mut Obs) -> CaseResult {
    let n = *r.pick(&[1, 1, 2, 3, 5, 6, 8, 12, 17, 24, 36]);
    let mut s = Session::<C>::new(vec![]);
    for _ in 0..r.range(1, 3) {
        let shape = zm::rand_shape(r, n, true);
        let data = rand_simd::<C>(r, n);
        s.copy(r, &shape, data)?;
    }
    for _ in 0..r.range(1, 6) {
        let mut a = r.pick(&s.arrs).clone();
        read_back(&s.ctx, &a, o)?;
        for _ in 0..r.below(4) {
            a = if r.chance(1, 2) {
                let sh = zm::rand_shape(r, n, true);
                a.reshape(&sh)
            } else {
                let p = zm::perm(r, a.shape.len());
                a.transpose(&p)
            };
        }
        read_back(&s.ctx, &a, o)?;
        o.distinct(&(C::CONFIG_ID, &a.shape, &a.src, a.mem));
    }
    Ok(())
}
fn ragged_case<C: Config>(r: &mut Rng, o: &mut Obs) -> CaseResult {
    type V<T> = Vec<Vec<T>>;
    let rows = r.range(1, 5);
    let v: V<F<C>> = (0..rows).map(|_| (0..r.range(0, 3)).map(|_| rand_field::<C>(r)).collect()).collect();
    let rect = v.iter().all(|x| x.len() == v[0].len()) && !v[0].is_empty();
    match catch(|| flatten_shaped::<F<C>, V<F<C>>>(&v)) {
        Ok((f, s)) => {
            ensure!(rect, "ragged", "rows of lengths {:?} were accepted", v.iter().map(|x| x.len()).collect::<Vec<_>>());
            ensure!(s == vec![rows, v[0].len()] && f == v.concat(), "flatten", "flattening {rows} rows of {}", v[0].len());
            ensure!(unflatten_shaped::<F<C>, V<F<C>>>(&f, &s) == v, "unflatten", "unflattening {s:?}");
            // any other size is refused
            let mut bad = f.clone();
            if r.chance(1, 2) {
                bad.push(f[0]);
            } else {
                bad.pop();
            }
            ensure!(catch(|| unflatten_shaped::<F<C>, V<F<C>>>(&bad, &s)).is_err(), "unflatten-size", "{} values were read as {s:?}", bad.len());
            ensure!(catch(|| unflatten_shaped::<F<C>, Vec<F<C>>>(&f, &s)).is_err(), "unflatten-rank", "{s:?} was read as a flat vector");
            ensure!(catch(|| unflatten_shaped::<F<C>, Vec<V<F<C>>>>(&f, &s)).is_err(), "unflatten-rank", "{s:?} was read as a three-dimensional array");
            o.count("rectangular", 1);
        }
        Err(m) => {
            ensure!(!rect, "flatten-panic", "flattening {rows} equal rows panicked: {m}");
            o.count("ragged_refused", 1);
        }
    }
    o.distinct(&format!("{v:?}"));
    Ok(())
}
fn z02(d: &mut Driver) {
    d.cases("copies", d.n(60_000, 2_000_000), |r, o| by_field!(o.case, copy_case(r, o)));
    d.cases("ragged", d.n(20_000, 100_000), |r, o| by_field!(o.case, ragged_case(r, o)));
}

// ---------------------------------------------------------------- kernel calls
fn scfg(r: &mut Rng) -> SCfg {
    SCfg {
        transposes: r.chance(1, 3),
        mixed: r.chance(1, 3),
        max_calls: *r.pick(&[1, 2, 3, 5]),
        max_np: *r.pick(&[1, 4, 9, 17]),
        bad: false,
        kern: None,
        max_kernels: 3,
    }
}
fn call_case<C: Config>(r: &mut Rng, o: &mut Obs) -> CaseResult {
    let cfg = scfg(r);
    let Some(s) = gen_session::<C>(r, &cfg, o)? else { return Ok(()) };
    for c in &s.calls {
        o.distinct(&(fingerprint(&s.kerns[c.kern].prog), c.np, c.ins.iter().map(|i| i.as_ref().map(|(a, b)| (&a.src, *b))).collect::<Vec<_>>()));
    }
    // nothing read earlier has changed
    for a in &s.arrs {
        if s.calls.iter().all(|c| c.verdict.clean()) {
            read_back(&s.ctx, a, o)?;
        }
    }
    if o.wants_sample() {
        o.sample(json!({"field": C::CONFIG_ID, "calls": s.calls.iter().map(|c| json!({"instances": c.np, "ios": format!("{:?}", s.kerns[c.kern].ios), "broadcast": c.ins.iter().flatten().filter(|x| x.1).count()})).collect::<Vec<_>>()}));
    }
    Ok(())
}
fn misuse_case<C: Config>(r: &mut Rng, o: &mut Obs) -> CaseResult {
    let kc = KCfg { max_in: 4, cons: false, free: false, subs: false, input_only: false };
    let Some(k) = gen_kernel::<C>(r, &kc)? else { return Ok(()) };
    let mut s = Session::<C>::new(vec![]);
    let np = r.range(2, 5);
    let which = r.below(k.ios.len());
    let mut hs: Vec<DeviceMemoryHandle> = vec![];
    let mut wrong = false;
    for (i, io) in k.ios.iter().enumerate() {
        if !io.inp {
            hs.push(None);
            continue;
        }
        let mut shape = vec![np];
        shape.extend_from_slice(&io.shape);
        if i == which {
            wrong = true;
            match r.below(3) {
                0 => shape[0] += 1,
                1 => {
                    let l = shape.len() - 1;
                    shape[l] += 1
                }
                _ => {
                    shape.push(2);
                }
            }
        }
        let data = rand_simd::<C>(r, zm::prod(&shape));
        hs.push(s.copy(r, &shape, data)?.h);
    }
    if wrong && r.chance(1, 4) {
        hs[which] = None;
    }
    if !wrong {
        hs.pop();
    }
    let got = catch(|| s.ctx.call_kernel(&k.prim, np, &mut hs));
    ensure!(!matches!(got, Ok(Ok(()))), "misuse-accepted", "a call of {:?} with {np} instances accepted argument {which} of another shape", k.ios);
    o.distinct(&(fingerprint(&k.prog), np, which));
    Ok(())
}
fn z03(d: &mut Driver) {
    d.cases("calls", d.n(16_000, 1_000_000), |r, o| by_field!(o.case, call_case(r, o)));
    d.cases("misuse", d.n(2000, 20_000), |r, o| by_field!(o.case, misuse_case(r, o)));
}

// ---------------------------------------------------------------- computation graphs
/// Whether the kernel's circuit accepts the given physical inputs (several draws of challenges).
fn circuit_accepts<C: Config>(k: &Kernel<C>, comps: &[Vec<S<C>>], seed: u64, draws: u64, o: &mut Obs) -> Result<bool, vpc::Violation> {
    let lc = k.layered_circuit();
    let mut all: Vec<S<C>> = vec![S::<C>::zero(); lc.input_size()];
    for (v, c) in k.layered_circuit_input().iter().zip(comps) {
        ensure!(v.offset + v.len <= all.len() && v.len == c.len(), "graph-window", "input window {}+{} of a circuit with {} inputs", v.offset, v.len, all.len());
        all[v.offset..v.offset + v.len].clone_from_slice(c);
    }
    let pack = S::<C>::PACK_SIZE;
    let lanes: Vec<Vec<F<C>>> = all.iter().map(|x| x.unpack()).collect();
    let mut seen: Vec<Vec<F<C>>> = vec![];
    for l in 0..pack {
        let ins: Vec<F<C>> = lanes.iter().map(|x| x[l]).collect();
        if seen.contains(&ins) {
            continue;
        }
        for d in 0..draws {
            let mut e = LayEval { c: lc, pubs: &[], rng: Rng::new(vpc::hash_of(&(seed, l, d))), gates: 0, fixed: None };
            let out = e.run(&ins).map_err(|m| viol!("graph-circuit", "{m}"))?;
            o.count("circuit_evaluations", 1);
            if !out.1 || out.0.iter().any(|x| !x.is_zero()) {
                return Ok(false);
            }
        }
        seen.push(ins);
    }
    Ok(true)
}
/// The components of a call in commitment order: memory, values read or written, broadcast.
fn components<C: Config>(s: &Session<C>, c: &Call<C>) -> Vec<(Arr<C>, bool)> {
    let k = &s.kerns[c.kern];
    let mut v: Vec<(Arr<C>, bool)> = c.ins.iter().zip(&k.ios).filter(|x| x.1.inp).map(|x| x.0.clone().unwrap()).collect();
    v.extend(c.outs.iter().zip(&k.ios).filter(|x| x.1.out).map(|x| (x.0.clone().unwrap(), false)));
    v
}
fn graph_case<C: Config>(r: &mut Rng, o: &mut Obs) -> CaseResult {
    let cfg = scfg(r);
    let Some(mut s) = gen_session::<C>(r, &cfg, o)? else { return Ok(()) };
    let Some(cg) = compile_graph(&mut s, o)? else { return Ok(()) };
    let mems = solve_export(&mut s)?;
    judge_graph(r, &s, &cg, &mems, o)
}
fn compile_graph<C: Config>(s: &mut Session<C>, o: &mut Obs) -> Result<Option<ComputationGraph<C>>, vpc::Violation> {
    let what = || s.calls.iter().map(|c| format!("{} x {:?}", c.np, s.kerns[c.kern].ios)).collect::<Vec<_>>();
    match catch(|| s.ctx.compile_computation_graph()) {
        Err(m) if m.contains(ILLEGAL) => {
            o.count("graphs_refused", 1);
            Ok(None)
        }
        Err(m) => Err(viol!("graph-panic", "compiling the graph panicked: {m}: {:?}; {:?}", what(), s.log.iter().map(|x| match x { Step::Copy(d, sh) => format!("copy {} {sh:?}", d.len()), Step::Call(k, n, io) => format!("call {k} x{n} {io:?}") }).collect::<Vec<_>>())),
        Ok(Ok(g)) => Ok(Some(g)),
        Ok(Err(e)) if e.is_user() => {
            o.count("graphs_declined", 1);
            Ok(None)
        }
        Ok(Err(e)) => Err(viol!("graph-internal", "compiling the graph failed with an internal error: {e:?}")),
    }
}
fn solve_export<C: Config>(s: &mut Session<C>) -> Result<Vec<Vec<S<C>>>, vpc::Violation> {
    let ctx = &mut s.ctx;
    match catch(|| ctx.solve_witness()) {
        Err(m) => Err(viol!("solve-panic", "solving the hints of valid calls panicked: {m}")),
        Ok(Err(e)) => Err(viol!("solve-error", "solving the hints of valid calls failed: {e:?}")),
        Ok(Ok(())) => catch(|| ctx.export_device_memories()).map_err(|m| viol!("export-panic", "{m}")),
    }
}
fn judge_graph<C: Config>(r: &mut Rng, s: &Session<C>, cg: &ComputationGraph<C>, mems: &[Vec<S<C>>], o: &mut Obs) -> CaseResult {
    ensure!(mems.len() == cg.commitments_lens().len(), "graph-count", "{} memories, {} lengths", mems.len(), cg.commitments_lens().len());
    for (i, (m, l)) in mems.iter().zip(cg.commitments_lens()).enumerate() {
        ensure!(m.len() == *l, "graph-lens", "memory {i} has {} values, the graph says {l}", m.len());
        ensure!(m.len().is_power_of_two(), "graph-lens", "memory {i} has {} values", m.len());
    }
    for (i, v) in s.mem_vals.iter().enumerate() {
        ensure!(!layouts(v, &mems[i]).is_empty(), "graph-memory", "memory {i} ({} values) was exported as {} values that are no padding of it", v.len(), mems[i].len());
    }
    ensure!(cg.proof_templates().len() == s.calls.len(), "graph-templates", "{} templates for {} calls", cg.proof_templates().len(), s.calls.len());
    let mut next_hint = s.n_mem;
    for (n, (c, t)) in s.calls.iter().zip(cg.proof_templates()).enumerate() {
        ensure!(t.kernel_id < cg.kernels().len(), "graph-kernel", "kernel {} of {}", t.kernel_id, cg.kernels().len());
        let k = &cg.kernels()[t.kernel_id];
        let comps = components(s, c);
        let mut want: Vec<usize> = comps.iter().map(|x| x.0.mem).collect();
        let mut bcs: Vec<bool> = comps.iter().map(|x| x.1).collect();
        if k.hint_solver().is_some() {
            want.push(next_hint);
            bcs.push(false);
            next_hint += 1;
        }
        ensure!(t.commitment_indices == want && t.is_broadcast == bcs, "graph-wiring", "call {n} uses memories {:?} (broadcast {:?}) instead of {want:?} ({bcs:?})", t.commitment_indices, t.is_broadcast);
        let lens: Vec<usize> = k.layered_circuit_input().iter().map(|x| x.len).collect();
        ensure!(lens.len() == want.len() && t.commitment_bit_orders.len() == want.len(), "graph-arity", "call {n}: {} windows for {} memories", lens.len(), want.len());
        ensure!(t.parallel_count.is_power_of_two() && t.parallel_count >= c.np, "graph-parallel", "call {n}: {} padded instances for {}", t.parallel_count, c.np);
        let phys = physical::<C>(t, &lens, mems).map_err(|mut v| {
            v.msg = format!("call {n} ({} instances of {:?}): {}", c.np, s.kerns[c.kern].ios, v.msg);
            v
        })?;
        // which logical instance each padded one stands for
        let ids: Vec<usize> = (0..c.np).collect();
        let mut maps: Vec<Vec<usize>> = factorisations(c.np).iter().filter(|f| f.iter().map(|x| p2(*x)).product::<usize>() == t.parallel_count).map(|f| zm::pad(f, &ids)).collect();
        maps.dedup();
        let fits = |q: &[usize], j: usize| -> bool {
            let (a, bc) = &comps[j];
            (0..t.parallel_count).all(|p| {
                let n = a.data.len() / if *bc { 1 } else { c.np };
                let d = if *bc { &a.data[..] } else { &a.data[q[p] * n..(q[p] + 1) * n] };
                !layouts(d, &phys[p][j]).is_empty()
            })
        };
        let found: Vec<&Vec<usize>> = maps.iter().filter(|q| (0..comps.len()).all(|j| fits(q, j))).collect();
        ensure!(!found.is_empty(), "graph-instances", "call {n}: the memories as laid out do not present the {} instances of {:?}", c.np, s.kerns[c.kern].ios);
        let honest_ok = c.verdict.clean();
        let seed = r.u64();
        for (p, comp) in phys.iter().enumerate() {
            let ok = circuit_accepts(k, comp, seed, 1, o)?;
            ensure!(ok || !honest_ok, "graph-reject", "call {n}: the circuit of the kernel rejects padded instance {p} of an honest call of {}", vp::equiv::render(&s.kerns[c.kern].prog));
            o.count("instances_checked", 1);
        }
        o.distinct(&(C::CONFIG_ID, fingerprint(&s.kerns[c.kern].prog), c.np, &t.commitment_bit_orders, &t.is_broadcast));
        // a wrong value at any position that matters is refused
        if found.len() == 1 && honest_ok {
            let draws = if F::<C>::FIELD_SIZE == 1 { 24 } else { 1 };
            let kern = &s.kerns[c.kern];
            for _ in 0..3 {
                let p = r.below(t.parallel_count);
                let q = found[0][p];
                let j = r.below(comps.len());
                let (a, bc) = &comps[j];
                let n = a.data.len() / if *bc { 1 } else { c.np };
                let d = if *bc { &a.data[..] } else { &a.data[q * n..(q + 1) * n] };
                let ls = layouts(d, &phys[p][j]);
                if ls.len() != 1 || n == 0 {
                    continue;
                }
                let e = r.below(n);
                let lane = r.below(S::<C>::PACK_SIZE);
                let mut x = d[e].unpack();
                let old = x[lane];
                while x[lane] == old {
                    x[lane] = rand_field::<C>(r);
                }
                let nv = S::<C>::pack(&x);
                let mut comp = phys[p].clone();
                for (i, m) in ls[0].iter().enumerate() {
                    if *m == e {
                        comp[j][i] = nv;
                    }
                }
                let n_ins = kern.ios.iter().filter(|x| x.inp).count();
                let reject = if j >= n_ins {
                    true
                } else if k.hint_solver().is_some() {
                    continue;
                } else {
                    let mut iv = vec![];
                    for (jj, (a, bc)) in comps[..n_ins].iter().enumerate() {
                        let n = a.data.len() / if *bc { 1 } else { c.np };
                        let mut d = if *bc { a.data.clone() } else { a.data[q * n..(q + 1) * n].to_vec() };
                        if jj == j {
                            d[e] = nv;
                        }
                        iv.extend(d);
                    }
                    let mut v = Verdict::default();
                    let outs = kernel_ref(&kern.prog, &iv, &mut v);
                    if v.soft || (v.op_fail && !v.con_fail) {
                        continue;
                    }
                    let mut now = vec![];
                    for (a, _) in &comps[n_ins..] {
                        let n = a.data.len() / c.np;
                        now.extend_from_slice(&a.data[q * n..(q + 1) * n]);
                    }
                    v.con_fail || outs != now
                };
                let ok = circuit_accepts(k, &comp, seed, if reject { draws } else { 1 }, o)?;
                if ok == reject && std::env::var("VP_TRACE").is_ok() {
                    eprintln!("ios {:?}\ntemplate {t:?}\nwindows {:?}\ncomp {comp:?}\nwas {:?}\ncircuit {}", kern.ios, k.layered_circuit_input(), phys[p], k.layered_circuit());
                }
                ensure!(ok != reject, "graph-sound", "call {n}: instance {p} with component {j}, element {e} altered is {} by the circuit of {}", if ok { "accepted" } else { "rejected" }, vp::equiv::render(&kern.prog));
                o.count(if reject { "wrong_values_refused" } else { "changes_accepted" }, 1);
            }
        }
    }
    ensure!(next_hint == mems.len(), "graph-hints", "{} hint memories", mems.len() - s.n_mem);
    if o.wants_sample() {
        o.sample(json!({"templates": format!("{:?}", cg.proof_templates()), "lens": cg.commitments_lens()}));
    }
    Ok(())
}
fn z04(d: &mut Driver) {
    d.cases("graphs", d.n(16_000, 1_000_000), |r, o| by_field!(o.case, graph_case(r, o)));
}

fn main() {
    vpc::main(&[
        Check { id: "Z01", rule: "A handle reads what the array operations say, and the memory layout and bit order realise exactly that view.", run: z01 },
        Check { id: "Z02", rule: "Copies between host and device are faithful in shape, order and lanes.", run: z02 },
        Check { id: "Z03", rule: "Every instance of a kernel call computes the kernel's function of its own slice of the inputs.", run: z03 },
        Check { id: "Z04", rule: "The compiled graph, its memories and layouts present exactly the calls made.", run: z04 },
    ]);
}
