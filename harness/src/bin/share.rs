//! Objects handed between processes: flat copies in shared windows, and named shared regions.
use arith::SimdField as _;
use expander_compiler::circuit::config::*;
use expander_compiler::circuit::layered::{Circuit, NormalInputType};
use expander_compiler::zkcuda::context::*;
use expander_compiler::zkcuda::kernel::*;
use expander_compiler::zkcuda::proving_system::expander_parallelized::shared_memory_utils::*;
use expander_compiler::zkcuda::proving_system::*;
use gkr_engine::{MPIConfig, MPIEngine, MPISharedMemory};
use serde_json::json;
use shimcore::monitor;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst};
use vp::by_field;
use vp::lang::*;
use vp::laygen::{gen_layered, LayCfg};
use vp::proving::*;
use vp::zkmodel::*;
use vpc::{catch, ensure, viol, CaseResult, Check, Driver, Obs, Rng};

#[global_allocator]
static ALLOC: monitor::MonAlloc = monitor::MonAlloc;

// ---------------------------------------------------------------- flat copies
/// A mapped region of `n` bytes of noise, its end against zeroes and an unmapped page.
struct Region {
    base: *mut u8,
    n: usize,
    map: usize,
}
impl Region {
    fn new(n: usize, noise: u8) -> Self {
        let map = n.max(1).next_multiple_of(4096);
        unsafe {
            let p = libc::mmap(std::ptr::null_mut(), map + 4096, libc::PROT_NONE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS, -1, 0);
            assert!(p != libc::MAP_FAILED);
            assert!(libc::mprotect(p, map, libc::PROT_READ | libc::PROT_WRITE) == 0);
            std::ptr::write_bytes(p as *mut u8, noise, map);
            let base = p as *mut u8;
            monitor::register(base, map);
            monitor::fence(base.add(n), map - n, true);
            Region { base, n, map }
        }
    }
    fn bytes(&self) -> Vec<u8> {
        monitor::fence(self.base, self.map, false);
        let v = unsafe { std::slice::from_raw_parts(self.base, self.map) }.to_vec();
        monitor::fence(unsafe { self.base.add(self.n) }, self.map - self.n, true);
        v
    }
}
impl Drop for Region {
    fn drop(&mut self) {
        monitor::unregister(self.base);
        monitor::fence(self.base, self.map, false);
        unsafe { libc::munmap(self.base as *mut _, self.map + 4096) };
    }
}
fn bad_frees() -> usize {
    monitor::BAD_FREES.load(SeqCst)
}
fn share<T: MPISharedMemory + std::fmt::Debug>(r: &mut Rng, what: &str, objs: &[T], same: impl Fn(&T, &T) -> bool, o: &mut Obs) -> CaseResult {
    let sizes = catch(|| objs.iter().map(|x| x.bytes_size()).collect::<Vec<_>>()).map_err(|m| viol!("size-panic", "sizing {what} panicked: {m}"))?;
    let total: usize = sizes.iter().sum();
    let noise = r.u64() as u8;
    let reg = Region::new(total, noise);
    // several objects one after the other
    let mut p = reg.base;
    let mut ends = vec![];
    for (x, n) in objs.iter().zip(&sizes) {
        let p0 = p;
        catch(|| x.to_memory(&mut p)).map_err(|m| viol!("write-panic", "writing {what} panicked: {m}"))?;
        let used = (p as usize).wrapping_sub(p0 as usize);
        ensure!(used <= *n, "overrun", "{what} took {used} bytes of the {n} announced");
        ends.push(p as usize);
    }
    let image = reg.bytes();
    ensure!(image[total..].iter().all(|x| *x == noise), "overrun", "writing {what} changed bytes beyond the {total} announced");
    let b0 = bad_frees();
    let live = monitor::live();
    // several readers, which give up the object in turn
    let readers = r.range(1, 3);
    let mut got: Vec<Vec<T>> = vec![];
    for k in 0..readers {
        let mut q = reg.base;
        let mut v = vec![];
        for (i, x) in objs.iter().enumerate() {
            let y = catch(|| T::new_from_memory(&mut q)).map_err(|m| viol!("read-panic", "reading {what} panicked: {m}"))?;
            if !same(x, &y) {
                let m = format!("reader {k} got {y:?} for {what} {x:?}");
                v.push(y);
                v.into_iter().chain(got.into_iter().flatten()).for_each(std::mem::forget);
                return Err(viol!("reread", "{}", m.chars().take(2000).collect::<String>()));
            }
            if q as usize != ends[i] {
                v.push(y);
                v.into_iter().chain(got.into_iter().flatten()).for_each(std::mem::forget);
                return Err(viol!("cursor", "reading {what} ended {} bytes from where it was written to", (q as isize).wrapping_sub(ends[i] as isize)));
            }
            v.push(y);
        }
        got.push(v);
    }
    while let Some(v) = got.pop() {
        v.into_iter().for_each(|y| y.discard_control_of_shared_mem());
        ensure!(bad_frees() == b0, "release", "giving up {what} released memory of the shared region");
        ensure!(reg.bytes() == image, "changed", "giving up {what} changed the shared region");
        if let Some(v) = got.last() {
            ensure!(objs.iter().zip(v).all(|(x, y)| same(x, y)), "reread", "another reader's {what} changed when one gave it up");
        }
    }
    drop(got);
    let leak = monitor::live() - live;
    ensure!(leak == 0, "leak", "{leak} bytes of private memory stay allocated after {what} is given up");
    o.count("objects_shared", (objs.len() * readers) as u64);
    o.count("bytes_shared", (total * readers) as u64);
    Ok(())
}
fn same_kernel<C: Config>(a: &Kernel<C>, b: &Kernel<C>) -> bool {
    a.layered_circuit == b.layered_circuit && a.layered_circuit_input == b.layered_circuit_input && b.hint_solver.is_none()
}
fn same_graph<C: Config>(a: &ComputationGraph<C>, b: &ComputationGraph<C>) -> bool {
    a.kernels.len() == b.kernels.len() && a.kernels.iter().zip(&b.kernels).all(|(x, y)| same_kernel(x, y)) && a.commitments_lens == b.commitments_lens && a.proof_templates == b.proof_templates
}
fn circuits<C: Config>(r: &mut Rng, o: &mut Obs) -> CaseResult {
    let n = r.range(1, 3);
    let custom = r.chance(1, 6);
    let cs: Vec<Circuit<C, NormalInputType>> = (0..n)
        .map(|_| {
            let rand_coef = r.chance(1, 2);
            gen_layered(r, &LayCfg { rand_coef, custom: if custom { 2 } else { 0 }, max_pub: 3, relays_only: false })
        })
        .collect();
    o.distinct(&(C::CONFIG_ID, format!("{cs:?}")));
    if cs.iter().any(|c| c.segments.iter().any(|s| !s.gate_customs.is_empty())) {
        // what the copy cannot hold must not be dropped silently
        let refused = catch(|| {
            let mut buf = vec![0u64; cs.iter().map(|c| c.bytes_size()).sum::<usize>() / 8 + 64];
            let mut p = buf.as_mut_ptr() as *mut u8;
            cs.iter().for_each(|c| c.to_memory(&mut p));
            let mut p = buf.as_mut_ptr() as *mut u8;
            for c in &cs {
                let d = Circuit::<C, NormalInputType>::new_from_memory(&mut p);
                let same = *c == d;
                std::mem::forget(d);
                if !same {
                    return false;
                }
            }
            true
        });
        ensure!(refused != Ok(false), "custom", "a circuit with custom gates comes back changed");
        o.count("custom_gates_refused", refused.is_err() as u64);
        return Ok(());
    }
    let lays: Vec<LayeredCircuitInputVec> = (0..r.below(5)).map(|_| LayeredCircuitInputVec { len: r.below(99), offset: r.below(99) }).collect();
    let kernels: Vec<Kernel<C>> = cs.iter().map(|c| Kernel { hint_solver: None, layered_circuit: c.clone(), layered_circuit_input: lays.clone() }).collect();
    share(r, "circuits", &cs, |a, b| a == b, o)?;
    let segs: Vec<_> = cs.iter().flat_map(|c| c.segments.clone()).collect();
    share(r, "segments", &segs, |a, b| a == b, o)?;
    share(r, "kernels", &kernels, same_kernel, o)?;
    let ts: Vec<ProofTemplate> = (0..r.below(4)).map(|_| template(r)).collect();
    share(r, "call templates", &ts, |a, b| a == b, o)?;
    let cg = ComputationGraph { kernels, commitments_lens: (0..r.below(5)).map(|_| 1 << r.below(20)).collect(), proof_templates: ts };
    share(r, "graph", &[cg], same_graph, o)
}
fn template(r: &mut Rng) -> ProofTemplate {
    let n = r.below(5);
    ProofTemplate {
        kernel_id: r.below(9),
        commitment_indices: (0..n).map(|_| r.below(40)).collect(),
        commitment_bit_orders: (0..n).map(|_| { let n = r.below(7); perm(r, n) }).collect(),
        parallel_count: r.range(1, 5000),
        is_broadcast: (0..n).map(|_| r.chance(1, 2)).collect(),
    }
}
/// Graphs of sessions, through the shared window of the ranks, then used.
fn graphs<C: Config>(r: &mut Rng, o: &mut Obs) -> CaseResult {
    let cfg = SCfg { transposes: r.chance(1, 2), mixed: r.chance(1, 3), max_calls: 4, max_np: 9, bad: false, kern: None, max_kernels: 3 };
    let Some(mut s) = gen_session::<C>(r, &cfg, o)? else { return Ok(()) };
    let Some((cg, mems)) = finish(&mut s.ctx)? else { return Ok(()) };
    o.distinct(&(C::CONFIG_ID, bytes(&cg)));
    if o.wants_sample() {
        o.sample(json!({"field": C::CONFIG_ID, "bytes": cg.bytes_size(), "templates": format!("{:?}", cg.proof_templates)}));
    }
    share(r, "graph", &[cg.clone()], same_graph, o)?;
    let mpi = MPIConfig::prover_new(None, None);
    let b0 = bad_frees();
    let over = monitor::OVERRUNS.load(SeqCst);
    let (shared, mut win) = catch(|| mpi.consume_obj_and_create_shared(Some(cg.clone()))).map_err(|m| viol!("window-panic", "{m}"))?;
    ensure!(same_graph(&cg, &shared), "reread", "a graph read from a window differs");
    if !cfg.transposes {
        // the copy is as good as the original
        let (ps, vs) = <Expander<C> as ProvingSystem<C>>::setup(&shared);
        let p = catch(|| Expander::<C>::prove(&ps, &shared, mems.clone())).map_err(|m| viol!("prove-panic", "{m}"))?;
        ensure!(verify::<C, Expander<C>>(&vs, &cg, &p) == Ok(true), "verify", "the proof made with the shared copy of a graph is refused");
        o.count("proved_with_shared_graph", 1);
    }
    shared.discard_control_of_shared_mem();
    mpi.free_shared_mem(&mut win);
    ensure!(bad_frees() == b0, "release", "giving up a graph released memory of the window");
    ensure!(monitor::OVERRUNS.load(SeqCst) == over, "overrun", "the graph did not fit the window it asked for");
    Ok(())
}
fn z08(d: &mut Driver) {
    // the monitors count for the whole process
    d.cases_seq("circuits", d.n(8000, 2_000_000), |r, o| by_field!(o.case, circuits(r, o)));
    d.cases_seq("graphs", d.n(1200, 200_000), |r, o| by_field!(o.case, graphs(r, o)));
}

// ---------------------------------------------------------------- named regions
fn values<C: Config>(r: &mut Rng) -> Vec<Vec<S<C>>> {
    let n = *r.pick(&[0, 1, 1, 2, 3, 6]);
    (0..n)
        .map(|_| {
            let n = *r.pick(&[0, 1, 1, 2, 3, 4, 8, 17, 64]);
            let mut v = rand_simd::<C>(r, n);
            for x in v.iter_mut() {
                // every lane and every extreme
                let mut l = x.unpack();
                for y in l.iter_mut() {
                    if r.chance(1, 4) {
                        *y = -F::<C>::from(r.below(3) as u32);
                    }
                }
                *x = S::<C>::pack(&l);
            }
            v
        })
        .collect()
}
fn keys<K: serdes::ExpSerde>(m: &std::collections::HashMap<usize, K>) -> std::collections::BTreeMap<usize, Vec<u8>> {
    m.iter().map(|(k, v)| (*k, bytes(v))).collect()
}
fn regions<C: Config>(r: &mut Rng, o: &mut Obs) -> CaseResult {
    let over = monitor::OVERRUNS.load(SeqCst);
    let b0 = bad_frees();
    let mut setups = 0u64;
    let mut last: [Option<usize>; 4] = [None; 4];
    let steps = r.range(1, 8);
    let mut story = vec![];
    for _ in 0..steps {
        match r.below(6) {
            0 | 1 => {
                let v = values::<C>(r);
                story.push(format!("witness {:?}", v.iter().map(|x| x.len()).collect::<Vec<_>>()));
                let times = r.range(1, 2);
                let w = v.clone();
                catch(move || SharedMemoryEngine::write_witness_to_shared_memory::<<C as gkr_engine::GKREngine>::FieldConfig>(w)).map_err(|m| viol!("witness-write", "{story:?}: {m}"))?;
                for _ in 0..times {
                    let got = catch(SharedMemoryEngine::read_witness_from_shared_memory::<<C as gkr_engine::GKREngine>::FieldConfig>).map_err(|m| viol!("witness-read", "{story:?}: {m}"))?;
                    ensure!(got == v, "witness", "{story:?}: the witness read back differs");
                }
                if r.chance(1, 2) {
                    let mpi = MPIConfig::prover_new(None, None);
                    let (got, w) = catch(|| SharedMemoryEngine::read_shared_witness_from_shared_memory::<<C as gkr_engine::GKREngine>::FieldConfig>(&mpi)).map_err(|m| viol!("witness-read", "{story:?}: {m}"))?;
                    let ok = got == v;
                    got.into_iter().for_each(|x| x.discard_control_of_shared_mem());
                    let mut win = w.win;
                    mpi.free_shared_mem(&mut win);
                    ensure!(ok, "witness", "{story:?}: the witness shared among ranks differs");
                    ensure!(bad_frees() == b0, "release", "{story:?}: memory of a window was released");
                }
                if r.chance(1, 3) {
                    unsafe { SHARED_MEMORY.witness = None };
                    story.push("dropped".into());
                }
                o.count("witnesses", 1);
            }
            2 | 3 => {
                // set-ups and proofs of a session
                let cfg = SCfg { transposes: false, mixed: false, max_calls: *r.pick(&[1, 3]), max_np: 5, bad: false, kern: None, max_kernels: 2 };
                let Some(mut s) = gen_session::<C>(r, &cfg, o)? else { continue };
                let Some((cg, mems)) = finish(&mut s.ctx)? else { continue };
                let setup = <Expander<C> as ProvingSystem<C>>::setup(&cg);
                story.push(format!("set-up of {} keys", setup.0.p_keys.len()));
                catch(|| SharedMemoryEngine::write_pcs_setup_to_shared_memory(&setup)).map_err(|m| viol!("setup-write", "{story:?}: {m}"))?;
                let (ps, vs) = catch(SharedMemoryEngine::read_pcs_setup_from_shared_memory::<<C as gkr_engine::GKREngine>::FieldConfig, <C as gkr_engine::GKREngine>::PCSConfig>).map_err(|m| viol!("setup-read", "{story:?}: {m}"))?;
                ensure!(keys(&ps.p_keys) == keys(&setup.0.p_keys) && keys(&vs.v_keys) == keys(&setup.1.v_keys), "setup", "{story:?}: the set-up read back differs");
                let p = catch(|| Expander::<C>::prove(&ps, &cg, mems)).map_err(|m| viol!("prove-panic", "{m}"))?;
                story.push(format!("proof of {} bytes", bytes(&p).len()));
                catch(|| SharedMemoryEngine::write_proof_to_shared_memory::<C, C>(&p)).map_err(|m| viol!("proof-write", "{story:?}: {m}"))?;
                let q = catch(SharedMemoryEngine::read_proof_from_shared_memory::<C, C>).map_err(|m| viol!("proof-read", "{story:?}: {m}"))?;
                ensure!(bytes(&q) == bytes(&p), "proof", "{story:?}: the proof read back differs");
                ensure!(verify::<C, Expander<C>>(&vs, &cg, &q) == Ok(true), "proof", "{story:?}: the proof read back is refused");
                // what else was written is untouched
                let again = SharedMemoryEngine::read_pcs_setup_from_shared_memory::<<C as gkr_engine::GKREngine>::FieldConfig, <C as gkr_engine::GKREngine>::PCSConfig>();
                ensure!(keys(&again.0.p_keys) == keys(&setup.0.p_keys), "setup", "{story:?}: the set-up changed");
                setups += 1;
                last[0] = Some(bytes(&p).len());
            }
            _ => {
                // the client waits exactly until the reader is done
                SharedMemoryEngine::reset_witness_ack();
                let delay = *r.pick(&[0, 1, 5, 12, 25]);
                story.push(format!("acknowledged after {delay} ms"));
                let signalled = AtomicBool::new(false);
                let returned = AtomicUsize::new(0);
                std::thread::scope(|s| {
                    s.spawn(|| {
                        SharedMemoryEngine::wait_for_witness_read_complete();
                        returned.store(if signalled.load(SeqCst) { 1 } else { 2 }, SeqCst);
                    });
                    std::thread::sleep(std::time::Duration::from_millis(delay));
                    let early = returned.load(SeqCst);
                    signalled.store(true, SeqCst);
                    SharedMemoryEngine::signal_witness_read_complete();
                    if early != 0 {
                        returned.store(3, SeqCst);
                    }
                });
                ensure!(returned.load(SeqCst) == 1, "ack", "{story:?}: the client went on before the witness was read");
                o.count("acknowledgements", 1);
            }
        }
    }
    ensure!(monitor::OVERRUNS.load(SeqCst) == over, "overrun", "{story:?}: bytes beyond a region were written");
    ensure!(bad_frees() == b0, "release", "{story:?}: memory of a region was released");
    o.count("setups_and_proofs", setups);
    o.distinct(&(C::CONFIG_ID, story.clone()));
    if o.wants_sample() {
        o.sample(json!({"field": C::CONFIG_ID, "story": story}));
    }
    Ok(())
}
fn z09(d: &mut Driver) {
    std::env::set_var("VP_SHM_DIR", &d.scratch);
    // the regions have fixed names: one history at a time, over regions left by those before
    d.cases_seq("histories", d.n(700, 200_000), |r, o| by_field!(o.case, regions(r, o)));
    unsafe { SHARED_MEMORY = SharedMemory { pcs_setup: None, witness: None, proof: None, witness_ack: None } };
}

/// The same histories with AddressSanitizer watching, everything outside the regions fenced off.
fn m02(d: &mut Driver) {
    vp::asan::awake(d);
    d.cases_seq("circuits", d.n(2500, 400_000), |r, o| by_field!(o.case, circuits(r, o)));
    d.cases_seq("graphs", d.n(400, 60_000), |r, o| by_field!(o.case, graphs(r, o)));
    std::env::set_var("VP_SHM_DIR", &d.scratch);
    d.cases_seq("histories", d.n(300, 60_000), |r, o| by_field!(o.case, regions(r, o)));
    unsafe { SHARED_MEMORY = SharedMemory { pcs_setup: None, witness: None, proof: None, witness_ack: None } };
    d.scenario("fences", |_, o| {
        o.count("fenced_bytes", monitor::FENCED.load(SeqCst) as u64);
        Ok(())
    });
}

fn main() {
    vpc::main(&[
        Check { id: "Z08", rule: "Objects read from a shared region equal those written, and giving them up releases nothing of it.", run: z08 },
        Check { id: "Z09", rule: "A reader of a named region gets exactly what was last written.", run: z09 },
        Check { id: "M02", rule: "Objects and data move through shared regions without touching anything else.", run: m02 },
    ]);
}
