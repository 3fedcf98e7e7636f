//! Provers that span processes: their verifiers, and sessions between clients and servers.
use expander_compiler::circuit::config::*;
use expander_compiler::frontend::SIMDField;
use expander_compiler::zkcuda::context::*;
use expander_compiler::zkcuda::proving_system::expander::config::*;
use expander_compiler::zkcuda::proving_system::expander::setup_impl::local_setup_impl;
use expander_compiler::zkcuda::proving_system::expander::structs::{ExpanderProverSetup, ExpanderVerifierSetup};
use expander_compiler::zkcuda::proving_system::expander_no_oversubscribe::profiler::NBytesProfiler;
use expander_compiler::zkcuda::proving_system::expander_no_oversubscribe::prove_impl::mpi_prove_no_oversubscribe_impl;
use expander_compiler::zkcuda::proving_system::expander_parallelized::prove_impl::mpi_prove_impl;
use expander_compiler::zkcuda::proving_system::expander_pcs_defered::prove_impl::mpi_prove_with_pcs_defered;
use expander_compiler::zkcuda::proving_system::expander_pcs_defered::setup_impl::pcs_setup_max_length_only;
use expander_compiler::zkcuda::proving_system::expander_pcs_defered::BN254ConfigSha2UniKZG;
use expander_compiler::zkcuda::proving_system::*;
use gkr::BN254ConfigSha2Hyrax;
use gkr_engine::{ExpanderPCS, FieldEngine, GKREngine, MPIConfig};
use std::marker::PhantomData;
use std::sync::OnceLock;
use vp::proving::*;
use expander_compiler::zkcuda::proving_system::expander_parallelized::client_utils::{wait_async, ClientHttpHelper};
use expander_compiler::zkcuda::proving_system::expander_parallelized::shared_memory_utils::SharedMemoryEngine;
use vpc::{catch, ensure, viol, CaseResult, Check, Driver, Obs, Rng};

/// The only rank of a world.
fn alone() -> MPIConfig<'static> {
    static WORLD: OnceLock<(mpi::environment::Universe, mpi::topology::SimpleCommunicator)> = OnceLock::new();
    let (u, w) = WORLD.get_or_init(|| {
        let u = MPIConfig::init().expect("no world");
        let w = u.world();
        (u, w)
    });
    MPIConfig::prover_new(Some(u), Some(w))
}
type Setup<C> = (ExpanderProverSetup<<C as GKREngine>::FieldConfig, <C as GKREngine>::PCSConfig>, ExpanderVerifierSetup<<C as GKREngine>::FieldConfig, <C as GKREngine>::PCSConfig>);

/// What the processes of a server do, done by one process.
macro_rules! in_process {
    ($n:ident, $setup:ident, $prove:ident, $client:ident) => {
        struct $n<C>(PhantomData<C>);
        impl<C, E> ProvingSystem<E> for $n<C>
        where
            C: GKREngine,
            E: Config<FieldConfig = C::FieldConfig>,
            <C::PCSConfig as ExpanderPCS<C::FieldConfig>>::Commitment: AsRef<<C::PCSConfig as ExpanderPCS<C::FieldConfig>>::Commitment>,
        {
            type ProverSetup = ExpanderProverSetup<C::FieldConfig, C::PCSConfig>;
            type VerifierSetup = ExpanderVerifierSetup<C::FieldConfig, C::PCSConfig>;
            type Proof = CombinedProof<E, Expander<C>>;
            fn setup(cg: &ComputationGraph<E>) -> Setup<C> {
                $setup::<C, E>(cg)
            }
            fn prove(ps: &Self::ProverSetup, cg: &ComputationGraph<E>, mems: Vec<Vec<SIMDField<E>>>) -> Self::Proof {
                $prove::<C, E>(&alone(), ps, cg, &mems).unwrap()
            }
            fn verify(vs: &Self::VerifierSetup, cg: &ComputationGraph<E>, p: &Self::Proof) -> bool {
                <$client<C> as ProvingSystem<E>>::verify(vs, cg, p)
            }
        }
    };
}
in_process!(Par, local_setup_impl, mpi_prove_impl, ParallelizedExpander);
in_process!(Def, pcs_setup_max_length_only, mpi_prove_with_pcs_defered, ExpanderPCSDefered);

struct NoOver<ZC>(PhantomData<ZC>);
impl<ZC: ZKCudaConfig> ProvingSystem<ZC::ECCConfig> for NoOver<ZC>
where
    <ZC::GKRConfig as GKREngine>::FieldConfig: FieldEngine<CircuitField = arith::Fr, ChallengeField = arith::Fr>,
    <GetPCS<ZC> as ExpanderPCS<GetFieldConfig<ZC>>>::Commitment: AsRef<<GetPCS<ZC> as ExpanderPCS<GetFieldConfig<ZC>>>::Commitment>,
{
    type ProverSetup = ExpanderProverSetup<GetFieldConfig<ZC>, GetPCS<ZC>>;
    type VerifierSetup = ExpanderVerifierSetup<GetFieldConfig<ZC>, GetPCS<ZC>>;
    type Proof = CombinedProof<ZC::ECCConfig, Expander<ZC::GKRConfig>>;
    fn setup(cg: &ComputationGraph<ZC::ECCConfig>) -> (Self::ProverSetup, Self::VerifierSetup) {
        match ZC::BATCH_PCS {
            true => pcs_setup_max_length_only::<ZC::GKRConfig, ZC::ECCConfig>(cg),
            false => local_setup_impl::<ZC::GKRConfig, ZC::ECCConfig>(cg),
        }
    }
    fn prove(ps: &Self::ProverSetup, cg: &ComputationGraph<ZC::ECCConfig>, mems: Vec<Vec<SIMDField<ZC::ECCConfig>>>) -> Self::Proof {
        mpi_prove_no_oversubscribe_impl::<ZC>(&alone(), ps, cg, &mems, &mut NBytesProfiler::new()).unwrap()
    }
    fn verify(vs: &Self::VerifierSetup, cg: &ComputationGraph<ZC::ECCConfig>, p: &Self::Proof) -> bool {
        ExpanderNoOverSubscribe::<ZC>::verify(vs, cg, p)
    }
}

/// Calls `$f` with one of the provers, what it is able to prove, and the further arguments.
macro_rules! by_prover {
    ($k:expr, $r:expr, $f:ident ( $($a:expr),* )) => {{
        let mut cfg = scfg($r, false);
        let k = $k;
        // one rank proves several instances without oversubscription only
        if k % 15 < 9 {
            cfg.max_np = 1;
        }
        macro_rules! par { ($c:ty, $p:ty) => { $f::<$c, $p, _>("parallel", $r, &Able { cfg, takes: &|_| true, extra: 0 }, $($a),*) }; }
        macro_rules! def { ($c:ty, $p:ty) => { $f::<$c, $p, _>("deferred", $r, &Able { cfg, takes: &single_claims, extra: 1 }, $($a),*) }; }
        match k % 15 {
            0 => par!(M31Config, Par<M31Config>),
            1 => par!(GF2Config, Par<GF2Config>),
            2 => par!(GoldilocksConfig, Par<GoldilocksConfig>),
            3 => par!(BabyBearConfig, Par<BabyBearConfig>),
            4 => par!(BN254Config, Par<BN254Config>),
            5 => par!(BN254Config, Par<BN254ConfigSha2Hyrax<'static>>),
            6 => par!(BN254Config, Par<BN254ConfigSha2UniKZG<'static>>),
            7 => def!(BN254Config, Def<BN254ConfigSha2Hyrax<'static>>),
            8 => def!(BN254Config, Def<BN254ConfigSha2UniKZG<'static>>),
            9 => par!(BN254Config, NoOver<ZKCudaBN254Hyrax<'static>>),
            10 => par!(BN254Config, NoOver<ZKCudaBN254KZG<'static>>),
            11 => par!(BN254Config, NoOver<ZKCudaBN254MIMCKZG<'static>>),
            12 => def!(BN254Config, NoOver<ZKCudaBN254HyraxBatchPCS<'static>>),
            13 => def!(BN254Config, NoOver<ZKCudaBN254KZGBatchPCS<'static>>),
            _ => def!(BN254Config, NoOver<ZKCudaBN254MIMCKZGBatchPCS<'static>>),
        }
    }};
}
// ---------------------------------------------------------------- clients and servers
// This program also plays the other processes of a session, by the name it is called by: the
// client, the launcher of parallel programs, and the three servers (their own mains).
#[global_allocator]
static ALLOC: shimcore::monitor::MonAlloc = shimcore::monitor::MonAlloc;
#[path = "/repo/expander_compiler/src/zkcuda/proving_system/expander_parallelized/server_bin.rs"]
mod server_par;
#[path = "/repo/expander_compiler/src/zkcuda/proving_system/expander_pcs_defered/server_bin.rs"]
mod server_def;
#[path = "/repo/expander_compiler/src/zkcuda/proving_system/expander_no_oversubscribe/server_bin.rs"]
mod server_noover;

const ROLES: [&str; 5] = ["mpiexec", "client", "server_par", "server_def", "server_noover"];
fn env(k: &str) -> String {
    std::env::var(k).unwrap_or_default()
}
fn die_with_parent() {
    unsafe { libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL) };
}
/// `mpiexec -n N [--oversubscribe] PROGRAM ARGS`: N processes of a world, over when all are, or
/// when one fails.
fn mpiexec() -> ! {
    die_with_parent();
    let dir = env("VP_SESSION");
    // the graph has been written: another client may choose a name
    let newest = std::fs::read_dir("/tmp").unwrap().flatten().filter(|e| e.file_name().to_string_lossy().starts_with("computation_graph_")).max_by_key(|e| e.metadata().and_then(|m| m.modified()).ok());
    if let Some(e) = newest {
        std::fs::write(format!("{dir}/graph"), e.path().to_string_lossy().as_bytes()).unwrap();
    }
    let _ = std::fs::remove_file(env("VP_LOCK"));
    let args: Vec<String> = std::env::args().skip(1).collect();
    assert_eq!(args[0], "-n");
    let n: usize = args[1].parse().unwrap();
    let rest: &[String] = if args[2] == "--oversubscribe" { &args[3..] } else { &args[2..] };
    let mut ranks: Vec<_> = (0..n)
        .map(|i| {
            use std::os::unix::process::CommandExt;
            let mut c = std::process::Command::new(&rest[0]);
            c.args(&rest[1..]).env("VP_MPI_DIR", &dir).env("VP_MPI_RANK", i.to_string()).env("VP_MPI_SIZE", n.to_string());
            c.stdout(std::process::Stdio::null()).stderr(std::fs::File::create(format!("{dir}/err.{i}")).unwrap());
            unsafe {
                c.pre_exec(|| {
                    die_with_parent();
                    Ok(())
                })
            };
            c.spawn().unwrap()
        })
        .collect();
    let mut codes: Vec<Option<String>> = vec![None; n];
    while codes.iter().any(|c| c.is_none()) {
        for (p, c) in ranks.iter_mut().zip(&mut codes) {
            if c.is_none() {
                if let Some(s) = p.try_wait().unwrap() {
                    *c = Some(if s.success() { "0".into() } else { s.to_string() });
                }
            }
        }
        if codes.iter().flatten().any(|c| c != "0") {
            for (p, c) in ranks.iter_mut().zip(&mut codes) {
                if c.is_none() {
                    let _ = p.kill();
                    let _ = p.wait();
                    *c = Some("stopped".into());
                }
            }
        }
        std::thread::sleep(std::time::Duration::from_millis(2));
    }
    let codes: Vec<String> = codes.into_iter().flatten().collect();
    std::fs::write(format!("{dir}/.exit"), format!("{n} {}", codes.join(","))).unwrap();
    std::fs::rename(format!("{dir}/.exit"), format!("{dir}/exit")).unwrap();
    std::process::exit(0)
}
fn take_lock() {
    let p = env("VP_LOCK");
    for _ in 0..20_000 {
        if std::fs::OpenOptions::new().write(true).create_new(true).open(&p).is_ok() {
            return;
        }
        std::thread::sleep(std::time::Duration::from_millis(1));
    }
}
/// What the servers' processes said last.
fn complaints() -> String {
    let mut s = String::new();
    for i in 0..64 {
        if let Ok(b) = std::fs::read(format!("{}/err.{i}", env("VP_SESSION"))) {
            let t = String::from_utf8_lossy(&b).to_string();
            let t: Vec<&str> = t.lines().filter(|l| l.contains("panicked") || l.contains("mpi:") || l.contains("MPI") || l.starts_with("thread")).collect();
            if !t.is_empty() {
                s += &format!(" [process {i}: {}]", t.join(" | ").chars().take(400).collect::<String>());
            }
        }
    }
    s + &vpc::asan_reports()
}
/// A client's session with a server: graphs set up one after another, each proved for several
/// witnesses.
fn remote<C: Config, P, K>(name: &str, r: &mut Rng, able: &Able<C>, reset: &dyn Fn(&str) -> P::VerifierSetup, o: &mut Obs) -> CaseResult
where
    K: KernelWiseProvingSystem<C>,
    P: ProvingSystem<C, Proof = CombinedProof<C, K>>,
{
    let Some(j) = job::<C>(r, able, o)? else { return Ok(()) };
    take_lock();
    let r0 = catch(|| P::setup(&j.cg));
    if let Ok(p) = std::fs::read_to_string(format!("{}/graph", env("VP_SESSION"))) {
        let _ = std::fs::remove_file(p);
    }
    let (ps, mut vs) = r0.map_err(|m| viol!("setup-panic", "{name}: set-up panicked: {m}: {}{}", describe(&j), complaints()))?;
    let size = j.s.calls.iter().map(|c| c.np).max().unwrap_or(1).next_power_of_two();
    let mut prints = vec![];
    let mut cur = j;
    for round in 0..*r.pick(&[1, 1, 2, 3]) {
        if round > 0 {
            // another graph, or the same again
            if r.chance(3, 4) {
                let mut cfg = able.cfg.clone();
                cfg.max_np = size;
                let a2 = Able { cfg, takes: able.takes, extra: able.extra };
                match job::<C>(r, &a2, o)? {
                    Some(j2) if j2.s.calls.iter().all(|c| c.np <= size) => cur = j2,
                    _ => {}
                }
            }
            let f = format!("{}/graph.{round}", env("VP_SESSION"));
            std::fs::write(&f, bytes(&cur.cg)).unwrap();
            vs = catch(|| reset(&f)).map_err(|m| viol!("setup-panic", "{name}: set-up number {round} panicked: {m}: {}{}", describe(&cur), complaints()))?;
            o.count("graphs_set_up_again", 1);
        }
        prints.push(bytes(&cur.cg));
        for turn in 0..*r.pick(&[1, 1, 2, 3]) {
            let mems = match turn {
                0 => cur.mems.clone(),
                _ => match other_data(r, &cur)? {
                    Some(x) if x.cg.proof_templates() == cur.cg.proof_templates() && x.cg.kernels() == cur.cg.kernels() => {
                        o.count("other_witnesses", 1);
                        x.mems
                    }
                    _ => cur.mems.clone(),
                },
            };
            let proof = catch(|| P::prove(&ps, &cur.cg, mems)).map_err(|m| viol!("prove-panic", "{name}: proving an honest session panicked: {m}: {}{}", describe(&cur), complaints()))?;
            ensure!(proof.proofs.len() == cur.cg.proof_templates().len() + able.extra && proof.commitments.len() == cur.mems.len(), "proof-shape", "{name}: {} proofs and {} commitments for {} calls and {} memories", proof.proofs.len(), proof.commitments.len(), cur.cg.proof_templates().len(), cur.mems.len());
            let got = verify::<C, P>(&vs, &cur.cg, &proof);
            ensure!(got == Ok(true), "verify", "{name}: the proof of an honest session (graph {round}, witness {turn}) is refused ({got:?}): {}{}", describe(&cur), complaints());
            o.count("proofs_accepted", 1);
            o.count("kernel_instances_proved", cur.cg.proof_templates().iter().map(|t| t.parallel_count as u64).sum());
        }
    }
    catch(P::post_process).map_err(|m| viol!("exit-panic", "{name}: ending the server panicked: {m}{}", complaints()))?;
    let t0 = std::time::Instant::now();
    let exit = loop {
        if let Ok(s) = std::fs::read_to_string(format!("{}/exit", env("VP_SESSION"))) {
            break s;
        }
        ensure!(t0.elapsed().as_secs() < 60, "exit", "{name}: the server does not end{}", complaints());
        std::thread::sleep(std::time::Duration::from_millis(5));
    };
    let (n, codes) = exit.split_once(' ').unwrap();
    ensure!(codes.split(',').all(|c| c == "0"), "exit", "{name}: processes of the server ended with {codes}{}", complaints());
    let n: usize = n.parse().unwrap();
    o.count("server_processes", n as u64);
    if n > 1 {
        o.count("sessions_of_several_processes", 1);
    }
    for i in 0..n {
        let m = std::fs::read_to_string(format!("{}/monitor.{i}", env("VP_SESSION"))).unwrap_or_default();
        let get = |k: &str| m.split_whitespace().find_map(|w| w.strip_prefix(k)).and_then(|x| x.parse::<u64>().ok());
        let (Some(b), Some(v)) = (get("bad_frees="), get("overruns=")) else { return Err(viol!("exit", "{name}: process {i} of {n} did not shut the world down{}", complaints())) };
        ensure!(b == 0, "released", "{name}: process {i} of {n} released {b} pieces of memory it shares with others: {}", describe(&cur));
        ensure!(v == 0, "overrun", "{name}: process {i} of {n} wrote beyond shared memory: {}", describe(&cur));
        o.count("shared_regions_watched", get("regions=").unwrap_or(0));
    }
    o.distinct(&(name.to_string(), C::CONFIG_ID, prints));
    if o.wants_sample() {
        o.sample(serde_json::json!({"prover": name, "field": C::CONFIG_ID, "processes": n, "templates": format!("{:?}", cur.cg.proof_templates())}));
    }
    Ok(())
}
fn setup_again<C: GKREngine>(f: &str) -> ExpanderVerifierSetup<C::FieldConfig, C::PCSConfig> {
    wait_async(ClientHttpHelper::request_setup(f));
    SharedMemoryEngine::read_pcs_setup_from_shared_memory::<C::FieldConfig, C::PCSConfig>().1
}
/// The server each prover starts.
fn server_of(k: usize) -> &'static str {
    match k {
        0..=6 => "server_par",
        7 | 8 => "server_def",
        _ => "server_noover",
    }
}
fn client() -> ! {
    die_with_parent();
    vpc::prepare_process();
    let k: usize = env("VP_PROVER").parse().unwrap();
    let seed: u64 = env("VP_SESSION_SEED").parse().unwrap();
    let run = move || {
        let mut o = Obs::default();
        let res = {
            let r = &mut Rng::new(seed);
            let o = &mut o;
            let mut cfg = scfg(r, false);
            cfg.max_np = if k < 9 { *r.pick(&[1, 2, 4, 4, 5, 8]) } else { *r.pick(&[1, 2, 4, 9, 17]) };
            macro_rules! par { ($c:ty, $g:ty) => { remote::<$c, ParallelizedExpander<$g>, _>("parallel", r, &Able { cfg, takes: &|_| true, extra: 0 }, &setup_again::<$g>, o) }; }
            macro_rules! def { ($g:ty) => { remote::<BN254Config, ExpanderPCSDefered<$g>, _>("deferred", r, &Able { cfg, takes: &single_claims, extra: 1 }, &setup_again::<$g>, o) }; }
            macro_rules! no { ($z:ty, $b:expr) => { remote::<BN254Config, ExpanderNoOverSubscribe<$z>, _>("no-oversubscribe", r, &Able { cfg, takes: if $b { &single_claims } else { &|_| true }, extra: $b as usize }, &setup_again::<<$z as ZKCudaConfig>::GKRConfig>, o) }; }
            let f = || match k {
                0 => par!(M31Config, M31Config),
                1 => par!(GF2Config, GF2Config),
                2 => par!(GoldilocksConfig, GoldilocksConfig),
                3 => par!(BabyBearConfig, BabyBearConfig),
                4 => par!(BN254Config, BN254Config),
                5 => par!(BN254Config, BN254ConfigSha2Hyrax<'static>),
                6 => par!(BN254Config, BN254ConfigSha2UniKZG<'static>),
                7 => def!(BN254ConfigSha2Hyrax<'static>),
                8 => def!(BN254ConfigSha2UniKZG<'static>),
                9 => no!(ZKCudaBN254Hyrax<'static>, false),
                10 => no!(ZKCudaBN254KZG<'static>, false),
                11 => no!(ZKCudaBN254MIMCKZG<'static>, false),
                12 => no!(ZKCudaBN254HyraxBatchPCS<'static>, true),
                13 => no!(ZKCudaBN254KZGBatchPCS<'static>, true),
                _ => no!(ZKCudaBN254MIMCKZGBatchPCS<'static>, true),
            };
            catch(f).unwrap_or_else(|m| Err(viol!("panic", "unexpected panic: {m}{}", complaints())))
        };
        let v = match &res {
            Ok(()) => serde_json::Value::Null,
            Err(v) => serde_json::json!({"key": v.key, "msg": v.msg}),
        };
        std::fs::write(format!("{}/result", env("VP_SESSION")), serde_json::json!({"violation": v, "obs": o.export()}).to_string()).unwrap();
        std::process::exit(0)
    };
    std::thread::Builder::new().stack_size(256 << 20).spawn(run).unwrap().join().unwrap()
}
fn free_port() -> u16 {
    use std::sync::atomic::{AtomicU16, Ordering::SeqCst};
    // below the ports that outgoing connections are given
    static NEXT: AtomicU16 = AtomicU16::new(0);
    loop {
        let p = 10_000 + NEXT.fetch_add(1, SeqCst) % 22_000;
        if std::net::TcpListener::bind(("127.0.0.1", p)).is_ok() {
            return p;
        }
    }
}
fn sessions(d: &Driver) {
    let roles = d.scratch.join("roles");
    std::fs::create_dir_all(&roles).unwrap();
    for n in ROLES {
        let _ = std::os::unix::fs::symlink(std::env::current_exe().unwrap(), roles.join(n));
    }
    let lock = d.scratch.join("lock");
    let _ = std::fs::remove_file(&lock);
    d.cases_par("servers", d.n(500, 8_000), 16, |r, o| {
        // the servers decline the plain BN254 prover, whose transcript is not SHA-256
        let k = [0, 1, 2, 3, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14][o.case as usize % 14];
        let dir = d.scratch.join(format!("s{}", o.case));
        let _ = std::fs::remove_dir_all(&dir);
        std::fs::create_dir_all(&dir).unwrap();
        let mut c = std::process::Command::new(roles.join("client"));
        c.arg("-s").arg(roles.join(server_of(k)));
        c.env("PATH", format!("{}:{}", roles.display(), env("PATH"))).env("PORT_NUMBER", free_port().to_string());
        c.env("VP_SESSION", &dir).env("VP_SHM_DIR", &dir).env("VP_LOCK", &lock).env("VP_PROVER", k.to_string());
        c.env("VP_SESSION_SEED", r.u64().to_string()).env("ZKML_NUM_CPUS", r.pick(&["1", "2", "3", "4", "8"]));
        c.env("VP_MPI_TIMEOUT_S", "80").env("VP_MPI_JITTER_US", r.pick(&["0", "0", "300", "3000"])).env("THREAD_STACK_SIZE_MB", "64");
        c.env("TOKIO_WORKER_THREADS", "2");
        for x in ["VP_MPI_DIR", "VP_MPI_RANK", "VP_MPI_SIZE"] {
            c.env_remove(x);
        }
        c.stdout(std::process::Stdio::null()).stderr(std::fs::File::create(dir.join("err")).unwrap());
        let mut p = c.spawn().unwrap();
        let t0 = std::time::Instant::now();
        let mut broken: Option<std::time::Instant> = None;
        let status = loop {
            if let Some(s) = p.try_wait().unwrap() {
                break s.to_string();
            }
            if broken.is_none() && std::fs::read_to_string(dir.join("exit")).is_ok_and(|s| !s.split(' ').nth(1).unwrap_or("").split(',').all(|c| c == "0")) {
                broken = Some(std::time::Instant::now());
            }
            // without its server a client waits for ever
            if t0.elapsed().as_secs() > 110 || broken.is_some_and(|b| b.elapsed().as_secs() > 4) {
                let _ = p.kill();
                let _ = p.wait();
                break if broken.is_some() { "the server breaks down".into() } else { "not ending within 110 s".into() };
            }
            std::thread::sleep(std::time::Duration::from_millis(10));
        };
        let res = std::fs::read_to_string(dir.join("result")).ok().and_then(|s| serde_json::from_str::<serde_json::Value>(&s).ok());
        let out = match res {
            Some(v) => {
                o.import(&v["obs"]);
                match v["violation"].is_null() {
                    true => Ok(()),
                    false => Err(viol!(v["violation"]["key"].as_str().unwrap(), "{}", v["violation"]["msg"].as_str().unwrap())),
                }
            }
            None => {
                std::env::set_var("VP_SESSION", &dir);
                Err(viol!("session", "a session with the server of prover {k}: {status}{}", complaints()))
            }
        };
        let _ = std::fs::remove_dir_all(&dir);
        out
    });
}
fn world_of_one(d: &Driver) {
    std::env::set_var("VP_MPI_DIR", &d.scratch);
    std::env::set_var("VP_MPI_RANK", "0");
    std::env::set_var("VP_MPI_SIZE", "1");
}
fn z10(d: &mut Driver) {
    world_of_one(d);
    d.cases_seq("one-rank", d.n(600, 60_000), |r, o| {
        let k = r.below(15);
        by_prover!(k, r, complete(o))
    });
    sessions(d);
}
fn z11(d: &mut Driver) {
    world_of_one(d);
    // the communicator of a kernel is a global of the process
    d.cases_seq("tampering", d.n(1500, 60_000), |r, o| {
        let k = r.below(15);
        by_prover!(k, r, sound(o))
    });
    d.scenario("cancelling-parallel-m31", |_, o| forge::<M31Config, Par<M31Config>, _, <M31Config as gkr_engine::GKREngine>::TranscriptConfig>("parallel", "known-coefficients-parallel", o));
    d.scenario("cancelling-deferred-bn254", |_, o| forge::<BN254Config, Def<BN254ConfigSha2Hyrax<'static>>, _, <BN254ConfigSha2Hyrax<'static> as GKREngine>::TranscriptConfig>("deferred", "known-coefficients-deferred", o));
    d.scenario("cancelling-no-oversubscribe", |_, o| forge::<BN254Config, NoOver<ZKCudaBN254KZG<'static>>, _, <BN254ConfigSha2Hyrax<'static> as GKREngine>::TranscriptConfig>("parallel", "known-coefficients-no-oversubscribe", o));
}

/// Sessions whose processes all run with AddressSanitizer.
fn m04(d: &mut Driver) {
    vp::asan::awake(d);
    world_of_one(d);
    d.cases_seq("one-rank", d.n(200, 20_000), |r, o| {
        let k = r.below(15);
        by_prover!(k, r, complete(o))
    });
    sessions(d);
}

fn main() {
    let name = std::env::args().next().unwrap_or_default();
    match name.rsplit('/').next().unwrap() {
        "mpiexec" => mpiexec(),
        "client" => client(),
        "server_par" => return server_par::main(),
        "server_def" => return server_def::main(),
        "server_noover" => return server_noover::main(),
        _ => {}
    }
    vpc::main(&[Check { id: "M04", rule: "No process of a server session touches memory that is not its own.", run: m04 }, Check { id: "Z10", rule: "Every honest session is proved by a server and its proof accepted.", run: z10 }, Check { id: "Z11", rule: "No proof of a server is accepted for a wrong statement, or with parts missing, mixed or corrupted.", run: z11 }]);
}
