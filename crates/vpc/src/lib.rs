//! Common machinery of every check.
//!
//! A check binary calls [`main`] with a table of properties. The process first acts as a
//! *supervisor*: it re-executes itself as a worker and watches it. The worker runs the code under
//! test case by case; every case is reproducible from (seed, stage, case number). A worker that
//! dies from a signal, that makes no progress for the watchdog period, or that reports an oracle
//! mismatch, yields a violation with a replay file naming the exact case.
use serde_json::{json, Map, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::io::{BufRead, BufReader, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub mod rng;
pub use rng::Rng;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

/// What a case reports when the oracle disagrees with the code.
#[derive(Debug, Clone)]
pub struct Violation {
    /// Identifies the failing call site or input class; matched against known findings.
    pub key: String,
    pub msg: String,
    pub detail: Value,
}
impl Violation {
    pub fn new(key: &str, msg: impl Into<String>) -> Self {
        Violation { key: key.into(), msg: msg.into(), detail: Value::Null }
    }
    pub fn with(mut self, d: Value) -> Self {
        self.detail = d;
        self
    }
}
pub type CaseResult = Result<(), Violation>;

#[macro_export]
macro_rules! viol {
    ($key:expr, $($arg:tt)*) => { $crate::Violation::new($key, format!($($arg)*)) };
}
#[macro_export]
macro_rules! ensure {
    ($cond:expr, $key:expr, $($arg:tt)*) => { if !($cond) { return Err($crate::Violation::new($key, format!($($arg)*))); } };
}

/// Per-case observation sink.
#[derive(Default)]
pub struct Obs {
    counters: BTreeMap<&'static str, u64>,
    distinct: Vec<u64>,
    sample: Option<Value>,
    nontrivial: bool,
    /// Number of this case within its stage.
    pub case: u64,
}
impl Obs {
    pub fn count(&mut self, k: &'static str, n: u64) {
        *self.counters.entry(k).or_default() += n;
    }
    /// Declares the case non-trivial, with a fingerprint of what was actually exercised.
    pub fn distinct<T: Hash + ?Sized>(&mut self, t: &T) {
        self.nontrivial = true;
        self.distinct.push(hash_of(t));
    }
    pub fn sample(&mut self, v: Value) {
        if self.sample.is_none() {
            self.sample = Some(v);
        }
    }
    pub fn wants_sample(&self) -> bool {
        self.sample.is_none()
    }
    /// What a helper process observed, for [`Obs::import`] in the process that started it.
    pub fn export(&self) -> Value {
        json!({"counters": self.counters, "distinct": self.distinct, "sample": self.sample})
    }
    pub fn import(&mut self, v: &Value) {
        for (k, n) in v["counters"].as_object().into_iter().flatten() {
            let k: &'static str = match self.counters.keys().find(|x| **x == k.as_str()) {
                Some(k) => k,
                None => Box::leak(k.clone().into_boxed_str()),
            };
            self.count(k, n.as_u64().unwrap_or(0));
        }
        for d in v["distinct"].as_array().into_iter().flatten() {
            self.nontrivial = true;
            self.distinct.extend(d.as_u64());
        }
        if self.sample.is_none() && !v["sample"].is_null() {
            self.sample = Some(v["sample"].clone());
        }
    }
}
pub fn hash_of<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}
/// Runs `f`, turning a panic into `Err(message)`.
pub fn catch<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        let m = if let Some(s) = e.downcast_ref::<String>() {
            s.clone()
        } else if let Some(s) = e.downcast_ref::<&str>() {
            s.to_string()
        } else {
            "panic".into()
        };
        let loc = LAST_PANIC.with(|l| l.borrow().clone());
        format!("{m} at {loc}")
    })
}

pub struct Check {
    pub id: &'static str,
    pub rule: &'static str,
    pub run: fn(&mut Driver),
}

pub fn verif_root() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into()))
}

#[derive(Clone)]
struct Known {
    property: String,
    key: String,
    what: String,
}
fn known_findings() -> Vec<Known> {
    let p = verif_root().join("known_findings.json");
    let Ok(s) = std::fs::read_to_string(p) else { return vec![] };
    let v: Value = serde_json::from_str(&s).expect("known_findings.json");
    v["known"]
        .as_array()
        .map(|a| {
            a.iter()
                .map(|x| Known {
                    property: x["property"].as_str().unwrap().into(),
                    key: x["key"].as_str().unwrap().into(),
                    what: x["what"].as_str().unwrap().into(),
                })
                .collect()
        })
        .unwrap_or_default()
}

pub struct Driver {
    pub id: &'static str,
    pub tier: Tier,
    pub seed: u64,
    only: Option<(String, u64)>,
    found: Mutex<Vec<(String, u64, Violation)>>,
    known: Vec<Known>,
    known_hit: Mutex<HashSet<String>>,
    evaluations: AtomicU64,
    state: Mutex<State>,
    start: Instant,
    deadline: Duration,
    progress: Mutex<std::fs::File>,
    pub scratch: PathBuf,
}
#[derive(Default)]
struct State {
    counters: BTreeMap<String, u64>,
    distinct: HashSet<u64>,
    samples: Vec<Value>,
    notes: Map<String, Value>,
}

impl Driver {
    pub fn quick(&self) -> bool {
        self.tier == Tier::Quick
    }
    /// `quick` or `thorough` number of cases.
    pub fn n(&self, quick: u64, thorough: u64) -> u64 {
        if self.quick() {
            quick
        } else {
            thorough
        }
    }
    pub fn note(&self, k: &str, v: Value) {
        self.state.lock().unwrap().notes.insert(k.into(), v);
    }
    pub fn violated(&self) -> bool {
        !self.found.lock().unwrap().is_empty()
    }
    fn record(&self, stage: &str, case: u64, v: Violation) {
        if let Some(k) = self.known.iter().find(|k| k.property == self.id && k.key == v.key) {
            if self.known_hit.lock().unwrap().insert(k.key.clone()) {
                emit(&format!("KNOWN-FINDING: property={} {}", self.id, k.what));
            }
            return;
        }
        self.found.lock().unwrap().push((stage.into(), case, v));
    }
    fn absorb(&self, obs: Obs) {
        // one case may judge many distinct inputs
        self.evaluations.fetch_add((obs.distinct.len() as u64).max(1), SeqCst);
        let mut st = self.state.lock().unwrap();
        for (k, n) in obs.counters {
            *st.counters.entry(k.to_string()).or_default() += n;
        }
        if obs.nontrivial {
            st.distinct.extend(obs.distinct);
        }
        if let Some(s) = obs.sample {
            if st.samples.len() < 6 {
                st.samples.push(s);
            }
        }
    }
    fn rng(&self, stage: &str, case: u64) -> Rng {
        Rng::new(hash_of(&(self.seed, stage, case, 0x5eedu32)))
    }
    /// Runs `n` independent cases on all cores.
    pub fn cases(&self, stage: &str, n: u64, f: impl Fn(&mut Rng, &mut Obs) -> CaseResult + Sync) {
        self.cases_par(stage, n, ncpu(), f)
    }
    /// Runs cases one after another (for code that uses process-wide state).
    pub fn cases_seq(&self, stage: &str, n: u64, f: impl Fn(&mut Rng, &mut Obs) -> CaseResult + Sync) {
        self.cases_par(stage, n, 1, f)
    }
    /// One directed scenario.
    pub fn scenario(&self, name: &str, f: impl Fn(&mut Rng, &mut Obs) -> CaseResult + Sync) {
        self.cases_par(name, 1, 1, f)
    }
    pub fn cases_par(
        &self,
        stage: &str,
        n: u64,
        threads: usize,
        f: impl Fn(&mut Rng, &mut Obs) -> CaseResult + Sync,
    ) {
        if let Some((s, c)) = &self.only {
            if s != stage {
                return;
            }
            let c = *c;
            self.one(stage, c, &f);
            return;
        }
        if self.violated() {
            return;
        }
        let next = AtomicU64::new(0);
        let stop = AtomicBool::new(false);
        let done = AtomicUsize::new(0);
        std::thread::scope(|sc| {
            for _ in 0..threads {
                std::thread::Builder::new()
                    .stack_size(256 << 20)
                    .spawn_scoped(sc, || {
                        loop {
                            if stop.load(SeqCst) || self.start.elapsed() > self.deadline {
                                break;
                            }
                            let c = next.fetch_add(1, SeqCst);
                            if c >= n {
                                break;
                            }
                            if !self.one(stage, c, &f) {
                                stop.store(true, SeqCst);
                            }
                        }
                        done.fetch_add(1, SeqCst);
                    })
                    .unwrap();
            }
        });
        let c = next.load(SeqCst).min(n);
        let mut st = self.state.lock().unwrap();
        st.notes.insert(format!("stage_{stage}_cases"), json!(c));
        if self.start.elapsed() > self.deadline {
            st.notes.insert("time_cap_reached".into(), json!(true));
        }
    }
    fn one(&self, stage: &str, c: u64, f: &(impl Fn(&mut Rng, &mut Obs) -> CaseResult + Sync)) -> bool {
        let tok = {
            let mut p = self.progress.lock().unwrap();
            let t = CASE_NO.fetch_add(1, SeqCst);
            let _ = writeln!(p, "B {t} {c} {stage}");
            t
        };
        let mut rng = self.rng(stage, c);
        let mut obs = Obs { case: c, ..Default::default() };
        let r = catch(|| f(&mut rng, &mut obs));
        {
            let mut p = self.progress.lock().unwrap();
            let _ = writeln!(p, "E {tok}");
        }
        let ok = match r {
            Ok(Ok(())) => true,
            Ok(Err(v)) => {
                self.record(stage, c, v);
                false
            }
            Err(m) => {
                self.record(stage, c, Violation::new("panic", format!("unexpected panic: {m}")));
                false
            }
        };
        self.absorb(obs);
        ok || !self.violated()
    }
}
static CASE_NO: AtomicU64 = AtomicU64::new(0);

fn ncpu() -> usize {
    std::env::var("VP_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| {
        std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).min(8)
    })
}

static REAL_OUT: Mutex<Option<std::fs::File>> = Mutex::new(None);
/// Writes a line to the real standard output (the code under test prints to fd 1, which is
/// redirected while it runs).
pub fn emit(line: &str) {
    let mut g = REAL_OUT.lock().unwrap();
    match g.as_mut() {
        Some(f) => {
            let _ = writeln!(f, "{line}");
            let _ = f.flush();
        }
        None => println!("{line}"),
    }
}
fn redirect_stdout() {
    use std::os::fd::FromRawFd;
    unsafe {
        let saved = libc::dup(1);
        libc::fcntl(saved, libc::F_SETFD, libc::FD_CLOEXEC);
        let null = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
        libc::dup2(null, 1);
        libc::close(null);
        *REAL_OUT.lock().unwrap() = Some(std::fs::File::from_raw_fd(saved));
    }
}

fn usage(checks: &[Check]) -> ! {
    eprintln!("usage: <bin> PROPERTY [--replay FILE]; properties: {:?}", checks.iter().map(|c| c.id).collect::<Vec<_>>());
    std::process::exit(2)
}

/// Entry point of every check binary.
pub fn main(checks: &[Check]) {
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 2 {
        usage(checks)
    }
    let Some(check) = checks.iter().find(|c| c.id == args[1]) else { usage(checks) };
    let tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    if std::env::var("VP_WORKER").is_ok() {
        worker(check, tier, seed)
    } else {
        supervise(check, tier, seed, &args)
    }
}

fn out_dir() -> PathBuf {
    let d = verif_root().join("out");
    std::fs::create_dir_all(&d).unwrap();
    d
}
fn write_replay(id: &str, seed: u64, tier: Tier, stage: &str, case: u64, v: &Value) -> PathBuf {
    let d = out_dir().join("replay");
    std::fs::create_dir_all(&d).unwrap();
    let p = d.join(format!("{id}-{stage}-{case}-s{seed}.json"));
    let j = json!({"property": id, "seed": seed, "tier": if tier==Tier::Quick {"quick"} else {"thorough"},
        "stage": stage, "case": case, "violation": v,
        "how": format!("VERIF_SEED={seed} bash /verif/check.sh {id} --replay {}", p.display())});
    std::fs::write(&p, serde_json::to_string_pretty(&j).unwrap()).unwrap();
    p
}
fn write_evidence(id: &str, tier: Tier, seed: u64, coverage: Value, wall: f64, violations: u64) {
    let d = verif_root().join("evidence");
    std::fs::create_dir_all(&d).unwrap();
    let j = json!({"property": id, "tier": if tier==Tier::Quick {"quick"} else {"thorough"}, "seed": seed,
        "level": "exploration", "coverage": coverage, "wall_s": wall, "violations": violations,
        "assumptions": ["Expander's crates are replaced by the stand-ins in /verif/shims (see DESIGN.md)"]});
    std::fs::write(d.join(format!("{id}.json")), serde_json::to_string_pretty(&j).unwrap()).unwrap();
}

fn supervise(check: &Check, tier: Tier, seed: u64, args: &[String]) -> ! {
    let start = Instant::now();
    let run_dir = std::env::temp_dir().join(format!("vp.{}.{}", check.id, std::process::id()));
    std::fs::create_dir_all(&run_dir).unwrap();
    let progress = run_dir.join("progress");
    std::fs::write(&progress, "").unwrap();
    let mut cmd = std::process::Command::new(std::env::current_exe().unwrap());
    cmd.arg(check.id)
        .env("VP_WORKER", "1")
        .env("VP_RUN_DIR", &run_dir)
        .stdout(std::process::Stdio::piped());
    let trace = std::env::var("VP_TRACE").is_ok();
    if !trace {
        cmd.stderr(std::process::Stdio::piped());
    }
    if args.len() >= 4 && args[2] == "--replay" {
        let j: Value = serde_json::from_str(&std::fs::read_to_string(&args[3]).unwrap()).unwrap();
        cmd.env("VP_STAGE", j["stage"].as_str().unwrap());
        cmd.env("VP_CASE", j["case"].as_u64().unwrap().to_string());
        cmd.env("VERIF_SEED", j["seed"].as_u64().unwrap().to_string());
        cmd.env("VERIF_TIER", j["tier"].as_str().unwrap());
    }
    {
        use std::os::unix::process::CommandExt;
        cmd.process_group(0);
        unsafe {
            cmd.pre_exec(|| {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                Ok(())
            });
        }
    }
    if let Ok(opts) = std::env::var("ASAN_OPTIONS") {
        let log = run_dir.join("asan");
        cmd.env("ASAN_OPTIONS", format!("{opts}:log_path={}", log.display())).env("VP_ASAN_LOG", log);
    }
    let mut child = cmd.spawn().unwrap();
    let out = child.stdout.take().unwrap();
    let reader = std::thread::spawn(move || {
        let mut lines = Vec::new();
        for l in BufReader::new(out).split(b'\n').map_while(Result::ok) {
            let l = String::from_utf8_lossy(&l).into_owned();
            println!("{l}");
            lines.push(l);
        }
        lines
    });
    // The code under test is talkative: only what it said last is shown, and only after a failure.
    let err = child.stderr.take();
    let err_reader = std::thread::spawn(move || {
        let mut last = std::collections::VecDeque::new();
        for l in err.into_iter().flat_map(|e| BufReader::new(e).split(b'\n').map_while(Result::ok)) {
            if last.len() == 20 {
                last.pop_front();
            }
            last.push_back(String::from_utf8_lossy(&l).chars().take(2000).collect::<String>());
        }
        last
    });
    let stall: u64 = std::env::var("VP_STALL_S").ok().and_then(|s| s.parse().ok()).unwrap_or(150);
    let mut open: BTreeMap<u64, (String, u64, Instant)> = BTreeMap::new();
    let mut pos = 0u64;
    let mut rest = String::new();
    let mut killed: Option<(String, u64)> = None;
    let status = loop {
        use std::io::{Read, Seek};
        if let Ok(mut f) = std::fs::File::open(&progress) {
            let _ = f.seek(std::io::SeekFrom::Start(pos));
            let mut s = String::new();
            if f.read_to_string(&mut s).is_ok() {
                pos += s.len() as u64;
                rest.push_str(&s);
                while let Some(i) = rest.find('\n') {
                    let l: String = rest.drain(..=i).collect();
                    let mut it = l.trim_end().splitn(4, ' ');
                    match it.next() {
                        Some("B") => {
                            let t: u64 = it.next().unwrap().parse().unwrap();
                            let c: u64 = it.next().unwrap().parse().unwrap();
                            open.insert(t, (it.next().unwrap_or("").into(), c, Instant::now()));
                        }
                        Some("E") => {
                            open.remove(&it.next().unwrap().parse().unwrap());
                        }
                        _ => {}
                    }
                }
            }
        }
        if let Some(s) = child.try_wait().unwrap() {
            break s;
        }
        if killed.is_none() {
            if let Some((s, c, _)) = open.values().find(|x| x.2.elapsed() > Duration::from_secs(stall)) {
                killed = Some((s.clone(), *c));
                unsafe { libc::kill(-(child.id() as i32), libc::SIGKILL) };
                let _ = child.kill();
            }
        }
        std::thread::sleep(Duration::from_millis(30));
    };
    unsafe { libc::kill(-(child.id() as i32), libc::SIGKILL) };
    let lines = reader.join().unwrap();
    let code = status.code();
    let last_err = err_reader.join().unwrap();
    if code != Some(0) {
        for l in &last_err {
            eprintln!("{l}");
        }
    }
    let cleanup = |p: &Path| {
        let _ = std::fs::remove_dir_all(p);
    };
    match code {
        Some(c) if c == 0 || c == 1 || c == 2 => {
            cleanup(&run_dir);
            if c == 1 && !lines.iter().any(|l| l.starts_with("VIOLATION")) {
                std::process::exit(2)
            }
            std::process::exit(c)
        }
        other => {
            use std::os::unix::process::ExitStatusExt;
            // A crash or a hang: the case in flight is the history.
            let (stage, case) = killed
                .clone()
                .or_else(|| open.values().next().map(|x| (x.0.clone(), x.1)))
                .unwrap_or(("startup".into(), 0));
            let what = if killed.is_some() {
                format!("no progress for {stall} s (does not terminate)")
            } else {
                let said = asan_report(child.id(), Some(run_dir.join("asan"))).map(|s| format!(": {s}")).unwrap_or_default();
                format!("process died: exit code {other:?}, signal {:?}{said}", status.signal())
            };
            let inflight: Vec<Value> = open.values().map(|x| json!({"stage": x.0, "case": x.1})).collect();
            let v = json!({"key": "crash", "msg": what, "in_flight": inflight});
            if stage == "startup" {
                eprintln!("harness error: {what}");
                cleanup(&run_dir);
                std::process::exit(2);
            }
            let p = write_replay(check.id, seed, tier, &stage, case, &v);
            write_evidence(check.id, tier, seed, json!({"evaluations": 0, "distinct_nontrivial": 0,
                "rule": check.rule, "samples": [v]}), start.elapsed().as_secs_f64(), 1);
            println!("{} {}: {}", check.id, stage, what);
            println!("VIOLATION property={} replay={}", check.id, p.display());
            cleanup(&run_dir);
            std::process::exit(1)
        }
    }
}

/// What AddressSanitizer said before it ended a process: the kind of error, and where.
pub fn asan_report(pid: u32, log: Option<PathBuf>) -> Option<String> {
    let log = format!("{}.{pid}", log?.display());
    let s = std::fs::read_to_string(&log).ok()?;
    let _ = std::fs::remove_file(log);
    let what = s.lines().find_map(|l| l.split("AddressSanitizer: ").nth(1)).unwrap_or("");
    let at: Vec<&str> = s.lines().filter_map(|l| l.trim().strip_prefix('#')?.split(" in ").nth(1)).filter(|l| !["core::", "std::", "alloc::", "__", "<core", "<alloc", "<std"].iter().any(|p| l.starts_with(p))).take(4).collect();
    Some(format!("{} [{}]", what.split(" on address").next().unwrap_or(what), at.join(" < ")).chars().take(1500).collect())
}
/// The same of all processes started from this one.
pub fn asan_reports() -> String {
    let Some(log) = std::env::var_os("VP_ASAN_LOG").map(PathBuf::from) else { return String::new() };
    let pids = std::fs::read_dir(log.parent().unwrap()).into_iter().flatten().flatten().filter_map(|e| e.file_name().to_str()?.strip_prefix("asan.")?.parse().ok());
    pids.filter_map(|p| asan_report(p, Some(log.clone()))).map(|s| format!(" [{s}]")).collect()
}
/// Sends what the code under test prints nowhere, and notes where panics happen.
pub fn prepare_process() {
    redirect_stdout();
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if std::env::var("VP_TRACE").is_ok() {
            eprintln!("{info}\n{}", std::backtrace::Backtrace::force_capture());
        }
        let _ = LAST_PANIC.try_with(|l| *l.borrow_mut() = loc);
    }));
}
fn worker(check: &Check, tier: Tier, seed: u64) -> ! {
    prepare_process();
    let run_dir = PathBuf::from(std::env::var("VP_RUN_DIR").unwrap());
    let scratch = run_dir.join("scratch");
    std::fs::create_dir_all(&scratch).unwrap();
    let progress = std::fs::OpenOptions::new().append(true).open(run_dir.join("progress")).unwrap();
    let only = std::env::var("VP_STAGE").ok().map(|s| (s, std::env::var("VP_CASE").unwrap().parse().unwrap()));
    let cap = std::env::var("VP_CAP_S").ok().and_then(|s| s.parse().ok()).unwrap_or(if tier == Tier::Quick { 240 } else { 1500 });
    let mut d = Driver {
        id: check.id,
        tier,
        seed,
        only,
        found: Mutex::new(vec![]),
        known: known_findings(),
        known_hit: Default::default(),
        evaluations: AtomicU64::new(0),
        state: Default::default(),
        start: Instant::now(),
        deadline: Duration::from_secs(cap),
        progress: Mutex::new(progress),
        scratch,
    };
    (check.run)(&mut d);
    let wall = d.start.elapsed().as_secs_f64();
    let found = std::mem::take(&mut *d.found.lock().unwrap());
    let st = std::mem::take(&mut *d.state.lock().unwrap());
    let replay = d.only.is_some();
    let mut coverage = Map::new();
    coverage.insert("evaluations".into(), json!(d.evaluations.load(SeqCst)));
    coverage.insert("distinct_nontrivial".into(), json!(st.distinct.len()));
    coverage.insert("rule".into(), json!(check.rule));
    coverage.insert("samples".into(), json!(st.samples));
    coverage.insert("observed".into(), json!(st.counters));
    coverage.insert("stages".into(), Value::Object(st.notes));
    if !replay {
        write_evidence(check.id, tier, seed, Value::Object(coverage), wall, found.len() as u64);
    }
    if found.is_empty() {
        // A known finding that no longer reproduces is not an alarm, but say so.
        if !replay {
            for k in d.known.iter().filter(|k| k.property == d.id) {
                if !d.known_hit.lock().unwrap().contains(&k.key) {
                    emit(&format!("note: known finding {} not observed in this run", k.key));
                }
            }
        }
        emit(&format!(
            "OK property={} tier={:?} seed={} evaluations={} distinct={} wall={:.1}s",
            check.id,
            tier,
            seed,
            d.evaluations.load(SeqCst),
            st.distinct.len(),
            wall
        ));
        std::process::exit(0)
    }
    let (stage, case, v) = &found[0];
    let vj = json!({"key": v.key, "msg": v.msg, "detail": v.detail,
        "others": found[1..].iter().take(5).map(|x| json!({"stage": x.0, "case": x.1, "msg": x.2.msg})).collect::<Vec<_>>()});
    let p = write_replay(check.id, seed, tier, stage, *case, &vj);
    emit(&format!("{} stage={} case={} [{}] {}", check.id, stage, case, v.key, v.msg));
    emit(&format!("VIOLATION property={} replay={}", check.id, p.display()));
    std::process::exit(1)
}
