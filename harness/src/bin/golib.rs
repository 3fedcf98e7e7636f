//! G01: the C library that Go callers load.
use arith::SimdField as _;
use ec_go_lib as _;
use expander_compiler::circuit::config::*;
use expander_compiler::circuit::layered::witness::Witness;
use expander_compiler::circuit::layered::{Circuit, NormalInputType};
use expander_compiler::compile::compile as rust_compile;
use expander_compiler::circuit::ir;
use expander_compiler::frontend::WitnessSolver;
use libc::{c_uchar, c_ulong};
use serde_json::json;
use shimcore::circuit::executor;
use serdes::ExpSerde;
use std::path::PathBuf;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::OnceLock;
use vp::equiv::*;
use vp::lang::*;
use vp::layeval;
use vpc::{catch, ensure, viol, CaseResult, Check, Driver, Obs, Rng, Violation};

// ---------------------------------------------------------------- the C interface, as the Go wrapper declares it
#[repr(C)]
struct ByteArray {
    data: *mut c_uchar,
    length: c_ulong,
}
#[repr(C)]
struct CompileResult {
    ir_witness_gen: ByteArray,
    layered: ByteArray,
    error: ByteArray,
}
extern "C" {
    fn abi_version() -> c_ulong;
    fn compile(ir_source: ByteArray, config_id: c_ulong) -> CompileResult;
    fn prove_circuit_file(circuit_filename: ByteArray, witness: ByteArray, config_id: c_ulong) -> ByteArray;
    fn verify_circuit_file(circuit_filename: ByteArray, witness: ByteArray, proof: ByteArray, config_id: c_ulong) -> c_uchar;
    fn malloc_usable_size(p: *mut libc::c_void) -> usize;
}
#[repr(C)]
struct Mallinfo2 {
    arena: usize,
    ordblks: usize,
    smblks: usize,
    hblks: usize,
    hblkhd: usize,
    usmblks: usize,
    fsmblks: usize,
    uordblks: usize,
    fordblks: usize,
    keepcost: usize,
}
extern "C" {
    fn mallinfo2() -> Mallinfo2;
}
fn in_use() -> usize {
    let m = unsafe { mallinfo2() };
    m.uordblks + m.hblkhd
}
/// With AddressSanitizer the first byte past the end is already out of bounds.
const ROOM: usize = if cfg!(vp_asan) { 0 } else { 64 };
/// A malloc'ed copy, as `C.CBytes` makes one, with the bytes behind it poisoned.
struct Lent {
    p: *mut u8,
    n: usize,
    want: Vec<u8>,
}
impl Lent {
    fn new(b: &[u8]) -> Lent {
        unsafe {
            let p = libc::malloc(b.len() + ROOM) as *mut u8;
            p.copy_from(b.as_ptr(), b.len());
            p.add(b.len()).write_bytes(0xa5, ROOM);
            Lent { p, n: b.len(), want: b.to_vec() }
        }
    }
    fn arg(&self) -> ByteArray {
        ByteArray { data: self.p, length: self.n as c_ulong }
    }
    fn unchanged(&self) -> bool {
        let s = unsafe { std::slice::from_raw_parts(self.p, self.n + ROOM) };
        s[..self.n] == self.want[..] && s[self.n..].iter().all(|b| *b == 0xa5)
    }
}
impl Drop for Lent {
    fn drop(&mut self) {
        unsafe { libc::free(self.p as *mut _) }
    }
}
/// Takes over a returned buffer the way the wrapper does: copy, then free.
fn own(b: ByteArray) -> Result<Vec<u8>, Violation> {
    ensure!(b.data.is_null() == (b.length == 0), "buffer", "a buffer of {} bytes at {:p}", b.length, b.data);
    if b.data.is_null() {
        return Ok(vec![]);
    }
    let n = b.length as usize;
    let room = unsafe { malloc_usable_size(b.data as *mut _) };
    ensure!(room >= n && room < n + n / 2 + 4096 * 2, "buffer", "a buffer of {n} bytes lies in a block of {room}");
    let v = unsafe { std::slice::from_raw_parts(b.data, n) }.to_vec();
    unsafe { libc::free(b.data as *mut _) };
    Ok(v)
}
type Compiled = Result<(Vec<u8>, Vec<u8>), String>;
fn c_compile(src: &[u8], id: u64) -> Result<Compiled, Violation> {
    let a = Lent::new(src);
    let r = unsafe { compile(a.arg(), id) };
    ensure!(a.unchanged(), "input-changed", "the compile call wrote to the caller's bytes");
    let (w, l, e) = (own(r.ir_witness_gen)?, own(r.layered)?, own(r.error)?);
    if e.is_empty() {
        ensure!(!w.is_empty() && !l.is_empty(), "empty-result", "no error, yet {} and {} bytes of artefacts", w.len(), l.len());
        Ok(Ok((w, l)))
    } else {
        ensure!(w.is_empty() && l.is_empty(), "result-with-error", "an error together with artefacts");
        Ok(Err(String::from_utf8(e).map_err(|e| viol!("error-text", "the error is no text: {e}"))?))
    }
}
fn c_prove(file: &str, witness: &[u8], id: u64) -> Result<Vec<u8>, Violation> {
    let (f, w) = (Lent::new(file.as_bytes()), Lent::new(witness));
    let r = unsafe { prove_circuit_file(f.arg(), w.arg(), id) };
    ensure!(f.unchanged() && w.unchanged(), "input-changed", "the prove call wrote to the caller's bytes");
    own(r)
}
fn c_verify(file: &str, witness: &[u8], proof: &[u8], id: u64) -> Result<bool, Violation> {
    let (f, w, p) = (Lent::new(file.as_bytes()), Lent::new(witness), Lent::new(proof));
    let r = unsafe { verify_circuit_file(f.arg(), w.arg(), p.arg(), id) };
    ensure!(f.unchanged() && w.unchanged() && p.unchanged(), "input-changed", "the verify call wrote to the caller's bytes");
    ensure!(r < 2, "verdict", "the verdict is {r}");
    Ok(r == 1)
}

/// The numbers by which Go callers name the fields.
const FIELDS: [u64; 4] = [1, 2, 3, 4];
macro_rules! by_id {
    ($id:expr, $f:ident ( $($a:expr),* )) => {
        match $id {
            1 => $f::<M31Config>(1, $($a),*),
            2 => $f::<BN254Config>(2, $($a),*),
            3 => $f::<GF2Config>(3, $($a),*),
            _ => $f::<GoldilocksConfig>(4, $($a),*),
        }
    };
}
static DIR: OnceLock<PathBuf> = OnceLock::new();
static FILES: AtomicU64 = AtomicU64::new(0);

fn program<C: Config>(r: &mut Rng) -> (Prog<C>, Vec<F<C>>, Vec<F<C>>) {
    let mut cfg = GenCfg::random(r);
    cfg.rand = false;
    gen_prog::<C>(r, &cfg)
}
fn bytes<T: ExpSerde>(t: &T) -> Vec<u8> {
    let mut b = vec![];
    t.serialize_into(&mut b).unwrap();
    b
}
fn read_back<T: ExpSerde>(what: &str, b: &[u8]) -> Result<T, Violation> {
    let mut r = b;
    let v = T::deserialize_from(&mut r).map_err(|e| viol!("unreadable", "the returned {what} cannot be read: {e:?}"))?;
    ensure!(r.is_empty(), "unreadable", "{} bytes follow the returned {what}", r.len());
    Ok(v)
}
type Wg<C> = ir::hint_normalized::RootCircuit<C>;
fn artefacts<C: Config>(w: &[u8], l: &[u8]) -> Result<Built<C, NormalInputType>, Violation> {
    Ok(Built { ws: WitnessSolver { circuit: read_back::<Wg<C>>("witness program", w)? }, lc: read_back::<Circuit<C, NormalInputType>>("circuit", l)? })
}

fn compile_field<C: Config>(id: u64, r: &mut Rng, o: &mut Obs) -> CaseResult {
    let (p, ins, pubs) = program::<C>(r);
    let src = lower(&p);
    let b = bytes(&src);
    o.distinct(&(id, fingerprint(&p)));
    let want = catch(|| rust_compile::<C, NormalInputType>(&src)).map_err(|m| viol!("compile-panic", "compile panicked: {m}"))?;
    let got = c_compile(&b, id)?;
    match (want, got) {
        (Ok((w, l)), Ok((wb, lb))) => {
            let built = artefacts::<C>(&wb, &lb)?;
            ensure!(built.ws.circuit == w, "witness-program", "the witness program differs from the one compiled in Rust: {}", render(&p));
            ensure!(built.lc == l, "circuit", "the circuit differs from the one compiled in Rust: {}", render(&p));
            let reg = registry::<C>();
            for (i, q) in assignments(r, &p, &ins, &pubs, 2) {
                let out = execute(&built, &i, &q, &reg, o)?;
                compare(&p, &i, &q, &out, o)?;
            }
            o.count("programs compiled through the C interface", 1);
        }
        (Err(e), Err(m)) => {
            ensure!(e.to_string() == m, "error-text", "the error reads {m:?} instead of {:?}", e.to_string());
            o.count("programs declined through the C interface", 1);
        }
        (Ok(_), Err(m)) => return Err(viol!("declined", "declined ({m}) though Rust compiles it: {}", render(&p))),
        (Err(e), Ok(_)) => return Err(viol!("compiled", "compiled though Rust declines it ({e}): {}", render(&p))),
    }
    if o.wants_sample() {
        o.sample(json!({"field": id, "source bytes": b.len(), "operations": size(&p)}));
    }
    Ok(())
}
fn compile_case(r: &mut Rng, o: &mut Obs) -> CaseResult {
    let id = *r.pick(&FIELDS);
    by_id!(id, compile_field(r, o))
}
fn bad_field<C: Config>(id: u64, r: &mut Rng, o: &mut Obs) -> CaseResult {
    let (p, _, _) = program::<C>(r);
    let b = bytes(&lower(&p));
    let (what, b, id) = match r.below(3) {
        0 => {
            let n = r.below(b.len());
            ("bytes cut short", b[..n].to_vec(), id)
        }
        1 => {
            let other = FIELDS.iter().cloned().filter(|k| *k != id).nth(r.below(3)).unwrap();
            ("bytes of another field", b, other)
        }
        _ => {
            let k = match r.below(7) {
                0 => 0,
                1 => 7 + r.u64() % 1000,
                2 => u64::MAX - r.below(3) as u64,
                3 => (1 << 32) + id,
                4 => (1 << 8) + id,
                5 => 5 + r.below(2) as u64,
                _ => u64::MAX - id + 1,
            };
            ("unknown field", b, k)
        }
    };
    match c_compile(&b, id)? {
        Ok(_) => Err(viol!("bad-accepted", "{what} (field {id}) compiled")),
        Err(m) => {
            if what == "unknown field" {
                ensure!(m.contains(&id.to_string()), "error-text", "the error for field {id} reads {m:?}");
            }
            o.count(
                match what {
                    "bytes cut short" => "sources cut short refused",
                    "unknown field" => "unknown fields refused",
                    _ => "sources of another field refused",
                },
                1,
            );
            o.distinct(&(what, id, b.len(), hash(&b)));
            Ok(())
        }
    }
}
fn hash(b: &[u8]) -> u64 {
    use std::hash::{Hash, Hasher};
    let mut h = std::collections::hash_map::DefaultHasher::new();
    b.hash(&mut h);
    h.finish()
}
fn bad_case(r: &mut Rng, o: &mut Obs) -> CaseResult {
    let id = *r.pick(&FIELDS);
    by_id!(id, bad_field(r, o))
}
struct File(PathBuf);
impl Drop for File {
    fn drop(&mut self) {
        let _ = std::fs::remove_file(&self.0);
    }
}
fn circuit_file(r: &mut Rng, b: &[u8]) -> (String, File) {
    let n = FILES.fetch_add(1, Ordering::Relaxed);
    let stem = *r.pick(&["circuit", "c", "Schaltkreis äöü", "a b", "電路"]);
    let f = DIR.get().unwrap().join(format!("{stem}-{}-{n}.{}", std::process::id(), r.pick(&["txt", "bin", "x"])));
    std::fs::write(&f, b).unwrap();
    (f.to_str().unwrap().to_string(), File(f))
}
fn prove_field<C: Config>(id: u64, r: &mut Rng, o: &mut Obs) -> CaseResult {
    let (p, ins, pubs) = program::<C>(r);
    let Ok((wb, lb)) = c_compile(&bytes(&lower(&p)), id)? else {
        o.count("programs declined through the C interface", 1);
        return Ok(());
    };
    let built = artefacts::<C>(&wb, &lb)?;
    let reg = registry::<C>();
    let pack = SIMDField::<C>::PACK_SIZE;
    // assignments whose witnesses can be solved
    let mut asg = assignments(r, &p, &ins, &pubs, 12);
    asg.retain(|(i, q)| matches!(catch(|| built.ws.solve_witness_from_raw_inputs(i.clone(), q.clone(), &reg)), Ok(Ok(_))));
    if asg.is_empty() {
        o.count("programs without a solvable assignment", 1);
        return Ok(());
    }
    let solve = |r: &mut Rng, from: &[(Vec<F<C>>, Vec<F<C>>)]| -> Result<Witness<C>, Violation> {
        let some = r.range(1, pack);
        let n = *r.pick(&[1, 1, pack, some]);
        let pick: Vec<_> = (0..n).map(|_| from[r.below(from.len())].clone()).collect();
        let w = catch(|| built.ws.solve_witnesses_from_raw_inputs(n, |k| pick[k].clone(), &reg));
        match w {
            Ok(Ok(w)) => Ok(w),
            e => Err(viol!("solver", "solving {n} solvable assignments at once fails: {:?}", e.map(|e| e.map(|_| ())))),
        }
    };
    // per lane: the outputs, and whether the constraints hold
    let judge = |w: &Witness<C>| -> Result<(Vec<Vec<F<C>>>, bool), Violation> {
        let mut outs = vec![];
        let mut all = true;
        for (i, q) in w.iter_scalar().take(pack) {
            let (out, ok) = layeval::run(&built.lc, &i, &q, 77).map_err(|e| viol!("layered-malformed", "{e}"))?;
            outs.push(out);
            all &= ok;
        }
        Ok((outs, all))
    };
    // mostly true witnesses
    let mut truthful = vec![];
    for a in &asg {
        let w = built.ws.solve_witness_from_raw_inputs(a.0.clone(), a.1.clone(), &reg).unwrap();
        if judge(&w)?.1 {
            truthful.push(a.clone());
        }
    }
    let w = if !truthful.is_empty() && r.chance(3, 4) { solve(r, &truthful)? } else { solve(r, &asg)? };
    let (outs, holds) = judge(&w)?;
    let (name, _file) = circuit_file(r, &lb);
    let wbytes = bytes(&w);
    let proof = c_prove(&name, &wbytes, id)?;
    ensure!(!proof.is_empty(), "no-proof", "the proof is empty");
    ensure!(std::fs::read(&name).map(|b| b == lb).unwrap_or(false), "file-changed", "proving changed the circuit file");
    o.distinct(&(id, fingerprint(&p), w.num_witnesses, holds));
    let v = c_verify(&name, &wbytes, &proof, id)?;
    ensure!(v || !holds, "true-refused", "the proof of {} true witnesses is refused: {}", w.num_witnesses, render(&p));
    ensure!(!v || holds, "false-accepted", "the proof of a false witness is accepted: {}", render(&p));
    o.count(if v { "true proofs accepted" } else { "proofs of false witnesses refused" }, 1);
    // the same proof once more, from the same bytes
    ensure!(c_verify(&name, &wbytes, &proof, id)? == v, "verdict", "verifying twice gives two verdicts");
    ensure!(c_prove(&name, &wbytes, id)? == proof, "proof-differs", "proving twice gives two proofs");
    if !holds {
        return Ok(());
    }
    // another witness with this proof
    for _ in 0..2 {
        let w2 = solve(r, &asg)?;
        let (a, b) = (w.to_simd::<SIMDField<C>>(), w2.to_simd::<SIMDField<C>>());
        let (outs2, holds2) = judge(&w2)?;
        let got = c_verify(&name, &bytes(&w2), &proof, id)?;
        if a.0 != b.0 {
            ensure!(!got, "other-witness", "the proof is accepted for a witness with other inputs: {}", render(&p));
            o.count("other witnesses refused", 1);
        } else if !holds2 {
            ensure!(!got, "other-public", "the proof is accepted for public inputs that make it false: {}", render(&p));
            o.count("other public inputs refused", 1);
        } else if a.1 == b.1 && outs.len() == outs2.len() {
            ensure!(got, "true-refused", "the proof is refused for an equal witness: {}", render(&p));
        }
    }
    // public inputs that make the statement false
    if w.num_public_inputs_per_witness > 0 {
        for _ in 0..3 {
            let mut lanes: Vec<(Vec<F<C>>, Vec<F<C>>)> = w.iter_scalar().collect();
            let k = r.below(lanes.len());
            let j = r.below(w.num_public_inputs_per_witness);
            lanes[k].1[j] = rand_field::<C>(r);
            let w2 = Witness::<C> {
                num_witnesses: lanes.len(),
                num_inputs_per_witness: w.num_inputs_per_witness,
                num_public_inputs_per_witness: w.num_public_inputs_per_witness,
                values: expander_compiler::circuit::layered::witness::WitnessValues::Scalar(lanes.iter().flat_map(|(i, q)| i.iter().chain(q).cloned()).collect()),
            };
            let (outs2, holds2) = judge(&w2)?;
            let got = c_verify(&name, &bytes(&w2), &proof, id)?;
            if !holds2 {
                ensure!(!got, "other-public", "the proof is accepted for public inputs that make it false: {}", render(&p));
                o.count("other public inputs refused", 1);
            } else if outs == outs2 {
                ensure!(got, "true-refused", "public inputs on which nothing depends make the proof refused: {}", render(&p));
            }
        }
    }
    // bytes that are no proof, and proofs that were tampered with
    for _ in 0..4 {
        let mut bad = proof.clone();
        let what = match r.below(5) {
            0 => {
                bad.truncate(r.below(proof.len()));
                "cut short"
            }
            1 => {
                bad.clear();
                "empty"
            }
            2 => {
                bad = r.bytes(proof.len().min(200));
                "random bytes"
            }
            3 => {
                // the claimed value is the last thing written
                let n = bad.len();
                let k = n - 1 - r.below(4.min(n));
                bad[k] ^= 1 << r.below(7);
                "the claimed value"
            }
            _ => {
                let k = r.below(bad.len());
                bad[k] ^= 1 << r.below(8);
                "one bit"
            }
        };
        // another encoding of the same inputs and claim is no forgery
        let contents = |b: &[u8]| {
            let (p, v) = executor::load_proof_and_claimed_v::<ChallengeField<C>>(b).ok()?;
            Some((shimcore::gkr::proof_inputs::<C::FieldConfig>(&p.bytes)?, v))
        };
        if contents(&bad) == contents(&proof) {
            continue;
        }
        ensure!(!c_verify(&name, &wbytes, &bad, id)?, "tampered-accepted", "a proof with {what} changed is accepted");
        o.count("tampered proofs refused", 1);
    }
    Ok(())
}
fn prove_case(r: &mut Rng, o: &mut Obs) -> CaseResult {
    let id = *r.pick(&FIELDS);
    by_id!(id, prove_field(r, o))
}
/// Nothing stays allocated after the caller has freed what it was given.
fn leak_field<C: Config>(id: u64, r: &mut Rng, o: &mut Obs) -> CaseResult {
    let mut least = usize::MAX;
    let mut used = 0;
    let (p, ins, pubs) = program::<C>(r);
    let src = bytes(&lower(&p));
    let ok = c_compile(&src, id)?;
    let reg = registry::<C>();
    let run: Box<dyn Fn() -> Result<usize, Violation>> = match (ok, r.below(2)) {
        (Ok((wb, lb)), 0) => {
            let built = artefacts::<C>(&wb, &lb)?;
            match catch(|| built.ws.solve_witness_from_raw_inputs(ins.clone(), pubs.clone(), &reg)) {
                Ok(Ok(w)) => {
                    let (name, file) = circuit_file(r, &lb);
                    let wbytes = bytes(&w);
                    Box::new(move || {
                        let _ = &file;
                        let p = c_prove(&name, &wbytes, id)?;
                        c_verify(&name, &wbytes, &p, id)?;
                        Ok(p.len())
                    })
                }
                _ => return Ok(()),
            }
        }
        (ok, _) => Box::new(move || {
            c_compile(&src, id)?;
            Ok(match &ok {
                Ok((w, l)) => w.len().min(l.len()),
                Err(e) => e.len(),
            })
        }),
    };
    // each batch in a thread of its own: what the allocator keeps per thread goes when it ends
    struct Moved<'a>(&'a dyn Fn() -> Result<usize, Violation>);
    unsafe impl Send for Moved<'_> {}
    let batch = |n: usize| -> Result<usize, Violation> {
        let m = Moved(&*run);
        std::thread::scope(|s| {
            s.spawn(move || {
                let m = m;
                let mut used = 0;
                for _ in 0..n {
                    used = (m.0)()?;
                }
                Ok(used)
            })
            .join()
            .unwrap()
        })
    };
    batch(4)?;
    for _ in 0..3 {
        let before = in_use();
        used = batch(20)?;
        least = least.min(in_use().saturating_sub(before));
    }
    o.count("bytes left behind", least as u64);
    ensure!(least < 600, "leak", "20 calls returning {used} bytes each leave {least} bytes allocated");
    o.count("repetitions watched for leaks", 64);
    o.distinct(&(id, fingerprint(&p)));
    Ok(())
}
fn leak_case(r: &mut Rng, o: &mut Obs) -> CaseResult {
    let id = *r.pick(&FIELDS);
    by_id!(id, leak_field(r, o))
}
fn g01(d: &mut Driver) {
    DIR.get_or_init(|| d.scratch.clone());
    d.scenario("interface version", |_, o| {
        let v = unsafe { abi_version() };
        ensure!(v == 4, "abi", "the interface version is {v}; the Go wrapper expects 4");
        o.count("interface version", v);
        Ok(())
    });
    d.cases("compiling", d.n(3000, 60000), compile_case);
    d.cases("bad sources", d.n(1500, 20000), bad_case);
    d.cases("proving", d.n(1500, 30000), prove_case);
    d.cases_seq("leaks", d.n(60, 1000), leak_case);
}
/// The same calls with AddressSanitizer watching, every array lent exactly as long as it says.
fn m01(d: &mut Driver) {
    DIR.get_or_init(|| d.scratch.clone());
    vp::asan::awake(d);
    d.cases("compiling", d.n(2500, 40000), compile_case);
    d.cases("bad sources", d.n(1500, 20000), bad_case);
    d.cases("proving", d.n(1200, 20000), prove_case);
}
fn main() {
    vpc::main(&[
        Check { id: "G01", rule: "one program with the calls made for it; distinct = different (field, program, witnesses)", run: g01 },
        Check { id: "M01", rule: "The C library touches no memory but what it was lent and what it owns.", run: m01 },
    ]);
}
