//! Kernels written with the kernel macro and called with the call macro.
use arith::{Field as _, SimdField as _};
use expander_compiler::circuit::config::*;
use expander_compiler::frontend::*;
use expander_compiler::zkcuda::context::*;
use expander_compiler::zkcuda::kernel::*;
use expander_compiler::zkcuda::proving_system::{DummyProvingSystem, ProvingSystem};
use expander_compiler::zkcuda::shape::*;
use serde_json::json;
use std::cell::Cell;
use vp::by_field;
use vp::lang::{registry, F};
use vp::zkmodel::{prod, rand_simd, to_device, Ctx, S};
use vpc::{catch, ensure, hash_of, viol, CaseResult, Check, Driver, Obs, Rng};

thread_local! {
    /// The coefficients of the body that is compiled next.
    static SEED: Cell<u64> = const { Cell::new(0) };
}
/// A coefficient of the element of argument `arg` at the nested position `path`.
fn weight(seed: u64, what: u32, arg: usize, path: &[usize]) -> u32 {
    let h = hash_of(&(seed, what, arg, path));
    match h % 4 {
        0 => 0,
        1 => 1,
        _ => (h >> 8) as u32 & 0x3fff_ffff,
    }
}

// ---------------------------------------------------------------- bodies
trait Nest {
    fn each(&self, path: &mut Vec<usize>, f: &mut dyn FnMut(&[usize], Variable));
    fn each_mut(&mut self, path: &mut Vec<usize>, f: &mut dyn FnMut(&[usize], &mut Variable));
}
impl Nest for Variable {
    fn each(&self, path: &mut Vec<usize>, f: &mut dyn FnMut(&[usize], Variable)) {
        f(path, *self)
    }
    fn each_mut(&mut self, path: &mut Vec<usize>, f: &mut dyn FnMut(&[usize], &mut Variable)) {
        f(path, self)
    }
}
impl<T: Nest> Nest for Vec<T> {
    fn each(&self, path: &mut Vec<usize>, f: &mut dyn FnMut(&[usize], Variable)) {
        for (i, x) in self.iter().enumerate() {
            path.push(i);
            x.each(path, f);
            path.pop();
        }
    }
    fn each_mut(&mut self, path: &mut Vec<usize>, f: &mut dyn FnMut(&[usize], &mut Variable)) {
        for (i, x) in self.iter_mut().enumerate() {
            path.push(i);
            x.each_mut(path, f);
            path.pop();
        }
    }
}
enum Arg<'a> {
    In(&'a dyn Nest),
    Out(&'a mut dyn Nest),
    InOut(&'a mut dyn Nest),
}
/// Two sums over everything read; every element written is a polynomial in them and its old value.
fn body<C: Config>(api: &mut API<C>, args: &mut [Arg]) {
    let seed = SEED.with(|s| s.get());
    let k = |w: u32| F::<C>::from(w);
    let mut sums = [api.constant(1), api.constant(2)];
    for (i, a) in args.iter().enumerate() {
        let x: &dyn Nest = match a {
            Arg::In(x) => *x,
            Arg::InOut(x) => &**x,
            Arg::Out(_) => continue,
        };
        x.each(&mut vec![], &mut |p, v| {
            for (j, s) in sums.iter_mut().enumerate() {
                let t = api.mul(v, k(weight(seed, j as u32, i, p)));
                *s = api.add(*s, t);
            }
        });
    }
    let sq = api.mul(sums[0], sums[1]);
    for (i, a) in args.iter_mut().enumerate() {
        let (x, old): (&mut dyn Nest, bool) = match a {
            Arg::In(_) => continue,
            Arg::Out(x) => (&mut **x, false),
            Arg::InOut(x) => (&mut **x, true),
        };
        x.each_mut(&mut vec![], &mut |p, v| {
            let mut r = api.constant(k(weight(seed, 10, i, p)));
            for (j, s) in [sums[0], sums[1], sq].iter().enumerate() {
                let t = api.mul(*s, k(weight(seed, 11 + j as u32, i, p)));
                r = api.add(r, t);
            }
            if old {
                let t = api.mul(*v, k(weight(seed, 20, i, p)));
                r = api.add(r, t);
            }
            *v = r;
        });
    }
}

// ---------------------------------------------------------------- kernels
const A: usize = 2;
const B: usize = 3;

#[kernel]
fn scalars<C: Config>(api: &mut API<C>, x: &InputVariable, y: &mut OutputVariable) {
    body(api, &mut [Arg::In(x), Arg::Out(y)]);
}
#[kernel]
fn vectors<C: Config>(api: &mut API<C>, x: &[InputVariable; 5], y: &mut [OutputVariable; 2]) {
    body(api, &mut [Arg::In(x), Arg::Out(y)]);
}
#[kernel]
fn matrices<C: Config>(api: &mut API<C>, x: &[[InputVariable; 3]; 2], y: &mut [[OutputVariable; 2]; 3], z: &InputVariable) {
    body(api, &mut [Arg::In(x), Arg::Out(y), Arg::In(z)]);
}
#[kernel]
fn cube_in<C: Config>(api: &mut API<C>, x: &[[[InputVariable; 2]; 3]; 4], y: &mut [OutputVariable; 1]) {
    body(api, &mut [Arg::In(x), Arg::Out(y)]);
}
#[kernel]
fn output_first<C: Config>(api: &mut API<C>, y: &mut [[[OutputVariable; 4]; 1]; 3], x: &[[InputVariable; 1]; 6]) {
    body(api, &mut [Arg::Out(y), Arg::In(x)]);
}
#[kernel]
fn in_place<C: Config>(api: &mut API<C>, x: &mut [InputOutputVariable; 4], y: &[[InputVariable; 2]; 2]) {
    body(api, &mut [Arg::InOut(x), Arg::In(y)]);
}
#[kernel]
fn mixed<C: Config>(
    api: &mut API<C>,
    x: &mut [[[InputOutputVariable; 2]; 2]; 3],
    s: &mut InputOutputVariable,
    t: &mut OutputVariable,
    u: &[InputVariable; 1],
) {
    body(api, &mut [Arg::InOut(x), Arg::InOut(s), Arg::Out(t), Arg::In(u)]);
}
#[kernel]
fn named_sizes<C: Config>(api: &mut API<C>, x: &[[[InputVariable; A]; B]; A], y: &mut [[OutputVariable; B]; A]) {
    body(api, &mut [Arg::In(x), Arg::Out(y)]);
}
#[kernel]
fn sums_of_sizes<C: Config>(api: &mut API<C>, x: &[[InputVariable; A + 1]; B + 1], y: &mut [[OutputVariable; A + B]; B - 1]) {
    body(api, &mut [Arg::In(x), Arg::Out(y)]);
}
#[kernel]
fn computed_cubes<C: Config>(
    api: &mut API<C>,
    x: &[[[InputVariable; B + 1]; A + 1]; 2],
    y: &mut [[[OutputVariable; A + B]; B - 1]; A + 1],
) {
    body(api, &mut [Arg::In(x), Arg::Out(y)]);
}
#[kernel]
fn four_axes<C: Config>(api: &mut API<C>, x: &[[[[InputVariable; 2]; 3]; 1]; 2], y: &mut [[[[OutputVariable; 1]; 3]; 2]; 2]) {
    body(api, &mut [Arg::In(x), Arg::Out(y)]);
}
#[kernel]
fn five_axes<C: Config>(api: &mut API<C>, y: &mut [[[[[InputOutputVariable; 2]; 1]; 3]; 2]; 2], x: &InputVariable) {
    body(api, &mut [Arg::InOut(y), Arg::In(x)]);
}
#[kernel]
fn many<C: Config>(
    builder: &mut API<C>,
    a: &InputVariable,
    b: &[InputVariable; 2],
    c: &mut [OutputVariable; 3],
    d: &mut InputOutputVariable,
    e: &[[InputVariable; 2]; 2],
    f: &mut [[OutputVariable; 1]; 2],
    g: &[InputVariable; 7],
    h: &mut OutputVariable,
) {
    body(builder, &mut [Arg::In(a), Arg::In(b), Arg::Out(c), Arg::InOut(d), Arg::In(e), Arg::Out(f), Arg::In(g), Arg::Out(h)]);
}
#[kernel]
fn ones<C: Config>(api: &mut API<C>, x: &[[InputVariable; 1]; 1], y: &mut [[[OutputVariable; 1]; 1]; 1]) {
    body(api, &mut [Arg::In(x), Arg::Out(y)]);
}
#[kernel]
fn written_elementwise<C: Config>(api: &mut API<C>, x: &[[InputVariable; 2]; 3], y: &mut [[OutputVariable; 3]; 2]) {
    // indexing instead of iteration: a transposition
    for i in 0..3 {
        for j in 0..2 {
            y[j][i] = x[i][j];
        }
    }
}
#[kernel]
fn swapped<C: Config>(_api: &mut API<C>, x: &mut [InputOutputVariable; 3], y: &mut [InputOutputVariable; 3]) {
    std::mem::swap(x, y);
    x.swap(0, 2);
}

#[derive(Clone, Debug)]
struct Decl {
    dims: Vec<usize>,
    inp: bool,
    out: bool,
}
type Hs = Vec<DeviceMemoryHandle>;
struct Known<C: Config> {
    name: &'static str,
    args: Vec<Decl>,
    compile: fn() -> Result<KernelPrimitive<C>, Error>,
    /// Calls the kernel and returns the handles written `mut`, which are the outputs in order.
    call: fn(&mut Ctx<C>, &KernelPrimitive<C>, usize, Hs) -> Result<Hs, String>,
    /// What the kernel computes from its arguments, when that is not `body`.
    other: Option<fn(&mut [Vec<F<C>>])>,
}
macro_rules! calls {
    ($($all:ident)* ; $($arg:tt)*) => {
        |ctx, k, n, h| {
            let mut it = h.into_iter();
            $(#[allow(unused_mut)] let mut $all = it.next().unwrap();)*
            calls!(@ ctx k n ; [] $($arg)* ; $($arg)*)
        }
    };
    (@ $ctx:ident $k:ident $n:ident ; [$($m:ident)*] mut $a:ident, $($rest:tt)*) => { calls!(@ $ctx $k $n ; [$($m)* $a] $($rest)*) };
    (@ $ctx:ident $k:ident $n:ident ; [$($m:ident)*] mut $a:ident ; $($arg:tt)*) => { calls!(@ $ctx $k $n ; [$($m)* $a] ; $($arg)*) };
    (@ $ctx:ident $k:ident $n:ident ; [$($m:ident)*] $a:ident, $($rest:tt)*) => { calls!(@ $ctx $k $n ; [$($m)*] $($rest)*) };
    (@ $ctx:ident $k:ident $n:ident ; [$($m:ident)*] $a:ident ; $($arg:tt)*) => { calls!(@ $ctx $k $n ; [$($m)*] ; $($arg)*) };
    (@ $ctx:ident $k:ident $n:ident ; [$($m:ident)*] ; $($arg:tt)*) => {{
        let res: Result<(), Error> = call_kernel!($ctx, $k, $n, $($arg)*);
        res.map_err(|e| format!("{e:?}"))?;
        Ok(vec![$($m),*])
    }};
}
fn i(d: &[usize]) -> Decl {
    Decl { dims: d.to_vec(), inp: true, out: false }
}
fn o(d: &[usize]) -> Decl {
    Decl { dims: d.to_vec(), inp: false, out: true }
}
fn io(d: &[usize]) -> Decl {
    Decl { dims: d.to_vec(), inp: true, out: true }
}
fn family<C: Config>() -> Vec<Known<C>> {
    macro_rules! k {
        ($name:ident $c:ident [$($a:expr),*] $call:expr) => { k!($name $c [$($a),*] $call, None) };
        ($name:ident $c:ident [$($a:expr),*] $call:expr, $other:expr) => {
            Known { name: stringify!($name), args: vec![$($a),*], compile: $c::<C>, call: $call, other: $other }
        };
    }
    vec![
        k!(scalars compile_scalars [i(&[]), o(&[])] calls!(a b ; a, mut b)),
        k!(vectors compile_vectors [i(&[5]), o(&[2])] calls!(a b ; a, mut b)),
        k!(matrices compile_matrices [i(&[2, 3]), o(&[3, 2]), i(&[])] calls!(a b c ; a, mut b, c)),
        k!(cube_in compile_cube_in [i(&[4, 3, 2]), o(&[1])] calls!(a b ; a, mut b)),
        k!(output_first compile_output_first [o(&[3, 1, 4]), i(&[6, 1])] calls!(a b ; mut a, b)),
        k!(in_place compile_in_place [io(&[4]), i(&[2, 2])] calls!(a b ; mut a, b)),
        k!(mixed compile_mixed [io(&[3, 2, 2]), io(&[]), o(&[]), i(&[1])] calls!(a b c d ; mut a, mut b, mut c, d)),
        k!(named_sizes compile_named_sizes [i(&[2, 3, 2]), o(&[2, 3])] calls!(a b ; a, mut b)),
        k!(sums_of_sizes compile_sums_of_sizes [i(&[4, 3]), o(&[2, 5])] calls!(a b ; a, mut b)),
        k!(computed_cubes compile_computed_cubes [i(&[2, 3, 4]), o(&[3, 2, 5])] calls!(a b ; a, mut b)),
        k!(four_axes compile_four_axes [i(&[2, 1, 3, 2]), o(&[2, 2, 3, 1])] calls!(a b ; a, mut b)),
        k!(five_axes compile_five_axes [io(&[2, 2, 3, 1, 2]), i(&[])] calls!(a b ; mut a, b)),
        k!(many compile_many [i(&[]), i(&[2]), o(&[3]), io(&[]), i(&[2, 2]), o(&[2, 1]), i(&[7]), o(&[])]
            calls!(a b c d e f g h ; a, b, mut c, mut d, e, mut f, g, mut h)),
        k!(ones compile_ones [i(&[1, 1]), o(&[1, 1, 1])] calls!(a b ; a, mut b)),
        k!(written_elementwise compile_written_elementwise [i(&[3, 2]), o(&[2, 3])] calls!(a b ; a, mut b), Some(|v| {
            for i in 0..3 {
                for j in 0..2 {
                    v[1][3 * j + i] = v[0][2 * i + j];
                }
            }
        })),
        k!(swapped compile_swapped [io(&[3]), io(&[3])] calls!(a b ; mut a, mut b), Some(|v| {
            v.swap(0, 1);
            v[0].swap(0, 2);
        })),
    ]
}
/// All nested positions of an array, in order of their flat positions.
fn paths(dims: &[usize]) -> Vec<Vec<usize>> {
    let mut all = vec![vec![]];
    for d in dims {
        all = all.iter().flat_map(|p: &Vec<usize>| (0..*d).map(move |i| [p.clone(), vec![i]].concat())).collect();
    }
    all
}
/// One instance, in one lane.
fn reference<C: Config>(k: &Known<C>, seed: u64, v: &mut [Vec<F<C>>]) {
    if let Some(f) = k.other {
        return f(v);
    }
    let mut sums = [F::<C>::from(1u32), F::<C>::from(2u32)];
    for (i, a) in k.args.iter().enumerate().filter(|x| x.1.inp) {
        for (p, x) in paths(&a.dims).iter().zip(&v[i]) {
            for (j, s) in sums.iter_mut().enumerate() {
                *s += *x * F::<C>::from(weight(seed, j as u32, i, p));
            }
        }
    }
    let sq = sums[0] * sums[1];
    for (i, a) in k.args.iter().enumerate().filter(|x| x.1.out) {
        for (p, x) in paths(&a.dims).iter().zip(v[i].iter_mut()) {
            let mut r = F::<C>::from(weight(seed, 10, i, p));
            for (j, s) in [sums[0], sums[1], sq].iter().enumerate() {
                r += *s * F::<C>::from(weight(seed, 11 + j as u32, i, p));
            }
            if a.inp {
                r += *x * F::<C>::from(weight(seed, 20, i, p));
            }
            *x = r;
        }
    }
}
fn case<C: Config>(r: &mut Rng, o: &mut Obs) -> CaseResult {
    let fam = family::<C>();
    let k = r.pick(&fam);
    let seed = r.u64();
    SEED.with(|s| s.set(seed));
    let prim = (k.compile)().map_err(|e| viol!("declined", "{} does not compile: {e:?}", k.name))?;
    let shapes: Vec<Vec<usize>> = k.args.iter().map(|a| a.dims.clone()).collect();
    ensure!(*prim.io_shapes() == shapes, "shapes", "{}: shapes {:?} instead of {shapes:?}", k.name, prim.io_shapes());
    for (s, a) in prim.io_specs().iter().zip(&k.args) {
        ensure!(
            (s.len, s.is_input, s.is_output) == (prod(&a.dims), a.inp, a.out),
            "specs",
            "{}: {} elements, input {}, output {} declared for {a:?}",
            k.name,
            s.len,
            s.is_input,
            s.is_output
        );
    }
    ensure!(prim.io_specs().len() == k.args.len(), "specs", "{}: {} arguments", k.name, prim.io_specs().len());
    let mut ctx: Ctx<C> = Context::new(registry::<C>());
    let rounds = r.range(1, 3);
    let mut ran = vec![];
    // values each handle must have at the end
    let mut written: Vec<(DeviceMemoryHandle, Vec<usize>, Vec<S<C>>)> = vec![];
    let mut inputs = vec![];
    for _ in 0..rounds {
        let n = *r.pick(&[1, 1, 2, 3, 4, 5, 8]);
        let mut handles: Hs = vec![];
        let mut data: Vec<Vec<S<C>>> = vec![];
        let mut shared = vec![];
        for a in &k.args {
            let len = prod(&a.dims);
            // an output of an earlier call with as many instances, of the same shape
            let earlier: Vec<usize> = (0..written.len()).filter(|w| written[*w].1 == [vec![n], a.dims.clone()].concat()).collect();
            let b = a.inp && !a.out && r.chance(1, 4);
            shared.push(b);
            if !a.inp {
                data.push(vec![S::<C>::zero(); n * len]);
                // what a handle held before does not matter for an output
                handles.push(if r.chance(1, 3) && !written.is_empty() { r.pick(&written).0.clone() } else { None });
                continue;
            }
            if !b && !earlier.is_empty() && r.chance(1, 2) {
                let (h, _, d) = &written[*r.pick(&earlier)];
                data.push(d.clone());
                handles.push(h.clone());
                continue;
            }
            let d = rand_simd::<C>(r, if b { len } else { n * len });
            let shape = if b { a.dims.clone() } else { [vec![n], a.dims.clone()].concat() };
            let h = to_device(r, &mut ctx, &shape, &d);
            handles.push(h.clone());
            inputs.push((h, d.clone()));
            data.push(if b { (0..n).flat_map(|_| d.clone()).collect() } else { d });
        }
        let outs = match catch(|| (k.call)(&mut ctx, &prim, n, handles)) {
            Ok(Ok(x)) => x,
            Ok(Err(e)) => return Err(viol!("refused", "{} with {n} instances: {e}", k.name)),
            Err(e) => return Err(viol!("panic", "{} with {n} instances: {e}", k.name)),
        };
        // the reference, instance by instance and lane by lane
        let mut want = data.clone();
        let mut lanes: Vec<Vec<Vec<F<C>>>> = data.iter().map(|d| d.iter().map(|x| x.unpack()).collect()).collect();
        for inst in 0..n {
            for l in 0..S::<C>::PACK_SIZE {
                let mut v: Vec<Vec<F<C>>> = vec![];
                for (i, a) in k.args.iter().enumerate() {
                    let len = prod(&a.dims);
                    v.push((0..len).map(|p| lanes[i][inst * len + p][l]).collect());
                }
                reference(k, seed, &mut v);
                for (i, a) in k.args.iter().enumerate().filter(|x| x.1.out) {
                    let len = prod(&a.dims);
                    for p in 0..len {
                        lanes[i][inst * len + p][l] = v[i][p];
                    }
                }
            }
        }
        for (w, l) in want.iter_mut().zip(&lanes) {
            *w = l.iter().map(|x| S::<C>::pack(x)).collect();
        }
        let which: Vec<usize> = (0..k.args.len()).filter(|i| k.args[*i].out).collect();
        for (h, i) in outs.into_iter().zip(which) {
            let shape = [vec![n], k.args[i].dims.clone()].concat();
            let got: Vec<S<C>> = ctx.copy_simd_to_host(h.reshape(&[prod(&shape)]));
            ensure!(got == want[i], "wrong-value", "{} (coefficients {seed}) with {n} instances: argument {i} is {:?} instead of {:?}", k.name, got.iter().map(|x| x.unpack()[0]).collect::<Vec<_>>(), want[i].iter().map(|x| x.unpack()[0]).collect::<Vec<_>>());
            o.count("output elements compared", got.len() as u64);
            written.push((h, shape, want[i].clone()));
        }
        ran.push((n, shared));
    }
    // nothing written has changed since
    for (h, s, d) in &written {
        let got: Vec<S<C>> = ctx.copy_simd_to_host(h.reshape(&[prod(s)]));
        ensure!(got == *d, "changed", "{}: a later call changed an earlier output", k.name);
    }
    for (h, d) in &inputs {
        let got: Vec<S<C>> = ctx.copy_simd_to_host(h.reshape(&[d.len()]));
        ensure!(got == *d, "changed", "{}: a call changed its inputs", k.name);
    }
    o.count("calls by macro", ran.len() as u64);
    o.distinct(&(C::CONFIG_ID, k.name, seed, &ran));
    if o.wants_sample() {
        o.sample(json!({"kernel": k.name, "calls": format!("{ran:?}")}));
    }
    if r.chance(1, 3) {
        prove(r, &mut ctx, k.name, o)?;
    }
    Ok(())
}
/// The session is proved like one with hand-written kernels.
fn prove<C: Config>(_r: &mut Rng, ctx: &mut Ctx<C>, name: &str, o: &mut Obs) -> CaseResult {
    let run = || -> Result<bool, String> {
        let cg = ctx.compile_computation_graph().map_err(|e| format!("{e:?}"))?;
        ctx.solve_witness().map_err(|e| format!("{e:?}"))?;
        #[allow(deprecated)]
        {
            let (ps, vs) = DummyProvingSystem::<C>::setup(&cg);
            let proof = DummyProvingSystem::<C>::prove(&ps, &cg, ctx.export_device_memories());
            Ok(DummyProvingSystem::<C>::verify(&vs, &cg, &proof))
        }
    };
    match catch(run) {
        Ok(Ok(true)) => o.count("sessions proved", 1),
        Ok(Ok(false)) => return Err(viol!("not-accepted", "a session of {name} is proved, but not accepted")),
        Ok(Err(e)) | Err(e) => return Err(viol!("not-proved", "a session of {name}: {e}")),
    }
    Ok(())
}
/// Every argument counts: handing over the wrong number or shape is refused.
fn misuse<C: Config>(r: &mut Rng, o: &mut Obs) -> CaseResult {
    let fam = family::<C>();
    let k = r.pick(&fam);
    let seed = r.u64();
    SEED.with(|s| s.set(seed));
    let prim = (k.compile)().map_err(|e| viol!("declined", "{} does not compile: {e:?}", k.name))?;
    let mut ctx: Ctx<C> = Context::new(registry::<C>());
    let n = r.range(2, 4);
    let ins: Vec<usize> = (0..k.args.len()).filter(|i| k.args[*i].inp).collect();
    let bad = *r.pick(&ins);
    let mut hs = vec![];
    let mut how = String::new();
    for (i, a) in k.args.iter().enumerate() {
        if !a.inp {
            hs.push(None);
            continue;
        }
        let mut shape = [vec![n], a.dims.clone()].concat();
        if i == bad {
            match r.below(4) {
                0 => shape[0] += 1,
                1 => *shape.last_mut().unwrap() += 1,
                2 => shape.push(2),
                _ => {
                    how = format!("argument {i} missing");
                    hs.push(None);
                    continue;
                }
            }
            how = format!("argument {i} of shape {shape:?}");
        }
        let d = rand_simd::<C>(r, prod(&shape));
        hs.push(to_device(r, &mut ctx, &shape, &d));
    }
    let got = catch(|| (k.call)(&mut ctx, &prim, n, hs));
    ensure!(!matches!(got, Ok(Ok(_))), "misuse-accepted", "{} with {n} instances accepted {how}", k.name);
    o.count("misuses refused", 1);
    o.distinct(&(k.name, n, &how));
    Ok(())
}
fn z12(d: &mut Driver) {
    d.cases("calls", d.n(3000, 100_000), |r, o| by_field!(o.case, case(r, o)));
    d.cases("misuse", d.n(300, 5000), |r, o| by_field!(o.case, misuse(r, o)));
}
fn main() {
    vpc::main(&[Check { id: "Z12", rule: "one session of calls of one kernel; distinct = different (field, kernel, coefficients, numbers of instances, broadcasts)", run: z12 }]);
}
