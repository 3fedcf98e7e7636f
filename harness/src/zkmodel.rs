//! Model of kernels, device arrays and sessions: the oracle of the zkcuda checks.
use crate::front::{self, Plan};
use crate::lang::*;
use arith::SimdField as _;
use expander_compiler::circuit::config::{Config, SIMDField};
use expander_compiler::frontend::HintRegistry;
use expander_compiler::zkcuda::context::*;
use expander_compiler::zkcuda::kernel::*;
use expander_compiler::zkcuda::shape::{Reshape, Transpose};
use std::rc::Rc;
use vpc::{catch, ensure, viol, CaseResult, Obs, Rng, Violation};

pub type S<C> = SIMDField<C>;
pub type Ctx<C> = Context<C, HintRegistry<F<C>>>;
/// The message of the documented refusal to mix incompatible splittings.
pub const ILLEGAL: &str = "Detected illegal shape operation";

// ---------------------------------------------------------------- arrays
pub fn prod(s: &[usize]) -> usize {
    s.iter().product()
}
pub fn p2(n: usize) -> usize {
    let mut x = 1;
    while x < n {
        x *= 2;
    }
    x
}
pub fn transpose<T: Clone>(shape: &[usize], data: &[T], axes: &[usize]) -> (Vec<usize>, Vec<T>) {
    let ns: Vec<usize> = axes.iter().map(|a| shape[*a]).collect();
    let mut out = Vec::with_capacity(data.len());
    let mut idx = vec![0usize; ns.len()];
    for _ in 0..prod(&ns) {
        let mut src = vec![0; shape.len()];
        for (k, a) in axes.iter().enumerate() {
            src[*a] = idx[k];
        }
        let mut flat = 0;
        for (k, x) in src.iter().enumerate() {
            flat = flat * shape[k] + x;
        }
        out.push(data[flat].clone());
        for k in (0..ns.len()).rev() {
            idx[k] += 1;
            if idx[k] < ns[k] {
                break;
            }
            idx[k] = 0;
        }
    }
    (ns, out)
}
/// Every axis rounded up to a power of two, the last slice of an axis repeated.
pub fn pad<T: Clone>(shape: &[usize], data: &[T]) -> Vec<T> {
    let ps: Vec<usize> = shape.iter().map(|x| p2(*x)).collect();
    (0..prod(&ps))
        .map(|mut i| {
            let mut at = vec![0; shape.len()];
            for k in (0..shape.len()).rev() {
                at[k] = (i % ps[k]).min(shape[k] - 1);
                i /= ps[k];
            }
            let mut flat = 0;
            for k in 0..shape.len() {
                flat = flat * shape[k] + at[k];
            }
            data[flat].clone()
        })
        .collect()
}
/// All ordered factorisations into factors above one.
pub fn factorisations(n: usize) -> Vec<Vec<usize>> {
    if n == 1 {
        return vec![vec![]];
    }
    let mut res = vec![];
    for d in 2..=n {
        if n % d == 0 {
            for mut f in factorisations(n / d) {
                f.insert(0, d);
                res.push(f);
            }
        }
    }
    res
}
/// A random shape of `n` elements.
pub fn rand_shape(r: &mut Rng, n: usize, ones: bool) -> Vec<usize> {
    let mut s = vec![];
    let mut rest = n;
    while rest > 1 {
        let ds: Vec<usize> = (2..=rest).filter(|d| rest % d == 0).collect();
        let d = if r.chance(1, 3) { rest } else { *r.pick(&ds) };
        s.push(d);
        rest /= d;
    }
    if ones {
        while s.len() < 5 && r.chance(1, 4) {
            let at = r.below(s.len() + 1);
            s.insert(at, 1);
        }
    }
    s
}
pub fn perm(r: &mut Rng, n: usize) -> Vec<usize> {
    let mut p: Vec<usize> = (0..n).collect();
    r.shuffle(&mut p);
    p
}

// ---------------------------------------------------------------- kernels
#[derive(Clone, Debug)]
pub struct Io {
    pub shape: Vec<usize>,
    pub inp: bool,
    pub out: bool,
}
pub struct Kern<C: Config> {
    pub prim: KernelPrimitive<C>,
    pub prog: Prog<C>,
    pub ios: Vec<Io>,
    /// An input on which the program was steered to succeed.
    pub honest: Vec<F<C>>,
}
#[derive(Clone, Debug)]
pub struct KCfg {
    pub max_in: usize,
    pub cons: bool,
    pub free: bool,
    pub subs: bool,
    pub input_only: bool,
}
impl KCfg {
    pub fn random(r: &mut Rng) -> Self {
        KCfg { max_in: *r.pick(&[2, 4, 6, 13]), cons: r.chance(1, 4), free: r.chance(1, 2), subs: r.chance(1, 3), input_only: r.chance(1, 12) }
    }
}
/// A random kernel; `Ok(None)` when the compiler declines it.
pub fn gen_kernel<C: Config>(r: &mut Rng, kc: &KCfg) -> Result<Option<Kern<C>>, Violation> {
    let mut cfg = front::front_cfg(r, false);
    cfg.max_pub = 0;
    cfg.rand = false;
    cfg.max_in = kc.max_in;
    cfg.max_ops = cfg.max_ops.min(12);
    cfg.cons = kc.cons;
    cfg.free = kc.free;
    cfg.all_live = false;
    if !kc.subs {
        cfg.max_subs = 0;
    }
    let (mut prog, honest, _) = gen_prog::<C>(r, &cfg);
    let mut ios = vec![];
    let mut left = prog.root.n_in;
    while left > 0 {
        let n = if r.chance(1, 3) { left } else { r.range(1, left) };
        ios.push(Io { shape: rand_shape(r, n, true), inp: true, out: r.chance(1, 3) && !kc.input_only });
        left -= n;
    }
    if !kc.input_only {
        for _ in 0..r.range(if ios.iter().any(|i| i.out) { 0 } else { 1 }, 2) {
            let n = r.range(1, 6);
            let at = r.below(ios.len() + 1);
            ios.insert(at, Io { shape: rand_shape(r, n, true), inp: false, out: true });
        }
    }
    let n_vars = prog.root.n_in + prog.root.ops.iter().map(|o| o.n_out()).sum::<usize>();
    let n_out: usize = ios.iter().filter(|i| i.out).map(|i| prod(&i.shape)).sum();
    prog.root.outs = (0..n_out)
        .map(|_| if n_vars > prog.root.n_in && r.chance(4, 5) { r.range(prog.root.n_in + 1, n_vars) } else { r.range(1, n_vars) })
        .collect();
    let style = r.u64();
    // the builder refuses programs that can never be satisfied
    let mut v = Verdict::default();
    kernel_ref(&prog, &honest.iter().map(|x| S::<C>::pack(&vec![*x; S::<C>::PACK_SIZE])).collect::<Vec<_>>(), &mut v);
    if !v.clean() {
        return Ok(None);
    }
    Ok(compile_kernel(&prog, &ios, style)?.map(|prim| Kern { prim, prog, ios, honest }))
}
pub fn compile_kernel<C: Config>(prog: &Prog<C>, ios: &[Io], style: u64) -> Result<Option<KernelPrimitive<C>>, Violation> {
    let specs: Vec<IOVecSpec> = ios.iter().map(|i| IOVecSpec { len: prod(&i.shape), is_input: i.inp, is_output: i.out }).collect();
    let shapes: Vec<Vec<usize>> = ios.iter().map(|i| i.shape.clone()).collect();
    let plan = Rc::new(Plan { prog: prog.clone(), style, root_values: vec![], fixed: vec![] });
    front::set_plan(plan.clone());
    let res = catch(|| {
        compile_with_spec_and_shapes::<C, _>(
            |api, io| {
                let mut ins = vec![];
                for (i, v) in ios.iter().zip(io.iter()) {
                    if i.inp {
                        ins.extend_from_slice(v);
                    }
                }
                let outs = front::replay_root::<C, _>(api, &plan, &ins);
                let mut at = 0;
                for (i, v) in ios.iter().zip(io.iter_mut()) {
                    if i.out {
                        let n = v.len();
                        v.copy_from_slice(&outs[at..at + n]);
                        at += n;
                    }
                }
            },
            &specs,
            &shapes,
        )
    });
    front::clear_plan();
    match res {
        Err(m) => Err(viol!("kernel-compile-panic", "compiling a kernel panicked: {m}: {ios:?} {}", crate::equiv::render(prog))),
        Ok(Ok(p)) => Ok(Some(p)),
        Ok(Err(e)) if e.is_user() => Ok(None),
        Ok(Err(e)) => Err(viol!("kernel-compile-internal", "compiling a kernel failed with an internal error: {e:?}: {}", crate::equiv::render(prog))),
    }
}
#[derive(Default, Clone, Copy, Debug, PartialEq, Eq)]
pub struct Verdict {
    pub con_fail: bool,
    pub op_fail: bool,
    /// Some value is not determined.
    pub soft: bool,
}
impl Verdict {
    pub fn clean(&self) -> bool {
        !self.con_fail && !self.op_fail && !self.soft
    }
}
/// What the kernel computes on one instance.
pub fn kernel_ref<C: Config>(prog: &Prog<C>, ins: &[S<C>], v: &mut Verdict) -> Vec<S<C>> {
    let lanes: Vec<Vec<F<C>>> = ins.iter().map(|x| x.unpack()).collect();
    let outs: Vec<Vec<F<C>>> = (0..S::<C>::PACK_SIZE)
        .map(|l| {
            let i: Vec<F<C>> = lanes.iter().map(|x| x[l]).collect();
            let (o, t) = RefEval::run(prog, &i, &[]);
            v.con_fail |= t.con_fail;
            v.op_fail |= t.op_fail;
            v.soft |= t.undefined || t.zero_by_zero;
            o
        })
        .collect();
    (0..prog.root.outs.len()).map(|k| S::<C>::pack(&outs.iter().map(|o| o[k]).collect::<Vec<_>>())).collect()
}

// ---------------------------------------------------------------- sessions
#[derive(Clone)]
pub struct Arr<C: Config> {
    pub h: DeviceMemoryHandle,
    pub shape: Vec<usize>,
    pub data: Vec<S<C>>,
    /// Device memory this reads (numbered in order of creation) and, for each position, the source.
    pub mem: usize,
    pub src: Vec<usize>,
}
impl<C: Config> Arr<C> {
    pub fn reshape(&self, s: &[usize]) -> Self {
        Arr { h: self.h.reshape(s), shape: s.to_vec(), ..self.clone() }
    }
    pub fn transpose(&self, axes: &[usize]) -> Self {
        let (shape, data) = transpose(&self.shape, &self.data, axes);
        let (_, src) = transpose(&self.shape, &self.src, axes);
        Arr { h: self.h.transpose(axes), shape, data, mem: self.mem, src }
    }
    pub fn plain(&self) -> bool {
        self.src.iter().enumerate().all(|(i, x)| i == *x)
    }
}
/// One kernel call as the model saw it: for every io of the kernel, the values read or written.
pub struct Call<C: Config> {
    pub kern: usize,
    pub np: usize,
    /// Per io: values read (shape `[np] + io` or, if broadcast, `io`), memory, broadcast.
    pub ins: Vec<Option<(Arr<C>, bool)>>,
    pub outs: Vec<Option<Arr<C>>>,
    pub verdict: Verdict,
}
#[derive(Clone, Debug)]
pub struct SCfg {
    pub transposes: bool,
    /// Arbitrary reshapes, which may be refused.
    pub mixed: bool,
    pub max_calls: usize,
    pub max_np: usize,
    /// Let the data of some call violate the kernel's checks.
    pub bad: bool,
    pub kern: Option<KCfg>,
    pub max_kernels: usize,
}
pub struct Session<C: Config> {
    pub ctx: Ctx<C>,
    pub kerns: Vec<Rc<Kern<C>>>,
    pub calls: Vec<Call<C>>,
    pub arrs: Vec<Arr<C>>,
    pub n_mem: usize,
    pub mem_vals: Vec<Vec<S<C>>>,
    /// What was done, to repeat it in another context.
    pub log: Vec<Step<C>>,
    /// Kernels are moved into this place before being called.
    pub slot: Option<Box<KernelPrimitive<C>>>,
}
#[derive(Clone)]
pub enum Step<C: Config> {
    Copy(Vec<S<C>>, Vec<usize>),
    /// kernel, instances, for every io the memory and the chain of shape operations
    Call(usize, usize, Vec<Option<(usize, Vec<ShOp>)>>),
}
#[derive(Clone, Debug)]
pub enum ShOp {
    Re(Vec<usize>),
    Tr(Vec<usize>),
}
pub fn rand_simd<C: Config>(r: &mut Rng, n: usize) -> Vec<S<C>> {
    let same = r.chance(1, 3);
    (0..n)
        .map(|_| {
            let x = rand_field::<C>(r);
            S::<C>::pack(&(0..S::<C>::PACK_SIZE).map(|_| if same { x } else { rand_field::<C>(r) }).collect::<Vec<_>>())
        })
        .collect()
}
macro_rules! nested {
    ($n:ident, $u:ident, $t:ty, $inner:ident, $ui:ident) => {
        pub fn $n<T: Clone>(s: &[usize], d: &[T]) -> $t {
            d.chunks(d.len() / s[0]).map(|c| $inner(&s[1..], c)).collect()
        }
        pub fn $u<T: Clone>(v: &$t, s: &mut Vec<usize>, d: &mut Vec<T>) {
            s.push(v.len());
            let at = s.len();
            for x in v {
                s.truncate(at);
                $ui(x, s, d);
            }
        }
    };
}
fn n0<T: Clone>(_: &[usize], d: &[T]) -> T {
    d[0].clone()
}
fn u0<T: Clone>(v: &T, _: &mut Vec<usize>, d: &mut Vec<T>) {
    d.push(v.clone());
}
nested!(n1, u1, Vec<T>, n0, u0);
nested!(n2, u2, Vec<Vec<T>>, n1, u1);
nested!(n3, u3, Vec<Vec<Vec<T>>>, n2, u2);
nested!(n4, u4, Vec<Vec<Vec<Vec<T>>>>, n3, u3);

/// Copies packed values to the device with the given shape, by one of the ways offered.
pub fn to_device<C: Config>(r: &mut Rng, ctx: &mut Ctx<C>, shape: &[usize], data: &[S<C>]) -> DeviceMemoryHandle {
    let pack = S::<C>::PACK_SIZE;
    let lanes: Vec<Vec<F<C>>> = data.iter().map(|x| x.unpack()).collect();
    let uniform = lanes.iter().all(|l| l.iter().all(|x| *x == l[0]));
    let flat: Vec<F<C>> = lanes.iter().map(|l| l[0]).collect();
    if uniform && r.chance(2, 3) {
        return match shape.len() {
            0 => ctx.copy_to_device(&flat[0]),
            1 => ctx.copy_to_device(&n1(shape, &flat)),
            2 => ctx.copy_to_device(&n2(shape, &flat)),
            3 => ctx.copy_to_device(&n3(shape, &flat)),
            4 => ctx.copy_to_device(&n4(shape, &flat)),
            _ => ctx.copy_to_device(&flat).reshape(shape),
        };
    }
    if r.chance(1, 3) {
        // lane-major host data
        let mut t = vec![];
        for l in 0..pack {
            t.extend(lanes.iter().map(|v| v[l]));
        }
        let mut s = vec![pack];
        s.extend_from_slice(shape);
        return match shape.len() {
            0 => ctx.copy_to_device_and_pack_simd(&n1(&s, &t)),
            1 => ctx.copy_to_device_and_pack_simd(&n2(&s, &t)),
            2 => ctx.copy_to_device_and_pack_simd(&n3(&s, &t)),
            3 => ctx.copy_to_device_and_pack_simd(&n4(&s, &t)),
            _ => ctx.copy_simd_to_device(&data.to_vec()).reshape(shape),
        };
    }
    match shape.len() {
        0 => ctx.copy_simd_to_device(&data[0]),
        1 => ctx.copy_simd_to_device(&n1(shape, data)),
        2 if r.chance(1, 2) => ctx.copy_flat_simd_to_device(data.to_vec(), shape[1]),
        2 => ctx.copy_simd_to_device(&n2(shape, data)),
        3 => ctx.copy_simd_to_device(&n3(shape, data)),
        4 => ctx.copy_simd_to_device(&n4(shape, data)),
        _ => ctx.copy_flat_simd_to_device(data.to_vec(), shape[shape.len() - 1]).reshape(shape),
    }
}
/// Reads a handle back every way offered for its depth.
pub fn read_back<C: Config>(ctx: &Ctx<C>, a: &Arr<C>, o: &mut Obs) -> CaseResult {
    let pack = S::<C>::PACK_SIZE;
    let shape = a.shape.clone();
    let scalar: Vec<F<C>> = a.data.iter().map(|x| x.unpack()[0]).collect();
    let mut lanes = vec![];
    for l in 0..pack {
        lanes.extend(a.data.iter().map(|v| v.unpack()[l]));
    }
    let run = || -> CaseResult {
        macro_rules! all {
            ($t:ident, $($w:ident)?) => {};
        }
        let _ = stringify!(all);
        fn same<T: PartialEq + Clone>(got: (Vec<usize>, Vec<T>), want: (&[usize], &[T]), how: &str) -> CaseResult {
            ensure!(got.0 == want.0, "host-shape", "{how}: shape {:?} instead of {:?}", got.0, want.0);
            ensure!(got.1 == want.1, "host-values", "{how}: values differ, shape {:?}", want.0);
            Ok(())
        }
        macro_rules! get {
            ($f:ident, $t:ty, $u:ident) => {{
                let v: $t = ctx.$f(a.h.clone());
                let (mut s, mut d) = (vec![], vec![]);
                $u(&v, &mut s, &mut d);
                (s, d)
            }};
        }
        let mut ls = vec![pack];
        ls.extend_from_slice(&shape);
        match shape.len() {
            0 => {
                same((vec![], vec![ctx.copy_to_host::<F<C>>(a.h.clone())]), (&shape, &scalar), "copy_to_host")?;
                same((vec![], vec![ctx.copy_simd_to_host::<S<C>>(a.h.clone())]), (&shape, &a.data), "copy_simd_to_host")?;
                same(get!(copy_to_host_and_unpack_simd, Vec<F<C>>, u1), (&ls, &lanes), "unpack")
            }
            1 => {
                same(get!(copy_to_host, Vec<F<C>>, u1), (&shape, &scalar), "copy_to_host")?;
                same(get!(copy_simd_to_host, Vec<S<C>>, u1), (&shape, &a.data), "copy_simd_to_host")?;
                same(get!(copy_to_host_and_unpack_simd, Vec<Vec<F<C>>>, u2), (&ls, &lanes), "unpack")
            }
            2 => {
                same(get!(copy_to_host, Vec<Vec<F<C>>>, u2), (&shape, &scalar), "copy_to_host")?;
                same(get!(copy_simd_to_host, Vec<Vec<S<C>>>, u2), (&shape, &a.data), "copy_simd_to_host")?;
                same(get!(copy_to_host_and_unpack_simd, Vec<Vec<Vec<F<C>>>>, u3), (&ls, &lanes), "unpack")
            }
            3 => {
                same(get!(copy_to_host, Vec<Vec<Vec<F<C>>>>, u3), (&shape, &scalar), "copy_to_host")?;
                same(get!(copy_simd_to_host, Vec<Vec<Vec<S<C>>>>, u3), (&shape, &a.data), "copy_simd_to_host")?;
                same(get!(copy_to_host_and_unpack_simd, Vec<Vec<Vec<Vec<F<C>>>>>, u4), (&ls, &lanes), "unpack")
            }
            4 => {
                same(get!(copy_to_host, Vec<Vec<Vec<Vec<F<C>>>>>, u4), (&shape, &scalar), "copy_to_host")?;
                same(get!(copy_simd_to_host, Vec<Vec<Vec<Vec<S<C>>>>>, u4), (&shape, &a.data), "copy_simd_to_host")
            }
            _ => {
                let f = a.reshape(&[prod(&shape)]);
                let v: Vec<S<C>> = ctx.copy_simd_to_host(f.h);
                same((vec![v.len()], v), (&[prod(&shape)], &a.data), "copy_simd_to_host")
            }
        }
    };
    o.count("values_read_back", a.data.len() as u64);
    match catch(run) {
        Ok(r) => r,
        Err(m) => Err(viol!("host-panic", "reading back a handle of shape {:?} panicked: {m}", a.shape)),
    }
}

impl<C: Config> Session<C> {
    pub fn new(kerns: Vec<Rc<Kern<C>>>) -> Self {
        Session { ctx: Context::new(registry::<C>()), kerns, calls: vec![], arrs: vec![], n_mem: 0, mem_vals: vec![], log: vec![], slot: None }
    }
    pub fn copy(&mut self, r: &mut Rng, shape: &[usize], data: Vec<S<C>>) -> Result<Arr<C>, Violation> {
        let h = catch(|| to_device(r, &mut self.ctx, shape, &data)).map_err(|m| viol!("copy-panic", "copying shape {shape:?} to the device panicked: {m}"))?;
        self.log.push(Step::Copy(data.clone(), shape.to_vec()));
        Ok(self.adopt(h, shape.to_vec(), data))
    }
    pub fn adopt(&mut self, h: DeviceMemoryHandle, shape: Vec<usize>, data: Vec<S<C>>) -> Arr<C> {
        let a = Arr { h, shape, src: (0..data.len()).collect(), mem: self.n_mem, data: data.clone() };
        self.n_mem += 1;
        self.mem_vals.push(data);
        self.arrs.push(a.clone());
        a
    }
    /// Calls a kernel; `Ok(false)` if the combination of splittings was refused.
    pub fn call(&mut self, kern: usize, np: usize, ins: Vec<Option<(Arr<C>, bool, Vec<ShOp>)>>, o: &mut Obs) -> Result<bool, Violation> {
        let k = self.kerns[kern].clone();
        let mut verdict = Verdict::default();
        let mut outs: Vec<Vec<S<C>>> = vec![vec![]; k.ios.len()];
        for q in 0..np {
            let mut iv = vec![];
            for (io, a) in k.ios.iter().zip(&ins) {
                if io.inp {
                    let (a, bc, _) = a.as_ref().unwrap();
                    let n = prod(&io.shape);
                    iv.extend_from_slice(if *bc { &a.data } else { &a.data[q * n..(q + 1) * n] });
                }
            }
            let ov = kernel_ref(&k.prog, &iv, &mut verdict);
            let mut at = 0;
            for (i, io) in k.ios.iter().enumerate() {
                if io.out {
                    let n = prod(&io.shape);
                    outs[i].extend_from_slice(&ov[at..at + n]);
                    at += n;
                }
            }
        }
        let mut hs: Vec<DeviceMemoryHandle> = ins.iter().map(|a| a.as_ref().and_then(|a| a.0.h.clone())).collect();
        let res = match self.slot.as_mut() {
            Some(b) => {
                **b = k.prim.clone();
                catch(|| self.ctx.call_kernel(b, np, &mut hs))
            }
            None => catch(|| self.ctx.call_kernel(&k.prim, np, &mut hs)),
        };
        let res = match res {
            Err(m) if m.contains(ILLEGAL) => return Ok(false),
            Err(m) => return Err(viol!("call-panic", "calling a kernel ({np} instances) panicked: {m}")),
            Ok(r) => r,
        };
        if let Err(e) = res {
            ensure!(!verdict.clean(), "call-error", "calling a kernel ({np} instances) on valid data failed: {e:?}");
            return Ok(false);
        }
        o.count("kernel_calls", 1);
        o.count("instances", np as u64);
        let mut outs2 = vec![];
        for (i, io) in k.ios.iter().enumerate() {
            if !io.out {
                ensure!(hs[i].is_none(), "stale-handle", "the handle of a read-only argument survives the call");
                outs2.push(None);
                continue;
            }
            ensure!(hs[i].is_some(), "missing-output", "no handle for output {i}");
            let mut shape = vec![np];
            shape.extend_from_slice(&io.shape);
            let a = self.adopt(hs[i].clone(), shape, std::mem::take(&mut outs[i]));
            if !verdict.op_fail && !verdict.soft {
                read_back(&self.ctx, &a, o).map_err(|mut v| {
                    v.msg = format!("output {i} of {np} instances: {} of {}", v.msg, crate::equiv::render(&k.prog));
                    v
                })?;
            }
            outs2.push(Some(a));
        }
        self.log.push(Step::Call(kern, np, ins.iter().map(|x| x.as_ref().map(|(a, _, ops)| (a.mem, ops.clone()))).collect()));
        self.calls.push(Call { kern, np, ins: ins.into_iter().map(|x| x.map(|(a, b, _)| (a, b))).collect(), outs: outs2, verdict });
        Ok(true)
    }
}
/// Repeats a session in a fresh context (the same memories, calls and shape operations).
pub fn repeat<C: Config>(log: &[Step<C>], kerns: &[Rc<Kern<C>>]) -> Result<Ctx<C>, String> {
    catch(|| {
        let mut ctx: Ctx<C> = Context::new(registry::<C>());
        let mut mems: Vec<DeviceMemoryHandle> = vec![];
        for s in log {
            match s {
                Step::Copy(d, sh) => {
                    let h = ctx.copy_simd_to_device(d);
                    mems.push(h.reshape(sh));
                }
                Step::Call(k, np, ios) => {
                    let mut hs: Vec<DeviceMemoryHandle> = ios
                        .iter()
                        .map(|x| {
                            x.as_ref().and_then(|(m, ops)| {
                                let mut h = mems[*m].clone();
                                for op in ops {
                                    h = match op {
                                        ShOp::Re(s) => h.reshape(s),
                                        ShOp::Tr(a) => h.transpose(a),
                                    };
                                }
                                h
                            })
                        })
                        .collect();
                    ctx.call_kernel(&kerns[*k].prim, *np, &mut hs).unwrap();
                    mems.extend(hs.into_iter().filter(|h| h.is_some()));
                }
            }
        }
        ctx
    })
}
/// Runs a random session; `Ok(None)` when it was refused.
pub fn gen_session<C: Config>(r: &mut Rng, cfg: &SCfg, o: &mut Obs) -> Result<Option<Session<C>>, Violation> {
    let mut kerns = vec![];
    for _ in 0..r.range(1, cfg.max_kernels) {
        let kc = cfg.kern.clone().unwrap_or_else(|| KCfg::random(r));
        match gen_kernel::<C>(r, &kc)? {
            Some(k) => kerns.push(Rc::new(k)),
            None => o.count("kernels_declined", 1),
        }
    }
    if kerns.is_empty() {
        return Ok(None);
    }
    let mut s = Session::new(kerns);
    if r.chance(1, 3) {
        s.slot = Some(Box::new(s.kerns[0].prim.clone()));
    }
    let n_calls = r.range(1, cfg.max_calls);
    let mut np = *r.pick(&[1, 2, 3, 4, 5, 6, 7, 8, 12, 15, 16]);
    for c in 0..n_calls {
        if r.chance(1, 3) {
            np = r.range(1, cfg.max_np);
        }
        np = np.min(cfg.max_np);
        let k = r.below(s.kerns.len());
        let kern = s.kerns[k].clone();
        let bad_call = cfg.bad && c + 1 == n_calls;
        let mut ok = false;
        for attempt in 0..4 {
            let mut ins = vec![];
            // position of this io in the program's inputs
            let mut at = 0;
            for io in &kern.ios {
                if !io.inp {
                    ins.push(None);
                    continue;
                }
                let n = prod(&io.shape);
                let bc = !io.out && r.chance(1, 3) && (kern.ios.iter().any(|x| x.out));
                let mut shape = if bc { vec![] } else { vec![np] };
                shape.extend_from_slice(&io.shape);
                let total = prod(&shape);
                let honest: Vec<S<C>> = (0..total).map(|i| S::<C>::pack(&vec![kern.honest[at + i % n]; S::<C>::PACK_SIZE])).collect();
                at += n;
                let pool: Vec<Arr<C>> = s.arrs.iter().filter(|a| a.data.len() == total).cloned().collect();
                let (a, ops) = if attempt == 0 && !pool.is_empty() && r.chance(3, 4) {
                    let a = r.pick(&pool).clone();
                    derive(r, a, &shape, cfg)
                } else {
                    let data = if attempt >= 2 || (attempt == 1 && r.chance(1, 2)) { honest } else { rand_simd::<C>(r, total) };
                    let sh0 = if cfg.mixed && r.chance(1, 2) { rand_shape(r, total, true) } else { shape.clone() };
                    let a = s.copy(r, &sh0, data)?;
                    derive(r, a, &shape, cfg)
                };
                ins.push(Some((a, bc, ops)));
            }
            if !kern.ios.iter().zip(&ins).any(|(io, a)| io.out || a.as_ref().is_some_and(|a| !a.1)) {
                continue;
            }
            // judge before calling
            let mut v = Verdict::default();
            for q in 0..np {
                let mut iv = vec![];
                for (io, a) in kern.ios.iter().zip(&ins) {
                    if let Some((a, bc, _)) = a {
                        let n = prod(&io.shape);
                        iv.extend_from_slice(if *bc { &a.data } else { &a.data[q * n..(q + 1) * n] });
                    }
                }
                kernel_ref(&kern.prog, &iv, &mut v);
            }
            if v.clean() || (bad_call && !v.soft && !v.op_fail) {
                if !s.call(k, np, ins, o)? {
                    o.count("splittings_refused", 1);
                    if !cfg.mixed && !cfg.transposes {
                        // every memory was used with one shape only... unless reused differently
                        return Ok(None);
                    }
                    return Ok(None);
                }
                ok = true;
                break;
            }
        }
        if !ok {
            o.count("calls_without_valid_data", 1);
        }
    }
    Ok(if s.calls.is_empty() { None } else { Some(s) })
}
fn derive<C: Config>(r: &mut Rng, a: Arr<C>, shape: &[usize], cfg: &SCfg) -> (Arr<C>, Vec<ShOp>) {
    let mut a = a;
    let mut ops = vec![];
    if cfg.transposes {
        for _ in 0..r.below(3) {
            if r.chance(1, 2) {
                let s = rand_shape(r, a.data.len(), true);
                a = a.reshape(&s);
                ops.push(ShOp::Re(s));
            }
            let p = perm(r, a.shape.len());
            a = a.transpose(&p);
            ops.push(ShOp::Tr(p));
        }
    }
    if a.shape != shape || r.chance(1, 3) {
        a = a.reshape(shape);
        ops.push(ShOp::Re(shape.to_vec()));
    }
    (a, ops)
}

// ---------------------------------------------------------------- computation graphs
/// Values of `n` elements as they lie in `chunk`, when some splitting explains them: all the
/// position maps (physical position -> element) that do.
pub fn layouts<T: PartialEq + Clone>(data: &[T], chunk: &[T]) -> Vec<Vec<usize>> {
    let ids: Vec<usize> = (0..data.len()).collect();
    let mut res: Vec<Vec<usize>> = vec![];
    for f in factorisations(data.len()) {
        if f.iter().map(|x| p2(*x)).product::<usize>() != chunk.len() {
            continue;
        }
        let m = pad(&f, &ids);
        if m.iter().zip(chunk).all(|(i, c)| data[*i] == *c) && !res.contains(&m) {
            res.push(m);
        }
    }
    res
}
/// The physical inputs of every padded instance of a call: `[instance][component]`.
pub fn physical<C: Config>(t: &ProofTemplate, lens: &[usize], mems: &[Vec<S<C>>]) -> Result<Vec<Vec<Vec<S<C>>>>, Violation> {
    let mut res = vec![vec![]; t.parallel_count];
    for (k, ((m, order), bc)) in t.commitment_indices.iter().zip(&t.commitment_bit_orders).zip(&t.is_broadcast).enumerate() {
        let mem = &mems[*m];
        ensure!(1 << order.len() == mem.len(), "graph-order", "component {k}: bit order of {} bits for a memory of {}", order.len(), mem.len());
        let want = if *bc { lens[k] } else { lens[k] * t.parallel_count };
        ensure!(want == mem.len(), "graph-len", "component {k}: kernel reads {} x {} values (broadcast: {bc}) of a memory of {}", lens[k], t.parallel_count, mem.len());
        let view: Vec<S<C>> = (0..mem.len())
            .map(|i| {
                let j: usize = order.iter().enumerate().map(|(k, b)| ((i >> k) & 1) << b).sum();
                mem[j]
            })
            .collect();
        for (p, r) in res.iter_mut().enumerate() {
            r.push(if *bc { view.clone() } else { view[p * lens[k]..(p + 1) * lens[k]].to_vec() });
        }
    }
    Ok(res)
}
/// What a log of steps computes: the values of every memory, and whether every call had valid data.
pub fn model_run<C: Config>(log: &[Step<C>], kerns: &[Rc<Kern<C>>]) -> (Vec<Vec<S<C>>>, Verdict) {
    let mut mems: Vec<(Vec<usize>, Vec<S<C>>)> = vec![];
    let mut verdict = Verdict::default();
    for s in log {
        match s {
            Step::Copy(d, sh) => mems.push((sh.clone(), d.clone())),
            Step::Call(k, np, ios) => {
                let k = &kerns[*k];
                let ins: Vec<Option<(Vec<usize>, Vec<S<C>>)>> = ios
                    .iter()
                    .map(|x| {
                        x.as_ref().map(|(m, ops)| {
                            let (mut s, mut d) = mems[*m].clone();
                            for op in ops {
                                match op {
                                    ShOp::Re(t) => s = t.clone(),
                                    ShOp::Tr(a) => (s, d) = transpose(&s, &d, a),
                                }
                            }
                            (s, d)
                        })
                    })
                    .collect();
                let mut outs: Vec<Vec<S<C>>> = vec![vec![]; k.ios.len()];
                for q in 0..*np {
                    let mut iv = vec![];
                    for (io, a) in k.ios.iter().zip(&ins) {
                        if let (true, Some((s, d))) = (io.inp, a) {
                            let n = prod(&io.shape);
                            iv.extend_from_slice(if s.len() == io.shape.len() { d } else { &d[q * n..(q + 1) * n] });
                        }
                    }
                    let ov = kernel_ref(&k.prog, &iv, &mut verdict);
                    let mut at = 0;
                    for (i, io) in k.ios.iter().enumerate() {
                        if io.out {
                            let n = prod(&io.shape);
                            outs[i].extend_from_slice(&ov[at..at + n]);
                            at += n;
                        }
                    }
                }
                for (io, d) in k.ios.iter().zip(outs) {
                    if io.out {
                        let mut s = vec![*np];
                        s.extend_from_slice(&io.shape);
                        mems.push((s, d));
                    }
                }
            }
        }
    }
    (mems.into_iter().map(|x| x.1).collect(), verdict)
}
