//! Memoised sub-circuits.
use arith::Field as _;
use expander_compiler::circuit::config::*;
use expander_compiler::circuit::layered::{CrossLayerInputType, InputType, NormalInputType};
use expander_compiler::declare_circuit;
use expander_compiler::frontend::*;
use serde_json::json;
use std::cell::RefCell;
use std::collections::HashMap;
use std::marker::PhantomData;
use std::rc::Rc;
use vp::by_field;
use vp::equiv::{execute, rand_opts, Built, Outcome};
use vp::lang::{hint_key, hint_values, rand_inputs, registry, F};
use vpc::{catch, ensure, hash_of, viol, CaseResult, Check, Driver, Obs, Rng, Violation};

/// What a body may do, on circuit variables or on plain values.
trait Ops {
    type V: Copy;
    fn konst(&mut self, k: u32) -> Self::V;
    fn add(&mut self, x: Self::V, y: Self::V) -> Self::V;
    fn mul(&mut self, x: Self::V, y: Self::V) -> Self::V;
    fn is_zero(&mut self, x: Self::V) -> Self::V;
    fn assert_bool(&mut self, x: Self::V);
    fn hint(&mut self, h: usize, x: Self::V) -> Self::V;
    fn call(&mut self, f: usize, p: &Params<Self::V>, k: &[i64]) -> Nest<Self::V>;
    fn ran(&mut self, _key: u64) {}
}
type Params<V> = Vec<Vec<Vec<V>>>;
/// An output and the lengths of its vectors.
type Nest<V> = Vec<Vec<Vec<V>>>;

thread_local! {
    /// Bodies executed since the last reset.
    static RUNS: RefCell<HashMap<u64, usize>> = RefCell::new(HashMap::new());
    static SCRIPT: RefCell<Option<Rc<Script>>> = const { RefCell::new(None) };
    static SHAPES: RefCell<Vec<String>> = const { RefCell::new(vec![]) };
}

struct Plain<C: Config>(PhantomData<C>, bool);
impl<C: Config> Ops for Plain<C> {
    type V = F<C>;
    fn konst(&mut self, k: u32) -> F<C> {
        F::<C>::from(k)
    }
    fn add(&mut self, x: F<C>, y: F<C>) -> F<C> {
        x + y
    }
    fn mul(&mut self, x: F<C>, y: F<C>) -> F<C> {
        x * y
    }
    fn is_zero(&mut self, x: F<C>) -> F<C> {
        F::<C>::from(x.is_zero() as u32)
    }
    fn assert_bool(&mut self, x: F<C>) {
        self.1 &= x.is_zero() || x == F::<C>::one();
    }
    fn hint(&mut self, h: usize, x: F<C>) -> F<C> {
        hint_values(h, &[x], 1)[0]
    }
    fn call(&mut self, f: usize, p: &Params<F<C>>, k: &[i64]) -> Nest<F<C>> {
        meaning(self, f, p, k)
    }
}
struct Api<'a, C: Config, B: RootAPI<C>>(&'a mut B, PhantomData<C>);
impl<C: Config, B: RootAPI<C>> Ops for Api<'_, C, B> {
    type V = Variable;
    fn konst(&mut self, k: u32) -> Variable {
        self.0.constant(k)
    }
    fn add(&mut self, x: Variable, y: Variable) -> Variable {
        self.0.add(x, y)
    }
    fn mul(&mut self, x: Variable, y: Variable) -> Variable {
        self.0.mul(x, y)
    }
    fn is_zero(&mut self, x: Variable) -> Variable {
        self.0.is_zero(x)
    }
    fn assert_bool(&mut self, x: Variable) {
        self.0.assert_is_bool(x)
    }
    fn hint(&mut self, h: usize, x: Variable) -> Variable {
        self.0.new_hint(&hint_key(h), &[x], 1)[0]
    }
    fn call(&mut self, f: usize, p: &Params<Variable>, k: &[i64]) -> Nest<Variable> {
        dispatch::<C, B>(self.0, f, p, k, false)
    }
    fn ran(&mut self, key: u64) {
        RUNS.with(|r| *r.borrow_mut().entry(key).or_default() += 1);
    }
}

/// The meaning of function `f`: a small computation drawn from its identity, the shape of its
/// arguments and its plain arguments.
fn meaning<A: Ops>(a: &mut A, f: usize, p: &Params<A::V>, k: &[i64]) -> Nest<A::V> {
    let shape: Vec<Vec<usize>> = p.iter().map(|x| x.iter().map(|y| y.len()).collect()).collect();
    let key = hash_of(&(f, &shape, k));
    a.ran(key);
    let mut r = Rng::new(key);
    let vals: Vec<A::V> = p.iter().flatten().flatten().copied().collect();
    let mut acc = a.konst(r.below(50) as u32 + 1);
    for v in &vals {
        let c = a.konst(2 * r.below(500) as u32 + 1);
        let t = a.mul(*v, c);
        acc = a.add(acc, t);
    }
    let mut pool = vec![acc];
    pool.extend(&vals);
    for _ in 0..r.range(1, 6) {
        let (x, y) = (*r.pick(&pool), *r.pick(&pool));
        let v = match r.below(8) {
            0..=2 => a.add(x, y),
            3..=4 => a.mul(x, y),
            5 => a.is_zero(x),
            6 => {
                let z = a.is_zero(y);
                a.assert_bool(z);
                a.add(z, x)
            }
            _ => a.hint(key as usize % 2, x),
        };
        pool.push(v);
    }
    if f == NESTING && !vals.is_empty() {
        let one = |v: A::V| vec![vec![vec![v]]];
        for g in [0, 1, 2, 13] {
            let v = *r.pick(&pool);
            let q = a.call(g, &one(v), if g == 2 { &[7] } else { &[] });
            pool.push(q[0][0][0]);
        }
        let v = *r.pick(&pool);
        let q = a.call(6, &vec![vec![vec![v], vec![v, acc]]], &[k[0] % 3, 5]);
        pool.extend(q.into_iter().flatten().flatten());
    }
    let mut out = |n: usize| -> Vec<A::V> {
        (0..n)
            .map(|_| {
                let x = *r.pick(&pool);
                let t = a.mul(x, pool[0]);
                a.add(t, pool[pool.len() - 1])
            })
            .collect()
    };
    let n = 1 + key as usize % 3;
    let m = 1 + (key >> 8) as usize % 3;
    match OUT[f] {
        0 => vec![vec![out(1)]],
        1 => vec![vec![out(n)]],
        2 => vec![(0..n).map(|i| out((m + i) % 4)).collect()],
        3 => (0..n).map(|i| (0..(m + i) % 3).map(|j| out(1 + (i + j) % 2)).collect()).collect(),
        _ => {
            let v = out(1);
            let z = a.is_zero(v[0]);
            a.assert_bool(z);
            vec![]
        }
    }
}

const NESTING: usize = 9;
const N_FN: usize = 16;
/// Depth of the returned vectors (9 = returns nothing).
const OUT: [usize; N_FN] = [0, 0, 0, 0, 1, 1, 2, 3, 9, 1, 0, 1, 1, 0, 1, 2];
/// Nesting depth of the circuit parameters of each function.
const PARAMS: [&[usize]; N_FN] = [&[0], &[0], &[0], &[0], &[1], &[1, 1], &[2], &[2], &[0, 1], &[1], &[0], &[1, 0], &[1, 1], &[0], &[1], &[0, 1, 2]];
/// Number of plain parameters.
const PRIMS: [usize; N_FN] = [0, 0, 1, 1, 0, 0, 2, 0, 1, 1, 2, 1, 0, 0, 0, 2];

fn m<C: Config, B: RootAPI<C>>(api: &mut B, f: usize, p: Params<Variable>, k: &[i64]) -> Nest<Variable> {
    meaning(&mut Api::<C, B>(api, PhantomData), f, &p, k)
}
fn w0(v: Variable) -> Vec<Vec<Variable>> {
    vec![vec![v]]
}
fn flat1(n: Nest<Variable>) -> Vec<Variable> {
    n.into_iter().flatten().flatten().collect()
}

#[memorized]
fn f0<C: Config, B: RootAPI<C>>(api: &mut B, a: Variable) -> Variable {
    m::<C, B>(api, 0, vec![w0(a)], &[])[0][0][0]
}
#[memorized]
fn f1<C: Config, B: RootAPI<C>>(api: &mut B, a: Variable) -> Variable {
    m::<C, B>(api, 1, vec![w0(a)], &[])[0][0][0]
}
#[memorized]
fn f2<C: Config, B: RootAPI<C>>(api: &mut B, a: &Variable, k: u32) -> Variable {
    m::<C, B>(api, 2, vec![w0(*a)], &[k as i64])[0][0][0]
}
#[memorized]
fn f3<C: Config, B: RootAPI<C>>(api: &mut B, a: Variable, k: &u64) -> Variable {
    m::<C, B>(api, 3, vec![w0(a)], &[*k as i64])[0][0][0]
}
#[memorized]
fn f4<C: Config, B: RootAPI<C>>(api: &mut B, xs: Vec<Variable>) -> Vec<Variable> {
    flat1(m::<C, B>(api, 4, vec![vec![xs]], &[]))
}
#[memorized]
fn f5<C: Config, B: RootAPI<C>>(api: &mut B, xs: &Vec<Variable>, ys: &Vec<Variable>) -> Vec<Variable> {
    flat1(m::<C, B>(api, 5, vec![vec![xs.clone()], vec![ys.clone()]], &[]))
}
#[memorized]
fn f6<C: Config, B: RootAPI<C>>(api: &mut B, k: i32, xs: Vec<Vec<Variable>>, j: &isize) -> Vec<Vec<Variable>> {
    m::<C, B>(api, 6, vec![xs], &[k as i64, *j as i64]).remove(0)
}
#[memorized]
fn f7<C: Config, B: RootAPI<C>>(api: &mut B, xs: &Vec<Vec<Variable>>, ks: Vec<Vec<u32>>) -> Vec<Vec<Vec<Variable>>> {
    let mut k = vec![];
    for v in &ks {
        k.push(-1);
        k.extend(v.iter().map(|x| *x as i64));
    }
    m::<C, B>(api, 7, vec![xs.clone()], &k)
}
#[memorized]
fn f8<C: Config, B: RootAPI<C>>(api: &mut B, a: Variable, xs: Vec<Variable>, k: usize) {
    m::<C, B>(api, 8, vec![w0(a), vec![xs]], &[k as i64]);
}
#[memorized]
fn f9<C: Config, B: RootAPI<C>>(api: &mut B, xs: Vec<Variable>, k: i64) -> Vec<Variable> {
    flat1(m::<C, B>(api, 9, vec![vec![xs]], &[k]))
}
#[memorized]
fn f10<C: Config, B: RootAPI<C>>(api: &mut B, k: i64, a: Variable, j: i64) -> Variable {
    m::<C, B>(api, 10, vec![w0(a)], &[k, j])[0][0][0]
}
#[memorized]
fn f11<C: Config, B: RootAPI<C>>(api: &mut B, xs: Vec<Variable>, a: Variable, k: isize) -> Vec<Variable> {
    flat1(m::<C, B>(api, 11, vec![vec![xs], w0(a)], &[k as i64]))
}
#[memorized]
fn f12<C: Config, B: RootAPI<C>>(api: &mut B, xs: Vec<Variable>, ys: Vec<Variable>) -> Vec<Variable> {
    flat1(m::<C, B>(api, 12, vec![vec![xs], vec![ys]], &[]))
}
/// Same names and signatures as above, in another module.
mod other {
    use super::*;
    #[memorized]
    pub fn f0<C: Config, B: RootAPI<C>>(api: &mut B, a: Variable) -> Variable {
        m::<C, B>(api, 13, vec![w0(a)], &[])[0][0][0]
    }
    #[memorized]
    pub fn f4<C: Config, B: RootAPI<C>>(api: &mut B, xs: Vec<Variable>) -> Vec<Variable> {
        flat1(m::<C, B>(api, 14, vec![vec![xs]], &[]))
    }
    pub fn call0<C: Config, B: RootAPI<C>>(api: &mut B, a: Variable, inline: bool) -> Variable {
        if inline {
            f0(api, a)
        } else {
            memorized_f0(api, a)
        }
    }
    pub fn call4<C: Config, B: RootAPI<C>>(api: &mut B, xs: Vec<Variable>, inline: bool) -> Vec<Variable> {
        if inline {
            f4(api, xs)
        } else {
            memorized_f4(api, xs)
        }
    }
}
#[memorized]
fn f15<C: Config, B: RootAPI<C>>(api: &mut B, a: &Variable, j: u32, xs: &Vec<Variable>, k: &u32, ys: Vec<Vec<Variable>>) -> Vec<Vec<Variable>> {
    m::<C, B>(api, 15, vec![w0(*a), vec![xs.clone()], ys], &[j as i64, *k as i64]).remove(0)
}

fn dispatch<C: Config, B: RootAPI<C>>(api: &mut B, f: usize, p: &Params<Variable>, k: &[i64], inline: bool) -> Nest<Variable> {
    let v = |i: usize| p[i][0][0];
    let xs = |i: usize| p[i][0].clone();
    macro_rules! go {
        ($a:ident, $b:ident, $($x:expr),*) => { if inline { $a(api, $($x),*) } else { $b(api, $($x),*) } };
    }
    match f {
        0 => vec![w0(go!(f0, memorized_f0, v(0)))],
        1 => vec![w0(go!(f1, memorized_f1, v(0)))],
        2 => vec![w0(go!(f2, memorized_f2, &v(0), k[0] as u32))],
        3 => vec![w0(go!(f3, memorized_f3, v(0), &(k[0] as u64)))],
        4 => vec![vec![go!(f4, memorized_f4, xs(0))]],
        5 => vec![vec![go!(f5, memorized_f5, &xs(0), &xs(1))]],
        6 => vec![go!(f6, memorized_f6, k[0] as i32, p[0].clone(), &(k[1] as isize))],
        7 => {
            let mut ks: Vec<Vec<u32>> = vec![];
            for x in k {
                if *x < 0 {
                    ks.push(vec![]);
                } else {
                    ks.last_mut().unwrap().push(*x as u32);
                }
            }
            go!(f7, memorized_f7, &p[0], ks)
        }
        8 => {
            go!(f8, memorized_f8, v(0), xs(1), k[0] as usize);
            vec![]
        }
        9 => vec![vec![go!(f9, memorized_f9, xs(0), k[0])]],
        10 => vec![w0(go!(f10, memorized_f10, k[0], v(0), k[1]))],
        11 => vec![vec![go!(f11, memorized_f11, xs(0), v(1), k[0] as isize)]],
        12 => vec![vec![go!(f12, memorized_f12, xs(0), xs(1))]],
        13 => vec![w0(other::call0::<C, B>(api, v(0), inline))],
        14 => vec![vec![other::call4::<C, B>(api, xs(0), inline)]],
        15 => vec![go!(f15, memorized_f15, &v(0), k[0] as u32, &xs(1), &(k[1] as u32), p[2].clone())],
        _ => unreachable!(),
    }
}

/// A simple memoised call: of a function item, a closure, a closure that captured a value, or a
/// function pointer.
#[derive(Debug, Clone, Hash)]
enum Simple {
    Item(usize),
    Captures(i64),
    Pointer(usize),
}
fn simple0<C: Config, B: RootAPI<C>>(api: &mut B, xs: &Vec<Variable>) -> Vec<Variable> {
    simple_body::<C, B>(api, 100, xs)
}
fn simple1<C: Config, B: RootAPI<C>>(api: &mut B, xs: &Vec<Variable>) -> Vec<Variable> {
    simple_body::<C, B>(api, 101, xs)
}
fn simple_body<C: Config, B: RootAPI<C>>(api: &mut B, tag: i64, xs: &Vec<Variable>) -> Vec<Variable> {
    flat1(meaning(&mut Api::<C, B>(api, PhantomData), 4, &vec![vec![xs.clone()]], &[tag]))
}
fn do_simple<C: Config, B: RootAPI<C>>(api: &mut B, s: &Simple, xs: &[Variable]) -> Vec<Variable> {
    match s {
        Simple::Item(0) => api.memorized_simple_call(simple0::<C, B>, xs),
        Simple::Item(1) => api.memorized_simple_call(simple1::<C, B>, xs),
        Simple::Item(_) => api.memorized_simple_call(|api: &mut B, xs: &Vec<Variable>| simple_body::<C, B>(api, 102, xs), xs),
        Simple::Captures(k) => {
            let k = *k;
            api.memorized_simple_call(move |api: &mut B, xs: &Vec<Variable>| simple_body::<C, B>(api, k, xs), xs)
        }
        Simple::Pointer(i) => {
            let f: fn(&mut B, &Vec<Variable>) -> Vec<Variable> = if *i == 0 { simple0::<C, B> } else { simple1::<C, B> };
            api.memorized_simple_call(f, xs)
        }
    }
}
fn simple_tag(s: &Simple) -> i64 {
    match s {
        Simple::Item(i) => 100 + *i.min(&2) as i64,
        Simple::Captures(k) => *k,
        Simple::Pointer(i) => 100 + *i as i64,
    }
}

#[derive(Debug, Clone, Hash)]
enum Step {
    Fn { f: usize, p: Params<usize>, k: Vec<i64>, inline: bool },
    Simple { s: Simple, xs: Vec<usize> },
}
#[derive(Debug, Hash)]
struct Script {
    n_in: usize,
    steps: Vec<Step>,
    outs: Vec<usize>,
}
fn pick_params<V: Copy>(pool: &[V], p: &Params<usize>) -> Params<V> {
    p.iter().map(|x| x.iter().map(|y| y.iter().map(|i| pool[*i]).collect()).collect()).collect()
}
fn shape_str<V>(n: &Nest<V>) -> String {
    format!("{:?}", n.iter().map(|x| x.iter().map(|y| y.len()).collect::<Vec<_>>()).collect::<Vec<_>>())
}

declare_circuit!(MemoCircuit { x: [Variable] });
impl<C: Config> Define<C> for MemoCircuit<Variable> {
    fn define<B: RootAPI<C>>(&self, api: &mut B) {
        let s = SCRIPT.with(|s| s.borrow().as_ref().unwrap().clone());
        RUNS.with(|r| r.borrow_mut().clear());
        SHAPES.with(|s| s.borrow_mut().clear());
        let mut pool = self.x.clone();
        for st in &s.steps {
            match st {
                Step::Fn { f, p, k, inline } => {
                    let out = dispatch::<C, B>(api, *f, &pick_params(&pool, p), k, *inline);
                    SHAPES.with(|s| s.borrow_mut().push(shape_str(&out)));
                    pool.extend(flat1(out));
                }
                Step::Simple { s, xs } => {
                    let xs: Vec<Variable> = xs.iter().map(|i| pool[*i]).collect();
                    pool.extend(do_simple::<C, B>(api, s, &xs));
                }
            }
        }
        let outs = s.outs.iter().map(|i| pool[*i]).collect();
        api.set_outputs(outs);
    }
}

fn reference<C: Config>(s: &Script, ins: &[F<C>]) -> (Vec<F<C>>, bool, Vec<String>) {
    let mut pl = Plain::<C>(PhantomData, true);
    let mut pool = ins.to_vec();
    let mut shapes = vec![];
    for st in &s.steps {
        match st {
            Step::Fn { f, p, k, .. } => {
                let out = meaning(&mut pl, *f, &pick_params(&pool, p), k);
                shapes.push(shape_str(&out));
                pool.extend(out.into_iter().flatten().flatten());
            }
            Step::Simple { s, xs } => {
                let xs: Vec<F<C>> = xs.iter().map(|i| pool[*i]).collect();
                let out = meaning(&mut pl, 4, &vec![vec![xs]], &[simple_tag(s)]);
                pool.extend(out.into_iter().flatten().flatten());
            }
        }
    }
    (s.outs.iter().map(|i| pool[*i]).collect(), pl.1, shapes)
}

fn gen<C: Config>(r: &mut Rng, no_empty: bool) -> Script {
    let n_in = r.range(1, 5);
    let mut have = n_in;
    let mut steps = vec![];
    // few functions and few shapes, so that calls repeat
    let few: Vec<usize> = (0..r.range(1, 5)).map(|_| r.below(N_FN)).collect();
    let inline_ok = r.chance(1, 3);
    for _ in 0..r.range(1, 9) {
        let var = |r: &mut Rng, have: usize| if r.chance(1, 2) { r.below(have) } else { have - 1 - r.below(have.min(4)) };
        if r.chance(1, 5) {
            let s = match r.below(4) {
                0 | 1 => Simple::Item(r.below(3)),
                2 => Simple::Captures(r.below(3) as i64),
                _ => Simple::Pointer(r.below(2)),
            };
            let xs: Vec<usize> = (0..r.range(1, 3)).map(|_| var(r, have)).collect();
            let key = hash_of(&(4usize, vec![vec![xs.len()]], &[simple_tag(&s)][..]));
            have += 1 + key as usize % 3;
            steps.push(Step::Simple { s, xs });
            continue;
        }
        let f = if r.chance(3, 4) { *r.pick(&few) } else { r.below(N_FN) };
        let p: Params<usize> = PARAMS[f]
            .iter()
            .map(|d| match d {
                0 => vec![vec![var(r, have)]],
                1 => vec![(0..r.range(no_empty as usize, 2)).map(|_| var(r, have)).collect()],
                _ => (0..r.range(no_empty as usize, 2)).map(|_| (0..r.range(no_empty as usize, 2)).map(|_| var(r, have)).collect()).collect(),
            })
            .collect();
        let small = [0i64, 1, 2, 12, 21, 1];
        let neg = [0i64, -1, 1, 11, -11, 2];
        let k: Vec<i64> = if f == 7 {
            let mut k = vec![];
            for _ in 0..r.below(3) {
                k.push(-1);
                for _ in 0..r.below(3) {
                    k.push(*r.pick(&small));
                }
            }
            k
        } else {
            (0..PRIMS[f]).map(|_| if matches!(f, 6 | 9 | 10 | 11) { *r.pick(&neg) } else { *r.pick(&small) }).collect()
        };
        let inline = inline_ok && r.chance(1, 3);
        let mut dry = Plain::<C>(PhantomData, true);
        let zero: Params<F<C>> = p.iter().map(|x| x.iter().map(|y| vec![F::<C>::zero(); y.len()]).collect()).collect();
        have += meaning(&mut dry, f, &zero, &k).iter().flatten().flatten().count();
        steps.push(Step::Fn { f, p, k, inline });
    }
    let mut outs: Vec<usize> = (n_in..have).collect();
    if outs.is_empty() {
        outs.push(0);
    }
    Script { n_in, steps, outs }
}

enum Any<C: Config> {
    N(Built<C, NormalInputType>),
    X(Built<C, CrossLayerInputType>),
}
fn case<C: Config>(r: &mut Rng, o: &mut Obs) -> CaseResult {
    let no_empty = r.chance(3, 4);
    let s = Rc::new(gen::<C>(r, no_empty));
    SCRIPT.with(|x| *x.borrow_mut() = Some(s.clone()));
    let txt = || {
        let mut t = format!("{s:?}");
        t.truncate(3000);
        t
    };
    let shape = MemoCircuit { x: vec![Variable::default(); s.n_in] };
    let asg: Vec<Vec<F<C>>> = (0..4).map(|_| rand_inputs::<C>(r, s.n_in)).collect();
    for ins in &asg {
        let (want, ok, shapes) = reference::<C>(&s, ins);
        let got = catch(|| extra::debug_eval::<C, _, _, _>(&shape, &MemoCircuit { x: ins.clone() }, registry::<C>()));
        match got {
            Ok(out) => {
                ensure!(ok, "debug-accepts", "debug evaluation accepts although an assertion inside a memoised body fails: {}", txt());
                ensure!(out == want, "debug-output", "debug evaluation yields {out:?}, the bodies say {want:?}: {}", txt());
                let got = SHAPES.with(|x| x.borrow().clone());
                ensure!(got == shapes, "debug-shape", "debug evaluation: results have shapes {got:?} instead of {shapes:?}: {}", txt());
                o.count("debug_runs", 1);
            }
            Err(m) => ensure!(!ok, "debug-rejects", "debug evaluation of memoised calls fails: {m}: {}", txt()),
        }
    }
    let opts = rand_opts(r);
    let cross = r.chance(1, 3);
    let b = catch(|| {
        if cross {
            compile_cross_layer::<C, _>(&shape, opts.clone()).map(|r| Any::X(Built { ws: r.witness_solver, lc: r.layered_circuit }))
        } else {
            compile::<C, _>(&shape, opts.clone()).map(|r| Any::N(Built { ws: r.witness_solver, lc: r.layered_circuit }))
        }
    });
    // the bodies the builder ran
    let runs = RUNS.with(|x| x.borrow().clone());
    let shapes = SHAPES.with(|x| x.borrow().clone());
    let b = match b {
        Err(m) => return Err(viol!("build-panic", "building or compiling memoised calls panicked: {m}: {}", txt())),
        Ok(Err(e)) => {
            let m = e.to_string();
            ensure!(m.contains("circuit has no inputs"), "declined", "memoised calls are declined: {m}: {}", txt());
            o.count("declined_no_inputs", 1);
            return Ok(());
        }
        Ok(Ok(b)) => b,
    };
    let want_shapes = reference::<C>(&s, &asg[0]).2;
    ensure!(shapes == want_shapes, "builder-shape", "results have shapes {shapes:?} instead of {want_shapes:?}: {}", txt());
    let mixed = s.steps.iter().any(|x| matches!(x, Step::Fn { inline: true, .. } | Step::Simple { s: Simple::Captures(_) | Simple::Pointer(_), .. }));
    if !mixed {
        for (k, n) in &runs {
            let _ = k;
            ensure!(*n == 1, "built-again", "a memoised body was built {n} times for the same arguments: {}", txt());
        }
        o.count("bodies_built_once", runs.len() as u64);
    }
    let reg = registry::<C>();
    for ins in &asg {
        let (want, ok, _) = reference::<C>(&s, ins);
        let got = run(&b, ins, &reg, o).map_err(|mut v| {
            v.msg = format!("{}: {}", v.msg, txt());
            v
        })?;
        match got {
            Outcome::Accept(out) => {
                ensure!(ok, "accepts", "accepted although an assertion inside a memoised body fails: {}", txt());
                ensure!(out == want, "wrong-output", "memoised calls yield {out:?}, the bodies say {want:?} for {ins:?}: {}", txt());
                o.count("compiled_runs", 1);
            }
            Outcome::Reject(m) => ensure!(!ok, "rejects", "rejected ({m}) although every assertion holds: {}", txt()),
        }
    }
    for st in &s.steps {
        match st {
            Step::Fn { inline: true, .. } => o.count("inline_calls", 1),
            Step::Fn { .. } => o.count("memoised_calls", 1),
            Step::Simple { .. } => o.count("simple_calls", 1),
        }
    }
    o.distinct(&(&*s, C::CONFIG_ID, cross));
    if o.wants_sample() && s.steps.len() < 4 {
        o.sample(json!({"script": format!("{s:?}")}));
    }
    Ok(())
}
fn run<C: Config>(b: &Any<C>, ins: &[F<C>], reg: &HintRegistry<F<C>>, o: &mut Obs) -> Result<Outcome<C>, Violation> {
    fn go<C: Config, I: InputType>(b: &Built<C, I>, ins: &[F<C>], reg: &HintRegistry<F<C>>, o: &mut Obs) -> Result<Outcome<C>, Violation> {
        execute(b, ins, &[], reg, o)
    }
    match b {
        Any::N(b) => go(b, ins, reg, o),
        Any::X(b) => go(b, ins, reg, o),
    }
}

fn f04(d: &mut Driver) {
    d.cases("calls", d.n(40000, 1000000), |r, o| {
        let k = r.below(5);
        by_field!(k, case(r, o))
    });
}
fn main() {
    vpc::main(&[Check { id: "F04", rule: "one random script of memoised and inline calls, evaluated by the debug evaluator and compiled; distinct = different (script, field, target)", run: f04 }])
}
