//! Replays a program through the public builder API, so that the same description drives the
//! compiler's front end, the debug evaluator and the reference.
use crate::lang::*;
use arith::Field as _;
use expander_compiler::circuit::config::Config;
use expander_compiler::declare_circuit;
use expander_compiler::frontend::*;
use std::any::Any;
use std::cell::RefCell;
use std::rc::Rc;

declare_circuit!(FrontCircuit {
    x: [Variable],
    p: [PublicVariable],
});

thread_local! {
    static CUR: RefCell<Option<Rc<dyn Any>>> = const { RefCell::new(None) };
    static CALLS: RefCell<u64> = const { RefCell::new(0) };
    static CONST_ERR: RefCell<Option<String>> = const { RefCell::new(None) };
}
/// What a replay needs: the program, a style seed, and the values the root's variables take under
/// the assignment at hand (to check what the builder claims to know).
pub struct Plan<C: Config> {
    pub prog: Prog<C>,
    pub style: u64,
    pub root_values: Vec<F<C>>,
    /// Values that hold on every assignment tried (`None` = varies).
    pub fixed: Vec<Option<F<C>>>,
}
pub fn set_plan<C: Config>(p: Rc<Plan<C>>) {
    CUR.with(|c| *c.borrow_mut() = Some(p));
    CALLS.with(|c| *c.borrow_mut() = 0);
    CONST_ERR.with(|c| *c.borrow_mut() = None);
}
pub fn clear_plan() {
    CUR.with(|c| *c.borrow_mut() = None);
}
/// Number of sub-circuit bodies executed by the builder since the plan was set.
pub fn body_runs() -> u64 {
    CALLS.with(|c| *c.borrow())
}
pub fn const_err() -> Option<String> {
    CONST_ERR.with(|c| c.borrow_mut().take())
}
fn plan<C: Config>() -> Rc<Plan<C>> {
    CUR.with(|c| c.borrow().as_ref().unwrap().clone().downcast::<Plan<C>>().unwrap())
}

/// A deterministic choice, the same in every replay of the same plan.
fn pick(style: u64, i: usize, n: u64) -> u64 {
    vpc::hash_of(&(style, i)) % n
}

fn sub_fn<C: Config, B: RootAPI<C>, const I: usize>(api: &mut B, ins: &Vec<Variable>) -> Vec<Variable> {
    CALLS.with(|c| *c.borrow_mut() += 1);
    let p = plan::<C>();
    replay(api, &p, &p.prog.subs[I], ins, &[], p.style.wrapping_add(I as u64 + 1), false)
}
fn call_sub<C: Config, B: RootAPI<C>>(api: &mut B, i: usize, ins: &[Variable]) -> Vec<Variable> {
    match i {
        0 => api.memorized_simple_call(sub_fn::<C, B, 0>, ins),
        1 => api.memorized_simple_call(sub_fn::<C, B, 1>, ins),
        2 => api.memorized_simple_call(sub_fn::<C, B, 2>, ins),
        3 => api.memorized_simple_call(sub_fn::<C, B, 3>, ins),
        4 => api.memorized_simple_call(sub_fn::<C, B, 4>, ins),
        5 => api.memorized_simple_call(sub_fn::<C, B, 5>, ins),
        _ => unreachable!("at most six sub-circuits"),
    }
}

/// Either a variable or, when the value is a known constant, possibly the bare constant.
#[derive(Clone, Copy)]
enum Arg<C: Config> {
    V(Variable),
    K(F<C>),
}
macro_rules! with2 {
    ($a:expr, $b:expr, |$x:ident, $y:ident| $e:expr) => {
        match ($a, $b) {
            (Arg::V($x), Arg::V($y)) => $e,
            (Arg::V($x), Arg::K($y)) => $e,
            (Arg::K($x), Arg::V($y)) => $e,
            (Arg::K($x), Arg::K($y)) => $e,
        }
    };
}
macro_rules! with1 {
    ($a:expr, |$x:ident| $e:expr) => {
        match $a {
            Arg::V($x) => $e,
            Arg::K($x) => $e,
        }
    };
}

fn replay<C: Config, B: RootAPI<C>>(api: &mut B, plan: &Plan<C>, body: &Body<C>, ins: &[Variable], pubs: &[Variable], style: u64, is_root: bool) -> Vec<Variable> {
    let mut v: Vec<Variable> = vec![Variable::default()];
    let mut konst: Vec<Option<F<C>>> = vec![None];
    v.extend_from_slice(ins);
    konst.resize(v.len(), None);
    // values derived from challenges are not comparable
    let rnd = uses_rand(&plan.prog);
    for (k, op) in body.ops.iter().enumerate() {
        let arg = |i: usize, salt: usize| -> Arg<C> {
            match konst[i] {
                Some(c) if pick(style, k * 16 + salt, 2) == 0 => Arg::K(c),
                _ => Arg::V(v[i]),
            }
        };
        let ch = pick(style, k * 16 + 15, 6);
        let mut k_new = None;
        let r: Vec<Variable> = match op {
            Op::Lin { terms, c } => {
                let mut cur: Option<Variable> = None;
                for (x, co) in terms {
                    let x = arg(*x, 0);
                    let one = F::<C>::one();
                    let t = if *co == one && ch < 3 {
                        None
                    } else if *co == -one && ch == 3 {
                        Some(with1!(x, |x| api.neg(x)))
                    } else if ch == 4 {
                        Some(with1!(x, |x| api.mul(*co, x)))
                    } else {
                        Some(with1!(x, |x| api.mul(x, *co)))
                    };
                    cur = Some(match (cur, t) {
                        (None, Some(t)) => t,
                        (None, None) => with1!(x, |x| api.add(x, 0)),
                        (Some(c), Some(t)) if ch == 5 => {
                            let n = api.neg(t);
                            api.sub(c, n)
                        }
                        (Some(c), Some(t)) => api.add(c, t),
                        (Some(c), None) => with1!(x, |x| api.add(c, x)),
                    });
                }
                let cur = match cur {
                    None => api.constant(*c),
                    Some(v) if c.is_zero() && ch != 0 => v,
                    Some(v) if ch == 1 => api.sub(v, -*c),
                    Some(v) if ch == 2 => {
                        // c - (-v)
                        let n = api.neg(v);
                        api.sub(*c, n)
                    }
                    Some(v) => api.add(v, *c),
                };
                vec![cur]
            }
            Op::Mul(xs) => {
                let mut cur = with2!(arg(xs[0], 0), arg(xs[1], 1), |x, y| api.mul(x, y));
                for x in &xs[2..] {
                    cur = with1!(arg(*x, 2), |x| if ch < 3 { api.mul(cur, x) } else { api.mul(x, cur) });
                }
                vec![cur]
            }
            Op::Div { x, y, checked } => {
                if *checked && konst[*x] == Some(F::<C>::one()) && ch < 4 {
                    vec![with1!(arg(*y, 1), |y| api.inverse(y))]
                } else {
                    vec![with2!(arg(*x, 0), arg(*y, 1), |x, y| api.div(x, y, *checked))]
                }
            }
            Op::Bool { op, x, y } => vec![with2!(arg(*x, 0), arg(*y, 1), |x, y| match op {
                BoolOp::Xor => api.xor(x, y),
                BoolOp::Or => api.or(x, y),
                BoolOp::And => api.and(x, y),
            })],
            Op::IsZero(x) => vec![with1!(arg(*x, 0), |x| api.is_zero(x))],
            Op::ToBin { x, n } => {
                let bits = with1!(arg(*x, 0), |x| api.to_binary(x, *n));
                if ch == 0 {
                    // recomposing gives the value back
                    let y = api.from_binary(&bits);
                    with1!(arg(*x, 0), |x| api.assert_is_equal(x, y));
                }
                bits
            }
            Op::Const(c) => {
                k_new = Some(*c);
                vec![api.constant(*c)]
            }
            Op::Pub(i) => vec![pubs[*i]],
            Op::Hint { h, ins, n } => {
                let ins: Vec<Variable> = ins.iter().map(|i| v[*i]).collect();
                api.new_hint(&hint_key(*h), &ins, *n)
            }
            Op::Ident(xs) => xs.iter().map(|x| with1!(arg(*x, 0), |x| api.unconstrained_identity(x))).collect(),
            Op::UBin { op, x, y } => {
                vec![with2!(arg(*x, 0), arg(*y, 1), |x, y| match op {
                    UOp::Div => api.unconstrained_div(x, y),
                    UOp::Pow => api.unconstrained_pow(x, y),
                    UOp::IntDiv => api.unconstrained_int_div(x, y),
                    UOp::Mod => api.unconstrained_mod(x, y),
                    UOp::ShiftL => api.unconstrained_shift_l(x, y),
                    UOp::ShiftR => api.unconstrained_shift_r(x, y),
                    UOp::LesserEq => api.unconstrained_lesser_eq(x, y),
                    UOp::GreaterEq => api.unconstrained_greater_eq(x, y),
                    UOp::Lesser => api.unconstrained_lesser(x, y),
                    UOp::Greater => api.unconstrained_greater(x, y),
                    UOp::Eq => api.unconstrained_eq(x, y),
                    UOp::NotEq => api.unconstrained_not_eq(x, y),
                    UOp::BoolOr => api.unconstrained_bool_or(x, y),
                    UOp::BoolAnd => api.unconstrained_bool_and(x, y),
                    UOp::BitOr => api.unconstrained_bit_or(x, y),
                    UOp::BitAnd => api.unconstrained_bit_and(x, y),
                    UOp::BitXor => api.unconstrained_bit_xor(x, y),
                })]
            }
            Op::USel { .. } => unreachable!("source IR only"),
            Op::Call { sub, ins, .. } => {
                let ins: Vec<Variable> = ins.iter().map(|i| v[*i]).collect();
                call_sub::<C, B>(api, *sub, &ins)
            }
            Op::Rand => vec![api.get_random_value()],
            Op::Gt(x, y) => vec![with2!(arg(*x, 0), arg(*y, 1), |x, y| api.gt(x, y))],
            Op::Geq(x, y) => vec![with2!(arg(*x, 0), arg(*y, 1), |x, y| api.geq(x, y))],
        };
        if r.len() != op.n_out() {
            CONST_ERR.with(|c| *c.borrow_mut() = Some(format!("{} returned {} variables instead of {}", op.kind(), r.len(), op.n_out())));
        }
        v.extend(r);
        konst.resize(v.len(), None);
        if let Some(c) = k_new {
            *konst.last_mut().unwrap() = Some(c);
        }
        if is_root && v.len() - 1 < plan.root_values.len() + 1 {
            let last = v.len() - 1;
            if pick(style, k * 16 + 14, 3) == 0 && !rnd {
                if let Some(c) = api.constant_value(v[last]) {
                    // the builder claims to know the value: it must be right on every assignment
                    let ok = plan.fixed.get(last).copied().flatten() == Some(c) || plan.root_values.get(last) == Some(&c);
                    if !ok && !matches!(op, Op::Rand) {
                        CONST_ERR.with(|e| *e.borrow_mut() = Some(format!("constant_value of the result of {} is {c:?}, actually {:?}", op.kind(), plan.root_values.get(last))));
                    }
                }
            }
        }
    }
    for (k, (con, x)) in body.cons.iter().enumerate() {
        let x = v[*x];
        let ch = pick(style, 1_000_000 + k, 4);
        match con {
            Con::Zero if ch == 0 => {
                let y = api.add(x, 5);
                api.assert_is_equal(y, 5)
            }
            Con::Zero if ch == 1 => api.assert_is_equal(0, x),
            Con::Zero => api.assert_is_zero(x),
            Con::NonZero if ch == 0 => api.assert_is_different(x, 0),
            Con::NonZero => api.assert_is_non_zero(x),
            Con::Bool => api.assert_is_bool(x),
        }
    }
    body.outs.iter().map(|o| v[*o]).collect()
}

/// The root body alone, for callers that have a builder at hand.
pub fn replay_root<C: Config, B: RootAPI<C>>(api: &mut B, p: &Plan<C>, ins: &[Variable]) -> Vec<Variable> {
    replay(api, p, &p.prog.root, ins, &[], p.style, false)
}

impl<C: Config> Define<C> for FrontCircuit<Variable> {
    fn define<B: RootAPI<C>>(&self, api: &mut B) {
        let p = plan::<C>();
        let outs = replay(api, &p, &p.prog.root, &self.x, &self.p, p.style, true);
        api.set_outputs(outs);
    }
}

/// The circuit object (shape only) of a program.
pub fn shape_of<C: Config>(p: &Prog<C>) -> FrontCircuit<Variable> {
    FrontCircuit { x: vec![Variable::default(); p.root.n_in], p: vec![Variable::default(); p.n_pub] }
}
pub fn assignment<C: Config>(ins: &[F<C>], pubs: &[F<C>]) -> FrontCircuit<F<C>> {
    FrontCircuit { x: ins.to_vec(), p: pubs.to_vec() }
}
/// Values of every root variable under an assignment.
pub fn root_values<C: Config>(p: &Prog<C>, ins: &[F<C>], pubs: &[F<C>]) -> Vec<F<C>> {
    let mut e = RefEval { prog: p, pubs, trace: Trace::default(), rand: 1 };
    let mut v = vec![F::<C>::zero()];
    v.extend_from_slice(ins);
    for op in &p.root.ops {
        e.step(op, &mut v);
    }
    v
}
/// A generator configuration restricted to what the builder API offers.
pub fn front_cfg(r: &mut vpc::Rng, gt_ok: bool) -> GenCfg {
    let mut c = GenCfg::random(r);
    c.ir_only = false;
    c.max_subs = c.max_subs.min(6);
    c.gt = gt_ok && r.chance(1, 3);
    c
}
