//! A small circuit language with a reference interpreter, and generators of random programs in it.
//! The interpreter is the oracle: it is written from the documented meaning of the operations and
//! shares no code with the compiler.
use arith::Field as _;
use ethnum::U256;
use expander_compiler::circuit::config::Config;
use expander_compiler::circuit::ir::expr::{LinComb, LinCombTerm};
use expander_compiler::circuit::ir::source::{
    self, BoolBinOpType, Constraint, ConstraintType, Instruction, UnconstrainedBinOpType,
};
use expander_compiler::circuit::layered::Coef;
use expander_compiler::frontend::{CircuitField, Error, HintRegistry};
use expander_compiler::hints::registry::hint_key_to_id;
use std::collections::{HashMap, HashSet};
use std::hash::{Hash, Hasher};
use vpc::Rng;

pub type F<C> = CircuitField<C>;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum BoolOp {
    Xor,
    Or,
    And,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum UOp {
    Div,
    Pow,
    IntDiv,
    Mod,
    ShiftL,
    ShiftR,
    LesserEq,
    GreaterEq,
    Lesser,
    Greater,
    Eq,
    NotEq,
    BoolOr,
    BoolAnd,
    BitOr,
    BitAnd,
    BitXor,
}
pub const UOPS: [UOp; 17] = [
    UOp::Div, UOp::Pow, UOp::IntDiv, UOp::Mod, UOp::ShiftL, UOp::ShiftR, UOp::LesserEq,
    UOp::GreaterEq, UOp::Lesser, UOp::Greater, UOp::Eq, UOp::NotEq, UOp::BoolOr, UOp::BoolAnd,
    UOp::BitOr, UOp::BitAnd, UOp::BitXor,
];

/// Variables are numbered from 1: first the inputs of the (sub)circuit, then every result in order.
#[derive(Clone, Debug)]
pub enum Op<C: Config> {
    Lin { terms: Vec<(usize, F<C>)>, c: F<C> },
    Mul(Vec<usize>),
    Div { x: usize, y: usize, checked: bool },
    Bool { op: BoolOp, x: usize, y: usize },
    IsZero(usize),
    ToBin { x: usize, n: usize },
    Const(F<C>),
    Pub(usize),
    Hint { h: usize, ins: Vec<usize>, n: usize },
    Ident(Vec<usize>),
    UBin { op: UOp, x: usize, y: usize },
    USel { c: usize, t: usize, f: usize },
    Call { sub: usize, ins: Vec<usize>, n: usize },
    /// A fresh verifier challenge; programs use it only so that the outcome does not depend on it.
    Rand,
    Gt(usize, usize),
    Geq(usize, usize),
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Con {
    Zero,
    NonZero,
    Bool,
}
#[derive(Clone, Debug)]
pub struct Body<C: Config> {
    pub n_in: usize,
    pub ops: Vec<Op<C>>,
    pub cons: Vec<(Con, usize)>,
    pub outs: Vec<usize>,
}
#[derive(Clone, Debug)]
pub struct Prog<C: Config> {
    pub n_pub: usize,
    /// Sub-circuit `i` only calls sub-circuits with smaller numbers.
    pub subs: Vec<Body<C>>,
    pub root: Body<C>,
    /// Leading outputs of the root that must be zero (source IR only).
    pub zeroes: usize,
    /// Every checked operation's result is an output of its circuit.
    pub all_live: bool,
}

impl<C: Config> Op<C> {
    pub fn n_out(&self) -> usize {
        match self {
            Op::ToBin { n, .. } | Op::Hint { n, .. } | Op::Call { n, .. } => *n,
            Op::Ident(v) => v.len(),
            _ => 1,
        }
    }
    pub fn kind(&self) -> &'static str {
        match self {
            Op::Lin { .. } => "lin",
            Op::Mul(_) => "mul",
            Op::Div { checked: true, .. } => "div",
            Op::Div { .. } => "div_unchecked",
            Op::Bool { op: BoolOp::Xor, .. } => "xor",
            Op::Bool { op: BoolOp::Or, .. } => "or",
            Op::Bool { op: BoolOp::And, .. } => "and",
            Op::IsZero(_) => "is_zero",
            Op::ToBin { .. } => "to_binary",
            Op::Const(_) => "const",
            Op::Pub(_) => "public_input",
            Op::Hint { .. } => "hint",
            Op::Ident(_) => "unconstrained_identity",
            Op::UBin { .. } => "unconstrained_op",
            Op::USel { .. } => "unconstrained_select",
            Op::Call { .. } => "sub_circuit_call",
            Op::Rand => "random_value",
            Op::Gt(..) => "gt",
            Op::Geq(..) => "geq",
        }
    }
}

/// Number of custom hints the harness registers.
pub const HINTS: usize = 3;
pub fn hint_key(h: usize) -> String {
    format!("vp.hint.{h}")
}
/// What the custom hints compute (also the reference).
pub fn hint_values<F: arith::Field>(h: usize, ins: &[F], n: usize) -> Vec<F> {
    let mut acc = F::from(h as u32 + 1);
    for (i, x) in ins.iter().enumerate() {
        acc = acc * *x + F::from(i as u32 + 3);
    }
    (0..n)
        .map(|i| {
            acc = acc * F::from(5u32) + *ins.get(i % ins.len().max(1)).unwrap_or(&acc);
            acc
        })
        .collect()
}
thread_local! {
    /// While set, every invocation of a custom hint is recorded.
    pub static HINT_LOG: std::cell::RefCell<Option<Vec<(usize, String)>>> = const { std::cell::RefCell::new(None) };
    /// The same, recorded by the reference interpreter.
    pub static REF_HINTS: std::cell::RefCell<Option<Vec<(usize, String)>>> = const { std::cell::RefCell::new(None) };
    /// While set, a hint whose arguments hash to a multiple of this fails.
    pub static HINT_FAIL: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
}
pub fn hint_log_entry<F: arith::Field>(h: usize, i: &[F], n: usize) -> (usize, String) {
    (h, format!("{i:?}->{n}"))
}
pub fn hint_fails<F: arith::Field>(h: usize, i: &[F]) -> bool {
    let m = HINT_FAIL.with(|f| f.get());
    m != 0 && vpc::hash_of(&format!("{h}{i:?}")) % m == 0
}
fn hint_body<F: arith::Field>(h: usize, i: &[F], o: &mut [F]) -> Result<(), Error> {
    HINT_LOG.with(|l| {
        if let Some(l) = l.borrow_mut().as_mut() {
            l.push(hint_log_entry(h, i, o.len()));
        }
    });
    if hint_fails(h, i) {
        return Err(Error::UserError(format!("hint {h} refuses")));
    }
    o.copy_from_slice(&hint_values(h, i, o.len()));
    Ok(())
}
fn h0<F: arith::Field>(i: &[F], o: &mut [F]) -> Result<(), Error> {
    hint_body(0, i, o)
}
fn h1<F: arith::Field>(i: &[F], o: &mut [F]) -> Result<(), Error> {
    hint_body(1, i, o)
}
fn h2<F: arith::Field>(i: &[F], o: &mut [F]) -> Result<(), Error> {
    hint_body(2, i, o)
}
pub fn registry<C: Config>() -> HintRegistry<F<C>> {
    let mut r = HintRegistry::new();
    r.register(&hint_key(0), h0::<F<C>>);
    r.register(&hint_key(1), h1::<F<C>>);
    r.register(&hint_key(2), h2::<F<C>>);
    r
}

fn pow2u(n: usize) -> U256 {
    U256::from(1u32) << n as u32
}
pub fn modulus<C: Config>() -> U256 {
    F::<C>::MODULUS
}
pub fn bitlen(x: U256) -> usize {
    256 - x.leading_zeros() as usize
}
fn shl<C: Config>(x: U256, k: U256) -> U256 {
    let p = modulus::<C>();
    if k <= p / 2 {
        if k >= 256 {
            return U256::ZERO;
        }
        let v = x << k.as_u32();
        v & (pow2u(bitlen(p)) - 1)
    } else {
        shr::<C>(x, p - k)
    }
}
fn shr<C: Config>(x: U256, k: U256) -> U256 {
    let p = modulus::<C>();
    if k <= p / 2 {
        if k >= 256 {
            return U256::ZERO;
        }
        x >> k.as_u32()
    } else {
        shl::<C>(x, p - k)
    }
}
fn b<C: Config>(v: bool) -> F<C> {
    F::<C>::from(v as u32)
}
/// Reference of the unconstrained operators; `None` when undefined (division by zero).
pub fn ubin<C: Config>(op: UOp, x: F<C>, y: F<C>) -> Option<F<C>> {
    let (a, c) = (x.to_u256(), y.to_u256());
    let w = |v: U256| F::<C>::from_u256(v % modulus::<C>());
    Some(match op {
        UOp::Div => {
            if c == U256::ZERO {
                return None;
            }
            x * y.inv().unwrap()
        }
        UOp::Pow => {
            let mut r = F::<C>::one();
            for i in (0..bitlen(c)).rev() {
                r = r * r;
                if (c >> i as u32) & 1 == U256::ONE {
                    r = r * x;
                }
            }
            r
        }
        UOp::IntDiv => {
            if c == U256::ZERO {
                return None;
            }
            w(a / c)
        }
        UOp::Mod => {
            if c == U256::ZERO {
                return None;
            }
            w(a % c)
        }
        UOp::ShiftL => w(shl::<C>(a, c)),
        UOp::ShiftR => w(shr::<C>(a, c)),
        UOp::LesserEq => b::<C>(a <= c),
        UOp::GreaterEq => b::<C>(a >= c),
        UOp::Lesser => b::<C>(a < c),
        UOp::Greater => b::<C>(a > c),
        UOp::Eq => b::<C>(a == c),
        UOp::NotEq => b::<C>(a != c),
        UOp::BoolOr => b::<C>(a != U256::ZERO || c != U256::ZERO),
        UOp::BoolAnd => b::<C>(a != U256::ZERO && c != U256::ZERO),
        UOp::BitOr => w(a | c),
        UOp::BitAnd => w(a & c),
        UOp::BitXor => w(a ^ c),
    })
}

/// What the reference interpreter saw.
#[derive(Clone, Debug, Default)]
pub struct Trace {
    /// Explicit constraints violated.
    pub con_fail: bool,
    /// Implicit checks (division, booleanity of operands, bit range) violated.
    pub op_fail: bool,
    /// An unconstrained operation was undefined (division by zero) and took the value 0.
    pub undefined: bool,
    /// An unchecked division 0/0 took the value 0.
    pub zero_by_zero: bool,
    pub steps: usize,
}
impl Trace {
    pub fn accepts(&self) -> bool {
        !self.con_fail && !self.op_fail
    }
}

pub struct RefEval<'a, C: Config> {
    pub prog: &'a Prog<C>,
    pub pubs: &'a [F<C>],
    /// Custom-hint semantics: `false` = the harness hints, `true` = the stand-in values the IR
    /// evaluators use.
    pub trace: Trace,
    pub rand: u64,
}
impl<'a, C: Config> RefEval<'a, C> {
    pub fn run(prog: &'a Prog<C>, ins: &[F<C>], pubs: &'a [F<C>]) -> (Vec<F<C>>, Trace) {
        Self::run_seed(prog, ins, pubs, 0x1234567)
    }
    fn run_seed(prog: &'a Prog<C>, ins: &[F<C>], pubs: &'a [F<C>], rand: u64) -> (Vec<F<C>>, Trace) {
        let mut e = RefEval { prog, pubs, trace: Trace::default(), rand };
        let outs = e.body(&prog.root, ins);
        for o in &outs[..prog.zeroes] {
            e.trace.con_fail |= !o.is_zero();
        }
        (outs[prog.zeroes..].to_vec(), e.trace)
    }
    /// Whether the verdict or the outputs depend on the challenges.
    pub fn chancy(prog: &'a Prog<C>, ins: &[F<C>], pubs: &'a [F<C>]) -> bool {
        if !uses_rand(prog) {
            return false;
        }
        let (o0, t0) = Self::run_seed(prog, ins, pubs, 1);
        let tiny = F::<C>::FIELD_SIZE == 1;
        if tiny && t0.op_fail {
            return true;
        }
        (2..if tiny { 80 } else { 4 }).any(|s| {
            let (o, t) = Self::run_seed(prog, ins, pubs, vpc::hash_of(&s));
            o != o0 || t.accepts() != t0.accepts()
        })
    }
    pub fn body(&mut self, body: &Body<C>, ins: &[F<C>]) -> Vec<F<C>> {
        assert_eq!(ins.len(), body.n_in);
        let mut v = vec![F::<C>::zero()];
        v.extend_from_slice(ins);
        for op in &body.ops {
            self.step(op, &mut v);
        }
        for (k, x) in &body.cons {
            let x = v[*x];
            let ok = match k {
                Con::Zero => x.is_zero(),
                Con::NonZero => !x.is_zero(),
                Con::Bool => x.is_zero() || x == F::<C>::one(),
            };
            self.trace.con_fail |= !ok;
        }
        body.outs.iter().map(|o| v[*o]).collect()
    }
    pub fn step(&mut self, op: &Op<C>, v: &mut Vec<F<C>>) {
        self.trace.steps += 1;
        let one = F::<C>::one();
        let zero = F::<C>::zero();
        let r = match op {
            Op::Lin { terms, c } => terms.iter().fold(*c, |a, (x, k)| a + v[*x] * *k),
            Op::Mul(xs) => xs.iter().fold(one, |a, x| a * v[*x]),
            Op::Div { x, y, checked } => {
                if v[*y].is_zero() {
                    if *checked || !v[*x].is_zero() {
                        self.trace.op_fail = true;
                    } else {
                        self.trace.zero_by_zero = true;
                    }
                    zero
                } else {
                    v[*x] * v[*y].inv().unwrap()
                }
            }
            Op::Bool { op, x, y } => {
                let (x, y) = (v[*x], v[*y]);
                if (x != zero && x != one) || (y != zero && y != one) {
                    self.trace.op_fail = true;
                }
                let (p, q) = (x == one, y == one);
                b::<C>(match op {
                    BoolOp::Xor => p ^ q,
                    BoolOp::Or => p | q,
                    BoolOp::And => p & q,
                })
            }
            Op::IsZero(x) => b::<C>(v[*x].is_zero()),
            Op::ToBin { x, n } => {
                let x = v[*x].to_u256();
                if bitlen(x) > *n {
                    self.trace.op_fail = true;
                }
                for i in 0..*n {
                    let bit = if i < 256 { (x >> i as u32) & 1 } else { U256::ZERO };
                    v.push(F::<C>::from_u256(bit));
                }
                return;
            }
            Op::Const(c) => *c,
            Op::Pub(i) => self.pubs[*i],
            Op::Hint { h, ins, n } => {
                let ins: Vec<_> = ins.iter().map(|i| v[*i]).collect();
                REF_HINTS.with(|l| {
                    if let Some(l) = l.borrow_mut().as_mut() {
                        l.push(hint_log_entry(*h, &ins, *n));
                    }
                });
                v.extend(hint_values(*h, &ins, *n));
                return;
            }
            Op::Ident(xs) => {
                let t: Vec<_> = xs.iter().map(|i| v[*i]).collect();
                v.extend(t);
                return;
            }
            Op::UBin { op, x, y } => match ubin::<C>(*op, v[*x], v[*y]) {
                Some(r) => r,
                None => {
                    self.trace.undefined = true;
                    zero
                }
            },
            Op::USel { c, t, f } => {
                if v[*c].is_zero() {
                    v[*f]
                } else {
                    v[*t]
                }
            }
            Op::Call { sub, ins, .. } => {
                let ins: Vec<_> = ins.iter().map(|i| v[*i]).collect();
                let p = self.prog;
                let r = self.body(&p.subs[*sub], &ins);
                v.extend(r);
                return;
            }
            Op::Rand => {
                self.rand = self.rand.wrapping_mul(6364136223846793005).wrapping_add(99991);
                F::<C>::from((self.rand >> 33) as u32)
            }
            Op::Gt(x, y) => b::<C>(v[*x].to_u256() > v[*y].to_u256()),
            Op::Geq(x, y) => b::<C>(v[*x].to_u256() >= v[*y].to_u256()),
        };
        v.push(r);
    }
}

// ---------------------------------------------------------------- lowering to source IR

pub fn sub_id(i: usize) -> usize {
    // Arbitrary, non-contiguous ids: nothing may depend on them being small or ordered.
    let x = (i as u64 + 1).wrapping_mul(0x9E3779B97F4A7C15);
    ((x >> 8) as usize) | 1
}
fn lower_body<C: Config>(b: &Body<C>) -> source::Circuit<C> {
    let instructions = b
        .ops
        .iter()
        .map(|op| match op {
            Op::Lin { terms, c } => Instruction::LinComb(LinComb {
                terms: terms.iter().map(|(v, k)| LinCombTerm { var: *v, coef: *k }).collect(),
                constant: *c,
            }),
            Op::Mul(xs) => Instruction::Mul(xs.clone()),
            Op::Div { x, y, checked } => Instruction::Div { x: *x, y: *y, checked: *checked },
            Op::Bool { op, x, y } => Instruction::BoolBinOp {
                x: *x,
                y: *y,
                op: match op {
                    BoolOp::Xor => BoolBinOpType::Xor,
                    BoolOp::Or => BoolBinOpType::Or,
                    BoolOp::And => BoolBinOpType::And,
                },
            },
            Op::IsZero(x) => Instruction::IsZero(*x),
            Op::ToBin { x, n } => Instruction::ToBinary { x: *x, num_bits: *n },
            Op::Const(c) => Instruction::ConstantLike(Coef::Constant(*c)),
            Op::Pub(i) => Instruction::ConstantLike(Coef::PublicInput(*i)),
            Op::Hint { h, ins, n } => Instruction::Hint {
                hint_id: hint_key_to_id(&hint_key(*h)),
                inputs: ins.clone(),
                num_outputs: *n,
            },
            Op::Ident(xs) => Instruction::Hint {
                hint_id: expander_compiler::hints::BuiltinHintIds::Identity as u64 as usize,
                inputs: xs.clone(),
                num_outputs: xs.len(),
            },
            Op::UBin { op, x, y } => Instruction::UnconstrainedBinOp { x: *x, y: *y, op: ir_uop(*op) },
            Op::USel { c, t, f } => Instruction::UnconstrainedSelect { cond: *c, if_true: *t, if_false: *f },
            Op::Call { sub, ins, n } => Instruction::SubCircuitCall {
                sub_circuit_id: sub_id(*sub),
                inputs: ins.clone(),
                num_outputs: *n,
            },
            Op::Rand => Instruction::ConstantLike(Coef::Random),
            Op::Gt(..) | Op::Geq(..) => unreachable!("builder only"),
        })
        .collect();
    source::Circuit {
        instructions,
        constraints: b
            .cons
            .iter()
            .map(|(k, v)| Constraint {
                typ: match k {
                    Con::Zero => ConstraintType::Zero,
                    Con::NonZero => ConstraintType::NonZero,
                    Con::Bool => ConstraintType::Bool,
                },
                var: *v,
            })
            .collect(),
        num_inputs: b.n_in,
        outputs: b.outs.clone(),
    }
}
pub fn ir_uop(op: UOp) -> UnconstrainedBinOpType {
    use UnconstrainedBinOpType as U;
    match op {
        UOp::Div => U::Div,
        UOp::Pow => U::Pow,
        UOp::IntDiv => U::IntDiv,
        UOp::Mod => U::Mod,
        UOp::ShiftL => U::ShiftL,
        UOp::ShiftR => U::ShiftR,
        UOp::LesserEq => U::LesserEq,
        UOp::GreaterEq => U::GreaterEq,
        UOp::Lesser => U::Lesser,
        UOp::Greater => U::Greater,
        UOp::Eq => U::Eq,
        UOp::NotEq => U::NotEq,
        UOp::BoolOr => U::BoolOr,
        UOp::BoolAnd => U::BoolAnd,
        UOp::BitOr => U::BitOr,
        UOp::BitAnd => U::BitAnd,
        UOp::BitXor => U::BitXor,
    }
}
pub fn lower<C: Config>(p: &Prog<C>) -> source::RootCircuit<C> {
    let mut circuits = HashMap::new();
    circuits.insert(0, lower_body(&p.root));
    for (i, s) in p.subs.iter().enumerate() {
        circuits.insert(sub_id(i), lower_body(s));
    }
    source::RootCircuit {
        num_public_inputs: p.n_pub,
        expected_num_output_zeroes: p.zeroes,
        circuits,
    }
}

// ---------------------------------------------------------------- generation

#[derive(Clone, Debug)]
pub struct GenCfg {
    pub max_subs: usize,
    pub max_ops: usize,
    pub max_in: usize,
    pub max_pub: usize,
    pub max_terms: usize,
    /// Allow instructions that only the source IR has.
    pub ir_only: bool,
    /// Allow operations whose result a prover may choose freely (hints, unconstrained ops).
    pub free: bool,
    /// Allow hints of the harness's registry.
    pub custom_hints: bool,
    pub rand: bool,
    pub gt: bool,
    pub all_live: bool,
    pub cons: bool,
    /// Sub-circuits may read public inputs and challenges.
    pub bool_bias: bool,
    /// Only decompositions with fewer bits than the field has.
    pub narrow_bits: bool,
    /// Mostly calls: deep nests of small sub-circuits, many results unused.
    pub calls: bool,
}
impl GenCfg {
    pub fn random(rng: &mut Rng) -> Self {
        let shape = rng.below(6);
        GenCfg {
            max_subs: [0, 1, 3, 6, 2, 5][shape],
            max_ops: [6, 12, 10, 8, 40, 5][shape],
            max_in: [3, 6, 4, 3, 3, 3][shape],
            max_pub: rng.below(4),
            max_terms: [3, 5, 4, 3, 14, 3][shape],
            calls: shape == 5,
            ir_only: true,
            free: rng.chance(2, 3),
            custom_hints: true,
            rand: rng.chance(1, 6),
            gt: false,
            all_live: rng.chance(1, 2),
            cons: rng.chance(3, 4),
            bool_bias: rng.chance(1, 2),
            narrow_bits: false,
        }
    }
}

pub fn rand_field<C: Config>(rng: &mut Rng) -> F<C> {
    let p = modulus::<C>();
    match rng.below(10) {
        0 => F::<C>::zero(),
        1 => F::<C>::one(),
        2 => F::<C>::from_u256(p - 1),
        3 => F::<C>::from_u256(U256::from(rng.below(8) as u32) % p),
        4 => F::<C>::from_u256(p - 1 - U256::from(rng.below(4) as u32) % p),
        5 => F::<C>::from_u256(pow2u(rng.below(bitlen(p))) % p),
        _ => {
            let v = U256::from_words(
                ((rng.u64() as u128) << 64) | rng.u64() as u128,
                ((rng.u64() as u128) << 64) | rng.u64() as u128,
            );
            F::<C>::from_u256(v % p)
        }
    }
}
pub fn rand_inputs<C: Config>(rng: &mut Rng, n: usize) -> Vec<F<C>> {
    let small = rng.chance(1, 3);
    (0..n)
        .map(|_| if small { F::<C>::from(rng.below(3) as u32) } else { rand_field::<C>(rng) })
        .collect()
}

struct Gen<'a, C: Config> {
    rng: &'a mut Rng,
    cfg: GenCfg,
    prog: Prog<C>,
    pubs: Vec<F<C>>,
    /// Variables of the current body that depend on a challenge.
    banned: HashSet<usize>,
    in_root: bool,
}
impl<C: Config> Gen<'_, C> {
    fn var(&mut self, v: &[F<C>]) -> usize {
        // Recent variables are favoured, so that chains get deep.
        let n = v.len() - 1;
        loop {
            let i = if self.rng.chance(1, 2) { n - self.rng.below(n.min(8)) } else { 1 + self.rng.below(n) };
            if !self.banned.contains(&i) {
                return i;
            }
        }
    }
    fn bool_var(&mut self, v: &[F<C>]) -> usize {
        let c: Vec<usize> = (1..v.len()).filter(|i| !self.banned.contains(i) && (v[*i].is_zero() || v[*i] == F::<C>::one())).collect();
        if c.is_empty() || self.rng.chance(1, 12) {
            self.var(v)
        } else {
            *self.rng.pick(&c)
        }
    }
    fn nonzero_var(&mut self, v: &[F<C>]) -> usize {
        let c: Vec<usize> = (1..v.len()).filter(|i| !self.banned.contains(i) && !v[*i].is_zero()).collect();
        if c.is_empty() || self.rng.chance(1, 15) {
            self.var(v)
        } else {
            *self.rng.pick(&c)
        }
    }
    fn op(&mut self, v: &[F<C>], avail_subs: usize) -> Op<C> {
        loop {
            let k = if self.cfg.gt && self.rng.chance(1, 12) {
                99
            } else if self.cfg.calls && avail_subs > 0 && self.rng.chance(1, 2) {
                18
            } else { self.rng.below(if self.cfg.bool_bias { 26 } else { 20 }) };
            return match k {
                0..=3 => {
                    let n = self.rng.range(if self.cfg.ir_only { 0 } else { 1 }, self.cfg.max_terms);
                    let terms = (0..n)
                        .map(|_| {
                            let x = self.var(v);
                            let k = if self.rng.chance(1, 3) { F::<C>::one() } else { rand_field::<C>(self.rng) };
                            (x, k)
                        })
                        .collect();
                    let c = if self.rng.chance(1, 2) { F::<C>::zero() } else { rand_field::<C>(self.rng) };
                    Op::Lin { terms, c }
                }
                4..=6 => {
                    let n = if self.rng.chance(1, 5) { self.rng.range(2, 5) } else { 2 };
                    Op::Mul((0..n).map(|_| self.var(v)).collect())
                }
                7 => {
                    let (x, y) = (self.var(v), self.nonzero_var(v));
                    Op::Div { x, y, checked: true }
                }
                8 => {
                    let (x, y) = (self.var(v), self.nonzero_var(v));
                    Op::Div { x, y, checked: false }
                }
                9 | 20 | 21 => {
                    let (x, y) = (self.bool_var(v), self.bool_var(v));
                    Op::Bool { op: *self.rng.pick(&[BoolOp::Xor, BoolOp::Or, BoolOp::And]), x, y }
                }
                10 | 22 | 23 => Op::IsZero(self.var(v)),
                11 => {
                    let x = self.var(v);
                    let need = bitlen(v[x].to_u256());
                    let full = bitlen(modulus::<C>());
                    let n = match self.rng.below(6) {
                        0 => full,
                        1 => full + self.rng.below(3),
                        2 => self.rng.range(1, full),
                        _ => need + self.rng.below(3),
                    }
                    .max(1);
                    if n > 70 && self.rng.chance(9, 10) {
                        continue;
                    }
                    if self.cfg.narrow_bits && n >= full {
                        continue;
                    }
                    Op::ToBin { x, n }
                }
                12 | 24 => Op::Const(rand_field::<C>(self.rng)),
                25 => Op::Const(F::<C>::from(self.rng.below(2) as u32)),
                13 => {
                    if self.prog.n_pub == 0 || (!self.cfg.ir_only && !self.in_root) {
                        continue;
                    }
                    Op::Pub(self.rng.below(self.prog.n_pub))
                }
                14 => {
                    if !self.cfg.free || !self.cfg.custom_hints {
                        continue;
                    }
                    let n = self.rng.range(1, 3);
                    let ins = (0..self.rng.range(1, 3)).map(|_| self.var(v)).collect();
                    Op::Hint { h: self.rng.below(HINTS), ins, n }
                }
                15 => {
                    if !self.cfg.free {
                        continue;
                    }
                    let n = if self.cfg.ir_only { self.rng.range(1, 3) } else { 1 };
                    Op::Ident((0..n).map(|_| self.var(v)).collect())
                }
                16 => {
                    if !self.cfg.free {
                        continue;
                    }
                    let (x, y) = (self.var(v), self.var(v));
                    Op::UBin { op: *self.rng.pick(&UOPS), x, y }
                }
                17 => {
                    if !self.cfg.free || !self.cfg.ir_only {
                        continue;
                    }
                    Op::USel { c: self.var(v), t: self.var(v), f: self.var(v) }
                }
                18 | 19 => {
                    if avail_subs == 0 {
                        continue;
                    }
                    let sub = if self.cfg.calls && self.rng.chance(1, 2) { avail_subs - 1 } else { self.rng.below(avail_subs) };
                    let ni = self.prog.subs[sub].n_in;
                    // Prefer arguments under which the callee is satisfied.
                    let mut ins = vec![];
                    for _ in 0..6 {
                        ins = (0..ni)
                            .map(|_| if self.cfg.bool_bias && self.rng.chance(1, 3) { self.bool_var(v) } else { self.var(v) })
                            .collect();
                        let vals: Vec<F<C>> = ins.iter().map(|i: &usize| v[*i]).collect();
                        let mut e = RefEval { prog: &self.prog, pubs: &self.pubs, trace: Trace::default(), rand: 1 };
                        e.body(&self.prog.subs[sub], &vals);
                        if e.trace.accepts() {
                            break;
                        }
                        if self.rng.chance(1, 10) {
                            break;
                        }
                    }
                    Op::Call { sub, ins, n: self.prog.subs[sub].outs.len() }
                }
                _ if self.cfg.gt => {
                    let (x, y) = (self.var(v), self.var(v));
                    if self.rng.chance(1, 2) { Op::Gt(x, y) } else { Op::Geq(x, y) }
                }
                _ => continue,
            };
        }
    }
    /// Another operation on the operands of an earlier one, or the same once more.
    fn echo(&mut self, body: &Body<C>, v: &[F<C>]) -> Option<Op<C>> {
        let old = self.rng.pick(&body.ops).clone();
        let mut at: Vec<usize> = match &old {
            Op::Lin { terms, .. } => terms.iter().map(|t| t.0).collect(),
            Op::Mul(v) => v.clone(),
            Op::Div { x, y, .. } | Op::Bool { x, y, .. } | Op::UBin { x, y, .. } => vec![*x, *y],
            Op::IsZero(x) | Op::ToBin { x, .. } => vec![*x, *x],
            Op::Gt(..) | Op::Geq(..) => return Some(old),
            _ => return None,
        };
        if at.len() < 2 || at.iter().any(|x| self.banned.contains(x)) {
            return None;
        }
        if self.rng.chance(1, 4) {
            return Some(old);
        }
        self.rng.shuffle(&mut at);
        let (x, y) = (at[0], at[1]);
        let (one, zero) = (F::<C>::one(), F::<C>::zero());
        let bit = |i: usize| v[i].is_zero() || v[i] == one;
        Some(match self.rng.below(7) {
            0 | 1 => Op::Lin { terms: vec![(x, one), (y, one)], c: zero },
            2 => Op::Lin { terms: vec![(x, one), (y, -one)], c: zero },
            3 => Op::Mul(vec![x, y]),
            4 => Op::IsZero(x),
            5 if bit(x) && bit(y) => Op::Bool { op: *self.rng.pick(&[BoolOp::Xor, BoolOp::Or, BoolOp::And]), x, y },
            5 => Op::Lin { terms: at.iter().map(|i| (*i, one)).collect(), c: zero },
            _ if !v[y].is_zero() => {
                let checked = self.rng.chance(1, 2);
                Op::Div { x, y, checked }
            }
            _ => Op::Mul(at),
        })
    }
    fn push(&mut self, body: &mut Body<C>, v: &mut Vec<F<C>>, op: Op<C>) {
        let mut e = RefEval { prog: &self.prog, pubs: &self.pubs, trace: Trace::default(), rand: 7 };
        e.step(&op, v);
        body.ops.push(op);
    }
    fn body(&mut self, ins: &[F<C>], avail_subs: usize, is_root: bool) -> Body<C> {
        let mut body = Body { n_in: ins.len(), ops: vec![], cons: vec![], outs: vec![] };
        let mut v = vec![F::<C>::zero()];
        v.extend_from_slice(ins);
        let n = self.rng.range(1, self.cfg.max_ops);
        let mut must_out: Vec<usize> = vec![];
        self.banned.clear();
        self.in_root = is_root;
        for _ in 0..n {
            if v.len() > 400 {
                break;
            }
            let first = v.len();
            let again = if !body.ops.is_empty() && self.rng.chance(1, 7) { self.echo(&body, &v) } else { None };
            let op = match again {
                Some(op) => op,
                None => self.op(&v, avail_subs),
            };
            let checked = matches!(op, Op::Div { .. } | Op::Bool { .. } | Op::ToBin { .. } | Op::Call { .. });
            self.push(&mut body, &mut v, op);
            if checked && self.cfg.all_live {
                must_out.extend(first..v.len());
            }
            if self.cfg.rand && self.rng.chance(1, 8) {
                // r*x - r*y == 0 : holds for a random r exactly when x == y.
                let x = self.var(&v);
                let y = (1..v.len()).find(|i| *i != x && v[*i] == v[x] && !self.banned.contains(i)).unwrap_or(x);
                self.push(&mut body, &mut v, Op::Rand);
                let r = v.len() - 1;
                self.push(&mut body, &mut v, Op::Mul(vec![r, x]));
                self.push(&mut body, &mut v, Op::Mul(vec![r, y]));
                let k = v.len() - 1;
                self.push(&mut body, &mut v, Op::Lin { terms: vec![(k - 1, F::<C>::one()), (k, -F::<C>::one())], c: F::<C>::zero() });
                body.cons.push((Con::Zero, k + 1));
                self.banned.extend([r, k - 1, k, k + 1]);
            }
            if self.cfg.cons && self.rng.chance(1, 4) {
                self.constrain(&mut body, &mut v, &mut must_out);
            }
        }
        let no = self.rng.range(if is_root { 1 } else { 0 }, 4);
        let mut outs = must_out;
        for _ in 0..no {
            let n = v.len() - 1;
            let o = if self.rng.chance(1, 3) { 1 + self.rng.below(n) } else { n - self.rng.below(n.min(5)) };
            outs.push(if self.banned.contains(&o) { 1 } else { o });
        }
        if is_root && outs.is_empty() {
            outs.push(self.var(&v));
        }
        if outs.len() < 60 {
            self.rng.shuffle(&mut outs);
        }
        body.outs = outs;
        body
    }
    fn constrain(&mut self, body: &mut Body<C>, v: &mut Vec<F<C>>, must: &mut Vec<usize>) {
        let x = self.var(v);
        let xv = v[x];
        match self.rng.below(5) {
            0 if xv.is_zero() || xv == F::<C>::one() => body.cons.push((Con::Bool, x)),
            1 if !xv.is_zero() => body.cons.push((Con::NonZero, x)),
            2 if xv.is_zero() => body.cons.push((Con::Zero, x)),
            3 => {
                // x equals a product or sum of other variables, by way of a correcting constant
                let y = self.var(v);
                let k = rand_field::<C>(self.rng);
                let c = -(xv + v[y] * k);
                self.push(body, v, Op::Lin { terms: vec![(x, F::<C>::one()), (y, k)], c });
                body.cons.push((Con::Zero, v.len() - 1));
            }
            4 => {
                // duplicate of an earlier computation asserted equal
                let y = self.var(v);
                self.push(body, v, Op::Mul(vec![x, y]));
                self.push(body, v, Op::Mul(vec![y, x]));
                let k = v.len() - 1;
                self.push(body, v, Op::Lin { terms: vec![(k - 1, F::<C>::one()), (k, -F::<C>::one())], c: F::<C>::zero() });
                body.cons.push((Con::Zero, k + 1));
            }
            _ => {}
        }
        let _ = must;
    }
}

/// A random program and an assignment it was steered to accept (it may still be rejected).
pub fn gen_prog<C: Config>(rng: &mut Rng, cfg: &GenCfg) -> (Prog<C>, Vec<F<C>>, Vec<F<C>>) {
    let n_pub = cfg.max_pub;
    let pubs = rand_inputs::<C>(rng, n_pub);
    gen_prog_pubs(rng, cfg, pubs)
}
/// The same for given public inputs.
pub fn gen_prog_pubs<C: Config>(rng: &mut Rng, cfg: &GenCfg, pubs: Vec<F<C>>) -> (Prog<C>, Vec<F<C>>, Vec<F<C>>) {
    let n_pub = pubs.len();
    let mut cfg = cfg.clone();
    // a challenge of one bit decides nothing
    cfg.rand &= F::<C>::FIELD_SIZE > 1;
    let cfg = &cfg;
    let n_subs = rng.range(0, cfg.max_subs);
    let n_in = rng.range(1, cfg.max_in);
    let ins = rand_inputs::<C>(rng, n_in);
    let mut g = Gen {
        rng,
        cfg: cfg.clone(),
        prog: Prog {
            n_pub,
            subs: vec![],
            root: Body { n_in: 0, ops: vec![], cons: vec![], outs: vec![] },
            zeroes: 0,
            all_live: cfg.all_live,
        },
        pubs: pubs.clone(),
        banned: HashSet::new(),
        in_root: false,
    };
    for i in 0..n_subs {
        let ni = g.rng.range(1, g.cfg.max_in);
        let iv = rand_inputs::<C>(g.rng, ni);
        let b = g.body(&iv, i, false);
        g.prog.subs.push(b);
    }
    let root = g.body(&ins, n_subs, true);
    g.prog.root = root;
    if g.cfg.ir_only && g.rng.chance(1, 5) {
        // leading outputs that must be zero
        let k = g.rng.range(1, 2);
        for _ in 0..k {
            let x = 1 + g.rng.below(g.prog.root.n_in);
            let xv = ins[x - 1];
            let id = g.prog.root.n_in + g.prog.root.ops.iter().map(|o| o.n_out()).sum::<usize>() + 1;
            g.prog.root.ops.push(Op::Lin { terms: vec![(x, F::<C>::one())], c: -xv });
            g.prog.root.outs.insert(0, id);
        }
        g.prog.zeroes = k;
    }
    let p = g.prog;
    (p, ins, pubs)
}

/// Fingerprint of a program: shapes, operations, wiring (not the constants).
pub fn fingerprint<C: Config>(p: &Prog<C>) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    format!("{:?}", p).hash(&mut h);
    C::CONFIG_ID.hash(&mut h);
    h.finish()
}
pub fn op_kinds<C: Config>(p: &Prog<C>) -> HashSet<&'static str> {
    p.subs.iter().chain([&p.root]).flat_map(|b| b.ops.iter().map(|o| o.kind())).collect()
}
pub fn uses_rand<C: Config>(p: &Prog<C>) -> bool {
    p.subs.iter().chain([&p.root]).any(|b| b.ops.iter().any(|o| matches!(o, Op::Rand)))
}
pub fn size<C: Config>(p: &Prog<C>) -> usize {
    p.subs.iter().chain([&p.root]).map(|b| b.ops.len()).sum()
}
