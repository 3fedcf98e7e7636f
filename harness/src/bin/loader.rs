//! Programs in text form, turned into circuits by the interpreter loader.
use arith::Field as _;
use expander_compiler::circuit::config::*;
use expander_compiler::circuit::layered::{CrossLayerInputType, NormalInputType};
use expander_compiler::declare_circuit;
use expander_compiler::frontend::*;
use expander_compiler::utils::interpreter_loader::M31Loader;
use serde_json::json;
use std::cell::RefCell;
use std::rc::Rc;
use vp::equiv::{execute, rand_opts, Built, Outcome};
use vp::lang::F;
use vpc::{catch, ensure, viol, CaseResult, Check, Driver, Obs, Rng, Violation};

/// The values a name stands for.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Bits,
    Bit,
    Word,
    Pair,
}
#[derive(Clone, Debug)]
struct Script {
    text: String,
    /// Shape of the inputs: one length per group.
    groups: Vec<usize>,
    /// Where the results are stored and how long each is.
    stores: Vec<(usize, usize, usize)>,
}
enum Task {
    Text { file: String, groups: Vec<usize>, stores: Vec<(usize, usize, usize)> },
    Add { len: usize, bits: usize },
}
thread_local! {
    static TASK: RefCell<Option<Rc<Task>>> = const { RefCell::new(None) };
}
declare_circuit!(LoadCircuit { x: [Variable], y: [PublicVariable] });
impl<C: Config> Define<C> for LoadCircuit<Variable> {
    fn define<B: RootAPI<C>>(&self, api: &mut B) {
        let t = TASK.with(|t| t.borrow().clone()).expect("task");
        let got: Vec<Variable> = match &*t {
            Task::Text { file, groups, stores } => {
                let mut at = 0;
                let input: Vec<Vec<Variable>> = groups
                    .iter()
                    .map(|n| {
                        at += n;
                        self.x[at - n..at].to_vec()
                    })
                    .collect();
                let mut output = vec![];
                M31Loader::new().load::<C, B>(file, &input, &mut output, api);
                let mut got = vec![];
                for &(i, j, n) in stores {
                    assert!(output[i][j].len() == n, "WRONG-LENGTH output {i} {j} has {} values instead of {n}", output[i][j].len());
                    got.extend(output[i][j].iter().copied());
                }
                got
            }
            Task::Add { len, bits } => M31Loader::big_array_add::<C, B>(api, &self.x[..*len], &self.x[*len..], *bits),
        };
        assert_eq!(got.len(), self.y.len());
        for (g, y) in got.iter().zip(&self.y) {
            api.assert_is_equal(*g, *y);
        }
    }
}

fn to_binary<C: Config>() -> HintRegistry<F<C>> {
    let mut h = HintRegistry::new();
    h.register("myhint.tobinary", |i: &[F<C>], o: &mut [F<C>]| {
        let v = i[0].to_u256();
        for (k, b) in o.iter_mut().enumerate() {
            *b = F::<C>::from(((v >> k as u32) & ethnum::U256::ONE).as_u32());
        }
        Ok(())
    });
    h
}

/// Writes a program, computing the value of every name on each of the input assignments.
fn gen(r: &mut Rng, ins: &[Vec<Vec<u64>>]) -> (Script, Vec<Vec<u64>>) {
    let n_asg = ins.len();
    let groups: Vec<usize> = ins[0].iter().map(|g| g.len()).collect();
    let mut lines: Vec<String> = vec![];
    // per name: its kind and its values under each assignment
    let mut names: Vec<(Kind, Vec<Vec<u64>>)> = vec![];
    let sp = |r: &mut Rng| (*r.pick(&[" ", "  ", "\t"])).to_string();
    let emit = |r: &mut Rng, lines: &mut Vec<String>, toks: Vec<String>| {
        let mut l = toks[0].clone();
        for t in &toks[1..] {
            l += &sp(r);
            l += t;
        }
        lines.push(l);
    };
    if r.chance(2, 3) {
        lines.push(format!("num_args {}", groups.len()));
        for (i, g) in groups.iter().enumerate() {
            lines.push(format!("input {i} {g}"));
        }
    }
    let word = |r: &mut Rng, bits: usize| -> u64 {
        let m = 1u64 << bits;
        match r.below(4) {
            0 => m - 1,
            1 => 0,
            _ => r.u64() % m,
        }
    };
    let steps = r.range(4, 30);
    // every input is looked at once
    let mut todo: Vec<(usize, usize)> = groups.iter().enumerate().flat_map(|(i, n)| (0..*n).map(move |j| (i, j))).collect();
    r.shuffle(&mut todo);
    let mut k = 0;
    while k < steps || !todo.is_empty() {
        k += 1;
        let lval = names.len();
        let of = |names: &Vec<(Kind, Vec<Vec<u64>>)>, want: &[Kind]| -> Vec<usize> { names.iter().enumerate().filter(|(_, n)| want.contains(&n.0)).map(|(i, _)| i).collect() };
        // a bit: a name or a constant
        let bit = |r: &mut Rng, names: &Vec<(Kind, Vec<Vec<u64>>)>| -> (String, Vec<u64>) {
            let c = of(names, &[Kind::Bit]);
            if c.is_empty() || r.chance(1, 8) {
                let v = r.below(2) as u64;
                return (v.to_string(), vec![v; n_asg]);
            }
            // mostly recent names
            let at = if r.chance(2, 3) { c.len() - 1 - r.below(c.len().min(6)) } else { r.below(c.len()) };
            (format!("v{}", c[at]), names[c[at]].1.iter().map(|v| v[0]).collect())
        };
        let choice = r.below(11);
        if lval == 0 || choice == 0 || (k >= steps && !todo.is_empty()) {
            let (i, j) = match todo.pop() {
                Some(x) => x,
                None => {
                    let i = r.below(groups.len());
                    (i, r.below(groups[i]))
                }
            };
            let nb = 1 + r.below(30);
            let nb = if r.chance(1, 2) { 30 } else { nb };
            emit(r, &mut lines, vec!["decompose".into(), format!("=v{lval}"), "i".into(), i.to_string(), j.to_string(), nb.to_string()]);
            let v = ins.iter().map(|a| (0..nb).map(|b| a[i][j] >> b & 1).collect()).collect();
            names.push((if nb == 1 { Kind::Bit } else { Kind::Bits }, v));
            continue;
        }
        match choice {
            1 | 2 | 3 => {
                let c = of(&names, &[Kind::Bits]);
                if c.is_empty() {
                    continue;
                }
                let s = *r.pick(&c);
                let at = r.below(names[s].1[0].len());
                emit(r, &mut lines, vec!["extractbit".into(), format!("=v{lval}"), format!("v{s}"), at.to_string()]);
                let v = names[s].1.iter().map(|v| vec![v[at]]).collect();
                names.push((Kind::Bit, v));
            }
            4 | 5 => {
                let op = *r.pick(&["xor", "and", "or", "mul"]);
                let (a, va) = bit(r, &names);
                let (b, vb) = bit(r, &names);
                emit(r, &mut lines, vec![op.into(), format!("=v{lval}"), a, b]);
                let v = va
                    .iter()
                    .zip(&vb)
                    .map(|(x, y)| {
                        vec![match op {
                            "xor" => x ^ y,
                            "or" => x | y,
                            _ => x & y,
                        }]
                    })
                    .collect();
                names.push((Kind::Bit, v));
            }
            6 => {
                // products of words
                let c = of(&names, &[Kind::Bit, Kind::Word]);
                if c.is_empty() {
                    continue;
                }
                let a = *r.pick(&c);
                let (b, vb): (String, Vec<u64>) = if r.chance(1, 3) {
                    let w = word(r, 30);
                    (w.to_string(), vec![w; n_asg])
                } else {
                    let b = *r.pick(&c);
                    (format!("v{b}"), names[b].1.iter().map(|v| v[0]).collect())
                };
                let mut t = [format!("v{a}"), b];
                if r.chance(1, 2) {
                    t.reverse();
                }
                let [x, y] = t;
                emit(r, &mut lines, vec!["mul".into(), format!("=v{lval}"), x, y]);
                let v = names[a].1.iter().zip(&vb).map(|(x, y)| vec![(x[0] as u128 * *y as u128 % 0x7fff_ffff) as u64]).collect();
                names.push((Kind::Word, v));
            }
            7 => {
                let pair = r.chance(2, 3);
                let n = if pair { r.range(1, 60) } else { r.range(1, 30) };
                let n = if r.chance(1, 3) { if pair { *r.pick(&[29, 30, 31, 59, 60]) } else { 30 } } else { n };
                let mut toks = vec![if pair { "zk.m31.compose".to_string() } else { "compose".into() }, format!("=v{lval}"), n.to_string()];
                let mut v = vec![if pair { vec![0u64; 2] } else { vec![0; 1] }; n_asg];
                for i in 0..n {
                    let (t, vb) = bit(r, &names);
                    toks.push(t);
                    for (v, b) in v.iter_mut().zip(&vb) {
                        v[i / 30] += b << (i % 30);
                    }
                }
                emit(r, &mut lines, toks);
                names.push((if pair { Kind::Pair } else { Kind::Word }, v));
            }
            8 => {
                let c = of(&names, &[Kind::Pair]);
                if c.is_empty() {
                    continue;
                }
                let (a, b) = (*r.pick(&c), *r.pick(&c));
                let full = |v: &Vec<u64>| v[0] + (v[1] << 30);
                // sums that still are words of sixty bits
                if names[a].1.iter().zip(&names[b].1).any(|(x, y)| full(x) + full(y) >> 60 != 0) {
                    continue;
                }
                emit(r, &mut lines, vec!["zk.m31.add".into(), format!("=v{lval}"), format!("v{a}"), format!("v{b}")]);
                let v = names[a]
                    .1
                    .iter()
                    .zip(&names[b].1)
                    .map(|(x, y)| {
                        let s = full(x) + full(y);
                        vec![s & 0x3fff_ffff, s >> 30]
                    })
                    .collect();
                names.push((Kind::Pair, v));
            }
            9 => {
                let c = of(&names, &[Kind::Pair]);
                if c.is_empty() {
                    continue;
                }
                let s = *r.pick(&c);
                let at = r.below(2);
                emit(r, &mut lines, vec!["zk.m31.extract".into(), format!("=v{lval}"), format!("v{s}"), at.to_string()]);
                let v = names[s].1.iter().map(|v| vec![v[at]]).collect();
                names.push((Kind::Word, v));
            }
            _ => {
                // bits of a computed word, or of a constant
                let c: Vec<usize> = of(&names, &[Kind::Word, Kind::Bit]).into_iter().filter(|i| names[*i].1.iter().all(|v| v[0] >> 30 == 0)).collect();
                let (t, vs): (String, Vec<u64>) = if c.is_empty() || r.chance(1, 6) {
                    let w = word(r, 30);
                    (w.to_string(), vec![w; n_asg])
                } else {
                    let s = *r.pick(&c);
                    (format!("v{s}"), names[s].1.iter().map(|v| v[0]).collect())
                };
                emit(r, &mut lines, vec!["decompose".into(), format!("=v{lval}"), t]);
                names.push((Kind::Bits, vs.iter().map(|x| (0..30).map(|b| x >> b & 1).collect()).collect()));
            }
        }
    }
    // results, in any order of places
    let n_groups = r.range(1, 3);
    let mut places: Vec<(usize, usize)> = (0..n_groups).flat_map(|i| (0..1 + (i * 7 + groups.len()) % 3).map(move |j| (i, j))).collect();
    if r.chance(1, 2) {
        r.shuffle(&mut places);
    }
    if r.chance(1, 4) {
        // a place nothing is stored in, and one stored twice
        if places.len() > 1 {
            places.pop();
        }
        if let Some(p) = places.first().copied() {
            places.push(p);
        }
    }
    let mut at: Vec<((usize, usize), usize)> = vec![];
    for (i, j) in places {
        let s = if r.chance(2, 3) { names.len() - 1 - r.below(names.len().min(4)) } else { r.below(names.len()) };
        emit(r, &mut lines, vec!["store".into(), "o".into(), i.to_string(), j.to_string(), format!("v{s}")]);
        at.retain(|x| x.0 != (i, j));
        at.push(((i, j), s));
    }
    if r.chance(1, 2) {
        lines.push(format!("output {n_groups}"));
    }
    let mut want = vec![vec![]; n_asg];
    let mut stores = vec![];
    for ((i, j), s) in at {
        stores.push((i, j, names[s].1[0].len()));
        for (w, v) in want.iter_mut().zip(&names[s].1) {
            w.extend(v.iter().copied());
        }
    }
    let text = lines.join("\n") + if r.chance(1, 2) { "\n" } else { "" };
    (Script { text, groups, stores }, want)
}

enum Any<C: Config> {
    N(Built<C, NormalInputType>),
    X(Built<C, CrossLayerInputType>),
}
/// The circuit accepts the right results and no others, under the debug evaluator and compiled.
fn judge<C: Config>(r: &mut Rng, o: &mut Obs, asg: &[(Vec<u64>, Vec<u64>)], txt: &str) -> CaseResult {
    let val = |x: &[u64]| x.iter().map(|v| F::<C>::from_u256(ethnum::U256::from(*v))).collect::<Vec<_>>();
    let (nx, ny) = (asg[0].0.len(), asg[0].1.len());
    let shape = LoadCircuit { x: vec![Variable::default(); nx], y: vec![Variable::default(); ny] };
    let mut runs: Vec<(Vec<F<C>>, Vec<F<C>>, bool)> = vec![];
    for (x, y) in asg {
        runs.push((val(x), val(y), true));
        let mut z = val(y);
        let at = r.below(z.len());
        z[at] += if r.chance(1, 2) { F::<C>::one() } else { F::<C>::from(1u32 << r.below(30)) };
        runs.push((val(x), z, false));
    }
    for (x, y, ok) in &runs {
        let got = catch(|| extra::debug_eval::<C, _, _, _>(&shape, &LoadCircuit { x: x.clone(), y: y.clone() }, to_binary::<C>()));
        if let Err(m) = &got {
            ensure!(!m.contains("WRONG-LENGTH"), "shape", "{m}: {txt}");
        }
        ensure!(got.is_ok() == *ok, "debug", "debug evaluation {} results that are {}: {got:?} {x:?} {y:?}: {txt}", if *ok { "refuses" } else { "accepts" }, if *ok { "right" } else { "wrong" });
        o.count("runs of the debug evaluator", 1);
    }
    let opts = rand_opts(r);
    let cross = r.chance(1, 4);
    let b = catch(|| {
        if cross {
            compile_cross_layer::<C, _>(&shape, opts.clone()).map(|r| Any::X(Built { ws: r.witness_solver, lc: r.layered_circuit }))
        } else {
            compile::<C, _>(&shape, opts.clone()).map(|r| Any::N(Built { ws: r.witness_solver, lc: r.layered_circuit }))
        }
    })
    .map_err(|m| viol!("build-panic", "loading or compiling panicked: {m}: {txt}"))?;
    let b = match b {
        Ok(b) => b,
        Err(e) => {
            ensure!(e.to_string().contains("circuit has no inputs"), "declined", "declined: {e}: {txt}");
            o.count("declined_no_inputs", 1);
            return Ok(());
        }
    };
    let reg = to_binary::<C>();
    for (x, y, ok) in &runs {
        let got: Result<Outcome<C>, Violation> = match &b {
            Any::N(b) => execute(b, x, y, &reg, o),
            Any::X(b) => execute(b, x, y, &reg, o),
        };
        let got = got.map_err(|mut v| {
            v.msg = format!("{}: {txt}", v.msg);
            v
        })?;
        match got {
            Outcome::Accept(_) => ensure!(*ok, "accepts", "wrong results {y:?} accepted for {x:?}: {txt}"),
            Outcome::Reject(m) => ensure!(!*ok, "refuses", "right results {y:?} refused ({m}) for {x:?}: {txt}"),
        }
        o.count(if *ok { "right results accepted" } else { "wrong results refused" }, 1);
    }
    Ok(())
}
fn text_case(r: &mut Rng, o: &mut Obs, dir: &str) -> CaseResult {
    let groups: Vec<usize> = (0..r.range(1, 3)).map(|i| if i == 1 { 1 } else { 2 }).collect();
    let ins: Vec<Vec<Vec<u64>>> = (0..3)
        .map(|_| {
            groups
                .iter()
                .map(|n| {
                    (0..*n)
                        .map(|_| match r.below(4) {
                            0 => (1 << 30) - 1,
                            1 => r.below(4) as u64,
                            _ => r.u64() >> 34,
                        })
                        .collect()
                })
                .collect()
        })
        .collect();
    let (s, want) = gen(r, &ins);
    let file = format!("{dir}/{}-{:x}.txt", std::process::id(), r.u64());
    std::fs::write(&file, &s.text).map_err(|e| viol!("io", "{e}"))?;
    TASK.with(|t| *t.borrow_mut() = Some(Rc::new(Task::Text { file: file.clone(), groups: s.groups.clone(), stores: s.stores.clone() })));
    let asg: Vec<(Vec<u64>, Vec<u64>)> = ins.iter().zip(want).map(|(i, w)| (i.concat(), w)).collect();
    let res = judge::<M31Config>(r, o, &asg, &s.text);
    let _ = std::fs::remove_file(&file);
    o.count("lines of text", s.text.lines().count() as u64);
    for l in s.text.lines() {
        let k: &'static str = match l.split_whitespace().next().unwrap_or("") {
            "decompose" => "decompose lines",
            "extractbit" => "extractbit lines",
            "zk.m31.compose" => "wide compose lines",
            "zk.m31.add" => "wide add lines",
            "zk.m31.extract" => "wide extract lines",
            "compose" => "compose lines",
            "store" => "store lines",
            "xor" | "and" | "or" | "mul" => "gate lines",
            _ => "header lines",
        };
        o.count(k, 1);
    }
    o.distinct(&s.text);
    if o.wants_sample() && s.text.len() < 400 {
        o.sample(json!({"program": s.text}));
    }
    res
}
fn add_case<C: Config>(r: &mut Rng, o: &mut Obs, max: usize) -> CaseResult {
    let len = r.range(1, 6);
    let bits = if r.chance(1, 3) { max } else { r.range(1, max) };
    let mut asg = vec![];
    for _ in 0..3 {
        let m = (1u64 << bits) - 1;
        let limb = |r: &mut Rng| match r.below(4) {
            0 => m,
            1 => 0,
            _ => r.u64() & m,
        };
        let a: Vec<u64> = (0..len).map(|_| limb(r)).collect();
        let b: Vec<u64> = a.iter().map(|x| if r.chance(1, 3) { m - x } else { limb(r) }).collect();
        let (mut c, mut y) = (0, vec![]);
        for (a, b) in a.iter().zip(&b) {
            let s = a + b + c;
            y.push(s & m);
            c = s >> bits;
            o.count(if c == 1 { "limbs that carry" } else { "limbs that do not carry" }, 1);
        }
        asg.push(([a, b].concat(), y));
    }
    TASK.with(|t| *t.borrow_mut() = Some(Rc::new(Task::Add { len, bits })));
    o.distinct(&(len, bits, C::CONFIG_ID));
    judge::<C>(r, o, &asg, &format!("sum of {len} limbs of {bits} bits"))
}
fn f06(d: &mut Driver) {
    let dir = d.scratch.to_str().unwrap().to_string();
    d.cases("texts", d.n(12000, 200000), move |r, o| text_case(r, o, &dir));
    d.cases("sums", d.n(6000, 100000), |r, o| match r.below(4) {
        0 => add_case::<M31Config>(r, o, 29),
        1 => add_case::<BabyBearConfig>(r, o, 29),
        2 => add_case::<GoldilocksConfig>(r, o, 30),
        _ => add_case::<BN254Config>(r, o, 30),
    });
}
fn main() {
    vpc::main(&[Check { id: "F06", rule: "one random program text loaded, evaluated and compiled, or one sum of limbs; distinct = different (text) or (lengths, field)", run: f06 }])
}
