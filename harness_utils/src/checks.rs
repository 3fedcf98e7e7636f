//! Monitors of the utility containers: every operation of the real code is mirrored in a naive
//! model and every observable answer compared.
use crate::utils::{bucket_sort::bucket_sort, error::Error, function_id::get_function_id, heap, misc::*, pool::Pool, static_hash_map::StaticHashMap, union_find::UnionFind};
use serde_json::json;
use std::collections::{BTreeMap, HashMap, HashSet};
use vpc::{ensure, CaseResult, Check, Driver, Obs, Rng};

pub const CHECKS: [Check; 9] = [
    Check { id: "U01", rule: "one history of pushes and pops on the repository's heap with a fixed comparator; distinct = different (comparator, key sequence, operation sequence)", run: u01 },
    Check { id: "U02", rule: "one key list given to the static map and every key looked up; distinct = different key lists of at least one key", run: u02 },
    Check { id: "U03", rule: "one array and key function given to bucket_sort; distinct = different (keys, bucket count) with at least two elements", run: u03 },
    Check { id: "U04", rule: "one history of unions and finds, all pairwise connectivities compared with labels; distinct = different histories", run: u04 },
    Check { id: "U05", rule: "one history of pool operations mirrored in a list; distinct = different histories", run: u05 },
    Check { id: "U06", rule: "one directed graph ordered; distinct = different graphs with at least one edge", run: u06 },
    Check { id: "U07", rule: "one argument of the power-of-two helpers; distinct = different arguments", run: u07 },
    Check { id: "U08", rule: "one set of functions and types whose identifiers are compared pairwise; distinct = different pairs", run: u08 },
    Check { id: "U09", rule: "one error value and prefix chain; distinct = different (kind, message, prefixes)", run: u09 },
];

// ------------------------------------------------------------------ U01

/// Comparator over element values: the key of an element, possibly with ties.
fn heap_history(keys: &dyn Fn(usize) -> u64, ops: &[Option<usize>], rev: bool, obs: &mut Obs) -> CaseResult {
    let cmp = |a: usize, b: usize| if rev { keys(b).cmp(&keys(a)) } else { keys(a).cmp(&keys(b)) };
    let ord = |x: usize| if rev { u64::MAX - keys(x) } else { keys(x) };
    let mut h: Vec<usize> = vec![];
    // model: order key -> multiset of elements
    let mut model: BTreeMap<u64, BTreeMap<usize, usize>> = BTreeMap::new();
    let mut n = 0usize;
    for (i, op) in ops.iter().enumerate() {
        match op {
            Some(x) => {
                heap::push(&mut h, *x, cmp);
                *model.entry(ord(*x)).or_default().entry(*x).or_default() += 1;
                n += 1;
                obs.count("push", 1);
            }
            None => {
                let got = heap::pop(&mut h, cmp);
                obs.count("pop", 1);
                match (got, model.keys().next().copied()) {
                    (None, None) => obs.count("pop_empty", 1),
                    (Some(x), Some(k)) => {
                        ensure!(ord(x) == k, "order", "operation {i}: pop returned {x} (order {}) while an element of order {k} was present", ord(x));
                        let m = model.get_mut(&k).unwrap();
                        ensure!(m.contains_key(&x), "lost", "operation {i}: pop returned {x}, which is not in the heap");
                        let c = m.get_mut(&x).unwrap();
                        *c -= 1;
                        if *c == 0 {
                            m.remove(&x);
                        }
                        if m.is_empty() {
                            model.remove(&k);
                        }
                        n -= 1;
                    }
                    (g, w) => return Err(vpc::viol!("presence", "operation {i}: pop returned {g:?}, model has {w:?}")),
                }
            }
        }
        ensure!(h.len() == n, "size", "operation {i}: heap holds {} elements, {n} expected", h.len());
    }
    // what is left is exactly what was pushed and not popped
    let mut left: Vec<usize> = h.clone();
    left.sort();
    let mut want: Vec<usize> = model.values().flat_map(|m| m.iter().flat_map(|(x, c)| std::iter::repeat(*x).take(*c))).collect();
    want.sort();
    ensure!(left == want, "conservation", "heap content differs from the pushed-minus-popped multiset");
    Ok(())
}
fn u01(d: &mut Driver) {
    d.cases("random", d.n(6000, 60000), |r, o| {
        let len = match r.below(4) {
            0 => r.range(1, 12),
            1 => r.range(1, 100),
            2 => r.range(100, 1000),
            _ => r.range(1, 40),
        };
        let range = *r.pick(&[1usize, 2, 3, 8, 100, 1 << 20, usize::MAX]);
        let salt = r.u64();
        let kind = r.below(5);
        let keys = move |x: usize| -> u64 {
            match kind {
                0 => x as u64,
                1 => (x as u64) % 4,
                2 => (x as u64).wrapping_mul(salt | 1),
                3 => 0,
                _ => (x as u64) / 3,
            }
        };
        let bias = r.range(1, 9);
        let style = r.below(4);
        let ops: Vec<Option<usize>> = (0..len)
            .map(|i| {
                let x = match style {
                    0 => i,
                    1 => len - i,
                    _ => if range == usize::MAX { r.u64() as usize } else { r.below(range) },
                };
                if r.below(10) < bias { Some(x) } else { None }
            })
            .collect();
        let drain = r.chance(2, 3);
        let mut ops = ops;
        if drain {
            ops.extend(std::iter::repeat(None).take(len + 2));
        }
        let rev = r.chance(1, 2);
        o.distinct(&(&ops, kind, salt, rev));
        if o.wants_sample() && len < 13 {
            o.sample(json!({"ops": ops, "comparator": kind, "reversed": rev}));
        }
        heap_history(&keys, &ops, rev, o)
    });
    // every key sequence over a small alphabet, pushed then drained, with interleaved pops
    let max: usize = if d.quick() { 6 } else { 7 };
    for len in 1..=max {
        let total = 4usize.pow(len as u32);
        let stage = format!("all_{len}");
        d.cases(&stage, 4, |_, o| {
            let shard = o.case as usize;
            for s in (shard..total).step_by(4) {
                for pops in 0..(1usize << len) {
                    if len > 5 && pops % 5 != 0 {
                        continue;
                    }
                    let mut ops = vec![];
                    for i in 0..len {
                        ops.push(Some((s / 4usize.pow(i as u32)) % 4 + 10 * i));
                        if pops >> i & 1 == 1 {
                            ops.push(None);
                        }
                    }
                    ops.extend(std::iter::repeat(None).take(len + 1));
                    heap_history(&|x| (x % 10) as u64, &ops, false, o)?;
                    o.distinct(&ops);
                }
            }
            Ok(())
        });
    }
    // all permutations as keys (the classic worst cases of sift-down)
    d.scenario("permutations", |_, o| {
        let n = 8usize;
        let mut p: Vec<usize> = (0..n).collect();
        let mut c = vec![0usize; n];
        let run = |p: &[usize], o: &mut Obs| -> CaseResult {
            let ops: Vec<Option<usize>> = p.iter().map(|x| Some(*x)).chain(std::iter::repeat(None).take(n + 1)).collect();
            o.distinct(&ops);
            heap_history(&|x| x as u64, &ops, false, o)
        };
        run(&p, o)?;
        let mut i = 0;
        while i < n {
            if c[i] < i {
                if i % 2 == 0 { p.swap(0, i) } else { p.swap(c[i], i) }
                run(&p, o)?;
                c[i] += 1;
                i = 0;
            } else {
                c[i] = 0;
                i += 1;
            }
        }
        Ok(())
    });
    d.cases("large", d.n(16, 160), |r, o| {
        let n = r.range(2000, 40000);
        let range = *r.pick(&[10usize, 1000, 1 << 30]);
        let mut ops: Vec<Option<usize>> = (0..n).map(|_| if r.chance(2, 3) { Some(r.below(range)) } else { None }).collect();
        ops.extend(std::iter::repeat(None).take(n));
        o.distinct(&ops);
        heap_history(&|x| x as u64, &ops, r.chance(1, 2), o)
    });
}

// ------------------------------------------------------------------ U02

const MODP: usize = 1_000_000_007;
fn map_case(keys: &[usize], o: &mut Obs) -> CaseResult {
    let m = StaticHashMap::new(keys);
    for (i, k) in keys.iter().enumerate() {
        let g = m.get(*k);
        ensure!(g == i, "lookup", "key {k} (position {i} of {}) looked up as {g}", keys.len());
    }
    o.count("lookups", keys.len() as u64);
    if !keys.is_empty() {
        o.distinct(keys);
    }
    Ok(())
}
fn distinct_keys(v: Vec<usize>) -> Vec<usize> {
    let mut seen = HashSet::new();
    v.into_iter().filter(|x| seen.insert(*x)).collect()
}
fn u02(d: &mut Driver) {
    d.scenario("empty", |_, o| map_case(&[], o));
    d.cases("small", d.n(60000, 600000), |r, o| {
        let n = r.range(1, 24);
        let s = r.below(7);
        let base = r.u64() as usize;
        let mut keys: Vec<usize> = (0..n)
            .map(|i| match s {
                0 => i,
                1 => r.below(64),
                2 => r.u64() as usize,
                3 => base.wrapping_add(i),
                4 => MODP - 8 + r.below(16),
                5 => base.wrapping_add(i.wrapping_mul(1 << r.below(40))),
                _ => if r.chance(1, 8) { 0 } else { r.below(1 << 20) },
            })
            .collect();
        keys = distinct_keys(keys);
        r.shuffle(&mut keys);
        if o.wants_sample() && keys.len() < 8 {
            o.sample(json!({"keys": keys}));
        }
        map_case(&keys, o)
    });
    d.cases("medium", d.n(400, 4000), |r, o| {
        let n = r.range(50, 1500);
        let s = r.below(3);
        let keys = distinct_keys((0..n).map(|i| if s == 0 { i } else if s == 1 { r.u64() as usize } else { r.below(1 << 24) }).collect());
        map_case(&keys, o)
    });
    d.cases_par("large", d.n(8, 40), 4, |r, o| {
        let n = r.range(2000, 4000);
        let keys = distinct_keys((0..n).map(|_| r.u64() as usize).collect());
        map_case(&keys, o)
    });
    // keys that agree modulo the table's prime: still different keys
    d.cases("congruent", d.n(200, 2000), |r, o| {
        let mut keys = vec![];
        for _ in 0..r.range(1, 4) {
            let b = r.below(MODP);
            for k in 0..r.range(2, 4) {
                keys.push(b + MODP * (k * r.range(1, 1 << 20)));
            }
        }
        let keys = distinct_keys(keys);
        o.count("congruent_pairs", 1);
        map_case(&keys, o)
    });
}

// ------------------------------------------------------------------ U03

fn u03(d: &mut Driver) {
    d.cases("random", d.n(40000, 400000), |r, o| {
        let m = match r.below(4) {
            0 => 1,
            1 => r.range(1, 4),
            2 => r.range(1, 20),
            _ => r.range(1, 300),
        };
        let n = if r.chance(1, 10) { r.range(0, 3) } else { r.range(0, 80) };
        let style = r.below(4);
        let keys: Vec<usize> = (0..n)
            .map(|i| match style {
                0 => r.below(m),
                1 => m - 1,
                2 => 0,
                _ => (i * m / n.max(1)).min(m - 1),
            })
            .collect();
        let arr: Vec<(usize, usize)> = keys.iter().copied().enumerate().map(|(i, k)| (k, i)).collect();
        // the tag is not part of the sort key: ties must keep their order
        let arr: Vec<(usize, usize)> = arr.iter().map(|(k, i)| (n - 1 - *i, *k)).collect();
        let (res, start) = bucket_sort(arr.clone(), |x| x.1, m);
        let mut want = arr.clone();
        want.sort_by_key(|x| x.1);
        ensure!(res == want, "order", "bucket_sort differs from a stable sort: n={n} m={m} keys={keys:?}");
        ensure!(start.len() == m, "starts", "{} start positions for {m} buckets", start.len());
        for b in 0..m {
            let w = keys.iter().filter(|k| **k < b).count();
            ensure!(start[b] == w, "starts", "bucket {b} starts at {} instead of {w}", start[b]);
        }
        if n >= 2 {
            o.distinct(&(&keys, m));
        }
        o.count("elements", n as u64);
        if o.wants_sample() && n > 1 && n < 8 {
            o.sample(json!({"keys": keys, "buckets": m}));
        }
        Ok(())
    });
    d.cases("large", d.n(20, 200), |r, o| {
        let m = r.range(1, 5000);
        let n = r.range(1000, 30000);
        let arr: Vec<(usize, usize)> = (0..n).map(|_| (r.below(1 << 20), r.below(m))).collect();
        let (res, start) = bucket_sort(arr.clone(), |x| x.1, m);
        let mut want = arr.clone();
        want.sort_by_key(|x| x.1);
        ensure!(res == want, "order", "bucket_sort differs from a stable sort: n={n} m={m}");
        let mut at = 0;
        for b in 0..m {
            while at < n && want[at].1 < b {
                at += 1;
            }
            ensure!(start[b] == at, "starts", "bucket {b} starts at {} instead of {at}", start[b]);
        }
        o.distinct(&(n, m, arr[0], arr[n - 1]));
        Ok(())
    });
}

// ------------------------------------------------------------------ U04

fn u04(d: &mut Driver) {
    d.cases("random", d.n(20000, 200000), |r, o| {
        let n = if r.chance(1, 6) { r.range(60, 200) } else { r.range(1, 24) };
        let mut uf = UnionFind::new(n);
        let mut lab: Vec<usize> = (0..n).collect();
        let steps = r.range(0, 2 * n);
        let style = r.below(4);
        let mut hist = vec![];
        for i in 0..steps {
            let (a, b) = match style {
                0 => (r.below(n), r.below(n)),
                1 => (i % n, (i + 1) % n),
                2 => (0, r.below(n)),
                _ => (r.below(n), i % n),
            };
            if r.chance(1, 4) {
                let f = uf.find(a);
                ensure!(f < n && lab[f] == lab[a], "representative", "find({a}) = {f}, outside its set");
                ensure!(uf.find(f) == f, "representative", "representative {f} is not its own");
                o.count("find", 1);
            } else {
                uf.union(a, b);
                o.count("union", 1);
                let (la, lb) = (lab[a], lab[b]);
                for l in lab.iter_mut() {
                    if *l == la {
                        *l = lb;
                    }
                }
            }
            hist.push((a, b));
            if n <= 24 || i + 1 == steps {
                let rep: Vec<usize> = (0..n).map(|x| uf.find(x)).collect();
                let mut seen: HashMap<usize, usize> = HashMap::new();
                let mut seen2: HashMap<usize, usize> = HashMap::new();
                for x in 0..n {
                    ensure!(*seen.entry(lab[x]).or_insert(rep[x]) == rep[x], "connectivity", "after {hist:?}: {x} separated from its set");
                    ensure!(*seen2.entry(rep[x]).or_insert(lab[x]) == lab[x], "connectivity", "after {hist:?}: {x} merged with a set it was never united with");
                }
                o.count("connectivity_checks", 1);
            }
        }
        if o.wants_sample() && n < 8 && steps > 2 {
            o.sample(json!({"n": n, "history": hist}));
        }
        if steps > 0 {
            o.distinct(&(n, hist));
        }
        Ok(())
    });
    d.scenario("long_chain", |_, o| {
        // deep chains must neither overflow the stack nor take quadratic time
        let n = 200_000;
        let mut uf = UnionFind::new(n);
        for i in 0..n - 1 {
            uf.union(i, i + 1);
        }
        let f = uf.find(0);
        for x in (0..n).step_by(997) {
            ensure!(uf.find(x) == f, "connectivity", "element {x} of a chain separated");
        }
        o.distinct("chain");
        Ok(())
    });
}

// ------------------------------------------------------------------ U05

fn u05(d: &mut Driver) {
    d.cases("random", d.n(30000, 300000), |r, o| {
        let mut p: Pool<Vec<u64>> = if r.chance(1, 2) { Pool::new() } else { Pool::default() };
        let mut model: Vec<Vec<u64>> = vec![];
        let range = r.range(1, 30);
        let steps = r.range(1, 60);
        let mut hist = vec![];
        for _ in 0..steps {
            let v: Vec<u64> = (0..r.below(3)).map(|_| r.below(range) as u64).collect();
            let at = model.iter().position(|x| *x == v);
            hist.push(v.clone());
            match r.below(4) {
                0 | 1 => {
                    let i = p.add(&v);
                    let w = at.unwrap_or_else(|| {
                        model.push(v.clone());
                        model.len() - 1
                    });
                    ensure!(i == w, "index", "add({v:?}) = {i}, {w} expected");
                    o.count("add", 1);
                }
                2 => {
                    ensure!(p.try_get_idx(&v) == at, "index", "try_get_idx({v:?}) = {:?}, {at:?} expected", p.try_get_idx(&v));
                    match at {
                        Some(i) => ensure!(p.get_idx(&v) == i, "index", "get_idx({v:?}) wrong"),
                        None => ensure!(vpc::catch(|| p.get_idx(&v)).is_err(), "index", "get_idx of an absent value returned"),
                    }
                    o.count("lookup", 1);
                }
                _ => {
                    let i = r.below(model.len() + 2);
                    match model.get(i) {
                        Some(x) => ensure!(p.get(i) == x, "value", "get({i}) = {:?}, {x:?} expected", p.get(i)),
                        None => ensure!(vpc::catch(|| p.get(i)).is_err(), "value", "get({i}) out of range returned"),
                    }
                    o.count("get", 1);
                }
            }
            ensure!(p.len() == model.len() && p.is_empty() == model.is_empty(), "size", "length {} instead of {}", p.len(), model.len());
            ensure!(p.vec() == &model, "value", "pool contents differ from the model");
            ensure!(p.map().len() == model.len() && model.iter().enumerate().all(|(i, x)| p.map().get(x) == Some(&i)), "index", "pool map differs from the model");
            if r.chance(1, 20) {
                p = p.clone();
            }
        }
        if o.wants_sample() && steps < 8 {
            o.sample(json!({"values": hist}));
        }
        o.distinct(&hist);
        Ok(())
    });
}

// ------------------------------------------------------------------ U06

fn u06(d: &mut Driver) {
    d.cases("random", d.n(40000, 400000), |r, o| {
        let n = if r.chance(1, 8) { r.range(20, 120) } else { r.range(1, 10) };
        let scale = *r.pick(&[1usize, 7, 1 << 40]);
        let off = r.below(1 << 20);
        let mut names: Vec<usize> = (0..n).map(|i| i * scale + off).collect();
        r.shuffle(&mut names);
        let m = r.below(3 * n + 1);
        let acyclic = r.chance(2, 3);
        let mut edges: HashMap<usize, HashSet<usize>> = HashMap::new();
        let mut list = vec![];
        for _ in 0..m {
            let (mut a, mut b) = (r.below(n), r.below(n));
            if acyclic {
                if a == b {
                    continue;
                }
                if a > b {
                    std::mem::swap(&mut a, &mut b);
                }
            }
            if edges.entry(names[a]).or_default().insert(names[b]) {
                list.push((a, b));
            }
        }
        if r.chance(1, 2) {
            for x in &names {
                edges.entry(*x).or_default();
            }
        }
        let vertices: HashSet<usize> = names.iter().copied().collect();
        // reference: acyclicity by repeated removal of vertices without incoming edges
        let mut alive: HashSet<usize> = (0..n).collect();
        loop {
            let next: HashSet<usize> = alive.iter().copied().filter(|v| list.iter().any(|(a, b)| b == v && alive.contains(a))).collect();
            if next.len() == alive.len() {
                break;
            }
            alive = next;
        }
        let dag = alive.is_empty();
        let (order, is_dag) = topo_order_and_is_dag(&vertices, &edges);
        ensure!(is_dag == dag, "acyclic", "graph {list:?} on {n} vertices: reported acyclic = {is_dag}, actually {dag}");
        let pos: HashMap<usize, usize> = order.iter().enumerate().map(|(i, v)| (*v, i)).collect();
        ensure!(pos.len() == order.len() && order.iter().all(|v| vertices.contains(v)), "vertices", "order repeats or invents vertices");
        if dag {
            ensure!(order.len() == n, "vertices", "order has {} of {n} vertices", order.len());
            let t = topo_order(&vertices, &edges);
            for ord in [&order, &t] {
                let pos: HashMap<usize, usize> = ord.iter().enumerate().map(|(i, v)| (*v, i)).collect();
                ensure!(pos.len() == n && ord.len() == n, "vertices", "topo_order is not a permutation");
                for (a, b) in &list {
                    ensure!(pos[&names[*a]] < pos[&names[*b]], "order", "edge {a}->{b} of {list:?} is reversed in the order");
                }
            }
            o.count("dag", 1);
        } else {
            o.count("cyclic", 1);
        }
        if !list.is_empty() {
            o.distinct(&(n, &list));
        }
        if o.wants_sample() && n < 6 && list.len() > 2 {
            o.sample(json!({"n": n, "edges": list}));
        }
        Ok(())
    });
}

// ------------------------------------------------------------------ U07

fn pow2_case(x: usize, o: &mut Obs) -> CaseResult {
    let n = next_power_of_two(x);
    ensure!(n.count_ones() == 1 && n >= x && (n == 1 || n / 2 < x), "next", "next_power_of_two({x}) = {n}");
    let p = prev_power_of_two(x);
    if x == 0 {
        ensure!(p == 0, "prev", "prev_power_of_two(0) = {p}");
    } else {
        ensure!(p.count_ones() == 1 && p <= x && x - p < p, "prev", "prev_power_of_two({x}) = {p}");
    }
    o.distinct(&x);
    Ok(())
}
fn u07(d: &mut Driver) {
    d.scenario("small", |_, o| (0..(1usize << 17)).try_for_each(|x| pow2_case(x, o)));
    d.scenario("boundaries", |_, o| {
        for k in 0..=62 {
            for dlt in -3i64..=3 {
                let x = (1i64 << k) + dlt;
                if x >= 0 && x <= 1 << 62 {
                    pow2_case(x as usize, o)?;
                }
            }
        }
        o.sample(json!("2^k + d for k <= 62, |d| <= 3"));
        Ok(())
    });
    d.cases("random", d.n(100000, 1000000), |r, o| {
        let x = (r.u64() >> r.range(2, 63)) as usize;
        pow2_case(x, o)
    });
}

// ------------------------------------------------------------------ U08

fn fid<F: 'static>(_: &F) -> u64 {
    get_function_id::<F>()
}
fn f_a(x: u32) -> u32 { x }
fn f_b(x: u32) -> u32 { x }
fn gen_f<const N: usize, T>(_: T) -> usize { N }
mod deep { pub fn f_a(x: u32) -> u32 { x } }
struct Named;
impl Named { fn m1(&self) {} fn m2(&self) {} }
fn make(i: usize) -> impl Fn(usize) -> usize { move |x| x + i }
fn u08(d: &mut Driver) {
    d.cases_par("ids", 64, 8, |r, o| {
        let c1 = |x: u32| x + 1;
        let c2 = |x: u32| x + 1;
        let k = r.below(1000);
        let c3 = move |x: usize| x + k;
        let (m0, m1) = (make(1), make(2));
        let v: Vec<(&str, u64)> = vec![
            ("f_a", fid(&f_a)), ("f_b", fid(&f_b)), ("deep::f_a", fid(&deep::f_a)),
            ("gen<1,u8>", fid(&gen_f::<1, u8>)), ("gen<2,u8>", fid(&gen_f::<2, u8>)), ("gen<1,u16>", fid(&gen_f::<1, u16>)),
            ("gen<1,Vec<u8>>", fid(&gen_f::<1, Vec<u8>>)), ("gen<1,Vec<u16>>", fid(&gen_f::<1, Vec<u16>>)),
            ("c1", fid(&c1)), ("c2", fid(&c2)), ("c3", fid(&c3)),
            ("m1", fid(&Named::m1)), ("m2", fid(&Named::m2)),
            ("u8", get_function_id::<u8>()), ("i8", get_function_id::<i8>()), ("String", get_function_id::<String>()),
            ("fn ptr", get_function_id::<fn(u32) -> u32>()), ("fn ptr2", get_function_id::<fn(u32) -> u64>()),
            ("unit", get_function_id::<()>()), ("named", get_function_id::<Named>()),
        ];
        for i in 0..v.len() {
            for j in 0..i {
                ensure!(v[i].1 != v[j].1, "collision", "{} and {} have the same identifier", v[i].0, v[j].0);
                o.distinct(&(i, j));
            }
        }
        // the same function has the same identifier, wherever and whenever it is asked for
        ensure!(fid(&f_a) == v[0].1 && fid(&m0) == fid(&m1) && fid(&c1) == v[8].1, "stability", "identifier changed between calls");
        let t = std::thread::spawn(|| (fid(&f_a), fid(&gen_f::<2, u8>))).join().unwrap();
        ensure!(t == (v[0].1, v[4].1), "stability", "identifier differs on another thread");
        o.sample(json!(v.iter().map(|x| x.0).collect::<Vec<_>>()));
        Ok(())
    });
}

// ------------------------------------------------------------------ U09

fn u09(d: &mut Driver) {
    d.cases("random", d.n(20000, 200000), |r, o| {
        let s = |r: &mut Rng| -> String {
            let n = r.below(12);
            (0..n).map(|_| *r.pick(&['a', ':', ' ', '{', '}', 'é', '\n', '%', 'Z', '\\'])).collect()
        };
        let user = r.chance(1, 2);
        let msg = s(r);
        let mut e = if user { Error::UserError(msg.clone()) } else { Error::InternalError(msg.clone()) };
        let mut want = msg.clone();
        let mut pre = vec![];
        for _ in 0..r.below(4) {
            let p = s(r);
            let before = format!("{e:?}");
            let e2 = e.prepend(&p);
            ensure!(format!("{e:?}") == before, "mutation", "prepend changed its receiver");
            want = format!("{p}: {want}");
            pre.push(p);
            e = e2;
            ensure!(e.is_user() == user && e.is_internal() != user, "kind", "prepend changed the kind of the error");
            ensure!(e.to_string() == want, "message", "message {:?}, {want:?} expected", e.to_string());
        }
        ensure!(e.is_user() == user && e.is_internal() != user, "kind", "error kind misreported");
        ensure!(e.to_string() == want, "message", "message {:?}, {want:?} expected", e.to_string());
        let same = if user { Error::UserError(want.clone()) } else { Error::InternalError(want.clone()) };
        let other = if user { Error::InternalError(want.clone()) } else { Error::UserError(want.clone()) };
        ensure!(e == same && e != other, "equality", "error equality ignores kind or message");
        o.distinct(&(user, &msg, &pre));
        if o.wants_sample() {
            o.sample(json!({"user": user, "message": msg, "prefixes": pre}));
        }
        Ok(())
    });
}
