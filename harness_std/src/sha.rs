//! SHA-256 gadgets.
use crate::gad::*;
use circuit_std_rs::sha256::gf2::SHA256GF2;
use circuit_std_rs::sha256::{gf2_utils as g2, m31, m31_utils as mu};
use expander_compiler::circuit::config::*;
use expander_compiler::frontend::extra::EmptyHintCaller;
use expander_compiler::frontend::*;
use serde_json::json;
use sha2::Digest;
use vpc::{ensure, hash_of, viol, Driver, Obs, Rng, Violation};

const K: [u32; 64] = {
    // fractional parts of the cube roots of the first 64 primes, from integer arithmetic
    let mut k = [0u32; 64];
    let mut n = 0;
    let mut p: u128 = 2;
    while n < 64 {
        let mut d = 2;
        let mut prime = true;
        while d * d <= p {
            if p % d == 0 {
                prime = false;
            }
            d += 1;
        }
        if prime {
            // floor(cbrt(p) * 2^32) = floor(cbrt(p * 2^96))
            let (mut lo, mut hi) = (0u128, 1u128 << 36);
            while lo + 1 < hi {
                let mid = (lo + hi) / 2;
                if mid * mid * mid <= p << 96 {
                    lo = mid;
                } else {
                    hi = mid;
                }
            }
            k[n] = lo as u32;
            n += 1;
        }
        p += 1;
    }
    k
};
const IV: [u32; 8] = [0x6a09e667, 0xbb67ae85, 0x3c6ef372, 0xa54ff53a, 0x510e527f, 0x9b05688c, 0x1f83d9ab, 0x5be0cd19];

fn compress(h: &mut [u32; 8], block: &[u8]) {
    let mut w = [0u32; 64];
    for i in 0..16 {
        w[i] = u32::from_be_bytes(block[4 * i..4 * i + 4].try_into().unwrap());
    }
    for i in 16..64 {
        let s0 = w[i - 15].rotate_right(7) ^ w[i - 15].rotate_right(18) ^ (w[i - 15] >> 3);
        let s1 = w[i - 2].rotate_right(17) ^ w[i - 2].rotate_right(19) ^ (w[i - 2] >> 10);
        w[i] = w[i - 16].wrapping_add(s0).wrapping_add(w[i - 7]).wrapping_add(s1);
    }
    let mut v = *h;
    for i in 0..64 {
        let s1 = v[4].rotate_right(6) ^ v[4].rotate_right(11) ^ v[4].rotate_right(25);
        let ch = (v[4] & v[5]) ^ (!v[4] & v[6]);
        let t1 = v[7].wrapping_add(s1).wrapping_add(ch).wrapping_add(K[i]).wrapping_add(w[i]);
        let s0 = v[0].rotate_right(2) ^ v[0].rotate_right(13) ^ v[0].rotate_right(22);
        let maj = (v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]);
        let t2 = s0.wrapping_add(maj);
        v = [t1.wrapping_add(t2), v[0], v[1], v[2], v[3].wrapping_add(t1), v[4], v[5], v[6]];
    }
    for i in 0..8 {
        h[i] = h[i].wrapping_add(v[i]);
    }
}
/// SHA-256 of a message given bit by bit, most significant bit of each byte first.
fn sha_bits(bits: &[u32]) -> [u32; 8] {
    let mut m = bits.to_vec();
    m.push(1);
    while m.len() % 512 != 448 {
        m.push(0);
    }
    let n = bits.len() as u64;
    m.extend((0..64).rev().map(|i| (n >> i & 1) as u32));
    let bytes: Vec<u8> = m.chunks(8).map(|c| c.iter().fold(0u8, |a, b| a << 1 | *b as u8)).collect();
    let mut h = IV;
    for b in bytes.chunks(64) {
        compress(&mut h, b);
    }
    h
}
fn word_bits(w: u32) -> Vec<u32> {
    (0..32).rev().map(|i| w >> i & 1).collect()
}
fn bytes_of(h: [u32; 8]) -> Vec<u32> {
    h.iter().flat_map(|w| w.to_be_bytes()).map(u32::from).collect()
}
fn sha_bytes(m: &[u32]) -> Vec<u32> {
    sha2::Sha256::digest(m.iter().map(|b| *b as u8).collect::<Vec<u8>>()).iter().map(|b| *b as u32).collect()
}

#[derive(Clone)]
struct Gf2Hash(Vec<usize>, bool);
impl Gadget<GF2Config> for Gf2Hash {
    fn build<B: RootAPI<GF2Config>>(&self, b: &mut B, x: &[Variable]) -> Vec<Variable> {
        let mut h = if self.1 { SHA256GF2::new() } else { SHA256GF2::default() };
        let mut at = 0;
        for n in &self.0 {
            h.update(&x[at..at + n]);
            at += n;
        }
        assert_eq!(at, x.len());
        h.finalize(b)
    }
}
#[derive(Clone)]
struct Gf2Compress;
impl Gadget<GF2Config> for Gf2Compress {
    fn build<B: RootAPI<GF2Config>>(&self, b: &mut B, x: &[Variable]) -> Vec<Variable> {
        let mut state: [g2::Sha256Word; 8] = std::array::from_fn(|i| x[32 * i..32 * i + 32].try_into().unwrap());
        SHA256GF2::new().sha256_compress(b, &mut state, x[256..].try_into().unwrap());
        state.iter().flatten().copied().collect()
    }
}
#[derive(Clone)]
struct Words(u32, usize);
impl Gadget<GF2Config> for Words {
    fn build<B: RootAPI<GF2Config>>(&self, b: &mut B, x: &[Variable]) -> Vec<Variable> {
        let w: Vec<g2::Sha256Word> = x.chunks(32).map(|c| c.try_into().unwrap()).collect();
        let (p, q, r) = (w[0], w[1], w[2]);
        let outs = [
            g2::add(b, &p, &q), g2::add_brentkung(b, &q, &r), g2::add_vanilla(b, &p, &q), g2::add_const(b, &p, self.0), g2::sum_all(b, &w), g2::xor(b, &p, &q), g2::and(b, &p, &q), g2::not(b, &p),
            g2::ch(b, &p, &q, &r), g2::maj(b, &p, &q, &r), g2::lower_case_sigma0(b, &p), g2::lower_case_sigma1(b, &p), g2::capital_sigma0(b, &p), g2::capital_sigma1(b, &p),
            g2::rotate_right(&p, self.1), g2::shift_right(b, &p, self.1), g2::u32_to_bit(b, self.0),
        ];
        outs.into_iter().flatten().collect()
    }
}
fn words_ref(k: u32, s: usize, w: &[u32]) -> Vec<u32> {
    let (p, q, r) = (w[0], w[1], w[2]);
    let rr = |x: u32, n: u32| x.rotate_right(n);
    vec![
        p.wrapping_add(q), q.wrapping_add(r), p.wrapping_add(q), p.wrapping_add(k), w.iter().fold(0u32, |a, b| a.wrapping_add(*b)), p ^ q, p & q, !p,
        (p & q) ^ (!p & r), (p & q) ^ (p & r) ^ (q & r), rr(p, 7) ^ rr(p, 18) ^ (p >> 3), rr(p, 17) ^ rr(p, 19) ^ (p >> 10), rr(p, 2) ^ rr(p, 13) ^ rr(p, 22), rr(p, 6) ^ rr(p, 11) ^ rr(p, 25),
        rr(p, s as u32), if s == 32 { 0 } else { p >> s }, k,
    ]
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Bytes37,
    Bits37,
    Batch(usize),
    Var,
}
#[derive(Clone)]
struct M31Hash(Kind);
impl Gadget<M31Config> for M31Hash {
    fn build<B: RootAPI<M31Config>>(&self, b: &mut B, x: &[Variable]) -> Vec<Variable> {
        match self.0 {
            Kind::Bytes37 => m31::sha256_37bytes(b, x),
            Kind::Bits37 => m31::sha256_37bytes_compress(b, x),
            Kind::Batch(n) => {
                let ins: Vec<Vec<Variable>> = x.chunks(296).map(|c| c.to_vec()).collect();
                assert_eq!(ins.len(), n);
                m31::sha256_37bytes_256batch_compress(b, &ins).concat()
            }
            Kind::Var => m31::sha256_var_bytes(b, x),
        }
    }
}
/// The same, as a check of claimed digests (which follow the message).
#[derive(Clone)]
struct M31Check(Kind);
impl Gadget<M31Config> for M31Check {
    fn build<B: RootAPI<M31Config>>(&self, b: &mut B, x: &[Variable]) -> Vec<Variable> {
        match self.0 {
            Kind::Bytes37 => m31::check_sha256_37bytes(b, x),
            Kind::Bits37 => m31::check_sha256_37bytes_compress(b, x),
            Kind::Batch(n) => {
                let ins: Vec<Vec<Variable>> = x[..n * 296].chunks(296).map(|c| c.to_vec()).collect();
                let outs: Vec<Vec<Variable>> = x[n * 296..].chunks(32).map(|c| c.to_vec()).collect();
                m31::check_sha256_37bytes_256batch_compress(b, &ins, &outs).concat()
            }
            Kind::Var => unreachable!(),
        }
    }
}
/// The bit order of the 37-byte bit-wise gadget: words least significant bit first, last byte
/// most significant bit first.
fn bits37(m: &[u32]) -> Vec<u32> {
    let mut v = vec![];
    for w in m[..36].chunks(4) {
        let w = w.iter().fold(0u32, |a, b| a << 8 | b);
        v.extend((0..32).map(|i| w >> i & 1));
    }
    v.extend((0..8).rev().map(|i| m[36] >> i & 1));
    v
}
fn rand_msg(r: &mut Rng, n: usize) -> Vec<u32> {
    let style = r.below(4);
    (0..n)
        .map(|_| match style {
            0 => *r.pick(&[0, 255, 128, 1]),
            1 => 255,
            _ => r.below(256) as u32,
        })
        .collect()
}
fn inputs(kind: Kind, r: &mut Rng) -> (Vec<u32>, Vec<u32>) {
    match kind {
        Kind::Bytes37 => {
            let m = rand_msg(r, 37);
            let d = sha_bytes(&m);
            (m, d)
        }
        Kind::Bits37 => {
            let m = rand_msg(r, 37);
            (bits37(&m), sha_bytes(&m))
        }
        Kind::Batch(n) => {
            let mut m = rand_msg(r, 37);
            let (mut x, mut y) = (vec![], vec![]);
            for _ in 0..n {
                let tail = rand_msg(r, 5);
                m[32..].copy_from_slice(&tail);
                x.extend(bits37(&m));
                y.extend(sha_bytes(&m));
            }
            (x, y)
        }
        Kind::Var => unreachable!(),
    }
}
fn rand_kind(r: &mut Rng) -> Kind {
    match r.below(3) {
        0 => Kind::Bytes37,
        1 => Kind::Bits37,
        _ => Kind::Batch(r.range(1, 3) as usize),
    }
}
fn compiled<C: Config, G: Gadget<C>>(g: &G, label: &str, pairs: &[(Vec<u32>, Vec<u32>)], r: &mut Rng, o: &mut Obs, flips: usize, alphabet: usize) -> Result<(), Violation> {
    let (n, m) = (pairs[0].0.len(), pairs[0].1.len());
    let c = build::<C, _>(g, n, m).map_err(|e| viol!("compile", "{label} does not compile: {e}"))?;
    for (x, y) in pairs {
        let acc = c.accepts(&fs::<C>(x), &fs::<C>(y), &EmptyHintCaller).map_err(|e| viol!("compiled-panics", "{label}: {e}"))?;
        ensure!(acc, "compiled-digest", "{label}: the compiled circuit refuses the digest of {x:?}");
        for _ in 0..flips {
            let (mut x, mut y) = (x.clone(), y.clone());
            if r.chance(1, 2) || n == 0 {
                let i = r.below(m) as usize;
                y[i] = (y[i] + 1 + r.below(alphabet - 1) as u32) % alphabet as u32;
            } else {
                let i = r.below(n) as usize;
                x[i] = (x[i] + 1 + r.below(alphabet - 1) as u32) % alphabet as u32;
            }
            let acc = c.accepts(&fs::<C>(&x), &fs::<C>(&y), &EmptyHintCaller).unwrap_or(false);
            ensure!(!acc, "wrong-digest-accepted", "{label}: the compiled circuit accepts a digest that is not the message's: {x:?} {y:?}");
            o.count("wrong claims refused", 1);
        }
        o.count("claims accepted by a compiled circuit", 1);
    }
    Ok(())
}

pub fn l01(d: &mut Driver) {
    d.scenario("reference", |r, o| {
        for n in 0..200 {
            let m = rand_msg(r, n);
            let bits: Vec<u32> = m.iter().flat_map(|b| (0..8).rev().map(move |i| b >> i & 1)).collect();
            assert_eq!(bytes_of(sha_bits(&bits)), sha_bytes(&m));
            o.count("reference checked against another implementation", 1);
        }
        Ok(())
    });
    d.cases("binary-field messages", d.n(600, 6000), |r, o| {
        let n = match r.below(4) {
            0 => r.below(1100) as usize,
            1 => 512 * r.below(3) as usize + *r.pick(&[0, 1, 439, 440, 446, 447, 448, 449, 450, 504, 511]),
            2 => 8 * r.below(130) as usize,
            _ => r.below(520) as usize,
        };
        let bits: Vec<u32> = (0..n).map(|_| r.below(2) as u32).collect();
        let mut split = vec![];
        let mut left = n;
        for _ in 0..r.below(4) {
            let k = r.below(left + 1) as usize;
            split.push(k);
            left -= k;
        }
        split.push(left);
        let g = Gf2Hash(split.clone(), r.chance(1, 2));
        let out = run::<GF2Config, _>(&g, &fs::<GF2Config>(&bits), EmptyHintCaller).map_err(|e| viol!("refused", "hashing {n} bits over the binary field fails: {e}"))?;
        let want: Vec<u32> = sha_bits(&bits).iter().flat_map(|w| word_bits(*w)).collect();
        ensure!(u::<GF2Config>(&out) == want, "binary-digest", "digest of {n} bits fed as {split:?}: wrong");
        o.count("digests compared", 1);
        o.count("message bits", n as u64);
        o.distinct(&(n, hash_of(&bits)));
        if o.wants_sample() {
            o.sample(json!({"bits": n, "updates": split}));
        }
        Ok(())
    });
    d.cases("binary-field compression", d.n(150, 1500), |r, o| {
        let st: [u32; 8] = std::array::from_fn(|_| r.u64() as u32);
        let block: Vec<u8> = (0..64).map(|_| r.u64() as u8).collect();
        let mut x: Vec<u32> = st.iter().flat_map(|w| word_bits(*w)).collect();
        x.extend(block.iter().flat_map(|b| (0..8).rev().map(move |i| (b >> i & 1) as u32)));
        let mut want = st;
        compress(&mut want, &block);
        let out = run::<GF2Config, _>(&Gf2Compress, &fs::<GF2Config>(&x), EmptyHintCaller).map_err(|e| viol!("refused", "compression fails: {e}"))?;
        ensure!(u::<GF2Config>(&out) == want.iter().flat_map(|w| word_bits(*w)).collect::<Vec<_>>(), "binary-compression", "compression of state {st:x?} is wrong");
        o.count("compressions compared", 1);
        o.distinct(&st);
        Ok(())
    });
    d.cases("binary-field words", d.n(400, 4000), |r, o| {
        let edge = |r: &mut Rng| match r.below(4) {
            0 => *r.pick(&[0u32, u32::MAX, 1, 0x8000_0000, 0x0fff_ffff, 0xf000_0000]),
            _ => r.u64() as u32,
        };
        let n = r.range(3, 9) as usize;
        let w: Vec<u32> = (0..n).map(|_| edge(r)).collect();
        let (k, s) = (edge(r), r.below(32) as usize);
        let x: Vec<u32> = w.iter().flat_map(|w| word_bits(*w)).collect();
        let out = run::<GF2Config, _>(&Words(k, s), &fs::<GF2Config>(&x), EmptyHintCaller).map_err(|e| viol!("refused", "word operations fail: {e}"))?;
        let want = words_ref(k, s, &w);
        for (i, c) in u::<GF2Config>(&out).chunks(32).enumerate() {
            ensure!(c == word_bits(want[i]), "binary-words", "word operation {i} on {w:x?} with constant {k:x} and shift {s} is wrong");
            o.count("words compared", 1);
        }
        o.distinct(&(w, k, s));
        Ok(())
    });
    d.cases("prime-field messages", d.n(60, 600), |r, o| {
        let kind = rand_kind(r);
        let (x, y) = inputs(kind, r);
        let out = run::<M31Config, _>(&M31Hash(kind), &fs::<M31Config>(&x), EmptyHintCaller).map_err(|e| viol!("refused", "hashing 37 bytes ({kind:?}) fails: {e}"))?;
        ensure!(u::<M31Config>(&out) == y, "prime-digest", "digest of 37 bytes ({kind:?}) is wrong for {x:?}");
        o.count("digests compared", 1);
        o.distinct(&x);
        // as a check of claimed digests
        let mut claim = x.clone();
        claim.extend(&y);
        ensure!(run::<M31Config, _>(&M31Check(kind), &fs::<M31Config>(&claim), EmptyHintCaller).is_ok(), "check-refuses", "the check of the right digest ({kind:?}) fails");
        for _ in 0..3 {
            let mut bad = claim.clone();
            let i = x.len() + r.below(y.len()) as usize;
            bad[i] = (bad[i] + 1 + r.below(254) as u32) % 256;
            ensure!(run::<M31Config, _>(&M31Check(kind), &fs::<M31Config>(&bad), EmptyHintCaller).is_err(), "check-accepts", "the check ({kind:?}) accepts a wrong byte {} of the digest", i - x.len());
            o.count("wrong claims refused", 1);
        }
        // inputs that are not bytes (or bits) are refused
        let lim = if kind == Kind::Bytes37 { 256 } else { 2 };
        let mut bad = x.clone();
        let i = r.below(x.len()) as usize;
        let k = r.range(1, 30);
        bad[i] = lim + r.below(1 << k) as u32;
        if kind == Kind::Bytes37 {
            ensure!(run::<M31Config, _>(&M31Hash(kind), &fs::<M31Config>(&bad), EmptyHintCaller).is_err(), "non-byte-accepted", "{} is hashed as a byte", bad[i]);
            o.count("non-bytes refused", 1);
        }
        Ok(())
    });
    d.cases("prime-field messages of any length", d.n(50, 500), |r, o| {
        let n = match r.below(3) {
            0 => *r.pick(&[0usize, 1, 54, 55, 56, 57, 63, 64, 65, 119, 120, 128, 183, 184]),
            _ => r.below(190) as usize,
        };
        let m = rand_msg(r, n);
        let out = run::<M31Config, _>(&M31Hash(Kind::Var), &fs::<M31Config>(&m), EmptyHintCaller).map_err(|e| viol!("refused", "hashing {n} bytes fails: {e}"))?;
        ensure!(u::<M31Config>(&out) == sha_bytes(&m), "prime-digest", "digest of {n} bytes is wrong for {m:?}");
        o.count("digests compared", 1);
        o.distinct(&m);
        if n > 0 {
            let mut bad = m;
            let i = r.below(n) as usize;
            bad[i] = 256 + r.below(1 << 30) as u32;
            ensure!(run::<M31Config, _>(&M31Hash(Kind::Var), &fs::<M31Config>(&bad), EmptyHintCaller).is_err(), "non-byte-accepted", "{} is hashed as a byte", bad[i]);
            o.count("non-bytes refused", 1);
        }
        Ok(())
    });
    d.cases("compiled binary-field circuits", d.n(8, 60), |r, o| {
        let n = *r.pick(&[0usize, 8, 256, 447, 448, 511, 512]) + r.below(2) as usize;
        let g = Gf2Hash(vec![n], true);
        let mk = |r: &mut Rng| {
            let b: Vec<u32> = (0..n).map(|_| r.below(2) as u32).collect();
            let h = sha_bits(&b).iter().flat_map(|w| word_bits(*w)).collect();
            (b, h)
        };
        if n == 0 {
            return Ok(());
        }
        let pairs: Vec<_> = (0..3).map(|_| mk(r)).collect();
        o.distinct(&pairs);
        compiled::<GF2Config, _>(&g, &format!("{n} bits over the binary field"), &pairs, r, o, 8, 2)
    });
    d.cases("compiled prime-field circuits", d.n(6, 40), |r, o| {
        let (kind, pairs) = match r.below(4) {
            0 => {
                let n = *r.pick(&[1usize, 5, 55, 56]);
                (Kind::Var, (0..2).map(|_| rand_msg(r, n)).map(|m| { let d = sha_bytes(&m); (m, d) }).collect::<Vec<_>>())
            }
            _ => {
                let k = rand_kind(r);
                (k, (0..2).map(|_| inputs(k, r)).collect())
            }
        };
        o.distinct(&pairs);
        let alpha = if matches!(kind, Kind::Bytes37 | Kind::Var) { 256 } else { 2 };
        // a claimed digest byte changed within the message's alphabet is a wrong byte too
        compiled::<M31Config, _>(&M31Hash(kind), &format!("{kind:?}"), &pairs, r, o, 5, alpha)
    });
    let _ = mu::rotate_right;
}
