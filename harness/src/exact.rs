//! Exact multivectors over Gaussian integers, used to produce operands with known properties.
//! (The specification checks the witnesses; nothing is decided here.)
use crate::cx::Rng;
use num::complex::Complex64;
use std::collections::BTreeMap;

pub type G = (i64, i64);
pub type M = BTreeMap<usize, G>;

pub fn gmul(a: G, b: G) -> G {
    (a.0 * b.0 - a.1 * b.1, a.0 * b.1 + a.1 * b.0)
}
pub fn add(m: &mut M, b: usize, c: G) {
    let e = m.entry(b).or_insert((0, 0));
    e.0 += c.0;
    e.1 += c.1;
    if *e == (0, 0) {
        m.remove(&b);
    }
}
/// sign of the product of two blades
pub fn sign(sig: &[u8], a: usize, b: usize) -> i64 {
    let mut s = 0;
    // descending words
    for g in 0..sig.len() {
        if a >> g & 1 == 1 {
            s += (b >> g >> 1).count_ones();
        }
    }
    let mut r = if s % 2 == 0 { 1 } else { -1 };
    for g in 0..sig.len() {
        if a & b & (1 << g) != 0 {
            match sig[g] {
                b'-' => r = -r,
                b'0' => return 0,
                _ => {}
            }
        }
    }
    r
}
pub fn mul(sig: &[u8], a: &M, b: &M) -> M {
    let mut r = M::new();
    for (x, c) in a {
        for (y, d) in b {
            let s = sign(sig, *x, *y);
            if s != 0 {
                add(&mut r, x ^ y, gmul(gmul(*c, *d), (s, 0)));
            }
        }
    }
    r
}
pub fn top(m: &M) -> i64 {
    m.values().fold(0, |a, c| a.max(c.0.abs()).max(c.1.abs()))
}
pub fn list(m: &M) -> Vec<(usize, Complex64)> {
    m.iter().map(|(b, c)| (*b, Complex64::new(c.0 as f64, c.1 as f64))).collect()
}
pub fn one() -> M {
    M::from([(0, (1, 0))])
}

/// x, q, m with x q = q x = m
pub fn factor(rng: &mut Rng, sig: &[u8], cplx: bool) -> Option<(M, M, i64)> {
    let n = sig.len();
    let mut x = M::new();
    match rng.below(4) {
        0 => {
            // vector
            let mut m = 0;
            for g in 0..n {
                let c = rng.range(-2, 2);
                if c != 0 && sig[g] != b'0' && rng.chance(2, 3) && x.len() < 8 {
                    x.insert(1 << g, (c, 0));
                    m += c * c * if sig[g] == b'-' { -1 } else { 1 };
                }
            }
            if m == 0 {
                return None;
            }
            Some((x.clone(), x, m))
        }
        1 | 2 => {
            let b = crate::session::rnd_blade(rng, n).max(1);
            let s = sign(sig, b, b);
            let cplx = cplx && rng.chance(1, 3);
            let mut z = |rng: &mut Rng| (rng.range(-2, 2), if cplx { rng.range(-2, 2) } else { 0 });
            let (u, v) = (z(rng), z(rng));
            let uu = gmul(u, u);
            let vv = gmul(v, v);
            let m = (uu.0 - s * vv.0, uu.1 - s * vv.1);
            if m == (0, 0) {
                return None;
            }
            let mut q = M::new();
            let k = (m.0, -m.1);
            for (t, c, w) in [(&mut x, v, (1, 0)), (&mut q, (-v.0, -v.1), k)] {
                add(t, 0, gmul(u, w));
                add(t, b, gmul(c, w));
            }
            Some((x, q, m.0 * m.0 + m.1 * m.1))
        }
        _ => {
            let nil = nilpotent(rng, sig)?;
            let c = rng.range(-2, 2);
            x = one();
            let mut q = one();
            for (b, v) in &nil {
                add(&mut x, *b, gmul(*v, (c, 0)));
                add(&mut q, *b, gmul(*v, (-c, 0)));
            }
            Some((x, q, 1))
        }
    }
}
/// sum of two blades with square zero
pub fn nilpotent(rng: &mut Rng, sig: &[u8]) -> Option<M> {
    let n = sig.len();
    if n < 2 {
        return None;
    }
    let (i, j) = (rng.below(n), rng.below(n));
    if i == j || sig[i] == sig[j] || sig[i] == b'0' || sig[j] == b'0' {
        return None;
    }
    let mut r = M::from([(1 << i, (1, 0)), (1 << j, (if rng.chance(1, 2) { 1 } else { -1 }, 0))]);
    let k = crate::session::rnd_blade(rng, n) & !(1 << i) & !(1 << j);
    if rng.chance(1, 2) {
        r = mul(sig, &M::from([(k, (1, 0))]), &r);
    }
    if mul(sig, &r, &r).is_empty() {
        Some(r)
    } else {
        None
    }
}
