//! C14: powers and exponentials
use harness::coef::Co;
use harness::cx::*;
use harness::exact::*;
use harness::fft::*;
use harness::mv::{ent_j, Entries};
use harness::session::*;
use harness::*;
use num::complex::Complex64;
use std::f64::consts::{FRAC_PI_2, LN_2};
use tclifford::quaternion::Quaternion;
use tclifford::{FFTRepr, Multivector, SparseMultivector};

type E = Entries<Complex64>;
struct Ops {
    ring: &'static str,
    store: &'static str,
    exp: fn(&E) -> E,
    mul: fn(&E, &E) -> E,
    /// number of generators above which dense operands are not used
    dense: bool,
}

fn enc(ring: &str, v: &E, f: f64, tol: f64) -> Res {
    let mut o = vec![];
    for (b, c) in v {
        let (re, im) = (snap(c.re * f, 1, tol)?, snap(c.im * f, 1, tol)?);
        if re != "0" || im != "0" {
            if ring == "G" {
                o.push(format!("[{},[{re},{im}]]", bj(*b)));
            } else if im != "0" {
                return Err("imaginary".into());
            } else {
                o.push(format!("[{},{re}]", bj(*b)));
            }
        }
    }
    Ok(format!("[{}]", o.join(",")))
}

fn terms(rng: &mut Rng, sg: &[u8], cplx: bool) -> Vec<(usize, usize, i64)> {
    let n = sg.len();
    let mut t: Vec<(usize, usize, i64)> = vec![];
    let want = 1 + rng.below(5);
    let small = rng.chance(1, 3);
    let mut den = 0;
    for _ in 0..want * 3 {
        let b = if rng.chance(1, 6) { 0 } else { rnd_blade(rng, n) };
        let c = if cplx { rng.below(2) } else { 0 };
        if t.iter().any(|x| sign(sg, x.0, b) != sign(sg, b, x.0)) {
            continue;
        }
        let s = sign(sg, b, b) * if c == 1 { -1 } else { 1 };
        let k = match s {
            _ if small => rng.range(-1, 1),
            1 => rng.range(-3, 3),
            -1 => {
                if rng.chance(1, 4) {
                    rng.range(-40, 40)
                } else {
                    rng.range(-5, 5)
                }
            }
            _ => rng.range(-9, 9),
        };
        if s == 1 {
            if den + k.abs() + 1 > 8 {
                continue;
            }
            den += k.abs() + 1;
        }
        t.push((b, c, k));
        if t.len() == want {
            break;
        }
    }
    t
}

fn exact(cx: &mut Cx, sig: &str, ops: &Ops, rng: &mut Rng) {
    let sg = sig.as_bytes();
    let cplx = ops.ring == "G";
    let mut t = terms(rng, sg, cplx);
    let (mut v, mut q, mut m) = (one(), one(), 1i64);
    // many turns around one blade
    let far = rng.chance(1, 8);
    if far {
        t.retain(|x| sign(sg, x.0, x.0) * if x.1 == 1 { -1 } else { 1 } == -1);
        t.truncate(1);
        for x in t.iter_mut() {
            let k = 1 << rng.range(5, 15);
            x.2 = rng.range(-k, k);
        }
    }
    for _ in 0..if far { 0 } else { rng.below(3) } {
        if let Some((a, b, c)) = factor(rng, sg, cplx) {
            let (nv, nq) = (mul(sg, &v, &a), mul(sg, &b, &q));
            if top(&nv) < 40 && top(&nq) < 100 && (m * c).abs() < 400 && nv.len() < 20 {
                (v, q, m) = (nv, nq, m * c);
            }
        }
    }
    let g = q.values().fold(m.abs(), |g, c| num::integer::gcd(g, num::integer::gcd(c.0, c.1)));
    for c in q.values_mut() {
        *c = (c.0 / g, c.1 / g);
    }
    m /= g;
    let conj = |x: &M| mul(sg, &mul(sg, &v, x), &q);
    let (mut p, mut h, mut z, mut den) = (M::new(), M::new(), M::new(), 0);
    for (b, c, k) in &t {
        let s = sign(sg, *b, *b) * if *c == 1 { -1 } else { 1 };
        let val = if *c == 1 { (0, *k) } else { (*k, 0) };
        match s {
            1 => {
                add(&mut h, *b, val);
                den += k.abs() + 1;
            }
            -1 => add(&mut p, *b, val),
            _ => add(&mut z, *b, val),
        }
    }
    let (p, h, z) = (conj(&p), conj(&h), conj(&z));
    if [&p, &h, &z].iter().any(|x| x.len() > 40) {
        return;
    }
    // the operand
    let mut x = std::collections::BTreeMap::<usize, Complex64>::new();
    for (l, f) in [(&p, FRAC_PI_2), (&h, LN_2), (&z, 1.)] {
        for (b, c) in l {
            *x.entry(*b).or_insert(Complex64::new(0., 0.)) += Complex64::new(c.0 as f64, c.1 as f64) * f / (m as f64);
        }
    }
    let x: E = x.into_iter().collect();
    let s = x.iter().map(|c| c.1.norm()).sum::<f64>();
    if s > 400. && !far {
        return;
    }
    let tj: Vec<String> = t.iter().map(|(b, c, k)| format!("[{},{c},{k}]", bj(*b))).collect();
    let l = |x: &M| ent_j(&list(x), 1).unwrap();
    let head = format!(
        r#""t":[{}],"cv":{},"q":{},"m":{m},"den":{den},"p":{},"h":{},"z":{}"#,
        tj.join(","), l(&v), l(&q), l(&p), l(&h), l(&z)
    );
    cx.cost(200 + 20 * v.len() * q.len());
    // rounding errors are bounded by the exponential of the sum of the norms
    let f = 2f64.powi(den as i32) * m as f64;
    let tol = (f.abs() * 1e-11 * (s + 1.) * s.exp()).min(1e-3);
    cx.call("exp", &head, || enc("G", &(ops.exp)(&x), f, tol));
}

fn scale(x: &E, f: f64) -> E {
    x.iter().map(|(b, c)| (*b, c * f)).collect()
}
fn diff(x: &E, y: &E) -> E {
    let mut m = std::collections::BTreeMap::<usize, Complex64>::new();
    for (b, c) in x {
        *m.entry(*b).or_insert(Complex64::new(0., 0.)) += c;
    }
    for (b, c) in y {
        *m.entry(*b).or_insert(Complex64::new(0., 0.)) -= c;
    }
    m.into_iter().collect()
}
fn size(x: &E) -> f64 {
    x.iter().fold(0., |a, c| f64::max(a, c.1.norm()))
}

fn laws(cx: &mut Cx, sig: &str, ops: &Ops, rng: &mut Rng) {
    let n = sig.len();
    // products of few blades stay within few blades
    let cap = if ops.dense { 64 } else { 5 };
    let cplx = ops.ring == "G";
    let mut l: E = if cplx {
        rnd_entries::<Complex64>(rng, n, cap, 4)
    } else {
        rnd_entries::<f64>(rng, n, cap, 4).into_iter().map(|(b, c)| (b, Complex64::new(c, 0.))).collect()
    };
    let mut seen = std::collections::BTreeSet::new();
    l.retain(|(b, c)| c.norm() != 0. && seen.insert(*b));
    let sum: f64 = l.iter().map(|c| c.1.norm()).sum();
    // the operand is the register over k; its norm is at most 7
    let k = ((sum / 7.).ceil() as i64).max(1) * *rng.pick(&[1, 1, 2, 3]);
    let lj = enc(ops.ring, &l, 1., 1e-6).unwrap();
    cx.call("fromidx", &format!(r#""d":"r0","l":{lj}"#), || Ok(lj.clone()));
    let a = scale(&l, 1. / k as f64);
    for w in ["inv", "double", "deriv"] {
        cx.call("explaw", &format!(r#""x":"r0","w":"{w}","n":{k}"#), || match w {
            "inv" => {
                let (x, y) = ((ops.exp)(&a), (ops.exp)(&scale(&a, -1.)));
                Ok(format!("[{},{}]", enc(ops.ring, &(ops.mul)(&x, &y), 1., 1e-8)?, enc(ops.ring, &(ops.mul)(&y, &x), 1., 1e-8)?))
            }
            "double" => {
                let x = (ops.exp)(&a);
                let y = (ops.exp)(&scale(&a, 2.));
                enc(ops.ring, &scale(&diff(&y, &(ops.mul)(&x, &x)), 1e5 / size(&y).max(1.)), 1., 0.3)
            }
            _ => {
                let t = 1e-4;
                let (x, y) = ((ops.exp)(&scale(&a, t)), (ops.exp)(&scale(&a, -t)));
                enc(ops.ring, &scale(&diff(&x, &y), k as f64 / (2. * t)), 1., 1e-3)
            }
        });
    }
}

macro_rules! mvops {
    ($T:ty, $M:ty, $cv:expr, $store:expr, $dense:expr) => {
        Ops {
            ring: <$T>::RING,
            store: $store,
            dense: $dense,
            exp: |x| {
                let cv: fn(&Complex64) -> $T = $cv;
                let m = <$M>::from_indexed_iter(x.iter().map(|(b, c)| (*b, cv(c)))).unwrap();
                m.exp().coeff_enumerate().map(|(b, c)| (b, Complex64::from(c.clone()))).collect()
            },
            mul: |x, y| {
                let cv: fn(&Complex64) -> $T = $cv;
                let m = <$M>::from_indexed_iter(x.iter().map(|(b, c)| (*b, cv(c)))).unwrap();
                let o = <$M>::from_indexed_iter(y.iter().map(|(b, c)| (*b, cv(c)))).unwrap();
                (m * o).coeff_enumerate().map(|(b, c)| (b, Complex64::from(c.clone()))).collect()
            },
        }
    };
}
macro_rules! fftops {
    ($T:ty, $A:ty, $cv:expr, $store:expr) => {
        Ops {
            ring: <$T>::RING,
            store: $store,
            dense: true,
            exp: |x| {
                let cv: fn(&Complex64) -> $T = $cv;
                let m = Multivector::<$T, $A>::from_indexed_iter(x.iter().map(|(b, c)| (*b, cv(c)))).unwrap();
                let f: FFTRepr<$A> = m.fft();
                f.exp().ifft::<Complex64>().coeff_enumerate().map(|(b, c)| (b, *c)).collect()
            },
            mul: |x, y| {
                let m = Multivector::<Complex64, $A>::from_indexed_iter(x.iter().cloned()).unwrap();
                let o = Multivector::<Complex64, $A>::from_indexed_iter(y.iter().cloned()).unwrap();
                (m.fft() * o.fft()).ifft::<Complex64>().coeff_enumerate().map(|(b, c)| (b, *c)).collect()
            },
        }
    };
}

fn session(cx: &mut Cx, sig: &str, ops: Ops, n: usize) {
    if !cx.mine() {
        cx.rng.next();
        return;
    }
    cx.begin(sig, ops.ring, ops.store);
    let mut rng = Rng(cx.rng.next());
    for _ in 0..n {
        exact(cx, sig, &ops, &mut rng);
    }
    for _ in 0..n.div_ceil(3) {
        laws(cx, sig, &ops, &mut rng);
    }
}

fn modc(c: Complex64) -> Complex64 {
    Complex64::new(c.re.rem_euclid(10007.), c.im.rem_euclid(10007.))
}
/// powers with large exponents of elements whose powers stay small
fn bigpow(cx: &mut Cx, sig: &str, rng: &mut Rng, pow: &dyn Fn(&E, usize) -> E) {
    let sg = sig.as_bytes();
    let b = rnd_blade(rng, sig.len());
    let mut l = vec![(b, Complex64::new(if rng.chance(1, 2) { 1. } else { -1. }, 0.))];
    if sign(sg, b, b) == 0 && rng.chance(1, 2) && b != 0 {
        l.push((0, Complex64::new(1., 0.)));
    }
    let far = rng.chance(1, 2);
    // powers of one plus a null blade: every bit of the exponent shows in a coefficient
    let modular = far && l.len() > 1 && rng.chance(2, 3);
    let n = if far {
        // exponents beyond 8, 16 and 32 bits
        let k = if modular { 44 } else if l.len() > 1 { 20 } else { 64 };
        let top = 1 + rng.below(k);
        (rng.next() as usize >> (64 - top)) | 1 << (top - 1)
    } else {
        *rng.pick(&[0, 1, 2, 3, 5, 7, 8, 13, 16, 17, 31, 33, 64, 100, 127])
    };
    let lj = ent_j(&l, 1).unwrap();
    cx.begin(sig, "G", "pow");
    cx.call("fromidx", &format!(r#""d":"r0","l":{lj}"#), || Ok(lj.clone()));
    if far {
        let bits: Vec<String> = (0..n.checked_ilog2().map_or(0, |k| k + 1)).rev().map(|i| (n >> i & 1).to_string()).collect();
        if modular {
            cx.call("powmod", &format!(r#""d":"r1","x":"r0","m":10007,"n":[{}]"#, bits.join(",")), || {
                enc("G", &pow(&l, n).iter().map(|(b, c)| (*b, modc(*c))).collect(), 1., 1e-6)
            });
            return;
        }
        cx.call("powbits", &format!(r#""d":"r1","x":"r0","n":[{}]"#, bits.join(",")), || enc("G", &pow(&l, n), 1., 1e-6));
    } else {
        cx.call("pow", &format!(r#""d":"r1","x":"r0","n":{n}"#), || enc("G", &pow(&l, n), 1., 1e-6));
    }
}

fn main() {
    let mut c = Cx::from_args();
    let cx = &mut c;
    let k = cx.scale;
    fn re(c: &Complex64) -> f64 {
        c.re
    }
    fn id(c: &Complex64) -> Complex64 {
        *c
    }
    macro_rules! go { ($A:ty, $s:expr, $d:expr, $n:expr) => {
        for _ in 0..k {
            session(cx, $s, mvops!(f64, Multivector<f64, $A>, re, "dense", true), $n);
            session(cx, $s, mvops!(Complex64, Multivector<Complex64, $A>, id, "dense", true), $n);
            session(cx, $s, mvops!(f64, SparseMultivector<f64, $A>, re, "sparse", true), $n);
            session(cx, $s, fftops!(f64, $A, re, "fft"), $n);
            session(cx, $s, fftops!(Complex64, $A, id, "fft"), $n);
        }
    }; }
    macro_rules! few { ($A:ty, $s:expr, $d:expr, $n:expr) => {
        for i in 0..k {
            if i % 3 == 0 {
                session(cx, $s, mvops!(f64, Multivector<f64, $A>, re, "dense", false), 1);
            }
            session(cx, $s, fftops!(f64, $A, re, "fft"), $n);
            session(cx, $s, fftops!(Complex64, $A, id, "fft"), $n);
        }
    }; }
    macro_rules! wide { ($A:ty, $s:expr, $d:expr, $n:expr) => {
        for _ in 0..k {
            session(cx, $s, mvops!(f64, SparseMultivector<f64, $A>, re, "sparse", false), $n);
            session(cx, $s, mvops!(Complex64, SparseMultivector<Complex64, $A>, id, "sparse", false), $n);
        }
    }; }
    for_small!(go, 4);
    for_mid5!(go, 4);
    for_mid6!(few, 3);
    for_mid7!(few, 2);
    for_wide!(wide, 3);
    for _ in 0..2 * k {
        session(cx, "--", mvops!(f64, Quaternion<f64>, re, "quaternion", true), 6);
        session(cx, "--", mvops!(Complex64, Quaternion<Complex64>, id, "quaternion", true), 6);
    }
    // integer powers
    macro_rules! pw { ($A:ty, $s:expr, $d:expr, $n:expr, $cap:expr, $pairs:expr) => { if cx.mine() {
        let p = Par { sessions: $n * k, steps: 8, cap: $cap, pairs: $pairs, m: 2 };
        run::<i64, Multivector<i64, $A>, { POW | MUL | LOAD }>(cx, $s, &p);
        run::<i64, SparseMultivector<i64, $A>, { POW | MUL | LOAD }>(cx, $s, &p);
        let mut rng = Rng(cx.rng.next());
        for _ in 0..3 * k {
            bigpow(cx, $s, &mut rng, &|l, n| {
                let m = Multivector::<Complex64, $A>::from_indexed_iter(l.iter().cloned()).unwrap();
                m.pow(n).coeff_enumerate().map(|(b, c)| (b, *c)).collect()
            });
            bigpow(cx, $s, &mut rng, &|l, n| {
                let m = SparseMultivector::<Complex64, $A>::from_indexed_iter(l.iter().cloned()).unwrap();
                m.pow(n).coeff_enumerate().map(|(b, c)| (b, *c)).collect()
            });
            bigpow(cx, $s, &mut rng, &|l, n| {
                let m = Multivector::<Complex64, $A>::from_indexed_iter(l.iter().cloned()).unwrap();
                m.fft().pow(n).ifft::<Complex64>().coeff_enumerate().map(|(b, c)| (b, *c)).collect()
            });
        }
        let nobasis: fn(usize) -> FFTRepr<$A> = |_| unreachable!();
        let p = FPar { sessions: $n * k, steps: 8, cap: $cap, pairs: $pairs, m: 2, ops: &["fpow", "fpow", "fmul"] };
        frun::<Complex64>(cx, $s, &p, &|| fapplier::<Complex64, $A, F_AR>(None, nobasis));
    } }; }
    for_pick!(pw, 2, 16, 256);
    for_pick6!(pw, 2, 32, 1000);
    c.finish();
}
