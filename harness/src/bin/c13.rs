//! C13: the raw transform functions
use harness::coef::Co;
use harness::cx::*;
use harness::fft::*;
use harness::mv::{ent_j, Mv};
use harness::session::rnd_entries;
use harness::*;
use ndarray::{s, Array1, Array2, ArrayView1, ArrayView2, ShapeBuilder};
use num::complex::{Complex32, Complex64};
use num::Zero;
use tclifford::clifft::{clifft, iclifft, iclifft_into, imaginary_flip, parity_flip, reversal};
use tclifford::Multivector;

type C = Complex64;

/// the list as a view with some memory layout
fn with1<T: Clone + Zero, R>(l: &[T], form: usize, f: impl FnOnce(ArrayView1<T>) -> R) -> R {
    let n = l.len();
    match form % 4 {
        0 => f(Array1::from_vec(l.to_vec()).view()),
        1 => {
            let mut a = Array1::zeros(2 * n + 1);
            for i in 0..n {
                a[2 * i + 1] = l[i].clone();
            }
            f(a.slice(s![1..;2]))
        }
        2 => {
            let v: Vec<T> = l.iter().rev().cloned().collect();
            f(Array1::from_vec(v).slice(s![..;-1]))
        }
        _ => {
            let mut a = Array2::zeros((n, 3));
            for i in 0..n {
                a[(i, 1)] = l[i].clone();
            }
            f(a.column(1))
        }
    }
}
fn with2<T: Clone + Zero, R>(sh: (usize, usize), l: &[(usize, usize, T)], form: usize, f: impl FnOnce(ArrayView2<T>) -> R) -> R {
    let put = |a: &mut Array2<T>| {
        for (i, j, c) in l {
            a[(*i, *j)] = c.clone();
        }
    };
    match form % 5 {
        0 => {
            let mut a = Array2::zeros(sh);
            put(&mut a);
            f(a.view())
        }
        1 => {
            let mut a = Array2::zeros(sh.f());
            put(&mut a);
            f(a.view())
        }
        2 => {
            let mut a = Array2::zeros((sh.1, sh.0));
            for (i, j, c) in l {
                a[(*j, *i)] = c.clone();
            }
            f(a.t())
        }
        3 => {
            let mut a = Array2::zeros((sh.0 + 2, 2 * sh.1 + 1));
            for (i, j, c) in l {
                a[(i + 1, 2 * j)] = c.clone();
            }
            let e = 2 * sh.1;
            f(a.slice(s![1..sh.0 + 1, ..e;2]))
        }
        _ => {
            let mut a = Array2::zeros(sh);
            for (i, j, c) in l {
                a[(sh.0 - 1 - i, *j)] = c.clone();
            }
            f(a.slice(s![..;-1, ..]))
        }
    }
}
fn seq_j(v: impl Iterator<Item = C>) -> Res {
    let mut o = vec![];
    for c in v {
        o.push(format!("[{},{}]", snap(c.re, 1, 1e-6)?, snap(c.im, 1, 1e-6)?));
    }
    Ok(format!("[{}]", o.join(",")))
}

/// exact power of two by which operands and results are scaled
fn scale(rng: &mut Rng) -> f64 {
    if rng.chance(2, 3) {
        1.
    } else {
        2f64.powi(rng.range(-400, 400) as i32)
    }
}

/// numbers with more digits than single precision holds
fn large(rng: &mut Rng, lim: i64) -> i64 {
    (2 * rng.range(1 << 23, 44_000_000.min(lim / 2)) + 1) * *rng.pick(&[-1, 1])
}

fn forward(cx: &mut Cx, n: usize, rng: &mut Rng) {
    let real = rng.chance(1, 3);
    let big = n > 0 && rng.chance(1, 6);
    let dens = rng.range(1, 4) as usize;
    let mut l: Vec<(i64, i64)> = (0..n)
        .map(|_| {
            if !big && n <= 256 && rng.chance(dens, 4) {
                (rng.range(-4, 4), if real { 0 } else { rng.range(-4, 4) })
            } else {
                (0, 0)
            }
        })
        .collect();
    if big || n > 256 {
        for _ in 0..1 + rng.below(4) {
            let i = rng.below(n);
            let mut z = || if big { large(rng, i64::MAX) } else { rng.range(-9, 9) };
            l[i] = (z(), if real { 0 } else { z() });
        }
    }
    let lj: Vec<String> = l.iter().map(|(a, b)| format!("[{a},{b}]")).collect();
    let form = rng.below(4);
    let ty = match (real, big) {
        (true, true) => *rng.pick(&[0, 3]),
        (false, true) => 3,
        (true, _) => rng.below(4),
        _ => 2 + rng.below(2),
    };
    let u = if ty == 0 || ty == 3 { scale(rng) } else { 1. };
    cx.cost(if n > 256 { n * 8 } else { n * n / 2 });
    cx.call("clifft", &format!(r#""l":[{}]"#, lj.join(",")), || {
        let r = match ty {
            0 => with1(&l.iter().map(|c| c.0 as f64 * u).collect::<Vec<_>>(), form, |v| clifft(v)),
            1 => with1(&l.iter().map(|c| c.0 as f32).collect::<Vec<_>>(), form, |v| clifft(v)),
            2 => with1(&l.iter().map(|c| Complex32::new(c.0 as f32, c.1 as f32)).collect::<Vec<_>>(), form, |v| clifft(v)),
            _ => with1(&l.iter().map(|c| C::new(c.0 as f64, c.1 as f64) * u).collect::<Vec<_>>(), form, |v| clifft(v)),
        };
        let r = errk(r)?;
        let side = 1usize << ((n.ilog2() + 1) / 2);
        if r.dim() != (side, side) {
            return Err("shape".into());
        }
        arr2_j(&r.mapv(|c| c / u))
    });
}

fn matrix(cx: &mut Cx, sh: (usize, usize), what: usize, rng: &mut Rng) {
    let good = sh.0 == sh.1 && sh.0.count_ones() == 1;
    let k = if good { sh.0 as i64 } else { 1 };
    let dens = rng.range(1, 4) as usize;
    let mut l: Vec<(usize, usize, C)> = vec![];
    let few = sh.0 * sh.1 > 256;
    for i in 0..sh.0 {
        for j in 0..sh.1 {
            if if few { rng.below(sh.0 * sh.1) < 6 } else { rng.chance(dens, 4) } {
                l.push((i, j, C::new((k * rng.range(-3, 3)) as f64, (k * rng.range(-3, 3)) as f64)));
            }
        }
    }
    if good && !l.is_empty() && k <= 32 && rng.chance(1, 8) {
        // one entry with many digits; decoding divides by the side
        let (i, j, _) = l[0];
        let f = if what < 2 { k } else { 1 };
        let mut z = || (f * large(rng, 1_400_000_000 / k)) as f64;
        l = vec![(i, j, C::new(z(), z()))];
    }
    l.retain(|e| !e.2.is_zero());
    let real = rng.chance(1, 4);
    if real {
        for e in l.iter_mut() {
            e.2.im = 0.;
        }
        l.retain(|e| e.2.re != 0.);
    }
    let a: Arr = l.iter().map(|(i, j, c)| (0, *i, *j, c.re as i64, c.im as i64)).collect();
    let head = format!(r#""sh":[{},{}],"a":{}"#, sh.0, sh.1, arr_in_j(&a));
    let form = rng.below(5);
    let size = sh.0 * sh.1;
    cx.cost(size * sh.0);
    let u = scale(rng);
    for e in l.iter_mut() {
        e.2 *= u;
    }
    let lr: Vec<(usize, usize, f64)> = l.iter().map(|(i, j, c)| (*i, *j, c.re)).collect();
    match what {
        0 => {
            cx.call("iclifft", &head, || seq_j(errk(with2(sh, &l, form, |m| iclifft(m)))?.into_iter().map(|c| c / u)));
        }
        1 => {
            let n = match rng.below(6) {
                0 => size / 2,
                1 => size + 1,
                2 => size * 2,
                3 if size > 0 => size - 1,
                _ => size,
            };
            let df = rng.below(3);
            cx.call("iclifftinto", &format!(r#"{head},"n":{n}"#), || {
                let mark = C::new(77., -5.);
                let mut d = Array1::from_elem(3 * n + 2, mark);
                let r = {
                    let v = match df {
                        0 => d.slice_mut(s![1..n + 1]),
                        1 => d.slice_mut(s![1..3 * n + 1;3]),
                        _ => d.slice_mut(s![1..n + 1;-1]),
                    };
                    with2(sh, &l, form, |m| iclifft_into(m, v))
                };
                let res: Vec<C> = match df {
                    0 => d.slice(s![1..n + 1]).to_vec(),
                    1 => d.slice(s![1..3 * n + 1;3]).to_vec(),
                    _ => d.slice(s![1..n + 1;-1]).to_vec(),
                };
                if d.iter().filter(|c| **c != mark).count() > res.iter().filter(|c| **c != mark).count() {
                    return Err("outside".into());
                }
                if r.is_err() && res.iter().any(|c| *c != mark) {
                    return Err("partial".into());
                }
                errk(r)?;
                seq_j(res.into_iter().map(|c| c / u))
            });
        }
        2 if good => {
            cx.call("parityflip", &head, || {
                if real {
                    arr2_j(&with2(sh, &lr, form, |m| parity_flip(m)).map(|x| C::new(*x / u, 0.)))
                } else {
                    arr2_j(&with2(sh, &l, form, |m| parity_flip(m)).mapv(|c| c / u))
                }
            });
        }
        3 => {
            cx.call("imaginaryflip", &head, || {
                if real {
                    arr2_j(&errk(with2(sh, &lr, form, |m| imaginary_flip(m)))?.map(|x| C::new(*x / u, 0.)))
                } else {
                    arr2_j(&errk(with2(sh, &l, form, |m| imaginary_flip(m)))?.mapv(|c| c / u))
                }
            });
        }
        _ => {
            cx.call("reversal", &head, || {
                if real {
                    arr2_j(&errk(with2(sh, &lr, form, |m| reversal(m)))?.map(|x| C::new(*x / u, 0.)))
                } else {
                    arr2_j(&errk(with2(sh, &l, form, |m| reversal(m)))?.mapv(|c| c / u))
                }
            });
        }
    }
}

fn main() {
    let mut c = Cx::from_args();
    let cx = &mut c;
    let k = cx.scale;
    let mut rng = Rng(cx.rng.next());
    for round in 0..k {
        for n in (0..40).chain([48, 63, 64, 64, 65, 96, 127, 128, 128, 256, 256]) {
            cx.begin("+", "G", "raw");
            forward(cx, n, &mut rng);
            if n < 17 || n == 32 {
                forward(cx, n, &mut rng);
            }
        }
        for i in [0usize, 1, 2, 3, 4, 5, 6, 7, 8, 12, 16] {
            for j in [0usize, 1, 2, 3, 4, 5, 8, 9, 16, 32] {
                for what in 0..5 {
                    cx.begin("+", "G", "raw");
                    matrix(cx, (i, j), what, &mut rng);
                }
            }
        }
        for n in [511, 512, 1000, 1024, 2048, 2049, 4096] {
            cx.begin("+", "G", "raw");
            forward(cx, n, &mut rng);
        }
        for sh in [(32, 32), (24, 24), (33, 33), (32, 64), (64, 32), (64, 64)] {
            if sh.0 == sh.1 && round % (sh.0 / 16) != 0 {
                continue;
            }
            let what = (round + rng.below(2)) % 5;
            cx.begin("+", "G", "raw");
            matrix(cx, sh, what, &mut rng);
        }
        for side in [1usize, 2, 4, 8, 16] {
            for _ in 0..(64 / side).max(8) {
                cx.begin("+", "G", "raw");
                let what = rng.below(5);
                matrix(cx, (side, side), what, &mut rng);
            }
        }
        macro_rules! real { ($A:ty, $s:expr, $d:expr, $T:ty) => {
            for r in 0..6 {
                cx.begin($s, <$T>::RING, "real");
                let mut l = rnd_entries::<$T>(&mut rng, $d, 4 << r, 5);
                let mut seen = std::collections::BTreeSet::new();
                l.retain(|(b, _)| seen.insert(*b));
                let lj = ent_j(&l, 1).unwrap();
                let mut m = Multivector::<$T, $A>::zero();
                cx.call("fromidx", &format!(r#""d":"r0","l":{lj}"#), || {
                    m = errk(Multivector::<$T, $A>::from_indexed_iter(l.iter().cloned()))?;
                    ent_j(&m.entries(), 1)
                });
                cx.call("realfft", r#""x":"r0""#, || {
                    arr2_j(&m.real_fft().map(|c| { let r = c.raw(); C::new(r[0], if r.len() > 1 { r[1] } else { 0. }) }))
                });
            }
        }; }
        for_split!(real, i64);
        for_split!(real, f64);
        for_split!(real, Complex64);
    }
    c.finish();
}
