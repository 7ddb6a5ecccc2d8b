//! C03: module structure and equality
use harness::coef::{set_unit, unit, Co};
use harness::cx::*;
use harness::mv::*;
use harness::session::*;
use harness::*;
use num::complex::{Complex32, Complex64};
use tclifford::{Multivector, SparseMultivector};

/// operations that keep the unit of the coefficients
const LINEAR: u64 = ADD | SUB | NEG | EQ | NE | ISZERO | SET | LOAD;
const P: u64 = ADD | SUB | NEG | SCALE | EQ | NE | ISZERO | CONST | SET | LOAD;

/// division by a scalar: operators in every form
fn xdiv<T: Co, M: MvD<T>>(r: &[M], c: &Cmd<T>) -> Result<XOut<M>, String> {
    Ok(XOut::Put(r[c.x].sdiv(&c.c, c.form)))
}
fn xfl<T: Co, M: MvC<T>>(r: &[M], c: &Cmd<T>) -> Result<XOut<M>, String> {
    if c.ext.as_ref().unwrap().0 == "sdiv" {
        return Ok(XOut::Put(r[c.x].sdiv(&c.c, c.form)));
    }
    Ok(XOut::Json(bool_j(r[c.x].approx(&r[c.y], c.ks[0] as f64 / c.ks[1] as f64 * unit()))?))
}
/// a scalar that divides all coefficients of the register
fn gdiv<T: Co>(m: &Machine<T>, rng: &mut Rng) -> Option<Cmd<T>> {
    let (d, x) = (rng.below(4), m.reg(rng));
    let e = &m.ent[x];
    let unit = |k: i64, rng: &mut Rng| {
        let mut v = vec![0; T::K];
        v[rng.below(T::K)] = k;
        v
    };
    let ks: Vec<i64> = [1i64, -1, 2, -2, 3, 4, 5, -5, 7]
        .into_iter()
        .filter(|k| e.iter().all(|(_, c)| c.raw().iter().all(|v| (*v as i64) % k == 0)))
        .collect();
    let k = *rng.pick(&ks);
    let c = unit(k, rng);
    let t = T::of(&c);
    let mut cmd = Cmd::ext("sdiv", format!(r#""d":"r{d}","x":"r{x}","c":{}"#, t.enc().ok()?), d, x);
    cmd.c = t;
    cmd.form = rng.below(4);
    Some(cmd)
}
fn gfl<T: Co>(m: &Machine<T>, rng: &mut Rng) -> Option<Cmd<T>> {
    if unit() == 1. && rng.chance(1, 3) {
        return gdiv(m, rng);
    }
    let (mut x, mut y) = (m.reg(rng), m.reg(rng));
    if m.stats(x).0 > 5000. || m.stats(y).0 > 5000. {
        x = 0;
        y = 0;
        if m.stats(0).0 > 5000. {
            return None;
        }
    }
    // precision just above, just below or at the largest difference
    let mut mx = 0f64;
    let find = |e: &Entries<T>, b: usize| e.iter().find(|p| p.0 == b).map(|p| p.1.raw()).unwrap_or(vec![0.; T::K]);
    for b in m.ent[x].iter().chain(m.ent[y].iter()).map(|p| p.0) {
        let (u, v) = (find(&m.ent[x], b), find(&m.ent[y], b));
        mx = mx.max(u.iter().zip(v).map(|(a, b)| (a - b) * (a - b)).sum::<f64>().sqrt());
    }
    let f = mx.floor() as usize;
    let (p, q) = match rng.below(5) {
        0 => (2 * f + 1, 2),
        1 if f > 0 => (2 * f - 1, 2),
        2 if T::K == 1 => (f, 1),
        3 if mx < 30. => (1, 1024),
        _ => (2 * rng.below(f + 2) + 1, 2),
    };
    let mut cmd = Cmd::ext("approx", format!(r#""x":"r{x}","y":"r{y}","p":{p},"q":{q}"#), 0, x);
    cmd.y = y;
    cmd.ks = vec![p, q];
    Some(cmd)
}

fn main() {
    let mut c = Cx::from_args();
    let cx = &mut c;
    let k = cx.scale;
    macro_rules! ints { ($A:ty, $s:expr, $d:expr, $n:expr, $cap:expr) => {
        let p = Par { sessions: $n * k, steps: 12, cap: $cap, pairs: 0, m: 5 };
        run_x::<i64, Multivector<i64, $A>, P>(cx, $s, &p, xdiv, gdiv);
        run_x::<i64, SparseMultivector<i64, $A>, P>(cx, $s, &p, xdiv, gdiv);
    }; }
    for_small!(ints, 3, 16);
    for_mid5!(ints, 4, 32);
    for_mid6!(ints, 3, 64);
    for_mid8!(ints, 2, 60);
    macro_rules! fl { ($A:ty, $s:expr, $d:expr, $n:expr, $cap:expr, $T:ty) => {
        let p = Par { sessions: $n * k, steps: 14, cap: $cap, pairs: 0, m: 5 };
        run_x::<$T, Multivector<$T, $A>, P>(cx, $s, &p, xfl, gfl);
        run_x::<$T, SparseMultivector<$T, $A>, P>(cx, $s, &p, xfl, gfl);
    }; }
    for_pick!(fl, 6, 16, f64);
    for_pick!(fl, 6, 16, Complex64);
    for_pick!(fl, 3, 16, f32);
    for_pick!(fl, 3, 16, Complex32);
    for_pick6!(fl, 3, 64, f64);
    // the same at other magnitudes
    macro_rules! unit { ($A:ty, $s:expr, $d:expr, $n:expr, $T:ty) => {
        for e in if <$T as Co>::MAX < 1e6 { [-100, -60, -30, 60] } else { [-1000, -300, -50, 700] } {
            let p = Par { sessions: $n * k, steps: 12, cap: 16, pairs: 0, m: 5 };
            set_unit(e);
            run_x::<$T, Multivector<$T, $A>, LINEAR>(cx, $s, &p, xfl, gfl);
            run_x::<$T, SparseMultivector<$T, $A>, LINEAR>(cx, $s, &p, xfl, gfl);
            set_unit(0);
        }
    }; }
    for_pick6!(unit, 1, f64);
    for_pick6!(unit, 1, Complex64);
    for_pick6!(unit, 1, f32);
    for_pick6!(unit, 1, Complex32);
    macro_rules! wide { ($A:ty, $s:expr, $d:expr) => {
        let p = Par { sessions: 3 * k, steps: 12, cap: 12, pairs: 0, m: 5 };
        run_x::<i64, SparseMultivector<i64, $A>, P>(cx, $s, &p, xdiv, gdiv);
    }; }
    for_wide!(wide);
    macro_rules! large { ($A:ty, $s:expr, $d:expr) => {
        run_big_x::<i64, Multivector<i64, $A>, P>(cx, $s, k / 6, 11, xdiv, gdiv);
        run_big_x::<i64, SparseMultivector<i64, $A>, P>(cx, $s, k / 6, 11, xdiv, gdiv);
    }; }
    for_big!(large);
    macro_rules! large { ($A:ty, $s:expr, $d:expr) => {
        run_big_x::<Complex64, Multivector<Complex64, $A>, P>(cx, $s, k / 6, 11, xfl, gfl);
        run_big_x::<f64, SparseMultivector<f64, $A>, P>(cx, $s, k / 6, 11, xfl, gfl);
    }; }
    for_big!(large);
    replay_all!(cx, i64, P);
    c.finish();
}
