//! C08: scalar products and magnitudes
use harness::coef::Co;
use harness::cx::*;
use harness::mv::*;
use harness::session::*;
use harness::*;
use num::complex::{Complex32, Complex64};
use tclifford::{Multivector, SparseMultivector};
use num::complex::ComplexFloat;
use tclifford::types::DivRing;

const P: u64 = VDOT | VSDOT | MAG2 | REV | MUL | ADD | LOAD;

fn x<T: Co + ComplexFloat + DivRing, M: MvC<T>>(r: &[M], c: &Cmd<T>) -> Result<XOut<M>, String> {
    // the same in other units: exact powers of two
    let up = (0..c.n).fold(T::one(), |s, _| s * T::of(&[1024, 0]));
    let (s, u) = if c.b == 0 { (up, T::one() / up) } else { (T::one() / up, up) };
    let v = &M::fi(r[c.x].entries().into_iter().map(|(i, z)| (i, z * s)).collect()).map_err(|e| format!("{e:?}"))?;
    // quotients are recorded as (divisor, quotient times divisor)
    let ratio = |m: T, q: M| -> Result<XOut<M>, String> {
        let m = m * u * u;
        let mj = m.enc()?;
        let z = T::zero().enc()?;
        if mj == z {
            return Ok(XOut::Json(format!("[{z},[]]")));
        }
        let e: Entries<T> = q.entries().into_iter().map(|(i, c)| (i, c * s * m)).collect();
        Ok(XOut::Json(format!("[{mj},{}]", ent_j(&e.into_iter().filter(|(_, c)| c.mx() != 0.).collect(), 1)?)))
    };
    match c.ext.as_ref().unwrap().0.as_str() {
        "cmag2" => Ok(XOut::Json((v.cmag2_() * u * u).enc()?)),
        "revc" => Ok(XOut::Put(M::fi(v.revc_().entries().into_iter().map(|(i, z)| (i, z * u)).collect()).map_err(|e| format!("{e:?}"))?)),
        "revm" => ratio(v.mag2_(), v.revm_()),
        _ => ratio(v.cmag2_(), v.revcm_()),
    }
}
fn g<T: Co>(m: &Machine<T>, rng: &mut Rng) -> Option<Cmd<T>> {
    let (d, x) = (rng.below(4), m.reg(rng));
    let (mx, nx) = m.stats(x);
    if mx * mx * (nx as f64) * 2. > T::MAX {
        return None;
    }
    let wide = if T::TY.contains("32") { 2 } else { 20 };
    let (n, b) = (if rng.chance(1, 2) { 0 } else { rng.below(wide) }, rng.below(2));
    let cmd = match rng.below(4) {
        0 => Cmd::ext("cmag2", format!(r#""x":"r{x}""#), d, x),
        1 => Cmd::ext("revc", format!(r#""d":"r{d}","x":"r{x}""#), d, x),
        2 => Cmd::ext("revm", format!(r#""x":"r{x}""#), d, x),
        _ => Cmd::ext("revcm", format!(r#""x":"r{x}""#), d, x),
    };
    Some(Cmd { n, b, ..cmd })
}

fn main() {
    let mut c = Cx::from_args();
    let cx = &mut c;
    let k = cx.scale;
    macro_rules! both { ($A:ty, $s:expr, $d:expr, $n:expr, $st:expr, $cap:expr, $pairs:expr) => {
        let p = Par { sessions: $n * k, steps: $st, cap: $cap, pairs: $pairs, m: 5 };
        run::<i64, Multivector<i64, $A>, P>(cx, $s, &p);
        run::<i64, SparseMultivector<i64, $A>, P>(cx, $s, &p);
    }; }
    for_small!(both, 3, 12, 16, 256);
    for_mid5!(both, 3, 12, 32, 1024);
    for_mid6!(both, 3, 12, 64, 300);
    for_mid8!(both, 3, 12, 256, 300);
    for_big!(both, 2, 10, 24, 200);
    macro_rules! wide { ($A:ty, $s:expr, $d:expr) => {
        let p = Par { sessions: 4 * k, steps: 12, cap: 12, pairs: 150, m: 5 };
        run::<i64, SparseMultivector<i64, $A>, P>(cx, $s, &p);
    }; }
    for_wide!(wide);
    macro_rules! fl { ($A:ty, $s:expr, $d:expr, $n:expr, $T:ty) => {
        let p = Par { sessions: $n * k, steps: 14, cap: 32, pairs: 256, m: 4 };
        run_x::<$T, Multivector<$T, $A>, P>(cx, $s, &p, x, g);
        run_x::<$T, SparseMultivector<$T, $A>, P>(cx, $s, &p, x, g);
    }; }
    for_pick!(fl, 8, f64);
    for_pick!(fl, 12, Complex64);
    for_small3!(fl, 4, Complex64);
    for_pick!(fl, 3, f32);
    for_pick!(fl, 3, Complex32);
    macro_rules! large { ($A:ty, $s:expr, $d:expr) => {
        run_big::<i64, Multivector<i64, $A>, P>(cx, $s, k / 4, 11);
        run_big::<i64, SparseMultivector<i64, $A>, P>(cx, $s, k / 4, 11);
    }; }
    for_big!(large);
    macro_rules! large { ($A:ty, $s:expr, $d:expr) => {
        run_big_x::<Complex64, Multivector<Complex64, $A>, P>(cx, $s, k / 4, 11, x, g);
        run_big_x::<Complex64, SparseMultivector<Complex64, $A>, P>(cx, $s, k / 4, 11, x, g);
    }; }
    for_big!(large);
    replay_all!(cx, i64, P);
    c.finish();
}
