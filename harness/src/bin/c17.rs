//! C17: quaternions and division algebras
use harness::algs::{Sm, Smm};
use harness::coef::{set_unit, unit, Co};
use harness::cx::*;
use harness::mv::*;
use harness::session::*;
use num::complex::Complex64;
use tclifford::algebra::DivisionAlgebra;
use tclifford::quaternion::{Quaternion, QuaternionAlgebra};
use tclifford::types::DivRing;
use tclifford::{ClAlgebra, Multivector, Norm, SparseMultivector};

const P: u64 = MUL | NMUL | ADD | SUB | NEG | SCALE | REV | FLIP | FLIPSUB | DUAL | UNDUAL | NWEDGE | NMEET | VDOT | VSDOT | MAG2
    | POW | GET | SET | EQ | NE | ISZERO | GRADE | SCALAR | VECPART | CONST | FROMVEC | FROMIDX | ENUM | GENUM | LOAD;

fn name<T>(c: &Cmd<T>) -> &str {
    &c.ext.as_ref().unwrap().0
}
macro_rules! forms {
    ($a:expr, $b:expr, $f:expr, $op:tt) => {
        match $f % 4 {
            0 => &$a $op &$b,
            1 => $a.clone() $op &$b,
            2 => &$a $op $b.clone(),
            _ => $a.clone() $op $b.clone(),
        }
    };
}
/// sum of squares of the coefficients
fn norm<T: Co>(e: &Entries<T>) -> T {
    e.iter().fold(T::zero(), |a, (_, c)| a + c.clone() * c.clone())
}
/// [m, m q], q in units of 2^u
fn ratio<T: Co + DivRing, M: Mv<T>>(q: M, y: &M, u: i32) -> Res {
    let m = norm(&y.entries());
    let mj = m.enc()?;
    set_unit(u);
    let e: Entries<T> = q.entries().into_iter().map(|(b, c)| (b, c * m.clone())).filter(|(_, c)| !(c.mx() < T::tol())).collect();
    let j = ent_j(&e, 1);
    set_unit(0);
    Ok(format!("[{mj},{}]", j?))
}
/// the value with its coefficients in units of 2^u
fn scaled<T: Co, M: Mv<T>>(x: &M, u: i64) -> Result<M, String> {
    let e: Vec<(usize, Vec<i64>)> = x.entries().into_iter().map(|(b, c)| (b, c.raw().iter().map(|v| *v as i64).collect())).collect();
    set_unit(u as i32);
    let e: Entries<T> = e.iter().map(|(b, v)| (*b, T::of(v))).collect();
    set_unit(0);
    errk(M::fi(e))
}
const OFF: i64 = 1000;
fn un<T>(c: &Cmd<T>, i: usize) -> i64 {
    c.ks[i] as i64 - OFF
}
/// exponents of the units of the operands
fn units(rng: &mut Rng, n: usize, max: i64) -> Vec<i64> {
    (0..n).map(|_| if rng.chance(1, 2) { 0 } else { rng.range(-max, max) }).collect()
}
fn whole<T: Co + Copy, M: Mv<T>>(q: M) -> Result<M, String> {
    // remove rounding errors before the value is used further
    let mut e = vec![];
    for (b, c) in q.entries() {
        c.enc()?;
        let v: Vec<i64> = c.raw().iter().map(|x| x.round() as i64).collect();
        if v.iter().any(|x| *x != 0) {
            e.push((b, T::of(&v)));
        }
    }
    errk(M::fi(e))
}

fn xquat<T: Co + Copy + DivRing + Norm>(r: &[Quaternion<T>], c: &Cmd<T>) -> Result<XOut<Quaternion<T>>, String> {
    let (x, y) = (r[c.x], r[c.y]);
    Ok(match name(c) {
        "div" => {
            let (xs, ys) = (scaled(&x, un(c, 0))?, scaled(&y, un(c, 1))?);
            XOut::Json(ratio(forms!(xs, ys, c.form, /), &y, (un(c, 0) - un(c, 1)) as i32)?)
        }
        "divx" => XOut::Put(whole(forms!(x, y, c.form, /))?),
        "conj" => XOut::Put(x.conj()),
        "norm2" => {
            let n = scaled(&x, un(c, 0))?.norm();
            set_unit(un(c, 0) as i32);
            let n = n / unit();
            set_unit(0);
            XOut::Json(if n < 0. { return Err("negative".into()) } else { snap(n * n, 1, 1e-6)? })
        }
        "qunit" => XOut::Put(match c.n {
            1 => Quaternion::i(),
            2 => Quaternion::j(),
            _ => Quaternion::k(),
        }),
        "sdiv" => XOut::Put(forms!(x, c.c, c.form, /)),
        "convert" => {
            let d: Multivector<T, QuaternionAlgebra> = x.to_storage_type();
            let s: SparseMultivector<T, QuaternionAlgebra> = x.to_storage_type();
            XOut::Put(match c.form % 4 {
                0 => d.to_storage_type(),
                1 => s.to_storage_type(),
                2 => d.to_sparse().to_storage_type(),
                _ => s.to_dense().to_storage_type(),
            })
        }
        _ => {
            // products in another storage
            let d: Multivector<T, QuaternionAlgebra> = (x * y).to_storage_type();
            let e = d.entries();
            XOut::Put(errk(Quaternion::from_indexed_iter(e.into_iter()))?)
        }
    })
}
macro_rules! xmv {
    ($name:ident, $M:ident) => {
        fn $name<T: Co + Copy + DivRing, A: ClAlgebra + DivisionAlgebra>(r: &[$M<T, A>], c: &Cmd<T>) -> Result<XOut<$M<T, A>>, String> {
            let (x, y) = (&r[c.x], &r[c.y]);
            Ok(match name(c) {
                "div" => {
                    let (xs, ys) = (scaled(x, un(c, 0))?, scaled(y, un(c, 1))?);
                    XOut::Json(ratio(forms!(xs, ys, c.form, /), y, (un(c, 0) - un(c, 1)) as i32)?)
                }
                "divx" => XOut::Put(whole(forms!(*x, *y, c.form, /))?),
                "sdiv" => XOut::Put(forms!(*x, c.c, c.form, /)),
                _ => return Err("unsupported".into()),
            })
        }
    };
}
xmv!(xdense, Multivector);
xmv!(xsparse, SparseMultivector);

fn divs<T: Co>(m: &Machine<T>, rng: &mut Rng) -> Option<Cmd<T>> {
    let (d, x, y) = (rng.below(4), m.reg(rng), m.reg(rng));
    let n = norm(&m.ent[y]);
    let (sx, sy) = (m.stats(x), m.stats(y));
    if n.is_zero() || sx.0 * sy.0 * 8. > 1e5 || n.mx() > 1e4 {
        return None;
    }
    // whole quotient?
    let nn: f64 = n.raw().iter().map(|x| x * x).sum();
    let fits = T::K == 1 && nn == 1. || m.ent[x].iter().all(|(_, c)| c.raw().iter().all(|v| *v as i64 % (nn as i64) == 0));
    let mut c = if fits && rng.chance(3, 4) {
        Cmd::ext("divx", format!(r#""d":"r{d}","x":"r{x}","y":"r{y}""#), d, x)
    } else {
        let us = units(rng, 2, 240);
        let mut c = Cmd::ext("div", format!(r#""x":"r{x}","y":"r{y}","units":[{},{}]"#, us[0], us[1]), d, x);
        c.ks = us.iter().map(|u| (u + OFF) as usize).collect();
        c
    };
    c.y = y;
    c.form = rng.below(4);
    Some(c)
}
fn sdivs<T: Co>(m: &Machine<T>, rng: &mut Rng) -> Option<Cmd<T>> {
    let (d, x) = (rng.below(4), m.reg(rng));
    let ks: Vec<i64> =
        [1i64, -1, 2, -2, 3, 5].into_iter().filter(|k| m.ent[x].iter().all(|(_, c)| c.raw().iter().all(|v| *v as i64 % k == 0))).collect();
    let k = *rng.pick(&ks);
    let mut v = vec![0; T::K];
    v[0] = k;
    let mut c = Cmd::ext("sdiv", format!(r#""d":"r{d}","x":"r{x}","c":{}"#, T::of(&v).enc().unwrap()), d, x);
    c.c = T::of(&v);
    c.form = rng.below(4);
    Some(c)
}
fn gq<T: Co>(m: &Machine<T>, rng: &mut Rng) -> Option<Cmd<T>> {
    let (d, x, y) = (rng.below(4), m.reg(rng), m.reg(rng));
    let mut c = match rng.below(9) {
        0 | 1 | 2 => return divs(m, rng),
        3 => return sdivs(m, rng),
        4 => Cmd::ext("conj", format!(r#""d":"r{d}","x":"r{x}""#), d, x),
        5 if m.stats(x).0 < 1e4 => {
            let us = units(rng, 1, 960);
            let mut c = Cmd::ext("norm2", format!(r#""x":"r{x}","units":[{}]"#, us[0]), d, x);
            c.ks = us.iter().map(|u| (u + OFF) as usize).collect();
            c
        }
        6 => {
            let n = 1 + rng.below(3);
            Cmd { n, ..Cmd::ext("qunit", format!(r#""d":"r{d}","n":{n}"#), d, x) }
        }
        7 if m.stats(x).0 * m.stats(y).0 < 1e6 => Cmd::ext("mul", format!(r#""d":"r{d}","x":"r{x}","y":"r{y}""#), d, x),
        _ => Cmd::ext("convert", format!(r#""d":"r{d}","x":"r{x}""#), d, x),
    };
    c.y = y;
    c.form = rng.below(4);
    Some(c)
}
/// without division (whole numbers are no field)
fn gi<T: Co>(m: &Machine<T>, rng: &mut Rng) -> Option<Cmd<T>> {
    gq(m, rng).filter(|c| !["div", "divx", "norm2"].contains(&name(c)))
}
fn xint(r: &[Quaternion<i64>], c: &Cmd<i64>) -> Result<XOut<Quaternion<i64>>, String> {
    let x = r[c.x];
    Ok(match name(c) {
        "conj" => XOut::Put(x.conj()),
        "qunit" => XOut::Put(match c.n {
            1 => Quaternion::i(),
            2 => Quaternion::j(),
            _ => Quaternion::k(),
        }),
        "sdiv" => XOut::Put(forms!(x, c.c, c.form, /)),
        "mul" => XOut::Put(x * r[c.y]),
        _ => {
            let d: Multivector<i64, QuaternionAlgebra> = x.to_storage_type();
            let s: SparseMultivector<i64, QuaternionAlgebra> = x.to_storage_type();
            XOut::Put(if c.form % 2 == 0 { d.to_storage_type() } else { s.to_storage_type() })
        }
    })
}
fn gd<T: Co>(m: &Machine<T>, rng: &mut Rng) -> Option<Cmd<T>> {
    if rng.chance(1, 4) {
        sdivs(m, rng)
    } else {
        divs(m, rng)
    }
}

fn main() {
    let mut c = Cx::from_args();
    let cx = &mut c;
    let k = cx.scale;
    let p = Par { sessions: 120 * k, steps: 16, cap: 4, pairs: 64, m: 4 };
    run_x::<f64, Quaternion<f64>, P>(cx, "--", &p, xquat, gq);
    run_x::<Complex64, Quaternion<Complex64>, P>(cx, "--", &p, xquat, gq);
    let p = Par { sessions: 60 * k, steps: 16, cap: 4, pairs: 64, m: 4 };
    run_x::<i64, Quaternion<i64>, P>(cx, "--", &p, xint, gi);
    const PD: u64 = MUL | ADD | SUB | SCALE | LOAD | EQ;
    macro_rules! da { ($A:ty, $s:expr) => {
        run_x::<f64, Multivector<f64, $A>, PD>(cx, $s, &p, xdense, gd);
        run_x::<f64, SparseMultivector<f64, $A>, PD>(cx, $s, &p, xsparse, gd);
        run_x::<Complex64, Multivector<Complex64, $A>, PD>(cx, $s, &p, xdense, gd);
        run_x::<Complex64, SparseMultivector<Complex64, $A>, PD>(cx, $s, &p, xsparse, gd);
    }; }
    da!(Sm, "-");
    da!(Smm, "--");
    da!(QuaternionAlgebra, "--");
    for line in std::mem::take(&mut cx.behaviours) {
        let j = J::parse(&line);
        replay::<i64, Quaternion<i64>, P>(cx, "--", &j.a()[1..]);
        replay::<f64, Quaternion<f64>, P>(cx, "--", &j.a()[1..]);
    }
    c.finish();
}
