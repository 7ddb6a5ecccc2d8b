//! C04: a multivector is a total map from blade index to coefficient
use harness::coef::Co;
use harness::cx::*;
use harness::mv::*;
use harness::session::*;
use harness::*;
use num::complex::Complex64;
use tclifford::{ClAlgebra, Multivector, SparseMultivector};

const P: u64 = GET | SET | FROMIDX | FROMVEC | SCALAR | VECPART | ENUM | CONST | ADD | SUB | LOAD | STRICT;

fn name<'a, T>(c: &'a Cmd<T>) -> &'a str {
    &c.ext.as_ref().unwrap().0
}
fn nz<T: Co>(mut e: Entries<T>) -> Entries<T> {
    e.retain(|(_, c)| !c.is_zero());
    e
}
fn xdense<T: Co, A: ClAlgebra>(r: &[Multivector<T, A>], c: &Cmd<T>) -> Result<XOut<Multivector<T, A>>, String> {
    let x = &r[c.x];
    Ok(match name(c) {
        "arrayview" => XOut::Json(vec_j(&x.coeff_array_view().to_vec(), 1)?),
        "convert" => {
            let v = x.to_sparse();
            XOut::Put(if c.form % 2 == 0 { v.to_dense() } else { v.to_storage_type() })
        }
        "count" => XOut::Json(int_j(x.to_sparse().coeff_count() as i64)?),
        _ => XOut::Json(match c.form % 4 {
            0 => ent_j(&nz(x.coeff_enumerate().map(|(i, c)| (i, c.clone())).collect()), 1)?,
            1 => ent_j(&x.to_sparse().entries(), 1)?,
            2 => {
                let v: SparseMultivector<T, A> = x.to_storage_type();
                ent_j(&v.entries(), 1)?
            }
            _ => {
                let v: Multivector<T, A> = x.to_storage_type();
                mv_j(&v)?
            }
        }),
    })
}
fn xsparse<T: Co, A: ClAlgebra>(r: &[SparseMultivector<T, A>], c: &Cmd<T>) -> Result<XOut<SparseMultivector<T, A>>, String> {
    let x = &r[c.x];
    Ok(match name(c) {
        "arrayview" => XOut::Json(vec_j(&x.to_dense().coeff_array_view().to_vec(), 1)?),
        "convert" => {
            let v = x.to_dense();
            XOut::Put(if c.form % 2 == 0 { v.to_sparse() } else { v.to_storage_type() })
        }
        "edit" => {
            let f = |i: &usize, v: &mut T| {
                if i & c.b == c.b {
                    *v = v.clone() - c.c.clone();
                }
                true
            };
            XOut::Put(if c.form % 2 == 0 {
                x.clone().filtered(f)
            } else {
                let mut v = x.clone();
                v.filter_inplace(f);
                v
            })
        }
        "count" => XOut::Json(int_j(x.coeff_count() as i64)?),
        _ => XOut::Json(match c.form % 3 {
            0 => mv_j(&x.to_dense())?,
            1 => {
                let v: Multivector<T, A> = x.to_storage_type();
                mv_j(&v)?
            }
            _ => {
                let v: SparseMultivector<T, A> = x.to_storage_type();
                ent_j(&v.entries(), 1)?
            }
        }),
    })
}
/// sparse values of high dimension cannot be converted
fn xwide<T: Co, A: ClAlgebra>(r: &[SparseMultivector<T, A>], c: &Cmd<T>) -> Result<XOut<SparseMultivector<T, A>>, String> {
    let x = &r[c.x];
    Ok(match name(c) {
        "edit" => {
            let f = |i: &usize, v: &mut T| {
                if i & c.b == c.b {
                    *v = v.clone() - c.c.clone();
                }
                true
            };
            XOut::Put(if c.form % 2 == 0 {
                x.clone().filtered(f)
            } else {
                let mut v = x.clone();
                v.filter_inplace(f);
                v
            })
        }
        "count" => XOut::Json(int_j(x.coeff_count() as i64)?),
        _ => {
            let v: SparseMultivector<T, A> = x.to_storage_type();
            XOut::Json(ent_j(&v.entries(), 1)?)
        }
    })
}
/// a filter whose predicate changes coefficients
fn edit<T: Co>(m: &Machine<T>, rng: &mut Rng, d: usize, x: usize) -> Cmd<T> {
    let b = if rng.chance(1, 2) { 0 } else { 1usize << rng.below(m.dim) };
    let v = T::rnd(rng, 3);
    let mut c = Cmd::ext("edit", format!(r#""d":"r{d}","x":"r{x}","b":{},"c":{}"#, bj(b), v.enc().unwrap()), d, x);
    (c.b, c.c, c.form) = (b, v, rng.below(2));
    c
}
fn gsparse<T: Co>(m: &Machine<T>, rng: &mut Rng) -> Option<Cmd<T>> {
    let (d, x) = (rng.below(4), m.reg(rng));
    if rng.chance(1, 5) {
        Some(edit(m, rng, d, x))
    } else {
        gall(m, rng)
    }
}
fn gall<T: Co>(m: &Machine<T>, rng: &mut Rng) -> Option<Cmd<T>> {
    let (d, x) = (rng.below(4), m.reg(rng));
    let mut c = match rng.below(4) {
        0 if m.dim <= 6 => Cmd::ext("arrayview", format!(r#""x":"r{x}""#), d, x),
        1 => Cmd::ext("convert", format!(r#""d":"r{d}","x":"r{x}""#), d, x),
        2 => Cmd::ext("count", format!(r#""x":"r{x}""#), d, x),
        _ => Cmd::ext("peek", format!(r#""x":"r{x}""#), d, x),
    };
    c.form = rng.below(4);
    Some(c)
}
fn gwide<T: Co>(m: &Machine<T>, rng: &mut Rng) -> Option<Cmd<T>> {
    let (d, x) = (rng.below(4), m.reg(rng));
    if rng.chance(1, 4) {
        return Some(edit(m, rng, d, x));
    }
    Some(Cmd::ext(if rng.chance(1, 2) { "count" } else { "peek" }, format!(r#""x":"r{x}""#), d, x))
}

fn main() {
    let mut c = Cx::from_args();
    let cx = &mut c;
    let k = cx.scale;
    macro_rules! both { ($A:ty, $s:expr, $d:expr, $n:expr, $cap:expr, $T:ty) => {
        let p = Par { sessions: $n * k, steps: 14, cap: $cap, pairs: 0, m: 5 };
        run_x::<$T, Multivector<$T, $A>, P>(cx, $s, &p, xdense, gall);
        run_x::<$T, SparseMultivector<$T, $A>, P>(cx, $s, &p, xsparse, gsparse);
    }; }
    for_small!(both, 4, 16, i64);
    for_mid5!(both, 4, 32, i64);
    for_mid6!(both, 3, 64, i64);
    for_mid8!(both, 2, 60, i64);
    for_pick!(both, 4, 16, Complex64);
    for_pick!(both, 4, 16, f32);
    macro_rules! wide { ($A:ty, $s:expr, $d:expr) => {
        let p = Par { sessions: 6 * k, steps: 14, cap: 12, pairs: 0, m: 5 };
        run_x::<i64, SparseMultivector<i64, $A>, P>(cx, $s, &p, xwide, gwide);
    }; }
    for_wide!(wide);
    macro_rules! large { ($A:ty, $s:expr, $d:expr) => {
        run_big_x::<i64, Multivector<i64, $A>, P>(cx, $s, k / 4, 11, xdense, gall);
        run_big_x::<i64, SparseMultivector<i64, $A>, P>(cx, $s, k / 4, 11, xsparse, gsparse);
    }; }
    for_big!(large);
    // basis constructors
    macro_rules! basis { ($A:ty, $s:expr, $d:expr) => { {
        use tclifford::ClBasis;
        cx.begin($s, "Z", "basis");
        let list = |i: usize| format!(r#""d":"r0","l":[[[{i}],1]]"#);
        for i in 0..$d {
            cx.call("fromidx", &list(i), || mv_j(&Multivector::<i64, $A>::basis::<$d>()[i]));
            cx.call("fromidx", &list(i), || ent_j(&SparseMultivector::<i64, $A>::basis::<$d>()[i].entries(), 1));
            cx.call("fromidx", &list(i), || mv_j(&<$A as ClBasis<$d>>::basis::<f64>()[i]));
            cx.call("fromidx", &list(i), || ent_j(&<$A as ClBasis<$d>>::basis_sparse::<f64>()[i].entries(), 1));
        }
    } }; }
    for_small!(basis);
    for_mid5!(basis);
    for_mid8!(basis);
    replay_all!(cx, i64, P);
    c.finish();
}
