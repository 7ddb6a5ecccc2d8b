//! Sessions on the fast matrix representation: registers r0..r3 hold multivectors, f0..f3 representations.
use crate::coef::{set_unit, unit, Co};
use crate::cx::*;
use crate::mv::{ent_j, Entries, Mv};
use crate::session::{large_entries, rnd_entries};
use ndarray::{Array2, Array3, ArrayBase, Axis, Data, Ix2, Ix3, ShapeBuilder};
use num::complex::Complex64;
use num::{One, Zero};
use tclifford::algebra::NonDegenerate;
use tclifford::types::{FromComplex, IntoComplex64};
use tclifford::{ClAlgebra, ClError, FFTRepr, Multivector};

pub const F_IO: u64 = 1;
pub const F_AR: u64 = 2;
pub const F_INV: u64 = 4; // involutions, traces
pub const F_HALF: u64 = 8;

pub type Arr = Vec<(usize, usize, usize, i64, i64)>;

#[derive(Clone)]
pub struct FCmd<T> {
    pub op: &'static str,
    pub d: usize,
    pub x: usize,
    pub y: usize,
    pub n: usize,
    pub c: (i64, i64),
    pub pq: (i64, i64),
    pub form: usize,
    pub list: Entries<T>,
    pub arr: Arr,
    pub sh: (usize, usize, usize),
    /// degree in the unit of the coefficients: of the operand, of the result
    pub deg: (i32, i32),
}
impl<T> FCmd<T> {
    pub fn new(op: &'static str, d: usize, x: usize) -> Self {
        FCmd { op, d, x, y: 0, n: 0, c: (0, 0), pq: (0, 1), form: 0, list: vec![], arr: vec![], sh: (0, 0, 0), deg: (1, 1) }
    }
}

pub enum FOut<T> {
    R(Entries<T>, String),
    F(Entries<Complex64>, String),
    J(String),
}

/// calls that exist only for non-degenerate algebras
pub struct Nd<A: ClAlgebra> {
    pub to2: fn(FFTRepr<A>) -> Array2<Complex64>,
    pub from2: fn(Array2<Complex64>) -> Result<FFTRepr<A>, ClError>,
    pub half: fn(FFTRepr<A>) -> (Array2<Complex64>, Array2<Complex64>),
    pub inv: fn(&FFTRepr<A>) -> Option<FFTRepr<A>>,
}
impl<A: ClAlgebra + NonDegenerate> Nd<A> {
    pub fn new() -> Option<Self> {
        Some(Nd { to2: FFTRepr::into_array2, from2: FFTRepr::from_array2, half: FFTRepr::into_half_spin_repr, inv: FFTRepr::inv })
    }
}

fn g(re: f64, im: f64) -> Res {
    Ok(format!("{},{}", snap(re, 1, 1e-6)?, snap(im, 1, 1e-6)?))
}
/// non-zero entries of an array
pub fn arr3_j<S: Data<Elem = Complex64>>(a: &ArrayBase<S, Ix3>, u: f64) -> Res {
    let mut v = vec![];
    for ((w, i, j), c) in a.indexed_iter() {
        let s = g(c.re / u, c.im / u)?;
        if s != "0,0" {
            v.push(format!("[{w},{i},{j},{s}]"));
        }
    }
    Ok(format!("[{}]", v.join(",")))
}
pub fn arr2_j<S: Data<Elem = Complex64>>(a: &ArrayBase<S, Ix2>) -> Res {
    arr2u_j(a, 1.)
}
pub fn arr2u_j<S: Data<Elem = Complex64>>(a: &ArrayBase<S, Ix2>, u: f64) -> Res {
    let mut v = vec![];
    for ((i, j), c) in a.indexed_iter() {
        let s = g(c.re / u, c.im / u)?;
        if s != "0,0" {
            v.push(format!("[0,{i},{j},{s}]"));
        }
    }
    Ok(format!("[{}]", v.join(",")))
}
pub fn arr_in_j(a: &Arr) -> String {
    let v: Vec<String> = a.iter().map(|(w, i, j, x, y)| format!("[{w},{i},{j},{x},{y}]")).collect();
    format!("[{}]", v.join(","))
}
/// coefficients of the represented multivector, as decoded by the library
pub fn decode<A: ClAlgebra>(f: &FFTRepr<A>, u: f64) -> Result<(Entries<Complex64>, String), String> {
    let m = f.ifft::<Complex64>();
    let e: Entries<Complex64> = m
        .entries()
        .into_iter()
        .map(|(i, c)| (i, c / u))
        .filter(|(_, c)| !(c.re.abs() < 1e-6 && c.im.abs() < 1e-6))
        .collect();
    let j = ent_j(&e.iter().map(|(i, c)| (*i, c * unit())).collect(), 1)?;
    let e = e.into_iter().map(|(i, c)| (i, Complex64::new(c.re.round(), c.im.round()))).collect();
    Ok((e, j))
}
fn co_j(c: Complex64, u: f64) -> Res {
    Ok(format!("[{}]", g(c.re / u, c.im / u)?))
}
fn build3(sh: (usize, usize, usize), arr: &Arr, form: usize) -> Array3<Complex64> {
    let mut a = match form % 3 {
        0 => Array3::zeros(sh),
        1 => Array3::zeros(sh.f()),
        _ => {
            // an owned array with swapped axes
            let mut b = Array3::<Complex64>::zeros((sh.2, sh.1, sh.0));
            b.swap_axes(0, 2);
            b
        }
    };
    for (w, i, j, re, im) in arr {
        a[(*w, *i, *j)] = Complex64::new(*re as f64 * unit(), *im as f64 * unit());
    }
    a
}

pub type FApply<T> = Box<dyn FnMut(&FCmd<T>) -> Result<FOut<T>, String>>;

macro_rules! forms {
    ($a:expr, $b:expr, $f:expr, $op:tt) => {
        match $f % 4 {
            0 => &$a $op &$b,
            1 => $a.clone() $op &$b,
            2 => &$a $op $b.clone(),
            _ => $a.clone() $op $b.clone(),
        }
    };
}

pub fn fapplier<T, A, const P: u64>(nd: Option<Nd<A>>, basis: fn(usize) -> FFTRepr<A>) -> FApply<T>
where
    T: Co + IntoComplex64 + FromComplex,
    A: ClAlgebra + 'static,
{
    let mut r: Vec<Multivector<T, A>> = vec![];
    let mut f: Vec<FFTRepr<A>> = vec![];
    Box::new(move |c| {
        if r.is_empty() {
            r = (0..4).map(|_| Multivector::zero()).collect();
            f = (0..4).map(|_| FFTRepr::zero()).collect();
        }
        let (x, y, fm) = (c.x, c.y, c.form);
        let op = c.op;
        let (ux, ur) = (unit().powi(c.deg.0), unit().powi(c.deg.1));
        let cc = Complex64::new(c.c.0 as f64, c.c.1 as f64);
        let rr = c.c.0 as f64;
        let real = c.c.1 == 0 && fm >= 4;
        let v: FFTRepr<A> = if op == "fromidx" {
            let m = errk(Multivector::<T, A>::from_indexed_iter(c.list.iter().cloned()))?;
            let e = m.entries();
            let j = ent_j(&e, 1)?;
            r[c.d] = m;
            return Ok(FOut::R(e, j));
        } else if op == "fft" {
            let v = r[x].fft();
            let j = arr3_j(&v.view(), ur)?;
            f[c.d] = v;
            return Ok(FOut::F(r[x].entries().into_iter().map(|(i, c)| (i, c.into_complex() / unit())).collect(), j));
        } else if P & F_IO != 0 && op == "ifft" {
            let m = f[x].ifft::<T>();
            let e: Entries<T> = m.entries().into_iter().filter(|(_, c)| !(c.mx() < T::tol())).collect();
            let j = ent_j(&e, 1)?;
            let back: Entries<T> = e
                .into_iter()
                .map(|(i, c)| (i, T::of(&c.raw().iter().map(|x| x.round() as i64).collect::<Vec<_>>())))
                .collect();
            r[c.d] = m;
            return Ok(FOut::R(back, j));
        } else if op == "fview" {
            let j = match (P & F_IO != 0, fm % 3, &nd) {
                (true, 1, _) => arr3_j(&f[x].clone().into_array3(), ux)?,
                (true, 2, Some(n)) => arr2u_j(&(n.to2)(f[x].clone()), ux)?,
                _ => arr3_j(&f[x].view(), ux)?,
            };
            return Ok(FOut::J(j));
        } else if P & F_IO != 0 && op == "fshape" {
            let s = if fm % 2 == 0 { f[x].shape() } else { f[x].view().dim() };
            return Ok(FOut::J(format!("[{},{},{}]", s.0, s.1, s.2)));
        } else if P & F_IO != 0 && op == "fround" {
            match (&nd, fm % 5) {
                (Some(n), 3) => errk((n.from2)((n.to2)(f[x].clone())))?,
                (Some(n), 4) => {
                    // column-major copy
                    let a = (n.to2)(f[x].clone());
                    let mut b = Array2::zeros(a.dim().f());
                    b.assign(&a);
                    errk((n.from2)(b))?
                }
                (_, 1) => {
                    let a = f[x].clone().into_array3();
                    let mut b = Array3::zeros(a.dim().f());
                    b.assign(&a);
                    errk(FFTRepr::from_array3(b))?
                }
                (_, 2) => {
                    // transposed matrices, transposed back without moving data
                    let mut a = f[x].clone().into_array3();
                    let mut b = Array3::zeros((a.dim().0, a.dim().2, a.dim().1));
                    a.swap_axes(1, 2);
                    b.assign(&a);
                    b.swap_axes(1, 2);
                    errk(FFTRepr::from_array3(b))?
                }
                _ => errk(FFTRepr::from_array3(f[x].clone().into_array3()))?,
            }
        } else if P & F_IO != 0 && op == "fromarr" {
            let a = build3(c.sh, &c.arr, fm);
            match &nd {
                Some(n) if c.sh.0 == 1 && fm >= 3 => errk((n.from2)(a.index_axis(Axis(0), 0).to_owned()))?,
                _ => errk(FFTRepr::from_array3(a))?,
            }
        } else if P & F_AR != 0 && op == "fadd" {
            forms!(f[x], f[y], fm, +)
        } else if P & F_AR != 0 && op == "fsub" {
            forms!(f[x], f[y], fm, -)
        } else if op == "fmul" {
            forms!(f[x], f[y], fm, *)
        } else if P & F_AR != 0 && op == "fneg" {
            if fm % 2 == 0 {
                -&f[x]
            } else {
                -f[x].clone()
            }
        } else if P & F_AR != 0 && op == "fscale" {
            if real {
                forms!(f[x], rr, fm, *)
            } else {
                forms!(f[x], cc, fm, *)
            }
        } else if P & F_AR != 0 && op == "fsdiv" {
            if real {
                forms!(f[x], rr, fm, /)
            } else {
                forms!(f[x], cc, fm, /)
            }
        } else if P & F_AR != 0 && op == "fpow" {
            f[x].pow(c.n)
        } else if P & F_AR != 0 && op == "fone" {
            FFTRepr::one()
        } else if P & F_AR != 0 && op == "fzero" {
            FFTRepr::zero()
        } else if P & F_AR != 0 && op == "fbasis" {
            basis(c.n)
        } else if P & F_AR != 0 && op == "feq" {
            return Ok(FOut::J(bool_j(if fm % 2 == 0 { f[x] == f[y] } else { !(f[x] != f[y]) })?));
        } else if P & F_AR != 0 && op == "fapprox" {
            return Ok(FOut::J(bool_j(f[x].approx_eq(&f[y], c.pq.0 as f64 / c.pq.1 as f64 * ux))?));
        } else if P & F_AR != 0 && op == "fiszero" {
            return Ok(FOut::J(bool_j(f[x].is_zero())?));
        } else if P & F_INV != 0 && op == "frev" {
            f[x].rev()
        } else if P & F_INV != 0 && op == "fflip" {
            f[x].flip()
        } else if P & F_INV != 0 && op == "ftrace" {
            return Ok(FOut::J(co_j(f[x].trace(), ux)?));
        } else if P & F_INV != 0 && op == "fntrace" {
            return Ok(FOut::J(co_j(f[x].ntrace(), ux)?));
        } else if P & F_INV != 0 && op == "fmag2" {
            return Ok(FOut::J(co_j(f[x].mag2(), ux * ux)?));
        } else if P & F_HALF != 0 && op == "fhalf" {
            let (a, b) = (nd.as_ref().unwrap().half)(f[x].clone());
            return Ok(FOut::J(arr2u_j(if c.n == 0 { &a } else { &b }, ux)?));
        } else {
            return Err("unsupported".into());
        };
        let (e, j) = decode(&v, ur)?;
        f[c.d] = v;
        Ok(FOut::F(e, j))
    })
}

pub struct FMachine<T> {
    pub ent: Vec<Entries<T>>,
    pub fent: Vec<Entries<Complex64>>,
    pub ap: FApply<T>,
    pub dim: usize,
    pub sig: String,
    pub nondeg: bool,
    pub failed: bool,
    /// degrees of the representations in the unit of the coefficients
    pub deg: Vec<i32>,
}
impl<T: Co> FMachine<T> {
    pub fn new(ap: FApply<T>, sig: &str) -> Self {
        FMachine {
            ent: vec![vec![]; 4],
            fent: vec![vec![]; 4],
            ap,
            dim: sig.len(),
            sig: sig.to_string(),
            nondeg: !sig.contains('0'),
            failed: false,
            deg: vec![1; 4],
        }
    }
    pub fn nonnull(&self) -> usize {
        self.sig.chars().filter(|c| *c != '0').count()
    }
    pub fn shape(&self) -> (usize, usize, usize) {
        let s = 1 << ((self.nonnull() + 1) / 2);
        (1 << (self.dim - self.nonnull()), s, s)
    }
    pub fn fstats(&self, i: usize) -> (f64, usize) {
        let e = &self.fent[i];
        (e.iter().fold(0., |a, (_, c)| f64::max(a, c.re.abs().max(c.im.abs()))), e.len())
    }
    /// degree of the result
    fn result(&self, c: &FCmd<T>) -> i32 {
        match c.op {
            "fft" | "fromarr" => 1,
            "fmul" => self.deg[c.x] + self.deg[c.y],
            "fpow" => self.deg[c.x] * c.n as i32,
            "fone" | "fbasis" => 0,
            _ => self.deg[c.x],
        }
    }
    pub fn exec(&mut self, cx: &mut Cx, c: &FCmd<T>) -> bool {
        let (d, x, y) = (c.d, c.x, c.y);
        let mut c = c.clone();
        c.deg = (self.deg[x], self.result(&c));
        let c = &c;
        let head = match c.op {
            "fromidx" => format!(r#""d":"r{d}","l":{}"#, ent_j(&c.list, 1).unwrap()),
            "fft" => format!(r#""d":"f{d}","x":"r{x}""#),
            "ifft" => format!(r#""d":"r{d}","x":"f{x}""#),
            "fromarr" => {
                format!(r#""d":"f{d}","sh":[{},{},{}],"a":{}"#, c.sh.0, c.sh.1, c.sh.2, arr_in_j(&c.arr))
            }
            "fadd" | "fsub" | "fmul" => format!(r#""d":"f{d}","x":"f{x}","y":"f{y}""#),
            "fneg" | "fround" | "frev" | "fflip" => format!(r#""d":"f{d}","x":"f{x}""#),
            "fscale" | "fsdiv" => format!(r#""d":"f{d}","x":"f{x}","c":[{},{}]"#, c.c.0, c.c.1),
            "fpow" => format!(r#""d":"f{d}","x":"f{x}","n":{}"#, c.n),
            "fone" | "fzero" => format!(r#""d":"f{d}""#),
            "fbasis" => format!(r#""d":"f{d}","n":{}"#, c.n),
            "feq" => format!(r#""x":"f{x}","y":"f{y}""#),
            "fapprox" => format!(r#""x":"f{x}","y":"f{y}","p":{},"q":{}"#, c.pq.0, c.pq.1),
            "fhalf" => format!(r#""x":"f{x}","n":{}"#, c.n),
            _ => format!(r#""x":"f{x}""#),
        };
        let (ap, ent, fent, deg) = (&mut self.ap, &mut self.ent, &mut self.fent, &mut self.deg);
        let ok = cx.call(c.op, &head, || match ap(c)? {
            FOut::R(e, j) => {
                ent[d] = e;
                Ok(j)
            }
            FOut::F(e, j) => {
                fent[d] = e;
                deg[d] = c.deg.1;
                Ok(j)
            }
            FOut::J(j) => Ok(j),
        });
        let ok = ok || c.op == "fromarr";
        if !ok {
            self.failed = true;
        }
        ok
    }

    pub fn load(&self, rng: &mut Rng, d: usize, cap: usize, m: i64) -> FCmd<T> {
        let mut c = FCmd::new("fromidx", d, 0);
        c.list = if T::MAX > 1e6 && rng.chance(1, 10) {
            large_entries(rng, self.dim)
        } else {
            rnd_entries(rng, self.dim, cap, m)
        };
        // each blade once
        let mut seen = std::collections::BTreeSet::new();
        c.list.retain(|(b, _)| seen.insert(*b));
        c
    }

    /// A random command among `ops` whose result stays small, or None.
    pub fn gen(&self, ops: &[&'static str], rng: &mut Rng, pairs: usize) -> Option<FCmd<T>> {
        let op = *rng.pick(ops);
        let x = if op == "fft" { crate::session::live(rng, &self.ent) } else { crate::session::live(rng, &self.fent) };
        let (d, y) = (rng.below(4), crate::session::live(rng, &self.fent));
        let mut c = FCmd::new(op, d, x);
        c.y = y;
        c.form = rng.below(60);
        let (mx, nx) = self.fstats(x);
        let (my, ny) = self.fstats(y);
        let sum = (mx * nx as f64).max(1.) * 2.;
        let lim = 1e7;
        match op {
            "fft" => {}
            "ifft" => {
                if T::K == 1 && self.fent[x].iter().any(|(_, c)| c.im != 0.) {
                    return None;
                }
                if mx > T::MAX {
                    return None;
                }
            }
            "fmul" => {
                if nx * ny > pairs || sum * (my * ny as f64).max(1.) * 2. > lim {
                    return None;
                }
            }
            "fadd" | "fsub" => {
                if mx + my > lim {
                    return None;
                }
            }
            "fmag2" => {
                if sum * sum > lim || nx * nx > pairs {
                    return None;
                }
            }
            "fscale" => {
                c.c = (rng.range(-4, 4), if rng.chance(1, 2) { 0 } else { rng.range(-4, 4) });
                if mx * 16. > lim {
                    return None;
                }
            }
            "fsdiv" => {
                let ks: Vec<i64> = [1i64, -1, 2, -2, 3, 4, 5, -5, 7]
                    .into_iter()
                    .filter(|k| self.fent[x].iter().all(|(_, c)| c.re as i64 % k == 0 && c.im as i64 % k == 0))
                    .collect();
                let k = *rng.pick(&ks);
                c.c = if rng.chance(1, 2) { (k, 0) } else { (0, k) };
            }
            "fpow" => {
                let mut n = rng.below(9);
                while n > 1 && (sum.powi(n as i32) > lim || nx * nx * n > 2 * pairs) {
                    n -= 1;
                }
                c.n = n;
            }
            "ftrace" => {
                if mx * self.shape().1 as f64 > 1e9 {
                    return None;
                }
            }
            "fbasis" => c.n = rng.below(self.dim),
            "fhalf" => c.n = rng.below(2),
            "feq" => {
                if rng.chance(1, 3) {
                    c.y = x
                }
            }
            "fapprox" => {
                if mx > 1000. || my > 1000. {
                    return None;
                }
                let f = (mx.max(my)) as i64;
                c.pq = match rng.below(4) {
                    0 if f < 30 => (1, 1024),
                    0 | 1 => (2 * f + 1, 2),
                    2 => (2 * rng.range(0, 4 * f + 1) + 1, 2),
                    _ => (200001, 2),
                };
                // a difference of one term has one modulus in all elements
                let mut df = self.fent[x].clone();
                for (b, v) in &self.fent[y] {
                    match df.iter_mut().find(|p| p.0 == *b) {
                        Some(p) => p.1 -= v,
                        None => df.push((*b, -v)),
                    }
                }
                df.retain(|(_, v)| v.norm() > 0.);
                if df.len() == 1 && rng.chance(3, 4) {
                    let v = df[0].1;
                    let n = v.norm().floor() as i64;
                    let m = v.re.abs().max(v.im.abs()) as i64;
                    c.pq = *rng.pick(&[(2 * n + 1, 2), (2 * n - 1, 2), (2 * m + 1, 2), (20 * m + 1, 20)]);
                }
            }
            "fromarr" => {
                let (w, s, _) = self.shape();
                let good = self.nonnull() % 2 == 0 && rng.chance(1, 2);
                if good {
                    c.sh = (w, s, s);
                    for i in 0..w {
                        for j in 0..s {
                            for k in 0..s {
                                if rng.chance(1, 2) {
                                    let v = (s as i64) * rng.range(-3, 3);
                                    c.arr.push((i, j, k, v, (s as i64) * rng.range(-3, 3)));
                                }
                            }
                        }
                    }
                    c.arr.retain(|e| e.3 != 0 || e.4 != 0);
                } else {
                    let m = |rng: &mut Rng, v: usize| match rng.below(6) {
                        0 => v + 1,
                        1 => v * 2,
                        2 => v / 2,
                        3 => v - 1,
                        4 => v * 4,
                        _ => v,
                    };
                    c.sh = (m(rng, w), m(rng, s), m(rng, s));
                    if rng.chance(1, 5) {
                        // same number of elements, different shape
                        c.sh = *rng.pick(&[(w * s, s, 1), (1, w * s, s), (w * 2, s / 2, s), (s, w, s), (s, s, w)]);
                    }
                    if c.sh == (w, s, s) {
                        return None;
                    }
                    c.arr = vec![];
                }
            }
            _ => {}
        }
        let e = unit().log2().abs();
        if e != 0. {
            // numbers of different magnitude are not mixed
            let (dx, dy) = (self.deg[x], self.deg[c.y]);
            let mixed = match op {
                "fadd" | "fsub" | "feq" | "fapprox" => dx != dy,
                "ifft" => dx != 1,
                "fmag2" => 2. * dx as f64 * e > 900.,
                _ => false,
            };
            if mixed || self.result(&c) as f64 * e > 900. {
                return None;
            }
        }
        Some(c)
    }
}

pub struct FPar<'a> {
    pub sessions: usize,
    pub steps: usize,
    pub cap: usize,
    pub pairs: usize,
    pub m: i64,
    pub ops: &'a [&'static str],
}

/// exponent of a unit for the coefficients
pub fn rnd_unit<T: Co>(rng: &mut Rng) -> i32 {
    if rng.chance(2, 3) {
        0
    } else if T::MAX < 1e6 {
        *rng.pick(&[-90, -60, -30, 30, 60, 90])
    } else {
        *rng.pick(&[-900, -400, -200, -60, -40, -20, 40, 200, 400, 900])
    }
}

pub fn frun<T: Co>(cx: &mut Cx, sig: &str, p: &FPar, mk: &dyn Fn() -> FApply<T>) {
    for _ in 0..p.sessions {
        let u = rnd_unit::<T>(&mut cx.rng);
        set_unit(u);
        fsession(cx, sig, p, mk, u);
        set_unit(0);
    }
}
fn fsession<T: Co>(cx: &mut Cx, sig: &str, p: &FPar, mk: &dyn Fn() -> FApply<T>, u: i32) {
    {
        cx.begin(sig, T::RING, &format!("fft {} unit 2^{u}", T::TY));
        let mut mc = FMachine::<T>::new(mk(), sig);
        let mut rng = Rng(cx.rng.next());
        let ops: Vec<&'static str> = p.ops.iter().cloned().filter(|o| mc.nondeg || *o != "fhalf").collect();
        let sh = mc.shape();
        let area = sh.0 * sh.1 * sh.2;
        let mut spent = 0;
        for i in 0..2 {
            let c = mc.load(&mut rng, i, p.cap, p.m);
            mc.exec(cx, &c);
            mc.exec(cx, &FCmd::new("fft", i, i));
        }
        for _ in 0..p.steps {
            if mc.failed || spent > 4 * p.pairs + 8 * area {
                break;
            }
            if rng.chance(1, 5) {
                let i = rng.below(4);
                let c = mc.load(&mut rng, i, p.cap, p.m);
                mc.exec(cx, &c);
                mc.exec(cx, &FCmd::new("fft", i, i));
                spent += area;
                continue;
            }
            if let Some(c) = mc.gen(&ops, &mut rng, p.pairs) {
                let mx = mc.fstats(c.x);
                match c.op {
                    "fmul" => spent += mx.1 * mc.fstats(c.y).1,
                    "fpow" => spent += mx.1 * mx.1 * c.n.max(1),
                    "fview" | "fromarr" | "fhalf" => spent += area * 2,
                    "fft" if mc.ent[c.x].iter().any(|(_, v)| v.mx() > 1e7) => continue,
                    _ => {}
                }
                mc.exec(cx, &c);
            }
        }
        for i in 0..4 {
            if !mc.failed && mc.fent[i].len() > 0 {
                let mut c = FCmd::new("fview", 0, i);
                c.form = rng.below(6);
                mc.exec(cx, &c);
                spent += area;
            }
        }
        cx.cost(spent);
    }
}
