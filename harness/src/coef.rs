//! Coefficient types and their encoding as elements of the rings of Coeff.tla.
use crate::cx::{snap, Res, Rng};
use num::complex::{Complex32, Complex64};
use num::{One, Zero};
use std::ops::{Add, Mul, Neg, Sub};
use tclifford::quaternion::Quaternion;
use tclifford::types::Ring;
use tclifford::{Multivector, SparseMultivector};

thread_local! {
    static UNIT: std::cell::Cell<f64> = const { std::cell::Cell::new(1.) };
}
/// Floating point coefficients are integer multiples of this power of two and recorded in this unit.
pub fn unit() -> f64 {
    UNIT.with(|u| u.get())
}
pub fn set_unit(e: i32) {
    UNIT.with(|u| u.set(2f64.powi(e)))
}

pub trait Co: Ring + Clone + 'static {
    const RING: &'static str;
    const K: usize;
    const TY: &'static str;
    /// largest |integer| kept exactly
    const MAX: f64 = 1e8;
    fn of(v: &[i64]) -> Self;
    fn raw(&self) -> Vec<f64>;
    fn enc_d(&self, d: i64) -> Res {
        let mut s = Vec::new();
        for x in self.raw() {
            s.push(snap(x, d, Self::tol())?);
        }
        Ok(if Self::K == 1 { s[0].clone() } else { format!("[{}]", s.join(",")) })
    }
    fn tol() -> f64 {
        1e-6
    }
    fn enc(&self) -> Res {
        self.enc_d(1)
    }
    fn mx(&self) -> f64 {
        self.raw().iter().fold(0., |a, x| f64::max(a, x.abs()))
    }
    fn rnd(rng: &mut Rng, m: i64) -> Self {
        let v: Vec<i64> = (0..Self::K).map(|_| if rng.chance(1, 4) { 0 } else { rng.range(-m, m) }).collect();
        Self::of(&v)
    }
}
impl Co for i64 {
    const RING: &'static str = "Z";
    const K: usize = 1;
    const TY: &'static str = "i64";
    fn of(v: &[i64]) -> Self {
        v[0]
    }
    fn raw(&self) -> Vec<f64> {
        vec![*self as f64]
    }
}
impl Co for f64 {
    const RING: &'static str = "Z";
    const K: usize = 1;
    const TY: &'static str = "f64";
    fn of(v: &[i64]) -> Self {
        v[0] as f64 * unit()
    }
    fn raw(&self) -> Vec<f64> {
        vec![*self / unit()]
    }
}
impl Co for f32 {
    const RING: &'static str = "Z";
    const K: usize = 1;
    const TY: &'static str = "f32";
    const MAX: f64 = 1e4;
    fn of(v: &[i64]) -> Self {
        (v[0] as f64 * unit()) as f32
    }
    fn raw(&self) -> Vec<f64> {
        vec![*self as f64 / unit()]
    }
    fn tol() -> f64 {
        1e-2
    }
}
impl Co for Complex64 {
    const RING: &'static str = "G";
    const K: usize = 2;
    const TY: &'static str = "c64";
    fn of(v: &[i64]) -> Self {
        Complex64::new(v[0] as f64 * unit(), v[1] as f64 * unit())
    }
    fn raw(&self) -> Vec<f64> {
        vec![self.re / unit(), self.im / unit()]
    }
}
impl Co for Complex32 {
    const RING: &'static str = "G";
    const K: usize = 2;
    const TY: &'static str = "c32";
    const MAX: f64 = 1e4;
    fn of(v: &[i64]) -> Self {
        Complex32::new((v[0] as f64 * unit()) as f32, (v[1] as f64 * unit()) as f32)
    }
    fn raw(&self) -> Vec<f64> {
        vec![self.re as f64 / unit(), self.im as f64 / unit()]
    }
    fn tol() -> f64 {
        1e-2
    }
}
impl Co for Quaternion<i64> {
    const RING: &'static str = "H";
    const K: usize = 4;
    const TY: &'static str = "Quaternion<i64>";
    fn of(v: &[i64]) -> Self {
        Quaternion::from_indexed_iter(v.iter().cloned().enumerate()).unwrap()
    }
    fn raw(&self) -> Vec<f64> {
        (0..4).map(|i| self.get_by_idx(i) as f64).collect()
    }
}
type NestD = Multivector<i64, crate::algs::Smm>;
type NestS = SparseMultivector<i64, crate::algs::Smm>;
impl Co for NestD {
    const RING: &'static str = "H";
    const K: usize = 4;
    const TY: &'static str = "Multivector<i64,[-,-]>";
    fn of(v: &[i64]) -> Self {
        Self::from_indexed_iter(v.iter().cloned().enumerate()).unwrap()
    }
    fn raw(&self) -> Vec<f64> {
        (0..4).map(|i| self.get_by_idx(i) as f64).collect()
    }
}
impl Co for NestS {
    const RING: &'static str = "H";
    const K: usize = 4;
    const TY: &'static str = "SparseMultivector<i64,[-,-]>";
    fn of(v: &[i64]) -> Self {
        Self::from_indexed_iter(v.iter().cloned().enumerate()).unwrap()
    }
    fn raw(&self) -> Vec<f64> {
        (0..4).map(|i| self.get_by_idx(i) as f64).collect()
    }
}

/// 2x2 integer matrices
#[derive(Clone, Copy, PartialEq, Debug)]
pub struct M2(pub [i64; 4]);
/// integers modulo 6
#[derive(Clone, Copy, PartialEq, Debug)]
pub struct R6(pub i64);

macro_rules! ops {
    ($t:ident, $add:expr, $sub:expr, $mul:expr, $neg:expr, $zero:expr, $one:expr) => {
        ops!(@b $t, Add, add, $add);
        ops!(@b $t, Sub, sub, $sub);
        ops!(@b $t, Mul, mul, $mul);
        impl Neg for $t { type Output = $t; fn neg(self) -> $t { let f: fn(&$t) -> $t = $neg; f(&self) } }
        impl<'a> Neg for &'a $t { type Output = $t; fn neg(self) -> $t { let f: fn(&$t) -> $t = $neg; f(self) } }
        impl Zero for $t { fn zero() -> $t { $zero } fn is_zero(&self) -> bool { *self == $zero } }
        impl One for $t { fn one() -> $t { $one } }
    };
    (@b $t:ident, $tr:ident, $m:ident, $f:expr) => {
        impl $tr<$t> for $t { type Output = $t; fn $m(self, o: $t) -> $t { let f: fn(&$t, &$t) -> $t = $f; f(&self, &o) } }
        impl<'a, 'b> $tr<&'b $t> for &'a $t { type Output = $t; fn $m(self, o: &'b $t) -> $t { let f: fn(&$t, &$t) -> $t = $f; f(self, o) } }
    };
}
ops!(M2,
    |a, b| M2([a.0[0] + b.0[0], a.0[1] + b.0[1], a.0[2] + b.0[2], a.0[3] + b.0[3]]),
    |a, b| M2([a.0[0] - b.0[0], a.0[1] - b.0[1], a.0[2] - b.0[2], a.0[3] - b.0[3]]),
    |a, b| M2([
        a.0[0] * b.0[0] + a.0[1] * b.0[2], a.0[0] * b.0[1] + a.0[1] * b.0[3],
        a.0[2] * b.0[0] + a.0[3] * b.0[2], a.0[2] * b.0[1] + a.0[3] * b.0[3]]),
    |a| M2([-a.0[0], -a.0[1], -a.0[2], -a.0[3]]),
    M2([0; 4]), M2([1, 0, 0, 1]));
ops!(R6,
    |a, b| R6((a.0 + b.0).rem_euclid(6)),
    |a, b| R6((a.0 - b.0).rem_euclid(6)),
    |a, b| R6((a.0 * b.0).rem_euclid(6)),
    |a| R6((-a.0).rem_euclid(6)),
    R6(0), R6(1));
impl Co for M2 {
    const RING: &'static str = "M";
    const K: usize = 4;
    const TY: &'static str = "M2";
    fn of(v: &[i64]) -> Self {
        M2([v[0], v[1], v[2], v[3]])
    }
    fn raw(&self) -> Vec<f64> {
        self.0.iter().map(|x| *x as f64).collect()
    }
}
impl Co for R6 {
    const RING: &'static str = "R";
    const K: usize = 1;
    const TY: &'static str = "R6";
    fn of(v: &[i64]) -> Self {
        R6(v[0].rem_euclid(6))
    }
    fn raw(&self) -> Vec<f64> {
        vec![self.0 as f64]
    }
}
