//! Uniform access to the multivector types of the library.
//! Every method forwards to exactly one public call of the code under test.
use crate::coef::Co;
use crate::cx::{bj, Res};
use num::complex::ComplexFloat;
use num::{One, Zero};
use tclifford::quaternion::Quaternion;
use tclifford::types::{DivRing, WedgeProduct};
use tclifford::Norm;
use tclifford::{ClAlgebra, ClError, Multivector, SparseMultivector};

pub type Entries<T> = Vec<(usize, T)>;

pub trait Mv<T>: Sized + Clone {
    const STORE: &'static str;
    fn dim() -> usize;
    /// all non-zero coefficients of a dense value; all stored ones of a sparse value
    fn entries(&self) -> Entries<T>;
    fn fi(v: Entries<T>) -> Result<Self, ClError>;
    fn fi_ref(v: &Entries<T>) -> Result<Self, ClError>;
    fn fv(v: Vec<T>) -> Result<Self, ClError>;
    fn fv_ref(v: &Vec<T>) -> Result<Self, ClError>;
    /// the same from iterators that do not know their length
    fn fi_any(v: Entries<T>) -> Result<Self, ClError>;
    fn fi_some(v: &Entries<T>) -> Result<Self, ClError>;
    fn fv_any(v: Vec<T>) -> Result<Self, ClError>;
    fn fv_some(v: &Vec<T>) -> Result<Self, ClError>;
    fn fs(c: T) -> Self;
    fn zero_() -> Self;
    fn default_() -> Self;
    fn one_() -> Self;
    fn mul(&self, o: &Self, form: usize) -> Self;
    fn add(&self, o: &Self, form: usize) -> Self;
    fn sub(&self, o: &Self, form: usize) -> Self;
    fn neg(&self, form: usize) -> Self;
    fn scale(&self, c: &T, form: usize) -> Self;
    fn nmul(&self, o: &Self) -> Self;
    fn nwedge(&self, o: &Self) -> Self;
    fn nmeet(&self, o: &Self) -> Self;
    fn rev_(&self) -> Self;
    fn flip_(&self) -> Self;
    fn flip_sub(&self, m: usize) -> Self;
    fn dual_(&self) -> Self;
    fn undual_(&self) -> Self;
    fn vdot_(&self, o: &Self) -> T;
    fn vsdot_(&self, o: &Self) -> T;
    fn mag2_(&self) -> T;
    fn pow_(&self, n: usize) -> Self;
    fn get(&self, i: usize) -> T;
    fn set(self, i: usize, c: T) -> Self;
    fn eq_(&self, o: &Self) -> bool;
    fn ne_(&self, o: &Self) -> bool;
    fn is_zero_(&self) -> bool;
    fn scalar(&self) -> T;
    fn vecpart(&self) -> Vec<T>;
    fn grade(&self, k: usize) -> Self;
    fn enum_(&self) -> Entries<T>;
    fn genum(&self, k: usize) -> Entries<T>;
}

pub trait MvW<T>: Mv<T> {
    fn wedge_(&self, o: &Self) -> Self;
    fn meet_(&self, o: &Self) -> Self;
}

macro_rules! forms {
    ($s:ident, $o:ident, $f:ident, $op:tt) => {
        match $f % 4 {
            0 => $s $op $o,
            1 => $s.clone() $op $o,
            2 => $s $op $o.clone(),
            _ => $s.clone() $op $o.clone(),
        }
    };
}

macro_rules! common {
    () => {
        fn fi(v: Entries<T>) -> Result<Self, ClError> {
            Self::from_indexed_iter(v.into_iter())
        }
        fn fi_ref(v: &Entries<T>) -> Result<Self, ClError> {
            Self::from_indexed_iter_ref(v.iter().map(|(i, c)| (*i, c)))
        }
        fn fv(v: Vec<T>) -> Result<Self, ClError> {
            Self::from_vector(v)
        }
        fn fv_ref(v: &Vec<T>) -> Result<Self, ClError> {
            Self::from_vector_ref(v.iter())
        }
        fn fi_any(v: Entries<T>) -> Result<Self, ClError> {
            let mut i = v.into_iter();
            Self::from_indexed_iter(std::iter::from_fn(move || i.next()))
        }
        fn fi_some(v: &Entries<T>) -> Result<Self, ClError> {
            Self::from_indexed_iter_ref(v.iter().map(|(i, c)| (*i, c)).filter(|_| true))
        }
        fn fv_any(v: Vec<T>) -> Result<Self, ClError> {
            let mut i = v.into_iter();
            Self::from_vector(std::iter::from_fn(move || i.next()))
        }
        fn fv_some(v: &Vec<T>) -> Result<Self, ClError> {
            Self::from_vector_ref(v.iter().filter(|_| true))
        }
        fn fs(c: T) -> Self {
            Self::from_scalar(c)
        }
        fn zero_() -> Self {
            <Self as Zero>::zero()
        }
        fn default_() -> Self {
            Self::default()
        }
        fn one_() -> Self {
            <Self as One>::one()
        }
        fn mul(&self, o: &Self, form: usize) -> Self {
            forms!(self, o, form, *)
        }
        fn add(&self, o: &Self, form: usize) -> Self {
            forms!(self, o, form, +)
        }
        fn sub(&self, o: &Self, form: usize) -> Self {
            forms!(self, o, form, -)
        }
        fn neg(&self, form: usize) -> Self {
            if form % 2 == 0 {
                -self
            } else {
                -self.clone()
            }
        }
        fn scale(&self, c: &T, form: usize) -> Self {
            forms!(self, c, form, *)
        }
        fn nmul(&self, o: &Self) -> Self {
            self.naive_mul_impl(o)
        }
        fn nwedge(&self, o: &Self) -> Self {
            self.naive_wedge_impl(o)
        }
        fn nmeet(&self, o: &Self) -> Self {
            self.naive_meet_impl(o)
        }
        fn rev_(&self) -> Self {
            self.rev()
        }
        fn flip_(&self) -> Self {
            self.flip()
        }
        fn flip_sub(&self, m: usize) -> Self {
            self.flip_subspace(m)
        }
        fn dual_(&self) -> Self {
            self.dual()
        }
        fn undual_(&self) -> Self {
            self.undual()
        }
        fn vdot_(&self, o: &Self) -> T {
            self.vdot(o)
        }
        fn vsdot_(&self, o: &Self) -> T {
            self.vsdot(o)
        }
        fn mag2_(&self) -> T {
            self.mag2()
        }
        fn pow_(&self, n: usize) -> Self {
            self.pow(n)
        }
        fn get(&self, i: usize) -> T {
            self.get_by_idx(i)
        }
        fn set(self, i: usize, c: T) -> Self {
            self.set_by_idx(i, c)
        }
        fn eq_(&self, o: &Self) -> bool {
            self == o
        }
        fn ne_(&self, o: &Self) -> bool {
            self != o
        }
        fn is_zero_(&self) -> bool {
            Zero::is_zero(self)
        }
        fn scalar(&self) -> T {
            self.scalar_part()
        }
        fn vecpart(&self) -> Vec<T> {
            self.extract_vector().to_vec()
        }
        fn grade(&self, k: usize) -> Self {
            self.grade_extract(k)
        }
        fn enum_(&self) -> Entries<T> {
            self.coeff_enumerate().map(|(i, c)| (i, c.clone())).collect()
        }
        fn genum(&self, k: usize) -> Entries<T> {
            self.grade_enumerate(k).map(|(i, c)| (i, c.clone())).collect()
        }
    };
}

impl<T: Co, A: ClAlgebra> Mv<T> for Multivector<T, A> {
    const STORE: &'static str = "dense";
    fn dim() -> usize {
        A::dim()
    }
    fn entries(&self) -> Entries<T> {
        (0..(1usize << A::dim())).map(|i| (i, self.get_by_idx(i))).filter(|(_, c)| !c.is_zero()).collect()
    }
    common!();
}
impl<T: Co, A: ClAlgebra> Mv<T> for SparseMultivector<T, A> {
    const STORE: &'static str = "sparse";
    fn dim() -> usize {
        A::dim()
    }
    fn entries(&self) -> Entries<T> {
        let mut v: Entries<T> = self.coeff_enumerate().map(|(i, c)| (i, c.clone())).collect();
        v.sort_by_key(|(i, _)| *i);
        v
    }
    common!();
}
impl<T: Co + Copy + tclifford::types::DivRing> Mv<T> for Quaternion<T> {
    const STORE: &'static str = "quat";
    fn dim() -> usize {
        2
    }
    fn entries(&self) -> Entries<T> {
        (0..4usize).map(|i| (i, self.get_by_idx(i))).filter(|(_, c)| !c.is_zero()).collect()
    }
    common!();
}
/// (the fast products are not offered for quaternions)
impl<T: Co + Copy + tclifford::types::DivRing> MvW<T> for Quaternion<T> {
    fn wedge_(&self, o: &Self) -> Self {
        self.naive_wedge_impl(o)
    }
    fn meet_(&self, o: &Self) -> Self {
        self.naive_meet_impl(o)
    }
}
impl<T: Co, A: ClAlgebra> MvW<T> for Multivector<T, A> {
    fn wedge_(&self, o: &Self) -> Self {
        self.wedge(o)
    }
    fn meet_(&self, o: &Self) -> Self {
        self.meet(o)
    }
}
impl<T: Co, A: ClAlgebra> MvW<T> for SparseMultivector<T, A> {
    fn wedge_(&self, o: &Self) -> Self {
        self.wedge(o)
    }
    fn meet_(&self, o: &Self) -> Self {
        self.meet(o)
    }
}

/// scalar division
pub trait MvD<T>: MvW<T> {
    fn sdiv(&self, c: &T, form: usize) -> Self;
    fn revm_(&self) -> Self;
}
/// floating point coefficients
pub trait MvC<T>: MvD<T> {
    fn approx(&self, o: &Self, p: f64) -> bool;
    fn cmag2_(&self) -> T;
    fn revc_(&self) -> Self;
    fn revcm_(&self) -> Self;
}
macro_rules! div_and_complex {
    ($M:ident) => {
        impl<T: Co + DivRing, A: ClAlgebra> MvD<T> for $M<T, A> {
            fn sdiv(&self, c: &T, form: usize) -> Self {
                forms!(self, c, form, /)
            }
            fn revm_(&self) -> Self {
                self.revm()
            }
        }
        impl<T: Co + DivRing + ComplexFloat + Norm, A: ClAlgebra> MvC<T> for $M<T, A> {
            fn approx(&self, o: &Self, p: f64) -> bool {
                self.approx_eq(o, p)
            }
            fn cmag2_(&self) -> T {
                self.cmag2()
            }
            fn revc_(&self) -> Self {
                self.revc()
            }
            fn revcm_(&self) -> Self {
                self.revcm()
            }
        }
    };
}
div_and_complex!(Multivector);
div_and_complex!(SparseMultivector);

/// JSON encoding of a list of (blade, coefficient * d)
pub fn ent_j<T: Co>(v: &Entries<T>, d: i64) -> Res {
    let mut s = String::from("[");
    for (n, (i, c)) in v.iter().enumerate() {
        if n > 0 {
            s.push(',');
        }
        s.push('[');
        s.push_str(&bj(*i));
        s.push(',');
        s.push_str(&c.enc_d(d)?);
        s.push(']');
    }
    s.push(']');
    Ok(s)
}
pub fn mv_j<T: Co, M: Mv<T>>(m: &M) -> Res {
    mv_jd(m, 1)
}
pub fn mv_jd<T: Co, M: Mv<T>>(m: &M, d: i64) -> Res {
    ent_j(&m.entries(), d)
}
/// like mv_jd, but drops coefficients that are zero up to rounding errors
pub fn mv_jz<T: Co, M: Mv<T>>(m: &M, d: i64) -> Res {
    let v: Entries<T> = m.entries().into_iter().filter(|(_, c)| c.mx() * (d as f64) > T::tol() || !c.mx().is_finite()).collect();
    ent_j(&v, d)
}
pub fn vec_j<T: Co>(v: &[T], d: i64) -> Res {
    let mut o = vec![];
    for c in v {
        o.push(c.enc_d(d)?);
    }
    Ok(format!("[{}]", o.join(",")))
}
