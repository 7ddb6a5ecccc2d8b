//! C09: the fast matrix representation as a fixed lossless encoding
use harness::coef::Co;
use harness::cx::*;
use harness::fft::*;
use harness::*;
use num::complex::{Complex32, Complex64};
use tclifford::types::{FromComplex, IntoComplex64};
use tclifford::{ClAlgebra, FFTRepr};

const OPS: &[&str] = &["ifft", "fft", "fview", "fshape", "fround", "fromarr", "fromarr", "fround"];

/// every basis blade, alone
fn blades<T: Co, A: ClAlgebra + 'static>(cx: &mut Cx, sig: &str, nd: Option<Nd<A>>)
where
    T: IntoComplex64 + FromComplex,
{
    cx.begin(sig, T::RING, "fft blades");
    let mut mc = FMachine::<T>::new(fapplier::<T, A, F_IO>(nd, |_| unreachable!()), sig);
    let n = 1usize << sig.len();
    cx.cost(n * 20);
    for b in 0..n {
        let mut c = FCmd::new("fromidx", 0, 0);
        let v: Vec<i64> = if T::K == 1 { vec![1] } else { vec![2, 3] };
        c.list = vec![(b, T::of(&v))];
        mc.exec(cx, &c);
        mc.exec(cx, &FCmd::new("fft", 0, 0));
        mc.exec(cx, &FCmd::new("ifft", 1, 0));
    }
}

fn main() {
    let mut c = Cx::from_args();
    let cx = &mut c;
    let k = cx.scale;
    macro_rules! go { ($A:ty, $s:expr, $d:expr, $n:expr, $T:ty, $nd:expr, $bl:expr) => { {
        let p = FPar { sessions: $n * k, steps: 10, cap: if $d > 11 { 12 } else { 64 }, pairs: 1000, m: 5, ops: OPS };
        let nobasis: fn(usize) -> FFTRepr<$A> = |_| unreachable!();
        frun::<$T>(cx, $s, &p, &|| fapplier::<$T, $A, F_IO>($nd, nobasis));
        if $bl { blades::<$T, $A>(cx, $s, $nd) }
    } }; }
    macro_rules! deg { ($A:ty, $s:expr, $d:expr, $n:expr, $T:ty, $bl:expr) => { go!($A, $s, $d, $n, $T, None, $bl) }; }
    macro_rules! non { ($A:ty, $s:expr, $d:expr, $n:expr, $T:ty, $bl:expr) => { go!($A, $s, $d, $n, $T, Nd::<$A>::new(), $bl) }; }
    for_small!(deg, 2, Complex64, true);
    for_nondeg!(non, 2, Complex64, false);
    for_mid5!(deg, 2, f64, true);
    for_mid6!(deg, 2, f64, true);
    for_mid7!(deg, 1, Complex64, false);
    for_mid8!(deg, 1, Complex64, false);
    for_fbig!(deg, 1, Complex64, false);
    for_fwide!(deg, 1, Complex64, false);
    for_pick!(deg, 2, f64, false);
    for_pick!(deg, 2, f32, false);
    for_pick!(deg, 2, Complex32, false);
    c.finish();
}
