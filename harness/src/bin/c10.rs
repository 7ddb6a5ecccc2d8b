//! C10: arithmetic on representations
use harness::cx::*;
use harness::fft::*;
use harness::*;
use num::complex::Complex64;
use tclifford::FFTRepr;

const OPS: &[&str] = &[
    "fadd", "fsub", "fneg", "fmul", "fmul", "fmul", "fscale", "fsdiv", "fpow", "fone", "fzero", "fbasis", "feq", "fapprox",
    "fiszero", "fround",
];

fn main() {
    let mut c = Cx::from_args();
    let cx = &mut c;
    let k = cx.scale;
    macro_rules! go { ($A:ty, $s:expr, $d:expr, $n:expr, $cap:expr, $pairs:expr) => { {
        let p = FPar { sessions: $n * k, steps: 12, cap: $cap, pairs: $pairs, m: 3, ops: OPS };
        let basis: fn(usize) -> FFTRepr<$A> = |i| FFTRepr::<$A>::basis::<$d>()[i].clone();
        frun::<Complex64>(cx, $s, &p, &|| fapplier::<Complex64, $A, { F_AR | F_IO }>(None, basis));
    } }; }
    for_small!(go, 4, 16, 256);
    for_mid5!(go, 4, 32, 1024);
    for_mid6!(go, 3, 64, 1200);
    for_mid7!(go, 2, 32, 600);
    for_mid8!(go, 2, 32, 600);
    for_fbig!(go, 3, 24, 400);
    for_fwide!(go, 1, 10, 100);
    c.finish();
}
