//! C11: involutions, traces and half-spin blocks of representations
use harness::cx::*;
use harness::fft::*;
use harness::*;
use num::complex::Complex64;
use tclifford::FFTRepr;

const OPS: &[&str] = &["frev", "fflip", "ftrace", "fntrace", "fmag2", "fmul", "fhalf", "fhalf", "fround"];

fn main() {
    let mut c = Cx::from_args();
    let cx = &mut c;
    let k = cx.scale;
    macro_rules! go { ($A:ty, $s:expr, $d:expr, $n:expr, $nd:expr) => { {
        let p = FPar { sessions: $n * k, steps: 12, cap: if $d > 11 { 10 } else { 64 }, pairs: 1000, m: 4, ops: OPS };
        let nobasis: fn(usize) -> FFTRepr<$A> = |_| unreachable!();
        frun::<Complex64>(cx, $s, &p, &|| fapplier::<Complex64, $A, { F_INV | F_HALF | F_IO }>($nd, nobasis));
    } }; }
    macro_rules! deg { ($A:ty, $s:expr, $d:expr, $n:expr) => { if $s.contains('0') { go!($A, $s, $d, $n, None) } }; }
    macro_rules! non { ($A:ty, $s:expr, $d:expr, $n:expr) => { go!($A, $s, $d, $n, Nd::<$A>::new()) }; }
    for_small!(deg, 5);
    for_mid5!(deg, 4);
    for_mid6!(deg, 4);
    for_mid7!(deg, 2);
    for_mid8!(deg, 2);
    for_nondeg!(non, 6);
    for_fbig!(deg, 4);
    for_fwide!(deg, 1);
    // half-spin blocks of large sides
    macro_rules! side { ($A:ty, $s:expr, $d:expr, $n:expr) => { {
        let p = FPar { sessions: $n * k, steps: 5, cap: 6, pairs: 36, m: 4, ops: &["fhalf", "fhalf", "fhalf", "frev", "fflip", "fmul"] };
        let nobasis: fn(usize) -> FFTRepr<$A> = |_| unreachable!();
        frun::<Complex64>(cx, $s, &p, &|| fapplier::<Complex64, $A, { F_INV | F_HALF | F_IO }>(Nd::<$A>::new(), nobasis));
    } }; }
    for_side!(side, 1);
    c.finish();
}
