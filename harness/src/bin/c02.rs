//! C02: outer and regressive products, naive and fast algorithm
use harness::cx::*;
use harness::session::*;
use harness::*;
use tclifford::{Multivector, SparseMultivector};

const P: u64 = WEDGE | MEET | NWEDGE | NMEET | LOAD;

fn main() {
    let mut c = Cx::from_args();
    let cx = &mut c;
    let k = cx.scale;
    macro_rules! both { ($A:ty, $s:expr, $d:expr, $n:expr, $st:expr, $cap:expr, $pairs:expr) => {
        let p = Par { sessions: $n * k, steps: $st, cap: $cap, pairs: $pairs, m: 5 };
        run::<i64, Multivector<i64, $A>, P>(cx, $s, &p);
        run::<i64, SparseMultivector<i64, $A>, P>(cx, $s, &p);
    }; }
    for_small!(both, 3, 8, 16, 256);
    for_mid5!(both, 4, 6, 32, 1024);
    for_mid6!(both, 5, 6, 64, 4096);
    for_mid7!(both, 4, 5, 40, 1600);
    for_mid8!(both, 4, 5, 40, 1600);
    for_big!(both, 1, 5, 24, 600);
    macro_rules! wide { ($A:ty, $s:expr, $d:expr) => {
        let p = Par { sessions: 3 * k, steps: 6, cap: 12, pairs: 150, m: 5 };
        run::<i64, SparseMultivector<i64, $A>, P>(cx, $s, &p);
    }; }
    for_wide!(wide);
    macro_rules! large { ($A:ty, $s:expr, $d:expr) => {
        run_big::<i64, Multivector<i64, $A>, P>(cx, $s, k / 2, 11);
        run_big::<i64, SparseMultivector<i64, $A>, P>(cx, $s, k / 2, 11);
    }; }
    for_big!(large);
    // the fast product needs 3^dim steps
    macro_rules! dense { ($A:ty, $s:expr, $d:expr) => {
        let p = Par { sessions: k / 2, steps: 5, cap: 24, pairs: 600, m: 5 };
        run::<i64, Multivector<i64, $A>, { WEDGE | MEET | LOAD }>(cx, $s, &p);
    }; }
    dense!(algs::Sw13_10192, "+++++++++++++", 13);
    replay_all!(cx, i64, P);
    c.finish();
}
