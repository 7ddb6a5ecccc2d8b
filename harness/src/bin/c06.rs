//! C06: reversal and grade involutions
use harness::cx::*;
use harness::session::*;
use harness::*;
use tclifford::{Multivector, SparseMultivector};

const P: u64 = REV | FLIP | FLIPSUB | MUL | LOAD;

fn main() {
    let mut c = Cx::from_args();
    let cx = &mut c;
    let k = cx.scale;
    macro_rules! both { ($A:ty, $s:expr, $d:expr, $n:expr, $st:expr, $cap:expr, $pairs:expr) => {
        let p = Par { sessions: $n * k, steps: $st, cap: $cap, pairs: $pairs, m: 5 };
        run::<i64, Multivector<i64, $A>, P>(cx, $s, &p);
        run::<i64, SparseMultivector<i64, $A>, P>(cx, $s, &p);
    }; }
    for_small!(both, 4, 12, 16, 256);
    for_mid5!(both, 4, 12, 32, 1024);
    for_mid6!(both, 4, 12, 64, 1000);
    for_mid7!(both, 3, 12, 128, 1000);
    for_mid8!(both, 3, 12, 256, 1000);
    for_big!(both, 2, 10, 24, 300);
    macro_rules! wide { ($A:ty, $s:expr, $d:expr) => {
        let p = Par { sessions: 5 * k, steps: 12, cap: 12, pairs: 150, m: 5 };
        run::<i64, SparseMultivector<i64, $A>, P>(cx, $s, &p);
    }; }
    for_wide!(wide);
    macro_rules! large { ($A:ty, $s:expr, $d:expr) => {
        run_big::<i64, Multivector<i64, $A>, P>(cx, $s, k / 4, 11);
        run_big::<i64, SparseMultivector<i64, $A>, P>(cx, $s, k / 4, 11);
    }; }
    for_big!(large);
    replay_all!(cx, i64, P);
    c.finish();
}
