//! C19: arbitrary coefficient rings
use harness::algs::Smm;
use harness::coef::{M2, R6};
use harness::cx::*;
use harness::session::*;
use harness::*;
use tclifford::quaternion::Quaternion;
use tclifford::{Multivector, SparseMultivector};

const P: u64 = MUL | NMUL | WEDGE | MEET | NWEDGE | NMEET | ADD | SUB | NEG | SCALE | REV | FLIP | DUAL | UNDUAL | VDOT | VSDOT
    | MAG2 | POW | EQ | ISZERO | LOAD | STRICT;

type Nd = Multivector<i64, Smm>;
type Ns = SparseMultivector<i64, Smm>;

fn main() {
    let mut c = Cx::from_args();
    let cx = &mut c;
    let k = cx.scale;
    macro_rules! both { ($A:ty, $s:expr, $d:expr, $n:expr, $st:expr, $cap:expr, $pairs:expr, $T:ty) => {
        let p = Par { sessions: $n * k, steps: $st, cap: $cap, pairs: $pairs, m: 3 };
        run::<$T, Multivector<$T, $A>, P>(cx, $s, &p);
        run::<$T, SparseMultivector<$T, $A>, P>(cx, $s, &p);
    }; }
    for_small3!(both, 3, 10, 8, 64, Quaternion<i64>);
    for_small3!(both, 3, 10, 8, 64, M2);
    for_pick!(both, 6, 10, 16, 256, R6);
    for_pick!(both, 5, 8, 16, 128, M2);
    for_pick!(both, 3, 8, 16, 128, Nd);
    for_pick!(both, 3, 8, 16, 128, Ns);
    for_pick6!(both, 5, 6, 64, 1200, Quaternion<i64>);
    for_pick6!(both, 5, 6, 64, 1200, M2);
    for_pick6!(both, 4, 6, 64, 1200, R6);
    macro_rules! wide { ($A:ty, $s:expr, $d:expr, $n:expr, $T:ty) => {
        let p = Par { sessions: $n * k, steps: 6, cap: 10, pairs: 100, m: 3 };
        run::<$T, SparseMultivector<$T, $A>, P>(cx, $s, &p);
    }; }
    for_big!(wide, 1, Quaternion<i64>);
    for_wide!(wide, 1, M2);
    for line in std::mem::take(&mut cx.behaviours) {
        let j = J::parse(&line);
        let sig = sig_of(&j.a()[0]);
        let ring = j.a()[0].get("ring").unwrap().s().to_string();
        macro_rules! rp { ($A:ty, $s:expr, $d:expr) => { if $s == sig {
            let cmds = &j.a()[1..];
            match ring.as_str() {
                "H" => {
                    replay::<Quaternion<i64>, Multivector<Quaternion<i64>, $A>, P>(cx, $s, cmds);
                    replay::<Quaternion<i64>, SparseMultivector<Quaternion<i64>, $A>, P>(cx, $s, cmds);
                }
                _ => {
                    replay::<M2, Multivector<M2, $A>, P>(cx, $s, cmds);
                    replay::<M2, SparseMultivector<M2, $A>, P>(cx, $s, cmds);
                }
            }
        } }; }
        for_small3!(rp);
    }
    c.finish();
}
