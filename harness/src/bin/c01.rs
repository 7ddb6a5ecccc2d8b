//! C01: geometric product and blade signs
use harness::cx::*;
use harness::session::*;
use harness::*;
use tclifford::types::Sign;
use tclifford::{ClAlgebra, Multivector, SparseMultivector};

const P: u64 = MUL | NMUL | LOAD;

fn sj(s: Sign) -> i64 {
    s as i8 as i64
}
fn row<A: ClAlgebra>(cx: &mut Cx, a: usize, bs: &[usize]) {
    let l: Vec<String> = bs.iter().map(|b| bj(*b)).collect();
    cx.cost(bs.len() * 2);
    cx.call("signrow", &format!(r#""a":{},"l":[{}]"#, bj(a), l.join(",")), || {
        let v: Vec<String> = bs
            .iter()
            .map(|b| {
                format!(
                    "[{},{},{},{}]",
                    sj(A::ac_product_sign(a, *b)),
                    sj(A::ac_negated_product_sign(a, *b)),
                    sj(A::blade_wedge_product_sign(a, *b)),
                    sj(A::blade_geo_product_sign(a, *b))
                )
            })
            .collect();
        Ok(format!("[{}]", v.join(",")))
    });
}
fn signs<A: ClAlgebra>(cx: &mut Cx, sig: &str, dim: usize) {
    cx.begin(sig, "Z", "signs");
    if dim <= 6 {
        let all: Vec<usize> = (0..1usize << dim).collect();
        for a in 0..1usize << dim {
            row::<A>(cx, a, &all);
        }
    } else {
        for _ in 0..8 * cx.scale {
            let a = rnd_blade(&mut cx.rng, dim);
            let bs: Vec<usize> = (0..12).map(|_| rnd_blade(&mut cx.rng, dim)).collect();
            row::<A>(cx, a, &bs);
        }
    }
}

fn main() {
    let mut c = Cx::from_args();
    let cx = &mut c;
    let k = cx.scale;
    macro_rules! sg { ($A:ty, $s:expr, $d:expr) => { signs::<$A>(cx, $s, $d); }; }
    for_small!(sg);
    for_mid5!(sg);
    for_mid6!(sg);
    for_mid7!(sg);
    for_mid8!(sg);
    for_wide!(sg);
    macro_rules! both { ($A:ty, $s:expr, $d:expr, $n:expr, $st:expr, $cap:expr, $pairs:expr) => {
        let p = Par { sessions: $n * k, steps: $st, cap: $cap, pairs: $pairs, m: 5 };
        run::<i64, Multivector<i64, $A>, P>(cx, $s, &p);
        run::<i64, SparseMultivector<i64, $A>, P>(cx, $s, &p);
    }; }
    for_small!(both, 4, 8, 16, 256);
    for_mid5!(both, 4, 6, 32, 1024);
    for_mid6!(both, 3, 5, 64, 4096);
    for_mid7!(both, 2, 5, 40, 2000);
    for_mid8!(both, 2, 5, 40, 2000);
    for_big!(both, 2, 5, 24, 600);
    macro_rules! wide { ($A:ty, $s:expr, $d:expr) => {
        let p = Par { sessions: 4 * k, steps: 6, cap: 12, pairs: 150, m: 5 };
        run::<i64, SparseMultivector<i64, $A>, P>(cx, $s, &p);
    }; }
    for_wide!(wide);
    macro_rules! large { ($A:ty, $s:expr, $d:expr) => {
        run_big::<i64, Multivector<i64, $A>, P>(cx, $s, k / 4, 11);
        run_big::<i64, SparseMultivector<i64, $A>, P>(cx, $s, k / 4, 11);
    }; }
    for_big!(large);
    replay_all!(cx, i64, P);
    c.finish();
}
