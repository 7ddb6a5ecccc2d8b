//! C05: grade iterators, projections and filters
use harness::coef::Co;
use harness::cx::*;
use harness::mv::*;
use harness::session::*;
use harness::*;
use tclifford::{ClAlgebra, Multivector, SparseMultivector};

const P: u64 = GRADE | GENUM | ADD | SUB | LOAD;

/// grades far above any dimension
const FAR: [usize; 12] = [
    255, 256, 257, 65536, 65538, 1 << 31, 1 << 32, (1 << 32) + 1, (1 << 32) + 2, 1 << 63, (1 << 63) + 1, usize::MAX,
];
fn gj(k: usize) -> usize {
    k.min(i32::MAX as usize)
}
fn pick(rng: &mut Rng, dim: usize) -> usize {
    if rng.chance(1, 8) {
        *rng.pick(&FAR)
    } else {
        rng.below(dim + 2)
    }
}

fn name<'a, T>(c: &'a Cmd<T>) -> &'a str {
    &c.ext.as_ref().unwrap().0
}
fn nz<T: Co>(mut e: Entries<T>) -> Entries<T> {
    e.retain(|(_, c)| !c.is_zero());
    e
}
/// mask and bound of the predicate: all generators of `b` present and coefficient above n - 8
fn keep(c: &Cmd<i64>, i: usize, v: i64) -> bool {
    i & c.b == c.b && v > c.n as i64 - 8
}
fn xdense<A: ClAlgebra>(r: &[Multivector<i64, A>], c: &Cmd<i64>) -> Result<XOut<Multivector<i64, A>>, String> {
    let x = &r[c.x];
    Ok(match name(c) {
        "gpeek" => {
            let v: SparseMultivector<i64, A> = x.grade_extract_as(c.ks[0]);
            XOut::Json(ent_j(&nz(v.entries()), 1)?)
        }
        "filter" => XOut::Put(x.filter(|i, v| keep(c, i, *v))),
        _ => {
            let v: Multivector<i64, A> = x.grade_extract_as(c.ks[0]);
            XOut::Put(v)
        }
    })
}
fn xsparse<A: ClAlgebra>(r: &[SparseMultivector<i64, A>], c: &Cmd<i64>) -> Result<XOut<SparseMultivector<i64, A>>, String> {
    let x = &r[c.x];
    Ok(match name(c) {
        "gpeek" => {
            let v: Multivector<i64, A> = x.grade_extract_as(c.ks[0]);
            XOut::Json(mv_j(&v)?)
        }
        _ => return xwide(r, c),
    })
}
fn xwide<A: ClAlgebra>(r: &[SparseMultivector<i64, A>], c: &Cmd<i64>) -> Result<XOut<SparseMultivector<i64, A>>, String> {
    let x = &r[c.x];
    Ok(match (name(c), c.form % 2) {
        ("filter", 0) => XOut::Put(x.clone().filtered(|i, v| keep(c, *i, *v))),
        ("filter", _) => {
            let mut v = x.clone();
            v.filter_inplace(|i, v| keep(c, *i, *v));
            XOut::Put(v)
        }
        (_, 0) => XOut::Put(x.grades_extract(&c.ks)),
        _ => {
            let mut v = x.clone();
            v.retain_grades(&c.ks);
            XOut::Put(v)
        }
    })
}
fn cmd(m: &Machine<i64>, rng: &mut Rng, multi: bool, cross: bool) -> Option<Cmd<i64>> {
    let (d, x) = (rng.below(4), m.reg(rng));
    let ks: Vec<usize> = match rng.below(4) {
        0 if multi => vec![],
        1 if multi => (0..2 + rng.below(2)).map(|_| pick(rng, m.dim)).collect(),
        2 if multi => (0..m.dim + 1).filter(|_| rng.chance(1, 2)).collect(),
        _ => vec![pick(rng, m.dim)],
    };
    let kj: Vec<String> = ks.iter().map(|k| gj(*k).to_string()).collect();
    let mut c = match rng.below(3) {
        0 if cross => {
            let k = pick(rng, m.dim);
            let mut c = Cmd::ext("gpeek", format!(r#""x":"r{x}","ks":[{}]"#, gj(k)), d, x);
            c.ks = vec![k];
            c
        }
        1 => {
            let (b, n) = (if rng.chance(1, 2) { 0 } else { 1usize << rng.below(m.dim) }, rng.below(14));
            let mut c = Cmd::ext("filter", format!(r#""d":"r{d}","x":"r{x}","b":{},"n":{}"#, bj(b), n as i64 - 8), d, x);
            c.b = b;
            c.n = n;
            c
        }
        _ => {
            let mut c = Cmd::ext("grade", format!(r#""d":"r{d}","x":"r{x}","ks":[{}]"#, kj.join(",")), d, x);
            c.ks = ks;
            c
        }
    };
    c.form = rng.below(2);
    Some(c)
}
fn gdense(m: &Machine<i64>, rng: &mut Rng) -> Option<Cmd<i64>> {
    cmd(m, rng, false, true)
}
fn gsparse(m: &Machine<i64>, rng: &mut Rng) -> Option<Cmd<i64>> {
    cmd(m, rng, true, true)
}
fn gwide(m: &Machine<i64>, rng: &mut Rng) -> Option<Cmd<i64>> {
    cmd(m, rng, true, false)
}

fn blades(v: &[usize]) -> String {
    let l: Vec<String> = v.iter().map(|b| bj(*b)).collect();
    format!("[{}]", l.join(","))
}
/// The yielded sequence is an argument of the spec action, which says whether it is right.
fn iters<A: ClAlgebra>(cx: &mut Cx, sig: &str, dim: usize) {
    cx.begin(sig, "Z", "iterators");
    let top = if dim <= 8 { dim + 2 } else if dim <= 33 { 3 } else { 2 };
    for w in 0..=top {
        cx.cost(1 << dim.min(8));
        cx.call("gradeidx", &format!(r#""n":{w}"#), || {
            let mut it = A::grade_index_iter(w);
            let mut l: Vec<usize> = vec![];
            for i in it.by_ref() {
                l.push(i);
                if l.len() > 1 << 14 {
                    return Err("endless".into());
                }
            }
            // stays exhausted
            for _ in 0..3 {
                if let Some(i) = it.next() {
                    l.push(i);
                }
            }
            Ok(blades(&l))
        });
    }
    for w in FAR {
        cx.call("gradeidx", &format!(r#""n":{}"#, gj(w)), || {
            Ok(blades(&A::grade_index_iter(w).take(100).collect::<Vec<_>>()))
        });
    }
    if dim <= 8 {
        cx.call("allidx", &format!(r#""n":{}"#, 1usize << dim), || Ok(blades(&A::index_iter().collect::<Vec<_>>())));
    } else {
        cx.call("allidx", r#""n":40"#, || Ok(blades(&A::index_iter().take(40).collect::<Vec<_>>())));
        for w in [4usize, dim / 2, dim - 1, dim] {
            cx.call("gradehead", &format!(r#""n":{w}"#), || {
                Ok(blades(&A::grade_index_iter(w).take(60).collect::<Vec<_>>()))
            });
        }
        for w in [dim - 1, dim, dim + 1] {
            cx.call("gradeidx", &format!(r#""n":{w}"#), || {
                Ok(blades(&A::grade_index_iter(w).take(1000).collect::<Vec<_>>()))
            });
        }
    }
}

fn main() {
    let mut c = Cx::from_args();
    let cx = &mut c;
    let k = cx.scale;
    macro_rules! both { ($A:ty, $s:expr, $d:expr, $n:expr, $cap:expr) => {
        let p = Par { sessions: $n * k, steps: 10, cap: $cap, pairs: 0, m: 5 };
        run_x::<i64, Multivector<i64, $A>, P>(cx, $s, &p, xdense, gdense);
        run_x::<i64, SparseMultivector<i64, $A>, P>(cx, $s, &p, xsparse, gsparse);
    }; }
    for_small!(both, 5, 16);
    for_mid5!(both, 5, 32);
    for_mid6!(both, 4, 64);
    for_mid8!(both, 4, 256);
    macro_rules! wide { ($A:ty, $s:expr, $d:expr) => {
        let p = Par { sessions: 4 * k, steps: 10, cap: 12, pairs: 0, m: 5 };
        run_x::<i64, SparseMultivector<i64, $A>, P>(cx, $s, &p, xwide, gwide);
    }; }
    for_wide!(wide);
    macro_rules! large { ($A:ty, $s:expr, $d:expr) => {
        run_big_x::<i64, Multivector<i64, $A>, P>(cx, $s, k / 4, 11, xdense, gdense);
        run_big_x::<i64, SparseMultivector<i64, $A>, P>(cx, $s, k / 4, 11, xsparse, gsparse);
    }; }
    for_big!(large);
    macro_rules! it { ($A:ty, $s:expr, $d:expr) => { iters::<$A>(cx, $s, $d); }; }
    for_small3!(it);
    for_pick!(it);
    for_mid5!(it);
    for_mid6!(it);
    for_mid7!(it);
    for_mid8!(it);
    for_wide!(it);
    replay_all!(cx, i64, P);
    c.finish();
}
