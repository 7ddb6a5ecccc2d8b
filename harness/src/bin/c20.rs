//! C20: complexification in all combinations of storages
use harness::coef::{set_unit, unit, Co};
use harness::fft::rnd_unit;
use harness::cx::*;
use harness::mv::{ent_j, Entries};
use harness::session::{large_entries, rnd_entries};
use harness::*;
use num::complex::{Complex32, Complex64};
use num::Zero;
use tclifford::types::{FromComplex, IntoComplex64};
use tclifford::types::Sign;
use tclifford::{declare_algebra, ClAlgebra, Multivector, SparseMultivector};

declare_algebra!(N2, [-,0], ["a", "bb"]);
declare_algebra!(N3, [+,-,-], ["x", "", "z z"]);
declare_algebra!(N5, [-,+,-,+,0], ["t", "x1", "(i*t)", "i", "eps"]);

fn nz<T: Co>(v: Entries<T>) -> Entries<T> {
    v.into_iter().filter(|(_, c)| !(c.mx() < 1e-9)).collect()
}
fn stats(v: &Entries<Complex64>) -> (f64, usize) {
    (v.iter().fold(0., |a, c| f64::max(a, c.1.mx())), v.len())
}

fn sign_n(s: Sign) -> i32 {
    match s {
        Sign::Plus => 1,
        Sign::Minus => -1,
        Sign::Null => 0,
    }
}
fn strs(v: &[String]) -> String {
    let q: Vec<String> = v.iter().map(|s| format!("\"{s}\"")).collect();
    format!("[{}]", q.join(","))
}
/// what the algebra of a complexified multivector reports about itself
fn report<C: ClAlgebra>(_: &SparseMultivector<Complex64, C>, b: usize, c: usize) -> Res {
    let names: Vec<String> = (0..C::dim()).map(C::axis_name).collect();
    Ok(format!(
        r#"{{"dims":[{},{},{},{}],"plus":{},"minus":{},"null":{},"names":{},"labels":{},"signs":[{},{}]}}"#,
        C::dim(), C::real_dim(), C::imag_dim(), C::proj_dim(),
        bj(C::real_mask()), bj(C::imag_mask()), bj(C::proj_mask()),
        strs(&names), strs(&[C::blade_label(b), C::blade_label_rev(b)]),
        sign_n(C::blade_geo_product_sign(b, c)), sign_n(C::blade_geo_product_sign(b, b)),
    ))
}
fn algebra<A: ClAlgebra>(cx: &mut Cx, sig: &str, names: Option<&[&str]>, n: usize) {
    let names: Vec<String> = match names {
        Some(v) => v.iter().map(|s| s.to_string()).collect(),
        None => (0..sig.len()).map(|i| format!("e{i}")).collect(),
    };
    cx.begin(sig, "Z", "complexified algebra");
    for _ in 0..n {
        let mut rng = Rng(cx.rng.next());
        let all = (1usize << sig.len()) - 1;
        let (b, c) = (rng.next() as usize & all, rng.next() as usize & all);
        let v = SparseMultivector::<f64, A>::zero().complexify();
        let head = format!(r#""names":{},"b":{},"c":{}"#, strs(&names), bj(b), bj(c));
        if !cx.call("calg", &head, || report(&v, b, c)) {
            break;
        }
    }
}

macro_rules! def {
    ($name:ident, $S:ident, $C:ident, $B:ident, $st:expr) => {
        fn $name<T: Co + IntoComplex64 + FromComplex, A: ClAlgebra>(cx: &mut Cx, sig: &str, n: usize, steps: usize, cap: usize, pairs: usize) {
            for _ in 0..n {
                let u = rnd_unit::<T>(&mut cx.rng);
                set_unit(u);
                cx.begin(sig, T::RING, &format!("complexified {} unit 2^{u}", $st));
                let mut rng = Rng(cx.rng.next());
                let mut r: Vec<$S<T, A>> = (0..4).map(|_| $S::zero()).collect();
                let mut c: Vec<$C<Complex64, _>> = (0..4).map(|i| r[i].complexify()).collect();
                let mut ce: Vec<Entries<Complex64>> = vec![vec![]; 4];
                let mut spent = 0;
                for step in 0..steps {
                    let (d, x, y, form) = (rng.below(4), harness::session::live(&mut rng, &ce), harness::session::live(&mut rng, &ce), rng.below(4));
                    if step < 2 || rng.chance(1, 4) {
                        let mut l = if T::MAX > 1e6 && rng.chance(1, 8) {
                            large_entries::<T>(&mut rng, sig.len())
                        } else {
                            rnd_entries::<T>(&mut rng, sig.len(), cap, 4)
                        };
                        let mut seen = std::collections::BTreeSet::new();
                        l.retain(|(b, _)| seen.insert(*b));
                        let ok = cx.call("fromidx", &format!(r#""d":"r{d}","l":{}"#, ent_j(&l, 1).unwrap()), || {
                            r[d] = errk($S::<T, A>::from_indexed_iter(l.iter().cloned()))?;
                            ent_j(&nz(r[d].coeff_enumerate().map(|(i, c)| (i, c.clone())).collect()), 1)
                        });
                        let ok = ok && cx.call("cplx", &format!(r#""d":"f{d}","x":"r{d}""#), || {
                            c[d] = r[d].complexify();
                            let e = nz(c[d].coeff_enumerate().map(|(i, c)| (i, c.clone())).collect());
                            let j = ent_j(&e, 1);
                            ce[d] = e;
                            j
                        });
                        if !ok {
                            break;
                        }
                        continue;
                    }
                    let ((mx, nx), (my, ny)) = (stats(&ce[x]), stats(&ce[y]));
                    let op = *rng.pick(&["cmul", "cmul", "fadd", "fsub", "fneg", "crev", "decplx", "decplx"]);
                    if op == "decplx" {
                        // real types can only hold values that come from real multivectors
                        if mx > T::MAX {
                            continue;
                        }
                        let ok = cx.call("decplx", &format!(r#""d":"r{d}","x":"f{x}""#), || {
                            let b: $B<T, A> = c[x].decomplexify();
                            let e = nz(b.coeff_enumerate().map(|(i, c)| (i, c.clone())).collect());
                            r[d] = errk($S::<T, A>::from_indexed_iter(e.iter().cloned()))?;
                            ent_j(&e, 1)
                        });
                        if !ok {
                            break;
                        }
                        continue;
                    }
                    if op == "cmul" && unit() != 1. {
                        continue;
                    }
                    if mx + my > 1e7 || (op == "cmul" && (nx * ny > pairs || mx * my * (nx.min(ny) as f64) > 1e7)) {
                        continue;
                    }
                    if op == "cmul" {
                        spent += nx * ny;
                    }
                    let head = match op {
                        "cmul" | "fadd" | "fsub" => format!(r#""d":"f{d}","x":"f{x}","y":"f{y}""#),
                        _ => format!(r#""d":"f{d}","x":"f{x}""#),
                    };
                    let ok = cx.call(op, &head, || {
                        let v = match op {
                            "cmul" => match form {
                                0 => &c[x] * &c[y],
                                _ => c[x].clone() * c[y].clone(),
                            },
                            "fadd" => &c[x] + &c[y],
                            "fsub" => &c[x] - &c[y],
                            "fneg" => -&c[x],
                            _ => c[x].rev(),
                        };
                        let e = nz(v.coeff_enumerate().map(|(i, c)| (i, c.clone())).collect());
                        let j = ent_j(&e, 1);
                        c[d] = v;
                        ce[d] = e;
                        j
                    });
                    if !ok {
                        break;
                    }
                }
                cx.cost(spent);
                set_unit(0);
            }
        }
    };
}
def!(ddd, Multivector, Multivector, Multivector, "dense dense dense");
def!(dsd, Multivector, SparseMultivector, Multivector, "dense sparse dense");
def!(sds, SparseMultivector, Multivector, SparseMultivector, "sparse dense sparse");
def!(sss, SparseMultivector, SparseMultivector, SparseMultivector, "sparse sparse sparse");
def!(dds, Multivector, Multivector, SparseMultivector, "dense dense sparse");
def!(ssd, SparseMultivector, SparseMultivector, Multivector, "sparse sparse dense");

fn main() {
    let mut c = Cx::from_args();
    let cx = &mut c;
    let k = cx.scale;
    macro_rules! four { ($A:ty, $s:expr, $d:expr, $n:expr, $cap:expr, $pairs:expr, $T:ty) => {
        ddd::<$T, $A>(cx, $s, $n * k, 12, $cap, $pairs);
        sss::<$T, $A>(cx, $s, $n * k, 12, $cap, $pairs);
    }; }
    macro_rules! all { ($A:ty, $s:expr, $d:expr, $n:expr, $cap:expr, $pairs:expr, $T:ty) => {
        four!($A, $s, $d, $n, $cap, $pairs, $T);
        dsd::<$T, $A>(cx, $s, $n * k, 12, $cap, $pairs);
        sds::<$T, $A>(cx, $s, $n * k, 12, $cap, $pairs);
        dds::<$T, $A>(cx, $s, $n * k, 12, $cap, $pairs);
        ssd::<$T, $A>(cx, $s, $n * k, 12, $cap, $pairs);
    }; }
    macro_rules! wide { ($A:ty, $s:expr, $d:expr, $n:expr, $cap:expr, $pairs:expr, $T:ty) => {
        sss::<$T, $A>(cx, $s, $n * k, 12, $cap, $pairs);
    }; }
    for_small!(four, 2, 16, 256, f64);
    for_small!(four, 2, 16, 256, Complex64);
    for_pick!(all, 2, 16, 256, f64);
    for_pick!(all, 2, 16, 256, Complex64);
    for_pick!(all, 1, 16, 256, f32);
    for_pick!(all, 1, 16, 256, Complex32);
    for_mid5!(four, 2, 32, 600, f64);
    for_mid6!(four, 2, 64, 600, f64);
    for_mid7!(four, 1, 64, 600, Complex64);
    for_mid8!(four, 1, 64, 600, Complex64);
    for_wide!(wide, 3, 10, 200, f64);
    for_wide!(wide, 3, 10, 200, Complex64);
    macro_rules! alg { ($A:ty, $s:expr, $d:expr, $n:expr) => { algebra::<$A>(cx, $s, None, $n); }; }
    for_small!(alg, 6);
    for_mid5!(alg, 8);
    for_mid6!(alg, 8);
    for_mid8!(alg, 8);
    for_wide!(alg, 6);
    algebra::<N2>(cx, "-0", Some(&["a", "bb"]), 8);
    algebra::<N3>(cx, "+--", Some(&["x", "", "z z"]), 16);
    algebra::<N5>(cx, "-+-+0", Some(&["t", "x1", "(i*t)", "i", "eps"]), 32);
    c.finish();
}
