//! C12: inverses of representations. Every operand comes with a witness that it is a unit or a zero divisor.
use harness::cx::*;
use harness::exact::*;
use harness::fft::*;
use harness::mv::ent_j;
use harness::*;
use ndarray::{Array3, ShapeBuilder};
use num::complex::Complex64;
use num::{One, Zero};
use tclifford::algebra::NonDegenerate;
use tclifford::{ClAlgebra, Multivector};

/// exact inverse by elimination of the matrix of left multiplication (small dimensions)
fn solve(rng: &mut Rng, sig: &[u8]) -> Option<(M, M, i64)> {
    let n = 1usize << sig.len();
    let mut x = M::new();
    for b in 0..n {
        if rng.chance(3, 4) {
            let c = rng.range(-2, 2);
            if c != 0 {
                x.insert(b, (c, 0));
            }
        }
    }
    // columns: x * e_b; augmented with the unit
    let mut a = vec![vec![0i128; n + 1]; n];
    for b in 0..n {
        for (y, c) in &x {
            a[y ^ b][b] += (c.0 * sign(sig, *y, b)) as i128;
        }
    }
    a[0][n] = 1;
    let mut prev = 1i128;
    for k in 0..n {
        let p = (k..n).find(|r| a[*r][k] != 0)?;
        a.swap(k, p);
        for i in 0..n {
            if i == k {
                continue;
            }
            for j in 0..=n {
                if j != k {
                    a[i][j] = (a[k][k] * a[i][j] - a[i][k] * a[k][j]) / prev;
                }
            }
            a[i][k] = 0;
        }
        prev = a[k][k];
    }
    let det = a[n - 1][n - 1];
    let mut q = M::new();
    for b in 0..n {
        let num = a[b][n] * (det / a[b][b]);
        if num.abs() > 1_000_000 {
            return None;
        }
        if num != 0 {
            q.insert(b, (num as i64, 0));
        }
    }
    let g = q.values().fold(det.abs(), |g, c| num::integer::gcd(g, c.0.abs() as i128));
    for c in q.values_mut() {
        c.0 /= g as i64;
    }
    let m = det / g;
    if m.abs() > 1_000_000 {
        return None;
    }
    Some((x, q, m as i64))
}

fn inverse<A: ClAlgebra + NonDegenerate>(x: &M, s: i32, form: usize) -> (tclifford::FFTRepr<A>, Option<tclifford::FFTRepr<A>>) {
    let f = Multivector::<Complex64, A>::from_indexed_iter(list(x).into_iter()).unwrap().fft();
    let f = match form {
        0 => {
            // column-major
            let a = f.into_array3();
            let mut b = Array3::zeros(a.dim().f());
            b.assign(&a);
            tclifford::FFTRepr::from_array3(b).unwrap()
        }
        _ => f,
    };
    // scaling by powers of two is exact
    let h = &f * 2f64.powi(s);
    let i = h.inv().map(|v| &v * 2f64.powi(s));
    (f, i)
}

/// very different sizes on the two eigenspaces of a blade
fn pole<A: ClAlgebra + NonDegenerate>(cx: &mut Cx, sg: &[u8], rng: &mut Rng) {
    let b = 1 + rng.below((1 << sg.len()) - 1);
    let c = if sign(sg, b, b) == 1 { 0 } else { 1 };
    let (r, e, s) = (rng.range(8, 40), *rng.pick(&[1, -1]), rng.range(-60, 60) as i32);
    let k = 2f64.powi(r as i32);
    let v = e as f64 * (k - 1.);
    let l = [(0, Complex64::new(k + 1., 0.)), (b, if c == 0 { Complex64::new(v, 0.) } else { Complex64::new(0., v) })];
    cx.cost(60 + (1 << sg.len().div_ceil(2)));
    cx.call("finvpole", &format!(r#""b":{},"c":{c},"e":{e},"r":{r},"s":{s}"#, bj(b)), || {
        let f = Multivector::<Complex64, A>::from_indexed_iter(l.into_iter()).unwrap().fft() * 2f64.powi(s);
        let Some(i) = f.inv() else { return Err("None".into()) };
        let enc = |v: tclifford::FFTRepr<A>| -> Res {
            let mut o = vec![];
            for (b, c) in v.ifft::<Complex64>().coeff_enumerate() {
                let (re, im) = (snap(c.re, 1, 1e-2)?, snap(c.im, 1, 1e-2)?);
                if re != "0" || im != "0" {
                    o.push(format!("[{},[{re},{im}]]", bj(b)));
                }
            }
            Ok(format!("[{}]", o.join(",")))
        };
        let v = enc(&i * 2f64.powi(s + 2))?;
        // the products multiply the rounding errors of the result once more
        Ok(if r <= 18 { format!("[{v},{},{}]", enc(&f * &i)?, enc(&i * &f)?) } else { format!("[{v}]") })
    });
}

/// elements of very different size: one power of two in every row and column, and a multiple of a row added to another
fn graded<A: ClAlgebra + NonDegenerate>(cx: &mut Cx, sg: &[u8], rng: &mut Rng) {
    let n = 1usize << (sg.len() / 2);
    let mut p: Vec<usize> = (0..n).collect();
    for i in (1..n).rev() {
        p.swap(i, rng.below(i + 1));
    }
    let (wide, shift) = (*rng.pick(&[0, 3, 20, 60, 120]), rng.range(-500, 500));
    let mut num = |s: i64| (rng.below(4), rng.range(-wide, wide) + s);
    let m: Vec<(usize, i64)> = (0..n).map(|_| num(shift)).collect();
    let t = num(0);
    let i = rng.below(n);
    let j = (i + 1 + rng.below(n - 1)) % n;
    let val = |q: (usize, i64)| {
        let v = 2f64.powi(q.1 as i32);
        [Complex64::new(v, 0.), Complex64::new(0., v), Complex64::new(-v, 0.), Complex64::new(0., -v)][q.0 % 4]
    };
    let pj = |q: &(usize, i64)| format!("[{},{}]", q.0, q.1);
    let args = format!(
        r#""p":{p:?},"m":[{}],"i":{i},"j":{j},"t":{}"#,
        m.iter().map(pj).collect::<Vec<_>>().join(","),
        pj(&t)
    );
    cx.cost(40 + n * n);
    cx.call("finvgraded", &args, || {
        let mut a = Array3::zeros((1, n, n));
        for r in 0..n {
            a[(0, r, p[r])] = val(m[r]);
        }
        a[(0, i, p[j])] = val((t.0 + m[j].0, t.1 + m[j].1));
        let f = tclifford::FFTRepr::<A>::from_array3(a).unwrap();
        let Some(v) = f.inv() else { return Err("None".into()) };
        let v = v.into_array3();
        let v = v.index_axis(ndarray::Axis(0), 0);
        let mut o = vec![];
        for ((r, c), z) in v.indexed_iter() {
            if z.is_zero() {
                continue;
            }
            let k = z.norm().log2().round();
            let u = z / k.exp2();
            let q = (0..4).find(|q| (u - val((*q, 0))).norm() < 1e-9);
            let Some(q) = q else { return Err(format!("element {z} at {r} {c}")) };
            o.push(format!("[{r},{c},{q},{k}]"));
        }
        Ok(format!("[{}]", o.join(",")))
    });
}

fn session<A: ClAlgebra + NonDegenerate + 'static>(cx: &mut Cx, sig: &str, steps: usize) {
    let sg = sig.as_bytes();
    let n = sig.len();
    cx.begin(sig, "G", "inverse");
    let mut rng = Rng(cx.rng.next());
    let mut mc = FMachine::<Complex64>::new(fapplier::<Complex64, A, 0>(None, |_| unreachable!()), sig);
    let mut done = 0;
    let mut tries = 0;
    while done < steps && tries < steps * 40 {
        tries += 1;
        if rng.chance(1, 12) {
            pole::<A>(cx, sg, &mut rng);
        }
        if n % 2 == 0 && rng.chance(1, 8) {
            graded::<A>(cx, sg, &mut rng);
        }
        let s: i32 = match rng.below(4) {
            0 | 1 => 0,
            2 => rng.range(-60, 60) as i32,
            _ => *rng.pick(&[-1000, -900, -600, -300, -150, 150, 300, 600, 900, 1000]),
        };
        let (w, x, q, m) = match rng.below(9) {
            8 => {
                // (k+1) + (k-1) B with B B = 1: far apart on the two eigenspaces
                let b = 1 + rng.below((1 << n) - 1);
                let c = if sign(sg, b, b) == 1 { (1, 0) } else { (0, 1) };
                let k = 1i64 << (1 + rng.below(13));
                let (e, f) = (*rng.pick(&[1, -1]), *rng.pick(&[1, -1]));
                // f = -1: the signs on the eigenspaces differ
                let (u, v) = (k + f, e * (k - f));
                let (mut x, mut q) = (M::new(), M::new());
                add(&mut x, 0, (u, 0));
                add(&mut x, b, (v * c.0, v * c.1));
                add(&mut q, 0, (u, 0));
                add(&mut q, b, (-v * c.0, -v * c.1));
                ("unit", x, q, 4 * k * f)
            }
            0 | 1 | 2 => {
                let (mut x, mut q, mut m) = (one(), one(), 1i64);
                let k = 1 + rng.below(5);
                let mut cnt = 0;
                for _ in 0..k * 4 {
                    if let Some((a, b, c)) = factor(&mut rng, sg, true) {
                        let nx = mul(sg, &x, &a);
                        let nq = mul(sg, &b, &q);
                        if top(&nx) > 3000 || top(&nq) > 3000 || (m * c).abs() > 20000 || nx.len() * nq.len() > 2500 {
                            continue;
                        }
                        (x, q, m) = (nx, nq, m * c);
                        cnt += 1;
                        if cnt == k {
                            break;
                        }
                    }
                }
                // a common factor of both sides may be dropped
                let g = q.values().fold(m.abs(), |g, c| num::integer::gcd(g, num::integer::gcd(c.0, c.1)));
                for c in q.values_mut() {
                    *c = (c.0 / g, c.1 / g);
                }
                ("unit", x, q, m / g)
            }
            3 | 4 => {
                if n <= 3 {
                    match solve(&mut rng, sg) {
                        Some((x, q, m)) => ("unit", x, q, m),
                        None => continue,
                    }
                } else {
                    continue;
                }
            }
            5 => {
                // one coefficient outweighs the others
                let mut x = M::new();
                let mut sum = 0;
                for _ in 0..1 + rng.below((1 << n).min(60)) {
                    let b = rng.below(1 << n);
                    if !x.contains_key(&b) {
                        let c = (rng.range(-3, 3), rng.range(-3, 3));
                        add(&mut x, b, c);
                        sum += c.0.abs() + c.1.abs();
                    }
                }
                let b = rng.below(1 << n);
                if let Some(c) = x.remove(&b) {
                    sum -= c.0.abs() + c.1.abs();
                }
                let big = sum + 1 + rng.range(0, 3);
                x.insert(b, if rng.chance(1, 2) { (big, rng.range(-3, 3)) } else { (0, -big) });
                ("dom", x, M::new(), 0)
            }
            _ => {
                // zero divisors
                let k = match rng.below(3) {
                    0 => 0,
                    1 => 1,
                    _ => 2,
                };
                let b = 1 + rng.below((1 << n) - 1);
                let sb = sign(sg, b, b);
                let (mut x, mut q) = (M::new(), M::new());
                if k == 0 && rng.chance(1, 4) {
                    q = one();
                } else if k <= 1 {
                    let c = if sb == 1 { (1, 0) } else { (0, 1) };
                    let e = if rng.chance(1, 2) { 1 } else { -1 };
                    let u = rng.range(1, 3);
                    x.insert(0, (u, 0));
                    x.insert(b, (u * e * c.0, u * e * c.1));
                    q.insert(0, (1, 0));
                    q.insert(b, (-e * c.0, -e * c.1));
                } else {
                    match nilpotent(&mut rng, sg) {
                        Some(v) => {
                            x = v.clone();
                            q = v
                        }
                        None => continue,
                    }
                }
                ("zerodiv", x, q, 0)
            }
        };
        done += 1;
        cx.cost(4 * x.len() * q.len() + x.len() * (1 << n.div_ceil(2)) * 4);
        let mut c = FCmd::new("fromidx", 0, 0);
        c.list = list(&x);
        mc.exec(cx, &c);
        mc.exec(cx, &FCmd::new("fft", 0, 0));
        let head = format!(
            r#""x":"f0","w":"{w}","s":{s},"m":{m},"q":{}"#,
            ent_j(&list(&q), 1).unwrap()
        );
        let form = rng.below(3);
        cx.call("finv", &head, || {
            let (f, i) = inverse::<A>(&x, s, form);
            let Some(i) = i else { return Err("None".into()) };
            let enc = |v: tclifford::FFTRepr<A>, m: f64, tol: f64| -> Res {
                let mut o = vec![];
                for (b, c) in v.ifft::<Complex64>().coeff_enumerate() {
                    let (re, im) = (snap(c.re * m, 1, tol)?, snap(c.im * m, 1, tol)?);
                    if re != "0" || im != "0" {
                        o.push(format!("[{},[{re},{im}]]", bj(b)));
                    }
                }
                Ok(format!("[{}]", o.join(",")))
            };
            if w == "dom" {
                Ok(format!("[{},{}]", enc(&f * &i, 1., 1e-6)?, enc(&i * &f, 1., 1e-6)?))
            } else {
                enc(i, m as f64, 1e-2)
            }
        });
    }
}

fn main() {
    let mut c = Cx::from_args();
    let cx = &mut c;
    let k = cx.scale;
    macro_rules! go { ($A:ty, $s:expr, $d:expr) => {
        for _ in 0..2 * k { session::<$A>(cx, $s, 12) }
    }; }
    for_nondeg!(go);
    let _ = Complex64::one() + Complex64::zero();
    c.finish();
}
