//! C16: points, hyperplanes and motors of projective algebras.
//! Values matter up to a factor: they are recorded as primitive integer vectors.
use harness::cx::*;
use harness::mv::*;
use harness::*;
use tclifford::pga::PGAMV;
use tclifford::{Multivector, SparseMultivector};

type Ints = Vec<(usize, i64)>;
const LIM: f64 = 2000.;

/// Primitive integer vector proportional to v. Entries below 1e-10 * size are rounding errors.
fn prim(v: &[f64], size: f64) -> Result<Vec<i64>, String> {
    if v.iter().any(|c| !c.is_finite()) {
        return Err("bad".into());
    }
    let big = |c: &f64| c.abs() > 1e-10 * size;
    let mn = v.iter().filter(|c| big(c)).fold(f64::INFINITY, |a, c| a.min(c.abs()));
    if mn == f64::INFINITY {
        return Ok(vec![0; v.len()]);
    }
    for s in 1..=LIM as i64 {
        let w: Vec<f64> = v.iter().map(|c| if big(c) { c / mn * (s as f64) } else { 0. }).collect();
        if w.iter().all(|c| (c - c.round()).abs() < 1e-4 && c.abs() < 1e6) {
            return Ok(w.iter().map(|c| c.round() as i64).collect());
        }
    }
    Err("bad".into())
}
fn top(v: &Entries<f64>) -> f64 {
    v.iter().fold(0., |a, (_, c)| a.max(c.abs()))
}
fn proj(e: &Entries<f64>, size: f64) -> Result<Ints, String> {
    let v: Vec<f64> = e.iter().map(|x| x.1).collect();
    let p = prim(&v, size)?;
    Ok(e.iter().map(|x| x.0).zip(p).filter(|x| x.1 != 0).collect())
}
fn json(p: &Ints) -> String {
    let s: Vec<String> = p.iter().map(|(b, c)| format!("[{},{c}]", bj(*b))).collect();
    format!("[{}]", s.join(","))
}
fn li(l: &[i64]) -> String {
    format!("[{}]", l.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","))
}

struct S<M> {
    raw: Vec<M>,
    ent: Vec<Ints>,
}
impl<M: MvW<f64>> S<M> {
    /// make a call whose value goes to register d; `size`: magnitude of the numbers involved (0: that of the result)
    fn put(&mut self, cx: &mut Cx, op: &str, head: String, d: usize, size: f64, fresh: bool, f: impl FnOnce(&[M]) -> Result<M, String>) -> bool {
        let S { raw, ent } = self;
        let k = [1., 0.5, -3., 0.01][cx.rng.below(4)];
        cx.call(op, &format!(r#""d":"r{d}",{head}"#), || {
            let m = f(raw)?;
            let e = m.entries();
            let p = proj(&e, if size == 0. { top(&e) } else { size })?;
            raw[d] = if fresh { errk(M::fi(p.iter().map(|(b, c)| (*b, *c as f64 * k)).collect()))? } else { m };
            ent[d] = p.clone();
            Ok(json(&p))
        })
    }
    fn size(&self, i: usize) -> f64 {
        top(&self.raw[i].entries())
    }
    fn bound(&self, i: usize) -> f64 {
        self.ent[i].iter().fold(0., |a, (_, c)| a.max(c.abs() as f64))
    }
    fn is_point(&self, i: usize, n: usize) -> bool {
        self.ent[i].iter().any(|(b, _)| *b == (1 << n) - 1)
    }
}

/// coordinates with a common denominator
fn coords(rng: &mut Rng, n: usize, m: i64) -> (Vec<i64>, i64) {
    let q = *rng.pick(&[1, 1, 1, 2, 4]);
    let m = if rng.chance(1, 3) { 1 } else { m };
    let v = match rng.below(6) {
        0 => vec![0; n],
        1 => {
            let mut v = vec![0; n];
            if n > 0 {
                v[rng.below(n)] = rng.range(-m, m);
            }
            v
        }
        _ => (0..n).map(|_| rng.range(-m, m)).collect(),
    };
    (v, q)
}
fn length(rng: &mut Rng, n: usize) -> usize {
    match rng.below(12) {
        0 => n + 1,
        1 => n - 1,
        2 => rng.below(n + 4),
        _ => n,
    }
}
fn fl(v: &[i64], q: i64) -> Vec<f64> {
    v.iter().map(|x| *x as f64 / q as f64).collect()
}

/// exponent of a power of two
fn unit(rng: &mut Rng) -> i32 {
    match rng.below(3) {
        0 => 0,
        1 => rng.range(-40, 40) as i32,
        _ => *rng.pick(&[-1000, -800, -500, -200, 200, 500, 800, 1000]),
    }
}

fn session<M: MvW<f64> + PGAMV<N>, const N: usize>(cx: &mut Cx, sig: &str, steps: usize, light: bool) {
    cx.begin(sig, "Z", M::STORE);
    let mut s = S::<M> { raw: vec![M::zero_(), M::zero_(), M::zero_(), M::zero_()], ent: vec![vec![]; 4] };
    let mut rng = Rng(cx.rng.next());
    let m = if N <= 3 { 6 } else { 3 };
    for _ in 0..steps {
        let (d, x, y) = (rng.below(4), harness::session::live(&mut rng, &s.ent), harness::session::live(&mut rng, &s.ent));
        let xy = format!(r#""x":"r{x}","y":"r{y}""#);
        let (bx, by) = (s.bound(x), s.bound(y));
        let (nx, ny) = (s.ent[x].len(), s.ent[y].len());
        let size = s.size(x) * s.size(y);
        let small = bx * by * (nx.min(ny) as f64) < LIM && size > 0. && nx * ny <= 600;
        let ok = match rng.below(if light { 6 } else { 13 }) {
            0 if rng.chance(1, 2) => {
                let ((c, q), u) = (coords(&mut rng, N, m), unit(&mut rng));
                let it: Vec<f64> = fl(&c, q).iter().map(|x| x * 2f64.powi(u)).collect();
                cx.call("pfar", &format!(r#""c":{},"q":{q},"s":{u}"#, li(&c)), || {
                    let p = errk(M::pga_point(it))?.pga_extract_point();
                    let mut v: Vec<f64> = p.iter().map(|x| x / 2f64.powi(u)).collect();
                    v.push(1.);
                    Ok(li(&prim(&v, v.iter().fold(0f64, |a, c| a.max(c.abs())))?))
                })
            }
            0 | 1 => {
                let l = length(&mut rng, N);
                let (c, q) = if rng.chance(1, 8) { coords(&mut rng, l, 300) } else { coords(&mut rng, l, m) };
                let it = fl(&c, q);
                s.put(cx, "ppoint", format!(r#""c":{},"q":{q}"#, li(&c)), d, 0., false, |_| errk(M::pga_point(it))) || l != N
            }
            2 => {
                let l = length(&mut rng, N + 1);
                let (c, q) = coords(&mut rng, l, m);
                if l == N + 1 && c.iter().all(|x| *x == 0) {
                    continue;
                }
                // any common factor of the coefficients
                let u = unit(&mut rng);
                let it: Vec<f64> = fl(&c, q).iter().map(|x| x * 2f64.powi(u)).collect();
                s.put(cx, "pplane", format!(r#""c":{},"q":{q},"s":{u}"#, li(&c)), d, 0., false, |_| errk(M::pga_hyperplane(it))) || l != N + 1
            }
            3 => {
                let l = length(&mut rng, N);
                let (c, q) = coords(&mut rng, l, m);
                let it = fl(&c, q);
                s.put(cx, "ptrans", format!(r#""c":{},"q":{q}"#, li(&c)), d, 0., false, |_| errk(M::pga_translation(it))) || l != N
            }
            4 | 5 => {
                if !s.is_point(x, N) {
                    continue;
                }
                let raw = &s.raw[x];
                cx.call("pextract", &format!(r#""x":"r{x}""#), || {
                    let p = raw.pga_extract_point();
                    // the denominator belongs to the vector
                    let mut v = p.to_vec();
                    v.push(1.);
                    let t = v.iter().fold(0f64, |a, c| a.max(c.abs()));
                    Ok(li(&prim(&v, t)?))
                })
            }
            6 if small => s.put(cx, "pwedge", xy, d, size, true, |r| Ok(r[x].wedge_(&r[y]))),
            7 if small => s.put(cx, "pwedge", xy, d, size, true, |r| Ok(r[x].nwedge(&r[y]))),
            8 if small => s.put(cx, "pmeet", xy, d, size, true, |r| Ok(r[x].meet_(&r[y]))),
            9 if small => s.put(cx, "pmeet", xy, d, size, true, |r| Ok(r[x].nmeet(&r[y]))),
            10 if small && nx * ny <= 200 => s.put(cx, "pmul", xy, d, size, true, |r| Ok(r[x].mul(&r[y], 0))),
            11 | 12 => {
                let (b, c) = (bx * bx * by, (nx * nx).min(nx * ny) as f64);
                if b * c < LIM && size > 0. && nx * ny <= 120 {
                    s.put(cx, "pmove", xy, d, size * s.size(x), true, |r| Ok(r[x].rev_().mul(&r[y], 1).mul(&r[x], 2)))
                } else {
                    // a rotor by a right angle, or by the angle with tangent 3/4
                    if N < 2 {
                        continue;
                    }
                    let (i, j) = (rng.below(N), rng.below(N));
                    if i == j {
                        continue;
                    }
                    let (p, q) = *rng.pick(&[(1, 1), (1, -1), (3, 1), (0, 1)]);
                    let l: Ints = vec![(0, p), ((1 << i) | (1 << j), q)].into_iter().filter(|e| e.1 != 0).collect();
                    let r = ((p * p + q * q) as f64).sqrt();
                    let e = l.iter().map(|(b, c)| (*b, *c as f64 / r)).collect();
                    s.put(cx, "pload", format!(r#""l":{}"#, json(&l)), d, 0., false, |_| errk(M::fi(e)))
                }
            }
            _ => continue,
        };
        if !ok {
            return;
        }
    }
}

/// points through common hyperplanes, flats through points, and movements
fn figure<M: MvW<f64> + PGAMV<N>, const N: usize>(cx: &mut Cx, sig: &str) {
    cx.begin(sig, "Z", M::STORE);
    let mut s = S::<M> { raw: vec![M::zero_(), M::zero_(), M::zero_(), M::zero_()], ent: vec![vec![]; 4] };
    let mut rng = Rng(cx.rng.next());
    let m = if N <= 3 { 4 } else { 1 };
    let planes = rng.chance(1, 2);
    // r0: the wedge of hyperplanes / the meet of points so far
    for i in 0..N + 1 {
        let d = if i == 0 { 0 } else { 1 };
        let (c, _) = coords(&mut rng, if planes { N + 1 } else { N }, m);
        if planes && c.iter().all(|x| *x == 0) {
            return;
        }
        let it = fl(&c, 1);
        let ok = if planes {
            s.put(cx, "pplane", format!(r#""c":{},"q":1"#, li(&c)), d, 0., false, |_| errk(M::pga_hyperplane(it)))
        } else {
            s.put(cx, "ppoint", format!(r#""c":{},"q":1"#, li(&c)), d, 0., false, |_| errk(M::pga_point(it)))
        };
        let b = s.bound(0) * s.bound(1) * s.ent[0].len().min(s.ent[1].len()) as f64;
        if !ok || i > 0 && (b > LIM || b == 0.) {
            return;
        }
        if i > 0 {
            let size = s.size(0) * s.size(1);
            let op = if planes { "pwedge" } else { "pmeet" };
            if !s.put(cx, op, r#""x":"r0","y":"r1""#.into(), 0, size, true, |r| Ok(if planes { r[0].wedge_(&r[1]) } else { r[0].meet_(&r[1]) })) {
                return;
            }
        }
        if i == N - 1 && s.is_point(0, N) {
            let raw = &s.raw[0];
            cx.call("pextract", r#""x":"r0""#, || {
                let mut v = raw.pga_extract_point().to_vec();
                v.push(1.);
                let t = v.iter().fold(0f64, |a, c| a.max(c.abs()));
                Ok(li(&prim(&v, t)?))
            });
        }
    }
}

fn main() {
    let mut c = Cx::from_args();
    let cx = &mut c;
    let k = cx.scale;
    macro_rules! go { ($A:ty, $s:expr, $d:expr) => { {
        const N: usize = $d - 1;
        for _ in 0..(if N > 5 { 10 } else { 60 }) * k {
            session::<Multivector<f64, $A>, N>(cx, $s, 25, N > 5);
            session::<SparseMultivector<f64, $A>, N>(cx, $s, 25, N > 5);
        }
        for _ in 0..if N > 5 { 0 } else { 25 * k } {
            figure::<Multivector<f64, $A>, N>(cx, $s);
            figure::<SparseMultivector<f64, $A>, N>(cx, $s);
        }
    } }; }
    for_pga!(go);
    c.finish();
}
