//! C18: text of multivectors
use harness::cx::*;
use num::complex::Complex64;
use std::fmt::{Display, LowerExp, UpperExp};
use tclifford::quaternion::{Quaternion, QuaternionAlgebra};
use tclifford::types::Ring;
use tclifford::{declare_algebra, ClAlgebra, Multivector, SparseMultivector};

declare_algebra!(N1, [+]);
declare_algebra!(N2, [-,0], ["a", "bb"]);
declare_algebra!(N3, [+,-,+]);
declare_algebra!(N4, [+,+,+,0], ["x", "y", "z", "e"]);
declare_algebra!(N5, [-,+,-,+,0], ["t", "x1", "x2", "i", "eps"]);
declare_algebra!(NL, [+,-,+,0], ["first_direction", "second_direction", "k", "infinitesimal"]);
declare_algebra!(N6, [+,-,+,-,+,-]);
declare_algebra!(N7, [+,+,+,+,-,-,0], ["A", "B", "C", "D", "E", "F", "G"]);
declare_algebra!(N12, [+,+,+,+,+,+,+,+,+,+,+,+]);
declare_algebra!(N63, [+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,-,-,-,-,-,-,-,-,-,-,-,-,-,-,-,-,-,-,-,-,-,-,-,-,-,-,-,-,-,0,0,0]);

struct F {
    alt: bool,
    plus: bool,
    zero: bool,
    left: bool,
    w: usize,
    p: i64,
    m: char,
}
trait Show: Display + LowerExp + UpperExp {}
impl<T: Display + LowerExp + UpperExp> Show for T {}

macro_rules! formats {
    ($(($s:literal, $alt:expr, $plus:expr, $zero:expr, $left:expr, $w:expr, $p:expr, $m:expr)),* $(,)?) => {
        const COUNT: usize = 0 $(+ { let _ = $s; 1 })*;
        fn flags(i: usize) -> F {
            let v = [$(F { alt: $alt, plus: $plus, zero: $zero, left: $left, w: $w, p: $p, m: $m }),*];
            v.into_iter().nth(i).unwrap()
        }
        fn text(v: &dyn Show, i: usize) -> String {
            let f: [fn(&dyn Show) -> String; COUNT] = [$(|v| format!($s, v)),*];
            f[i](v)
        }
    };
}
const Y: bool = true;
const N: bool = false;
formats!(
    ("{}", N, N, N, N, 0, -1, 'd'), ("{:#}", Y, N, N, N, 0, -1, 'd'), ("{:+}", N, Y, N, N, 0, -1, 'd'),
    ("{:+#}", Y, Y, N, N, 0, -1, 'd'), ("{:.0}", N, N, N, N, 0, 0, 'd'), ("{:.3}", N, N, N, N, 0, 3, 'd'),
    ("{:#.0}", Y, N, N, N, 0, 0, 'd'), ("{:+.4}", N, Y, N, N, 0, 4, 'd'), ("{:#.3}", Y, N, N, N, 0, 3, 'd'),
    ("{:7}", N, N, N, N, 7, -1, 'd'), ("{:<7}", N, N, N, Y, 7, -1, 'd'), ("{:07}", N, N, Y, N, 7, -1, 'd'),
    ("{:+08}", N, Y, Y, N, 8, -1, 'd'), ("{:+#9.3}", Y, Y, N, N, 9, 3, 'd'), ("{:<#8}", Y, N, N, Y, 8, -1, 'd'),
    ("{:e}", N, N, N, N, 0, -1, 'e'), ("{:#e}", Y, N, N, N, 0, -1, 'e'), ("{:+e}", N, Y, N, N, 0, -1, 'e'),
    ("{:.8e}", N, N, N, N, 0, 8, 'e'), ("{:+#.9e}", Y, Y, N, N, 0, 9, 'e'), ("{:12e}", N, N, N, N, 12, -1, 'e'),
    ("{:<12e}", N, N, N, Y, 12, -1, 'e'), ("{:015.8e}", N, N, Y, N, 15, 8, 'e'),
    ("{:E}", N, N, N, N, 0, -1, 'E'), ("{:#E}", Y, N, N, N, 0, -1, 'E'), ("{:+E}", N, Y, N, N, 0, -1, 'E'),
    ("{:.8E}", N, N, N, N, 0, 8, 'E'), ("{:+#.9E}", Y, Y, N, N, 0, 9, 'E'), ("{:12E}", N, N, N, N, 12, -1, 'E'),
    ("{:+#014.8E}", Y, Y, Y, N, 14, 8, 'E'),
    ("{:.30}", N, N, N, N, 0, 30, 'd'), ("{:#.26}", Y, N, N, N, 0, 26, 'd'), ("{:.24e}", N, N, N, N, 0, 24, 'e'),
    ("{:40}", N, N, N, N, 40, -1, 'd'), ("{:<#33}", Y, N, N, Y, 33, -1, 'd'), ("{:050}", N, N, Y, N, 50, -1, 'd'),
    ("{:+70.20E}", N, Y, N, N, 70, 20, 'E'), ("{:+.10e}", N, Y, N, N, 0, 10, 'e'),
);
impl F {
    fn json(&self) -> String {
        format!(
            r#""f":{{"alt":{},"plus":{},"zero":{},"left":{},"w":{},"p":{},"m":"{}"}}"#,
            self.alt, self.plus, self.zero, self.left, self.w, self.p, self.m
        )
    }
}

/// coefficient types: random value with its record
trait Kind: Ring + Clone + Show + 'static {
    const TY: &'static str;
    const INNER: &'static [&'static str] = &[];
    fn draw(rng: &mut Rng, q: i64) -> (Self, String);
    fn usable(f: &F, q: i64) -> bool {
        !(f.p == 0 && q > 1)
    }
}
fn small(rng: &mut Rng) -> i64 {
    match rng.below(8) {
        0 => 0,
        1 => rng.range(-99999, 99999),
        2 => rng.range(-100, 100) * 10,
        3 => *rng.pick(&[1, -1, 10, 100, -1000, 10000]),
        _ => rng.range(-9, 9),
    }
}
impl Kind for i64 {
    const TY: &'static str = "int";
    fn draw(rng: &mut Rng, _: i64) -> (Self, String) {
        let v = small(rng);
        (v, v.to_string())
    }
}
impl Kind for f64 {
    const TY: &'static str = "float";
    fn draw(rng: &mut Rng, q: i64) -> (Self, String) {
        let v = small(rng);
        (v as f64 / q as f64, v.to_string())
    }
}
impl Kind for Complex64 {
    const TY: &'static str = "cplx";
    fn draw(rng: &mut Rng, q: i64) -> (Self, String) {
        let f = |rng: &mut Rng| loop {
            let v = small(rng);
            if v != 0 {
                return v;
            }
        };
        let (a, b) = if rng.chance(1, 8) { (0, 0) } else { (f(rng), f(rng)) };
        (Complex64::new(a as f64 / q as f64, b as f64 / q as f64), format!("[{a},{b}]"))
    }
    fn usable(f: &F, q: i64) -> bool {
        f.w == 0 && !(f.p == 0 && q > 1)
    }
}
fn inner(rng: &mut Rng, dim: usize, most: usize) -> Vec<(usize, i64)> {
    let n = rng.below(most + 1);
    let mut v: Vec<(usize, i64)> = vec![];
    for _ in 0..n {
        let b = rng.below(1 << dim);
        if !v.iter().any(|e| e.0 == b) {
            v.push((b, small(rng)));
        }
    }
    v
}
fn inner_j(v: &[(usize, i64)]) -> String {
    let s: Vec<String> = v.iter().map(|(b, c)| format!("[{},{c}]", bj(*b))).collect();
    format!("[{}]", s.join(","))
}
impl Kind for Quaternion<i64> {
    const TY: &'static str = "mv";
    const INNER: &'static [&'static str] = &["I", "J"];
    fn draw(rng: &mut Rng, _: i64) -> (Self, String) {
        let v = inner(rng, 2, 3);
        (Quaternion::from_indexed_iter(v.iter().cloned()).unwrap(), inner_j(&v))
    }
}
impl Kind for Multivector<i64, QuaternionAlgebra> {
    const TY: &'static str = "mv";
    const INNER: &'static [&'static str] = &["I", "J"];
    fn draw(rng: &mut Rng, _: i64) -> (Self, String) {
        let v = inner(rng, 2, 3);
        (Self::from_indexed_iter(v.iter().cloned()).unwrap(), inner_j(&v))
    }
}
/// long texts
impl Kind for Multivector<i64, NL> {
    const TY: &'static str = "mv";
    const INNER: &'static [&'static str] = &["first_direction", "second_direction", "k", "infinitesimal"];
    fn draw(rng: &mut Rng, _: i64) -> (Self, String) {
        let most = if rng.chance(1, 3) { 12 } else { 3 };
        let v = inner(rng, 4, most);
        (Self::from_indexed_iter(v.iter().cloned()).unwrap(), inner_j(&v))
    }
}
impl Kind for SparseMultivector<i64, N5> {
    const TY: &'static str = "mv";
    const INNER: &'static [&'static str] = &["t", "x1", "x2", "i", "eps"];
    fn draw(rng: &mut Rng, _: i64) -> (Self, String) {
        let v = inner(rng, 5, 1);
        (Self::from_indexed_iter(v.iter().cloned()).unwrap(), inner_j(&v))
    }
}

fn strs(v: &[String]) -> String {
    format!("[{}]", v.iter().map(|s| format!("\"{s}\"")).collect::<Vec<_>>().join(","))
}
/// JSON string
fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' | '\\' => {
                o.push('\\');
                o.push(c)
            }
            c if (c as u32) < 32 => o.push('?'),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// `make(entries)` builds the value
fn go<T: Kind>(cx: &mut Cx, sig: &str, names: &[String], any: bool, sessions: usize, make: &dyn Fn(Vec<(usize, T)>) -> Box<dyn Show>) {
    let dim = names.len();
    let inner: Vec<String> = T::INNER.iter().map(|s| s.to_string()).collect();
    for _ in 0..sessions {
        cx.begin(sig, "Z", &format!("{} {}", T::TY, if any { "sparse" } else { "dense" }));
        for _ in 0..6 {
            let mut rng = Rng(cx.rng.next());
            let q = if T::TY == "float" || T::TY == "cplx" { *rng.pick(&[1, 1, 2, 4, 8]) } else { 1 };
            let i = loop {
                let i = rng.below(COUNT);
                if T::usable(&flags(i), q) {
                    break i;
                }
            };
            let n = match rng.below(6) {
                0 => 0,
                1 => 1,
                _ if any => 1 + rng.below(4),
                2 if rng.chance(1, 4) => 9 + rng.below(32),
                _ => 1 + rng.below(8),
            };
            let mut e: Vec<(usize, T)> = vec![];
            let mut l = vec![];
            for _ in 0..n {
                let b = harness::session::rnd_blade(&mut rng, dim);
                let (v, j) = T::draw(&mut rng, q);
                e.push((b, v));
                l.push(format!("[{},{j}]", bj(b)));
            }
            let head = format!(
                r#""ty":"{}","q":{q},"any":{any},"names":{},"inner":{},"l":[{}],{}"#,
                T::TY, strs(names), strs(&inner), l.join(","), flags(i).json()
            );
            cx.call("fmt", &head, || Ok(js(&text(&*make(e), i))));
        }
    }
}

fn labels<A: ClAlgebra>(cx: &mut Cx, sig: &str, names: &[String], n: usize) {
    cx.begin(sig, "Z", "labels");
    let dim = names.len();
    for i in 0..n {
        let b = if dim < 7 && i < (1 << dim) { i } else { harness::session::rnd_blade(&mut cx.rng, dim) };
        cx.call("labels", &format!(r#""names":{},"b":{}"#, strs(names), bj(b)), || {
            Ok(format!("[{},{}]", js(&A::blade_label(b)), js(&A::blade_label_rev(b))))
        });
    }
}

fn main() {
    let mut c = Cx::from_args();
    let cx = &mut c;
    let k = cx.scale;
    let auto = |n: usize| -> Vec<String> { (0..n).map(|i| format!("e{i}")).collect() };
    let own = |s: &str| -> Vec<String> { s.split(' ').map(|s| s.to_string()).collect() };
    macro_rules! dense { ($A:ty, $s:expr, $n:expr, $T:ty, $c:expr) => {
        go::<$T>(cx, $s, &$n, false, $c * k, &|e| Box::new(Multivector::<$T, $A>::from_indexed_iter(e.into_iter()).unwrap()));
    }; }
    macro_rules! sparse { ($A:ty, $s:expr, $n:expr, $T:ty, $c:expr) => {
        go::<$T>(cx, $s, &$n, true, $c * k, &|e| Box::new(SparseMultivector::<$T, $A>::from_indexed_iter(e.into_iter()).unwrap()));
    }; }
    macro_rules! all { ($A:ty, $s:expr, $n:expr, $c:expr, $($m:ident)+) => { {
        let names = $n;
        labels::<$A>(cx, $s, &names, 70);
        $(
            $m!($A, $s, names, i64, $c);
            $m!($A, $s, names, f64, 2 * $c);
            $m!($A, $s, names, Complex64, $c);
            $m!($A, $s, names, Quaternion<i64>, $c);
            $m!($A, $s, names, Multivector<i64, QuaternionAlgebra>, $c);
            $m!($A, $s, names, SparseMultivector<i64, N5>, $c);
            $m!($A, $s, names, Multivector<i64, NL>, $c);
        )+
    } }; }
    all!(N1, "+", auto(1), 10, dense sparse);
    all!(N2, "-0", own("a bb"), 10, dense sparse);
    all!(N3, "+-+", auto(3), 12, dense sparse);
    all!(N4, "+++0", own("x y z e"), 12, dense sparse);
    all!(N5, "-+-+0", own("t x1 x2 i eps"), 12, dense sparse);
    all!(NL, "+-+0", own("first_direction second_direction k infinitesimal"), 6, dense sparse);
    all!(N6, "+-+-+-", auto(6), 10, dense sparse);
    all!(N7, "++++--0", own("A B C D E F G"), 10, dense sparse);
    all!(N12, "++++++++++++", auto(12), 6, dense sparse);
    all!(N63, "+++++++++++++++++++++++++++++++-----------------------------000", auto(63), 12, sparse);
    // a quaternion of quaternions
    {
        let names = own("I J");
        go::<f64>(cx, "--", &names, false, 30 * k, &|e| Box::new(Quaternion::<f64>::from_indexed_iter(e.into_iter()).unwrap()));
        go::<Quaternion<i64>>(cx, "--", &names, false, 30 * k, &|e| Box::new(Quaternion::<Quaternion<i64>>::from_indexed_iter(e.into_iter()).unwrap()));
    }
    c.finish();
}
