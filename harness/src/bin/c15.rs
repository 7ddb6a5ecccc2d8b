//! C15: declarations of algebras. Random declarations are compiled (verdict) and, if accepted, probed by a generated program.
use harness::cx::*;
use std::path::{Path, PathBuf};
use std::process::Command;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;

struct Rustc {
    rlib: PathBuf,
    deps: PathBuf,
    dir: PathBuf,
}
impl Rustc {
    fn new(dir: &str) -> Rustc {
        let deps = std::env::current_exe().unwrap().parent().unwrap().join("deps");
        let rlib = std::fs::read_dir(&deps)
            .unwrap()
            .map(|e| e.unwrap().path())
            .filter(|p| {
                let n = p.file_name().unwrap().to_str().unwrap();
                n.starts_with("libtclifford-") && n.ends_with(".rlib")
            })
            .max_by_key(|p| std::fs::metadata(p).unwrap().modified().unwrap())
            .expect("library not built");
        let d = Path::new(dir).join("programs");
        std::fs::create_dir_all(&d).unwrap();
        Rustc { rlib, deps, dir: d }
    }
    fn run(&self, name: &str, src: &str, link: bool) -> (bool, String) {
        let f = self.dir.join(format!("{name}.rs"));
        std::fs::write(&f, src).unwrap();
        let o = self.dir.join(format!("{name}.{}", if link { "exe" } else { "rmeta" }));
        let r = Command::new(std::env::var("RUSTC").unwrap_or("rustc".into()))
            .args(["--edition", "2021", "--crate-name", name, "-A", "warnings"])
            .args(["--crate-type", if link { "bin" } else { "lib" }, "--emit", if link { "link" } else { "metadata" }])
            .arg("-L")
            .arg(format!("dependency={}", self.deps.display()))
            .arg("--extern")
            .arg(format!("tclifford={}", self.rlib.display()))
            .arg("-o")
            .arg(&o)
            .arg(&f)
            .output()
            .expect("rustc");
        (r.status.success(), String::from_utf8_lossy(&r.stderr).to_string())
    }
}

#[derive(Clone)]
struct Decl {
    toks: Vec<char>,
    names: Vec<String>,
    vis: &'static str,
}
impl Decl {
    fn well_formed(&self) -> bool {
        // only chooses what is probed further; the verdict is compared with the specification
        let first = self.toks.iter().position(|c| *c == '0').unwrap_or(self.toks.len());
        self.toks.len() < 64 && self.toks[first..].iter().all(|c| *c == '0') && (self.names.is_empty() || self.names.len() == self.toks.len())
    }
    fn text(&self, name: &str) -> String {
        let t: Vec<String> = self.toks.iter().map(|c| c.to_string()).collect();
        let n = if self.names.is_empty() { String::new() } else { format!(", [{}]", self.names.iter().map(|s| format!("\"{s}\"")).collect::<Vec<_>>().join(", ")) };
        format!("declare_algebra!({} {name}, [{}]{n});", self.vis, t.join(","))
    }
    fn head(&self) -> String {
        format!(r#""toks":{},"names":{},"vis":"{}""#, strs(self.toks.iter().map(|c| c.to_string())), strs(self.names.iter().cloned()), self.vis)
    }
    fn sig(&self) -> String {
        self.toks.iter().collect()
    }
}
fn strs(i: impl Iterator<Item = String>) -> String {
    format!("[{}]", i.map(|s| format!("\"{s}\"")).collect::<Vec<_>>().join(","))
}

const VIS: [&str; 5] = ["", "pub", "pub(crate)", "pub(self)", "pub(super)"];

fn names(rng: &mut Rng, n: usize) -> Vec<String> {
    let pre = *rng.pick(&["x", "e", "gamma", "a_"]);
    (0..n).map(|i| if rng.chance(1, 5) { format!("{}", (b'A' + (i % 26) as u8) as char) } else { format!("{pre}{i}") }).collect()
}
/// nulls last
fn tokens(rng: &mut Rng, n: usize) -> Vec<char> {
    let z = match rng.below(4) {
        0 => 1.min(n),
        1 => rng.below(n + 1),
        _ => 0,
    };
    let s = rng.below(4);
    let mut v: Vec<char> = (0..n - z)
        .map(|i| match s {
            0 => '+',
            1 => {
                if i % 2 == 0 {
                    '+'
                } else {
                    '-'
                }
            }
            _ => *rng.pick(&['+', '-']),
        })
        .collect();
    v.extend(vec!['0'; z]);
    v
}

fn declaration(rng: &mut Rng) -> Decl {
    let n = match rng.below(8) {
        0 => 1 + rng.below(63),
        1 => *rng.pick(&[62, 63]),
        2 => 1 + rng.below(16),
        _ => 1 + rng.below(8),
    };
    let toks = tokens(rng, n);
    let nm = if rng.chance(1, 2) { names(rng, n) } else { vec![] };
    Decl { toks, names: nm, vis: *rng.pick(&VIS) }
}
fn broken(rng: &mut Rng) -> Decl {
    let mut d = declaration(rng);
    let n = d.toks.len();
    match rng.below(4) {
        0 => {
            // a null generator before another one
            if n == 1 {
                d.toks = vec!['0', '+'];
            } else {
                let i = rng.below(n - 1);
                d.toks[i] = '0';
                let j = i + 1 + rng.below(n - 1 - i);
                d.toks[j] = *rng.pick(&['+', '-']);
            }
            d.names = vec![];
        }
        1 | 2 => {
            let m = match rng.below(4) {
                0 => n + 1,
                1 => n.max(2) - 1,
                2 => 2 * n,
                _ => 1 + rng.below(n + 2),
            };
            d.names = names(rng, m);
        }
        _ => {
            let n = *rng.pick(&[64, 65, 66, 80]);
            d.toks = tokens(rng, n);
            d.names = if rng.chance(1, 3) { names(rng, n) } else { vec![] };
        }
    }
    d
}

/// the declaration in a module, used from outside if its visibility allows that
fn verdict_source(d: &Decl) -> String {
    let usage = "pub fn f() -> usize { use tclifford::algebra::ClAlgebraBase; X::dim() + X::axis_name(0).len() }";
    format!(
        "#![recursion_limit = \"512\"]\nuse tclifford::declare_algebra;\npub mod m {{ use tclifford::declare_algebra; {} {usage} }}\n{}\n",
        d.text("X"),
        if ["", "pub(self)"].contains(&d.vis) { String::new() } else { "pub fn g() -> usize { use tclifford::algebra::ClAlgebraBase; m::X::dim() }".into() }
    )
}

const PROBES: &str = r#"
#![recursion_limit = "512"]
use std::marker::PhantomData;
use std::panic::{catch_unwind, AssertUnwindSafe};
use tclifford::algebra::*;
use tclifford::declare_algebra;
use tclifford::ClAlgebra;

macro_rules! has {
    ($A:ty, $($tr:tt)+) => {{
        struct W<T>(PhantomData<T>);
        trait Fallback { const V: bool = false; }
        impl<T> Fallback for W<T> {}
        impl<T: $($tr)+> W<T> { const V: bool = true; }
        W::<$A>::V
    }};
}
fn gens(m: usize) -> String {
    format!("[{}]", (0..64).filter(|i| (m >> i) & 1 == 1).map(|i| i.to_string()).collect::<Vec<_>>().join(","))
}
fn line(n: usize, kind: &str, f: impl FnOnce() -> String) {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => println!("{n}\t{kind}\tok\t{v}"),
        Err(_) => println!("{n}\t{kind}\tpanic\t0"),
    }
}
fn list<T: ToString>(v: &[T]) -> String {
    format!("[{}]", v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","))
}
fn quoted(v: Vec<String>) -> String {
    format!("[{}]", v.iter().map(|x| format!("\"{x}\"")).collect::<Vec<_>>().join(","))
}
macro_rules! entries {
    ($b:expr) => {{
        let mut o = vec![];
        for m in $b.iter() {
            let mut e: Vec<(usize, i64)> = m.coeff_enumerate().map(|(i, c)| (i, c.clone())).filter(|x| x.1 != 0).collect();
            e.sort();
            o.push(format!("[{}]", e.iter().map(|(i, c)| format!("[{},{c}]", gens(*i))).collect::<Vec<_>>().join(",")));
        }
        format!("[{}]", o.join(","))
    }};
}
macro_rules! pga {
    ($A:ty; $($n:literal)+) => {{ let mut v: Vec<usize> = vec![]; $( if has!($A, PGAlgebra<$n>) { v.push($n) } )+ list(&v) }};
}
macro_rules! facts {
    ($A:ty, $n:expr, $($p:literal)+) => {
        line($n, "facts", || format!(
            "{{\"dims\":[{},{},{},{}],\"plus\":{},\"minus\":{},\"null\":{},\"sig\":{},\"sigf\":{},\"names\":{},\"traits\":[{},{},{},{},{}],\"pga\":{}}}",
            <$A>::dim(), <$A>::real_dim(), <$A>::imag_dim(), <$A>::proj_dim(),
            gens(<$A>::real_mask()), gens(<$A>::imag_mask()), gens(<$A>::proj_mask()),
            list(&<$A>::signature()), list(&<$A>::signaturef()),
            quoted((0..<$A>::dim()).map(|i| <$A>::axis_name(i)).collect()),
            has!($A, NonDegenerate), has!($A, SplitSignature), has!($A, ComplexAlgebra), has!($A, QuaternionicAlgebra), has!($A, DivisionAlgebra),
            pga!($A; $($p)+)
        ));
    };
}
macro_rules! probe {
    ($A:ty, $n:expr, $dense:tt, $blades:expr, $($p:literal)+) => {
        facts!($A, $n, $($p)+);
        line($n, "sbasis", || entries!(<$A>::basis_sparse::<i64>()));
        probe!(@ $dense $A, $n);
        let b: &[usize] = &$blades;
        for b in b { line($n, &format!("label {}", gens(*b)), || quoted(vec![<$A>::blade_label(*b), <$A>::blade_label_rev(*b)])); }
    };
    (@ yes $A:ty, $n:expr) => { line($n, "basis", || entries!(<$A>::basis::<i64>())); };
    (@ no $A:ty, $n:expr) => {};
}
"#;

fn main() {
    let mut c = Cx::from_args();
    let cx = &mut c;
    let k = cx.scale;
    let dir = std::env::args().nth(1).unwrap();
    let rc = Rustc::new(&dir);
    // the tools work: otherwise every verdict would be a rejection
    let (ok, err) = rc.run("control", "pub use tclifford::types::Sign; pub fn f() -> Sign { Sign::Plus }", false);
    if !ok {
        eprintln!("compiler does not work: {err}");
        std::process::exit(3);
    }
    let mut rng = Rng(cx.rng.next());

    let mut decls: Vec<Decl> = vec![];
    // every token list up to length 3
    for n in 1..=3u32 {
        for i in 0..3usize.pow(n) {
            let toks = (0..n).map(|j| ['+', '-', '0'][i / 3usize.pow(j) % 3]).collect();
            decls.push(Decl { toks, names: vec![], vis: VIS[i % 5] });
        }
    }
    // every well-formed list of length 4 to 6, and lists that almost belong to a special signature
    let mut more: Vec<Decl> = vec![];
    let mut add = |t: Vec<char>| more.push(Decl { toks: t, names: vec![], vis: "" });
    for n in 4..=6usize {
        for z in 0..=n {
            for i in 0..1usize << (n - z) {
                add((0..n).map(|j| if j >= n - z { '0' } else { ['+', '-'][i >> j & 1] }).collect());
            }
        }
    }
    for _ in 0..4 * k {
        let n = 7 + rng.below(14);
        let mut t: Vec<char> = match rng.below(4) {
            0 => (0..n).map(|j| ['+', '-'][j % 2]).collect(),
            1 => (0..n).map(|j| if j + 1 < n { '+' } else { '0' }).collect(),
            2 => vec!['-'; n],
            _ => vec!['+'; n],
        };
        if rng.chance(2, 3) {
            let j = rng.below(n);
            t[j] = match t[j] { '+' => '-', '-' => '+', _ => *rng.pick(&['+', '-']) };
        } else if rng.chance(1, 2) {
            let l = t[n - 1];
            t.push(if l == '0' || rng.chance(1, 2) { '0' } else { *rng.pick(&['+', '-']) });
        }
        add(t);
    }
    for _ in 0..30 * k {
        decls.push(declaration(&mut rng));
        decls.push(broken(&mut rng));
    }
    // programs: source and what is recorded about it
    let mut jobs: Vec<(String, String, String)> = vec![];
    for d in &decls {
        jobs.push((verdict_source(d), "declare".into(), d.head()));
    }
    // combining multivectors of different declarations
    let known = [
        "&a + &b", "a - b", "a * b", "&a * &b", "a.wedge(&b)", "a.meet(&b)", "a.vdot(&b)", "a.vsdot(&b)", "a == b", "a.approx_eq(&b, 1e-3)",
        "{ let mut a = a; a = b; a }", "a.naive_mul_impl(&b)", "a.naive_wedge_impl(&b)",
    ];
    for i in 0..16 * k {
        let n = 1 + rng.below(4);
        let t = tokens(&mut rng, n);
        let d = Decl { toks: t, names: vec![], vis: "" };
        let e = if rng.chance(2, 3) { d.clone() } else { declaration(&mut rng) };
        let e = if e.toks.len() > 8 { d.clone() } else { e };
        let ty = *rng.pick(&["Multivector", "SparseMultivector", "FFTRepr"]);
        let (u, f) = if ty == "FFTRepr" {
            (*rng.pick(&["&a + &b", "&a * &b", "&a - &b", "a == b"]), "tclifford::FFTRepr<$>".to_string())
        } else {
            (known[(i + rng.below(3)) % known.len()], format!("tclifford::{ty}<f64, $>"))
        };
        for (b, y) in [("A", "A"), ("A", "B")] {
            let src = format!(
                "use tclifford::declare_algebra;\nuse tclifford::types::*;\n{}\n{}\npub fn f(a: {}, b: {}) {{ let _ = {u}; }}\n",
                Decl { vis: "pub", ..d.clone() }.text("A"), Decl { vis: "pub", ..e.clone() }.text("B"),
                f.replace('$', b), f.replace('$', y)
            );
            jobs.push((src, "combine".into(), format!(r#""a":"{b}","b":"{y}","toks":{},"ty":"{ty}","call":"{}""#, strs(d.toks.iter().map(|c| c.to_string())), u.replace('"', ""))));
        }
    }
    // generic functions bounded by a marker trait
    for _ in 0..8 * k {
        let d = loop {
            let d = declaration(&mut rng);
            if d.toks.len() <= 6 && d.well_formed() {
                break d;
            }
        };
        let tr = *rng.pick(&["NonDegenerate", "SplitSignature", "DivisionAlgebra", "PGAlgebra", "ComplexAlgebra", "QuaternionicAlgebra"]);
        let n = if rng.chance(1, 2) { d.toks.len() - 1 } else { rng.below(6) };
        let bound = if tr == "PGAlgebra" { format!("PGAlgebra<{n}>") } else { tr.to_string() };
        let src = format!("use tclifford::algebra::*; use tclifford::declare_algebra;\n{}\nfn need<A: {bound}>() {{}}\npub fn f() {{ need::<X>() }}\n", Decl { vis: "pub", ..d.clone() }.text("X"));
        jobs.push((src, "needs".into(), format!(r#""trait":"{tr}","n":{n},{}"#, d.head())));
    }
    // declarations compiled together; one by one only if that fails
    let parts: Vec<&[Decl]> = more.chunks(16).collect();
    let next = AtomicUsize::new(0);
    let fine: Mutex<Vec<Vec<bool>>> = Mutex::new(vec![vec![]; parts.len()]);
    std::thread::scope(|s| {
        for _ in 0..8 {
            s.spawn(|| loop {
                let i = next.fetch_add(1, Ordering::SeqCst);
                if i >= parts.len() {
                    return;
                }
                let src: String =
                    parts[i].iter().enumerate().map(|(j, d)| format!("pub mod m{j} {{ use tclifford::declare_algebra; {} }}\n", d.text("X"))).collect();
                let v = if rc.run(&format!("q{i}"), &src, false).0 {
                    vec![true; parts[i].len()]
                } else {
                    parts[i].iter().enumerate().map(|(j, d)| rc.run(&format!("q{i}_{j}"), &verdict_source(d), false).0).collect()
                };
                fine.lock().unwrap()[i] = v;
            });
        }
    });
    let fine: Vec<bool> = fine.into_inner().unwrap().concat();
    for (d, v) in more.iter().zip(&fine) {
        cx.begin("+", "Z", "program");
        cx.call("declare", &d.head(), || Ok(if *v { "\"accepted\"" } else { "\"rejected\"" }.into()));
    }

    // the probing program
    let good: Vec<Decl> = decls.iter().filter(|d| d.well_formed()).cloned().collect();

    let next = AtomicUsize::new(0);
    let verdicts: Mutex<Vec<Option<bool>>> = Mutex::new(vec![None; jobs.len()]);
    std::thread::scope(|s| {
        for _ in 0..8 {
            s.spawn(|| loop {
                let i = next.fetch_add(1, Ordering::SeqCst);
                if i >= jobs.len() {
                    return;
                }
                let v = rc.run(&format!("p{i}"), &jobs[i].0, false).0;
                verdicts.lock().unwrap()[i] = Some(v);
            });
        }
    });
    let verdicts: Vec<bool> = verdicts.into_inner().unwrap().into_iter().map(|v| v.unwrap()).collect();
    for (i, (_, op, head)) in jobs.iter().enumerate() {
        cx.begin("+", "Z", "program");
        let v = verdicts[i];
        cx.call(op, head, || Ok(if v { "\"accepted\"" } else { "\"rejected\"" }.into()));
    }

    // declarations that are accepted
    let accepted: Vec<&Decl> =
        good.iter().filter(|d| decls.iter().zip(&verdicts).any(|(e, v)| *v && e.toks == d.toks && e.names == d.names && e.vis == d.vis)).collect();
    // several programs, compiled at the same time
    let full = accepted.len();
    let accepted: Vec<&Decl> = accepted.into_iter().chain(more.iter().zip(&fine).filter(|(_, v)| **v).map(|(d, _)| d)).collect();
    let groups: Vec<Vec<(usize, &Decl)>> = (0..8).map(|g| accepted.iter().cloned().enumerate().filter(|(i, _)| i % 8 == g).collect()).collect();
    let mut srcs = vec![];
    for g in &groups {
        let mut src = PROBES.to_string();
        let mut body = String::new();
        for (i, d) in g {
            src += &format!("mod m{i} {{ use tclifford::declare_algebra; {} }}\n", Decl { vis: "pub", ..(*d).clone() }.text("X"));
            let n = d.toks.len();
            if *i >= full {
                body += &format!("    facts!(m{i}::X, {i}, 0 1 2 3 4 5 6 7 {} {} {});\n", n.max(10) - 2, n.max(10) - 1, n.max(10));
                continue;
            }
            let bl: Vec<String> = (0..4).map(|_| harness::session::rnd_blade(&mut rng, n).to_string()).collect();
            // spaces of the trait that are asked for: the small ones and those around the dimension
            let sp: Vec<String> = (0..=8).chain(n.max(11) - 2..=n.max(11) + 1).map(|i| i.to_string()).collect();
            body += &format!("    probe!(m{i}::X, {i}, {}, [{}], {});\n", if n <= 8 { "yes" } else { "no" }, bl.join(","), sp.join(" "));
        }
        src += &format!("fn main() {{\n    std::panic::set_hook(Box::new(|_| {{}}));\n{body}}}\n");
        srcs.push(src);
    }
    let outs: Vec<String> = std::thread::scope(|s| {
        let hs: Vec<_> = srcs
            .iter()
            .enumerate()
            .map(|(g, src)| {
                let rc = &rc;
                s.spawn(move || {
                    let name = format!("probe{g}");
                    let (ok, err) = rc.run(&name, src, true);
                    if !ok {
                        eprintln!("probing program does not compile: {err}");
                        std::process::exit(3);
                    }
                    let r = Command::new(rc.dir.join(format!("{name}.exe"))).output().unwrap();
                    String::from_utf8_lossy(&r.stdout).to_string()
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    for (g, out) in outs.iter().enumerate() {
        for (i, d) in &groups[g] {
            cx.begin(&d.sig(), "Z", "declared");
            let mut seen = 0;
            for l in out.lines() {
                let p: Vec<&str> = l.splitn(4, '\t').collect();
                if p[0] != i.to_string() {
                    continue;
                }
                seen += 1;
                let (op, extra) = match p[1].split_once(' ') {
                    Some((_, b)) => ("label", format!(r#","b":{b}"#)),
                    None => (if p[1] == "sbasis" { "basis" } else { p[1] }, String::new()),
                };
                let (k, v) = (p[2].to_string(), p[3].to_string());
                cx.call(op, &format!("{}{extra}", d.head()), || if k == "ok" { Ok(v) } else { Err(k) });
            }
            // a program that ended early says nothing about the rest
            if seen == 0 {
                cx.call("facts", &d.head(), || Err("nothing".into()));
            }
        }
    }
    c.finish();
}
