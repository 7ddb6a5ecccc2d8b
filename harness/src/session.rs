//! Random sessions on a register machine: sequences of calls on four registers.
use crate::coef::Co;
use crate::cx::{bj, bool_j, errk, Cx, Rng, J};
use crate::mv::*;

pub const MUL: u64 = 1;
pub const NMUL: u64 = 1 << 1;
pub const WEDGE: u64 = 1 << 2;
pub const MEET: u64 = 1 << 3;
pub const NWEDGE: u64 = 1 << 4;
pub const NMEET: u64 = 1 << 5;
pub const ADD: u64 = 1 << 6;
pub const SUB: u64 = 1 << 7;
pub const NEG: u64 = 1 << 8;
pub const SCALE: u64 = 1 << 9;
pub const REV: u64 = 1 << 10;
pub const FLIP: u64 = 1 << 11;
pub const FLIPSUB: u64 = 1 << 12;
pub const DUAL: u64 = 1 << 13;
pub const UNDUAL: u64 = 1 << 14;
pub const VDOT: u64 = 1 << 15;
pub const VSDOT: u64 = 1 << 16;
pub const MAG2: u64 = 1 << 17;
pub const POW: u64 = 1 << 18;
pub const GET: u64 = 1 << 19;
pub const SET: u64 = 1 << 20;
pub const EQ: u64 = 1 << 21;
pub const ISZERO: u64 = 1 << 22;
pub const GRADE: u64 = 1 << 23;
pub const SCALAR: u64 = 1 << 24;
pub const VECPART: u64 = 1 << 25;
pub const CONST: u64 = 1 << 26; // zero, default, one, from_scalar
pub const FROMVEC: u64 = 1 << 27;
pub const FROMIDX: u64 = 1 << 28; // also with bad indices
pub const ENUM: u64 = 1 << 29;
pub const GENUM: u64 = 1 << 30;
pub const LOAD: u64 = 1 << 31;
pub const NE: u64 = 1 << 32;
/// stored zeros of sparse values count as terms
pub const STRICT: u64 = 1 << 40;

pub const NAMES: [(&str, u64); 33] = [
    ("mul", MUL), ("nmul", NMUL), ("wedge", WEDGE), ("meet", MEET), ("nwedge", NWEDGE), ("nmeet", NMEET),
    ("add", ADD), ("sub", SUB), ("neg", NEG), ("scale", SCALE), ("rev", REV), ("flip", FLIP), ("flipsub", FLIPSUB),
    ("dual", DUAL), ("undual", UNDUAL), ("vdot", VDOT), ("vsdot", VSDOT), ("mag2", MAG2), ("pow", POW), ("get", GET),
    ("set", SET), ("eq", EQ), ("iszero", ISZERO), ("grade", GRADE), ("scalar", SCALAR), ("vecpart", VECPART),
    ("const", CONST), ("fromvec", FROMVEC), ("fromidx", FROMIDX), ("enum", ENUM), ("genum", GENUM), ("load", LOAD),
    ("ne", NE),
];

#[derive(Clone)]
pub struct Cmd<T> {
    pub op: u64,
    pub d: usize,
    pub x: usize,
    pub y: usize,
    pub n: usize,
    pub b: usize,
    pub c: T,
    pub list: Entries<T>,
    pub form: usize,
    /// calls that only some drivers make: name, arguments as JSON
    pub ext: Option<(String, String)>,
    pub ks: Vec<usize>,
}
impl<T: Co> Cmd<T> {
    pub fn new(op: u64, d: usize, x: usize) -> Self {
        Cmd { op, d, x, y: 0, n: 0, b: 0, c: T::zero(), list: vec![], form: 0, ext: None, ks: vec![] }
    }
    pub fn ext(name: &str, head: String, d: usize, x: usize) -> Self {
        Cmd { ext: Some((name.to_string(), head)), ..Cmd::new(EXT, d, x) }
    }
}
pub const EXT: u64 = 1 << 41;

/// Result of a driver-specific call
pub enum XOut<M> {
    Put(M),
    Json(String),
}
pub type Ext<T, M> = fn(&[M], &Cmd<T>) -> Result<XOut<M>, String>;
/// Generator of driver-specific commands
pub type XGen<T> = fn(&Machine<T>, &mut Rng) -> Option<Cmd<T>>;
fn no_ext<T, M>(_: &[M], _: &Cmd<T>) -> Result<XOut<M>, String> {
    Err("unsupported".into())
}

/// Random blade index below 2^dim
pub fn rnd_blade(rng: &mut Rng, dim: usize) -> usize {
    let m = if dim >= 64 { usize::MAX } else { (1usize << dim) - 1 };
    match rng.below(6) {
        0 => m & (rng.next() as usize),
        1 => m & (rng.next() as usize) & (rng.next() as usize),
        2 => 1usize << rng.below(dim),
        3 => m & !(1usize << rng.below(dim)),
        4 => m & ((1usize << rng.below(dim)) | (1usize << rng.below(dim)) | (1usize << rng.below(dim))),
        _ => m & (rng.next() as usize),
    }
}

/// a few coefficients with more digits than single precision holds
pub fn large_entries<T: Co>(rng: &mut Rng, dim: usize) -> Entries<T> {
    let mut v: Entries<T> = vec![];
    for _ in 0..1 + rng.below(3) {
        let c: Vec<i64> = (0..T::K).map(|_| (2 * rng.range(1 << 23, 44_000_000) + 1) * *rng.pick(&[-1, 1])).collect();
        v.push((rnd_blade(rng, dim), T::of(&c)));
    }
    v
}
/// A value with a term for every combination of some generators, given by a formula.
pub fn pattern<T: Co>(rng: &mut Rng, dim: usize, n: usize, d: usize) -> Cmd<T> {
    let mut gens: Vec<usize> = (0..dim).collect();
    for i in 0..dim {
        let j = i + rng.below(dim - i);
        gens.swap(i, j);
    }
    let o = if rng.chance(1, 2) { 0 } else { gens[n.min(dim)..].iter().fold(0, |a, g| if rng.chance(1, 2) { a | 1usize << g } else { a }) };
    gens.truncate(n);
    let k3 = *rng.pick(&[2, 3, 5, 7]);
    let k = [2 * rng.range(0, 9) + 1, rng.range(0, 6), k3, rng.range(0, k3 - 1)];
    let list = (0..1usize << gens.len())
        .map(|i| {
            let b = gens.iter().enumerate().fold(o, |a, (j, g)| if i >> j & 1 == 1 { a | 1 << g } else { a });
            let i = i as i64;
            let c = [(i * k[0] + k[1]) % k[2] - k[3], (i * k[0] + k[1] + i / 2) % k[2] - k[3]];
            (b, T::of(&c[..T::K]))
        })
        .collect();
    let f: Vec<String> = gens.iter().map(|g| g.to_string()).collect();
    let head = format!(r#""d":"r{d}","f":[{}],"b":{},"ks":[{},{},{},{}]"#, f.join(","), bj(o), k[0], k[1], k[2], k[3]);
    Cmd { list, op: LOAD, form: rng.below(4), ..Cmd::ext("pattern", head, d, 0) }
}
/// Blades of one value: any, few generators each, almost all generators each, within or beyond a part of the generators.
fn blade_family(rng: &mut Rng, dim: usize) -> impl Fn(&mut Rng) -> usize {
    let m = if dim >= 64 { usize::MAX } else { (1usize << dim) - 1 };
    let (kind, part) = (rng.below(7), rng.next() as usize);
    move |rng| {
        let few = |rng: &mut Rng| (0..1 + dim.ilog2() / 2).fold(m, |a, _| a & rng.next() as usize);
        match kind {
            0 | 1 => few(rng),
            2 => m & !few(rng),
            3 => m & part & rng.next() as usize,
            4 => m & (part | rng.next() as usize),
            _ => rnd_blade(rng, dim),
        }
    }
}
/// Random content of a multivector. `cap` limits the number of terms.
pub fn rnd_entries<T: Co>(rng: &mut Rng, dim: usize, cap: usize, m: i64) -> Entries<T> {
    let mut v: Entries<T> = vec![];
    let full = if dim < 20 { 1usize << dim } else { usize::MAX };
    let m = match rng.below(8) {
        0 | 1 => 1,
        2 => 2,
        3 => 20.min(4 * m),
        _ => m,
    };
    match rng.below(9) {
        0 if rng.chance(1, 3) => {}
        1 => v.push((0, T::rnd(rng, m))),
        2 => v.push((rnd_blade(rng, dim), T::rnd(rng, m))),
        3 => {
            for i in 0..dim.min(cap) {
                v.push((1 << i, T::rnd(rng, m)))
            }
        }
        4 if full <= cap => {
            // a homogeneous element
            let k = rng.below(dim + 1) as u32;
            for i in 0..full {
                if i.count_ones() == k {
                    v.push((i, T::rnd(rng, m)))
                }
            }
        }
        5 | 6 if full <= cap => {
            for i in 0..full {
                v.push((i, T::rnd(rng, m)))
            }
        }
        7 if full <= cap => {
            // even or odd part
            let k = rng.below(2) as u32;
            for i in 0..full {
                if i.count_ones() % 2 == k {
                    v.push((i, T::rnd(rng, m)))
                }
            }
        }
        _ => {
            let most = if rng.chance(1, 4) { 24 } else { 6 };
            let n = 1 + rng.below(cap.min(most));
            let blade = blade_family(rng, dim);
            for _ in 0..n {
                let b = blade(rng);
                v.push((b, T::rnd(rng, m)))
            }
        }
    }
    v
}

pub enum Out<T> {
    /// value stored into the destination register
    Put(Entries<T>),
    /// list of entries that is only observed
    List(Entries<T>),
    Co(T),
    Bool(bool),
    Seq(Vec<T>),
    Json(String),
}
pub type Apply<T> = Box<dyn FnMut(&Cmd<T>) -> Result<Out<T>, String>>;

/// The part that is instantiated for every multivector type: one library call per command.
pub fn applier<T: Co + 'static, M: MvW<T> + 'static, const P: u64>(ext: Ext<T, M>) -> Apply<T> {
    let mut r: Vec<M> = vec![];
    Box::new(move |c| {
        if r.is_empty() {
            r = vec![M::zero_(), M::zero_(), M::zero_(), M::zero_()];
        }
        let (x, y, f) = (c.x, c.y, c.form);
        let v: M = if c.op == EXT {
            match ext(&r, c)? {
                XOut::Put(m) => m,
                XOut::Json(j) => return Ok(Out::Json(j)),
            }
        } else if P & MUL != 0 && c.op == MUL {
            r[x].mul(&r[y], f)
        } else if P & NMUL != 0 && c.op == NMUL {
            r[x].nmul(&r[y])
        } else if P & WEDGE != 0 && c.op == WEDGE {
            r[x].wedge_(&r[y])
        } else if P & MEET != 0 && c.op == MEET {
            r[x].meet_(&r[y])
        } else if P & NWEDGE != 0 && c.op == NWEDGE {
            r[x].nwedge(&r[y])
        } else if P & NMEET != 0 && c.op == NMEET {
            r[x].nmeet(&r[y])
        } else if P & ADD != 0 && c.op == ADD {
            r[x].add(&r[y], f)
        } else if P & SUB != 0 && c.op == SUB {
            r[x].sub(&r[y], f)
        } else if P & NEG != 0 && c.op == NEG {
            r[x].neg(f)
        } else if P & SCALE != 0 && c.op == SCALE {
            r[x].scale(&c.c, f)
        } else if P & REV != 0 && c.op == REV {
            r[x].rev_()
        } else if P & FLIP != 0 && c.op == FLIP {
            r[x].flip_()
        } else if P & FLIPSUB != 0 && c.op == FLIPSUB {
            r[x].flip_sub(c.b)
        } else if P & DUAL != 0 && c.op == DUAL {
            r[x].dual_()
        } else if P & UNDUAL != 0 && c.op == UNDUAL {
            r[x].undual_()
        } else if P & POW != 0 && c.op == POW {
            r[x].pow_(c.n)
        } else if P & GRADE != 0 && c.op == GRADE {
            r[x].grade(c.n)
        } else if P & SET != 0 && c.op == SET {
            r[x].clone().set(c.b, c.c.clone())
        } else if P & CONST != 0 && c.op == CONST {
            match f % 4 {
                0 => M::zero_(),
                1 => M::default_(),
                2 => M::one_(),
                _ => M::fs(c.c.clone()),
            }
        } else if c.op == LOAD || c.op == FROMIDX {
            errk(match f % 4 {
                1 if P & FROMIDX != 0 => M::fi_ref(&c.list),
                2 if P & FROMIDX != 0 => M::fi_any(c.list.clone()),
                3 if P & FROMIDX != 0 => M::fi_some(&c.list),
                _ => M::fi(c.list.clone()),
            })?
        } else if P & FROMVEC != 0 && c.op == FROMVEC {
            let l: Vec<T> = c.list.iter().map(|(_, c)| c.clone()).collect();
            errk(match f % 4 {
                0 => M::fv(l),
                1 => M::fv_ref(&l),
                2 => M::fv_any(l),
                _ => M::fv_some(&l),
            })?
        } else if P & GET != 0 && c.op == GET {
            return Ok(Out::Co(r[x].get(c.b)));
        } else if P & SCALAR != 0 && c.op == SCALAR {
            return Ok(Out::Co(r[x].scalar()));
        } else if P & VECPART != 0 && c.op == VECPART {
            return Ok(Out::Seq(r[x].vecpart()));
        } else if P & EQ != 0 && c.op == EQ {
            return Ok(Out::Bool(r[x].eq_(&r[y])));
        } else if P & NE != 0 && c.op == NE {
            return Ok(Out::Bool(!r[x].ne_(&r[y])));
        } else if P & ISZERO != 0 && c.op == ISZERO {
            return Ok(Out::Bool(r[x].is_zero_()));
        } else if P & VDOT != 0 && c.op == VDOT {
            return Ok(Out::Co(r[x].vdot_(&r[y])));
        } else if P & VSDOT != 0 && c.op == VSDOT {
            return Ok(Out::Co(r[x].vsdot_(&r[y])));
        } else if P & MAG2 != 0 && c.op == MAG2 {
            return Ok(Out::Co(r[x].mag2_()));
        } else if P & ENUM != 0 && c.op == ENUM {
            return Ok(Out::List(r[x].enum_()));
        } else if P & GENUM != 0 && c.op == GENUM {
            return Ok(Out::List(r[x].genum(c.n)));
        } else {
            // PEEK
            return Ok(Out::List(r[x].entries()));
        };
        let e = v.entries();
        r[c.d] = v;
        Ok(Out::Put(e))
    })
}

/// a register, mostly one that is not zero
pub fn live<T>(rng: &mut Rng, ent: &[Entries<T>]) -> usize {
    let l: Vec<usize> = (0..ent.len()).filter(|i| !ent[*i].is_empty()).collect();
    if l.is_empty() || rng.chance(1, 12) {
        rng.below(ent.len())
    } else {
        *rng.pick(&l)
    }
}

/// One session: registers live behind `ap`, `ent` is what was read back from them.
pub struct Machine<T> {
    pub ent: Vec<Entries<T>>,
    pub ap: Apply<T>,
    pub dim: usize,
    pub strict: bool,
    pub ops: u64,
    pub xgen: Option<XGen<T>>,
    pub failed: bool,
    /// values with many terms
    pub big: bool,
    /// the null generators
    pub null: usize,
}

fn rn(i: usize) -> String {
    format!("r{i}")
}

impl<T: Co + 'static> Machine<T> {
    pub fn new<M: MvW<T> + 'static, const P: u64>(ext: Ext<T, M>, xgen: Option<XGen<T>>) -> Self {
        Machine {
            ent: vec![vec![]; 4],
            xgen,
            ap: applier::<T, M, P>(ext),
            dim: M::dim(),
            strict: M::STORE == "sparse" && P & STRICT != 0,
            ops: P | LOAD | FROMIDX,
            failed: false,
            big: false,
            null: 0,
        }
    }

    pub fn stats(&self, i: usize) -> (f64, usize) {
        let e = &self.ent[i];
        (e.iter().fold(0., |a, (_, c)| f64::max(a, c.mx())), e.len())
    }

    pub fn reg(&self, rng: &mut Rng) -> usize {
        live(rng, &self.ent)
    }
    /// some pair of terms has a product
    fn meets(&self, op: u64, x: usize, y: usize) -> bool {
        let m = if self.dim >= 64 { usize::MAX } else { (1usize << self.dim) - 1 };
        let hit = |a: usize, b: usize| match op {
            MUL | NMUL => a & b & self.null == 0,
            WEDGE | NWEDGE => a & b == 0,
            _ => a | b == m,
        };
        self.ent[x].iter().any(|(a, _)| self.ent[y].iter().any(|(b, _)| hit(*a, *b)))
    }

    /// Execute one command on the code under test and record it.
    pub fn exec(&mut self, cx: &mut Cx, c: &Cmd<T>) -> bool {
        let (d, x, y) = (c.d, c.x, c.y);
        let cc = || format!(r#""c":{}"#, c.c.enc().unwrap());
        let bb = || format!(r#""b":{}"#, bj(c.b));
        let hd = format!(r#""d":"{}""#, rn(d));
        let hx = format!(r#""x":"{}""#, rn(x));
        let name = NAMES.iter().find(|p| p.1 == c.op).map(|p| p.0).unwrap_or("peek");
        let (name, head) = match c.op {
            EXT | LOAD if c.ext.is_some() => {
                let (n, h) = c.ext.as_ref().unwrap();
                (n.as_str(), h.clone())
            }
            MUL | NMUL | WEDGE | NWEDGE | MEET | NMEET | ADD | SUB => (name, format!(r#"{hd},{hx},"y":"{}""#, rn(y))),
            NEG | REV | FLIP | DUAL | UNDUAL => (name, format!("{hd},{hx}")),
            SCALE => (name, format!("{hd},{hx},{}", cc())),
            FLIPSUB => (name, format!("{hd},{hx},{}", bb())),
            POW => (name, format!(r#"{hd},{hx},"n":{}"#, c.n)),
            GRADE => (name, format!(r#"{hd},{hx},"ks":[{}]"#, c.n.min(i32::MAX as usize))),
            SET => (name, format!("{hd},{hx},{},{}", bb(), cc())),
            CONST => match c.form % 4 {
                0 | 1 => ("zero", hd),
                2 => ("one", hd),
                _ => ("fromscalar", format!("{hd},{}", cc())),
            },
            LOAD | FROMIDX => ("fromidx", format!(r#"{hd},"l":{}"#, ent_j(&c.list, 1).unwrap())),
            FROMVEC => {
                let l: Vec<T> = c.list.iter().map(|(_, c)| c.clone()).collect();
                (name, format!(r#"{hd},"l":{}"#, vec_j(&l, 1).unwrap()))
            }
            GET => (name, format!("{hx},{}", bb())),
            SCALAR => ("get", format!(r#"{hx},"b":[]"#)),
            EQ | NE => ("eq", format!(r#"{hx},"y":"{}""#, rn(y))),
            VDOT | VSDOT => (name, format!(r#"{hx},"y":"{}""#, rn(y))),
            GENUM => ("gpeek", format!(r#"{hx},"ks":[{}]"#, c.n.min(i32::MAX as usize))),
            ENUM => ("peek", hx),
            _ => (name, hx),
        };
        let (ap, ent, strict) = (&mut self.ap, &mut self.ent, self.strict);
        let nz = |mut e: Entries<T>| {
            if !strict {
                e.retain(|(_, c)| !c.is_zero())
            }
            e
        };
        let ok = cx.call(name, &head, || match ap(c)? {
            Out::Put(e) => {
                let e = nz(e);
                let j = ent_j(&e, 1)?;
                ent[d] = e;
                Ok(j)
            }
            Out::List(e) => ent_j(&nz(e), 1),
            Out::Co(c) => c.enc(),
            Out::Bool(b) => bool_j(b),
            Out::Seq(v) => vec_j(&v, 1),
            Out::Json(j) => Ok(j),
        });
        let ok = ok || c.op == FROMIDX || c.op == FROMVEC;
        if !ok {
            self.failed = true;
        }
        ok
    }

    pub fn peek_all(&mut self, cx: &mut Cx) {
        for i in 0..4 {
            let c = Cmd::new(0, 0, i);
            self.exec(cx, &c);
        }
    }

    /// A random command whose result stays small enough to be checked.
    pub fn gen(&self, ops: u64, rng: &mut Rng, cap: usize, pairs: usize, m: i64) -> Cmd<T> {
        let dim = self.dim;
        let empty: Vec<usize> = (0..4).filter(|i| self.ent[*i].is_empty()).collect();
        let d = if empty.is_empty() || rng.chance(1, 2) { rng.below(4) } else { *rng.pick(&empty) };
        let (mut x, mut y) = (self.reg(rng), self.reg(rng));
        let mut cmd = Cmd {
            op: LOAD,
            d,
            x,
            y,
            n: 0,
            b: rnd_blade(rng, dim),
            c: T::rnd(rng, 4),
            list: vec![],
            form: rng.below(4),
            ext: None,
            ks: vec![],
        };
        if let Some(g) = self.xgen {
            if rng.chance(2, 5) {
                if let Some(c) = g(self, rng) {
                    return c;
                }
            }
        }
        let avail: Vec<u64> = NAMES.iter().map(|p| p.1).filter(|o| ops & o != 0 && *o != LOAD).collect();
        let grow = if T::K == 1 { 1. } else { T::K as f64 };
        for _ in 0..6 {
            if rng.chance(1, 5) {
                break;
            }
            if avail.is_empty() {
                break;
            }
            let op = *rng.pick(&avail);
            (x, y) = (self.reg(rng), self.reg(rng));
            if x == y && rng.chance(2, 3) {
                y = self.reg(rng);
            }
            let (mx, nx) = self.stats(x);
            let (my, ny) = self.stats(y);
            let fine = match op {
                MUL | NMUL | WEDGE | NWEDGE | MEET | NMEET => {
                    nx * ny <= pairs && mx * my * (nx.min(ny) as f64) * grow < T::MAX && (self.meets(op, x, y) || rng.chance(1, 6))
                }
                VDOT | VSDOT => mx * my * (nx.min(ny) as f64) * grow < T::MAX,
                MAG2 => mx * mx * (nx as f64) * grow < T::MAX,
                ADD | SUB => mx + my < T::MAX && (self.big || nx + ny < 4 * cap.max(64)),
                SCALE => mx * 4. * grow < T::MAX,
                POW => {
                    // choose the exponent so that the bound (n mx grow)^k stays in range
                    let q = (mx * (nx as f64) * grow).max(1.0);
                    let mut n = rng.below(9);
                    while n > 1 && (q.powi(n as i32) > T::MAX || nx * nx * n > 2 * pairs) {
                        n -= 1;
                    }
                    cmd.n = n;
                    mx < T::MAX
                }
                _ => true,
            };
            if !fine {
                continue;
            }
            (cmd.op, cmd.x, cmd.y) = (op, x, y);
            match op {
                GRADE | GENUM => {
                    let k = rng.below(dim + 2);
                    cmd.n = k + if rng.chance(1, 10) { *rng.pick(&[1 << 8, 1 << 16, 1 << 32, 1 << 63]) } else { 0 };
                }
                GET | SET | FLIPSUB => {
                    if rng.chance(1, 4) {
                        // at and beyond the limit of the algebra
                        let lim = 1usize << dim;
                        cmd.b = match rng.below(5) {
                            0 => lim,
                            1 => lim | rnd_blade(rng, dim),
                            2 => usize::MAX,
                            3 => 1usize << 63,
                            _ => lim - 1,
                        };
                    }
                    if rng.chance(1, 3) {
                        // address a blade that is present
                        let e = &self.ent[x];
                        if !e.is_empty() {
                            cmd.b = rng.pick(e).0;
                        }
                    }
                    if rng.chance(1, 4) {
                        cmd.c = T::zero();
                    }
                }
                EQ | NE => {
                    if rng.chance(1, 3) {
                        cmd.y = cmd.x
                    }
                }
                FROMIDX => {
                    cmd.list = rnd_entries(rng, dim, cap, m);
                    // duplicates, zeros and indices out of range
                    for _ in 0..rng.below(3) {
                        if !cmd.list.is_empty() {
                            let (b, _) = rng.pick(&cmd.list).clone();
                            let c = if rng.chance(1, 2) { T::zero() } else { T::rnd(rng, m) };
                            cmd.list.push((b, c));
                        }
                    }
                    if rng.chance(1, 3) {
                        let lim = 1usize << dim;
                        let bad = match rng.below(4) {
                            0 => lim,
                            1 => lim | rnd_blade(rng, dim),
                            2 => usize::MAX,
                            _ => 1usize << 63,
                        };
                        let at = rng.below(cmd.list.len() + 1);
                        let c = if rng.chance(1, 3) { T::zero() } else { T::rnd(rng, m) };
                        cmd.list.insert(at, (bad, c));
                    }
                }
                FROMVEC => {
                    let n = match rng.below(5) {
                        0 => dim + 1,
                        1 => dim - 1,
                        2 => rng.below(dim + 3),
                        _ => dim,
                    };
                    cmd.list = (0..n).map(|_| (0, T::rnd(rng, m))).collect();
                }
                _ => {}
            }
            return cmd;
        }
        cmd.op = LOAD;
        cmd.list = rnd_entries(rng, dim, cap, m);
        cmd
    }
}

pub struct Par {
    pub sessions: usize,
    pub steps: usize,
    pub cap: usize,   // terms in a loaded multivector
    pub pairs: usize, // blade pairs in one product
    pub m: i64,       // size of coefficients
}

/// Run random sessions.
pub fn run<T: Co + 'static, M: MvW<T> + 'static, const P: u64>(cx: &mut Cx, sig: &str, p: &Par) {
    run_dyn(cx, sig, p, P, M::STORE, &|| Machine::<T>::new::<M, P>(no_ext, None))
}

/// Random sessions with driver-specific calls mixed in.
pub fn run_x<T: Co + 'static, M: MvW<T> + 'static, const P: u64>(cx: &mut Cx, sig: &str, p: &Par, x: Ext<T, M>, g: XGen<T>) {
    run_dyn(cx, sig, p, P, M::STORE, &|| Machine::<T>::new::<M, P>(x, Some(g)))
}

fn nulls(sig: &str) -> usize {
    sig.bytes().enumerate().fold(0, |a, (i, c)| if c == b'0' { a | 1 << i } else { a })
}

fn run_dyn<T: Co + 'static>(cx: &mut Cx, sig: &str, p: &Par, ops: u64, store: &str, mk: &dyn Fn() -> Machine<T>) {
    for _ in 0..p.sessions {
        cx.begin(sig, T::RING, &format!("{} {}", store, T::TY));
        let mut mc = mk();
        mc.null = nulls(sig);
        let mut rng = Rng(cx.rng.next());
        // start with loaded registers
        for i in 0..2 + rng.below(3) {
            let list = rnd_entries(&mut rng, mc.dim, p.cap, p.m);
            let c = Cmd { list, form: i, ..Cmd::new(LOAD, i, 0) };
            mc.exec(cx, &c);
        }
        let mut spent = 0;
        for _ in 0..p.steps {
            let c = mc.gen(ops, &mut rng, p.cap, p.pairs, p.m);
            if c.op & (MUL | NMUL | WEDGE | NWEDGE | MEET | NMEET) != 0 {
                spent += mc.stats(c.x).1 * mc.stats(c.y).1;
            }
            if !mc.exec(cx, &c) || spent > 4 * p.pairs {
                break;
            }
        }
        cx.cost(spent);
        if !mc.failed {
            mc.peek_all(cx);
        }
    }
}

/// Random sessions on values with up to 2^n terms.
pub fn run_big<T: Co + 'static, M: MvW<T> + 'static, const P: u64>(cx: &mut Cx, sig: &str, sessions: usize, n: usize) {
    big_dyn(cx, sig, sessions, n, P, M::STORE, Machine::<T>::new::<M, P>(no_ext, None))
}
pub fn run_big_x<T: Co + 'static, M: MvW<T> + 'static, const P: u64>(cx: &mut Cx, sig: &str, sessions: usize, n: usize, x: Ext<T, M>, g: XGen<T>) {
    big_dyn(cx, sig, sessions, n, P, M::STORE, Machine::<T>::new::<M, P>(x, Some(g)))
}
fn big_dyn<T: Co + 'static>(cx: &mut Cx, sig: &str, sessions: usize, n: usize, ops: u64, store: &str, mut mc: Machine<T>) {
    mc.big = true;
    mc.null = nulls(sig);
    for _ in 0..sessions {
        cx.begin(sig, T::RING, &format!("{} {} large", store, T::TY));
        let mut rng = Rng(cx.rng.next());
        mc.failed = false;
        let full = 1usize << n.min(mc.dim);
        let n0 = if rng.chance(1, 2) { n } else { 5 + rng.below(n - 4) };
        for i in 0..4 {
            let c = if i == 0 {
                pattern(&mut rng, mc.dim, n0, i)
            } else if i == 1 && rng.chance(1, 2) {
                let n1 = 2 + rng.below(n + 2 - n0);
                pattern(&mut rng, mc.dim, n1, i)
            } else {
                Cmd { list: rnd_entries(&mut rng, mc.dim, 3, 3), ..Cmd::new(LOAD, i, 0) }
            };
            mc.exec(cx, &c);
        }
        let mut spent = 8 * full;
        for _ in 0..6 {
            let c = mc.gen(ops, &mut rng, 3, 4 * full, 3);
            spent += full + mc.stats(c.x).1;
            if c.op & (MUL | NMUL | WEDGE | NWEDGE | MEET | NMEET) != 0 {
                spent += mc.stats(c.x).1 * mc.stats(c.y).1;
            }
            if !mc.exec(cx, &c) || spent > 20 * full {
                break;
            }
        }
        cx.cost(spent);
        if !mc.failed {
            mc.peek_all(cx);
        }
    }
}

/// Replay a behaviour of the specification: a JSON array of command records.
pub fn replay<T: Co + 'static, M: MvW<T> + 'static, const P: u64>(cx: &mut Cx, sig: &str, cmds: &[J]) {
    replay_dyn(cx, sig, M::STORE, Machine::<T>::new::<M, P>(no_ext, None), cmds)
}

fn replay_dyn<T: Co + 'static>(cx: &mut Cx, sig: &str, store: &str, mut mc: Machine<T>, cmds: &[J]) {
    cx.begin(sig, T::RING, &format!("{} {} model", store, T::TY));
    for j in cmds {
        let op = j.get("op").unwrap().s();
        let reg = |k: &str| j.get(k).map(|v| v.s()[1..].parse::<usize>().unwrap()).unwrap_or(0);
        let co = |v: &J| -> T {
            match v {
                J::N(n) => T::of(&[*n]),
                J::A(a) => T::of(&a.iter().map(|x| x.n()).collect::<Vec<_>>()),
                _ => panic!("coefficient"),
            }
        };
        let code = NAMES.iter().find(|p| p.0 == op).map(|p| p.1);
        let (code, form) = match (op, code) {
            ("zero", _) => (CONST, 0),
            ("one", _) => (CONST, 2),
            ("fromscalar", _) => (CONST, 3),
            (_, Some(c)) => (c, cx.rng.below(4)),
            _ => panic!("unknown command {op}"),
        };
        if mc.ops & code == 0 {
            panic!("command {op} is not part of this driver")
        }
        let c = Cmd {
            op: code,
            d: reg("d"),
            x: reg("x"),
            y: reg("y"),
            n: match (j.get("n"), j.get("ks")) {
                (Some(v), _) => v.n() as usize,
                (_, Some(v)) => v.a()[0].n() as usize,
                _ => 0,
            },
            b: j.get("b").map(|v| v.blade()).unwrap_or(0),
            c: j.get("c").map(|v| co(v)).unwrap_or(T::zero()),
            list: match j.get("l") {
                Some(l) => l.a().iter().map(|e| (e.a()[0].blade(), co(&e.a()[1]))).collect(),
                None => vec![],
            },
            form,
            ext: None,
            ks: vec![],
        };
        if !mc.exec(cx, &c) {
            break;
        }
    }
    if !mc.failed {
        mc.peek_all(cx);
    }
}

/// Replay the behaviours produced by the model checker on dense and sparse multivectors.
#[macro_export]
macro_rules! replay_all {
    ($cx:expr, $T:ty, $P:expr) => {
        for line in std::mem::take(&mut $cx.behaviours) {
            let j = $crate::cx::J::parse(&line);
            let sig = $crate::cx::sig_of(&j.a()[0]);
            macro_rules! rp { ($A:ty, $s:expr, $d:expr) => { if $s == sig {
                replay::<$T, Multivector<$T, $A>, { $P }>($cx, $s, &j.a()[1..]);
                replay::<$T, SparseMultivector<$T, $A>, { $P }>($cx, $s, &j.a()[1..]);
            } }; }
            for_small!(rp);
        }
    };
}
