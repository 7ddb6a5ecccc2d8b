//! Trace writer and random source shared by all drivers.
use std::fs::File;
use std::io::{BufWriter, Write};
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            return 0;
        }
        (self.next() % (n as u64)) as usize
    }
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo + 1) as usize) as i64
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
}

pub type Res = Result<String, String>;

pub struct Cx {
    pub rng: Rng,
    pub scale: usize, // 1 for quick, larger for thorough
    /// this process does every part.1-th portion of the work, starting with part.0
    pub part: (usize, usize),
    turn: usize,
    shards: Vec<BufWriter<File>>,
    load: Vec<u64>,
    cur: usize,
    prog: File,
    dir: String,
    pub sessions: usize,
    pub events: usize,
    pub ops: std::collections::BTreeMap<String, usize>,
    /// calls with a result that is not zero
    pub full: std::collections::BTreeMap<String, usize>,
    pub behaviours: Vec<String>,
}

pub const SHARDS: usize = 8;

impl Cx {
    /// arguments: <out dir> <seed> <scale> [behaviours file]
    pub fn from_args() -> Cx {
        let a: Vec<String> = std::env::args().collect();
        let dir = a[1].clone();
        let seed: u64 = a[2].parse().unwrap();
        let scale: usize = a[3].parse().unwrap();
        let behaviours = match a.get(4) {
            Some(f) if f != "-" => std::fs::read_to_string(f).unwrap().lines().map(|s| s.to_string()).collect(),
            _ => vec![],
        };
        let shards: Vec<_> = (0..SHARDS)
            .map(|i| BufWriter::new(File::create(format!("{dir}/trace{i}.ndjson")).unwrap()))
            .collect();
        if std::env::var("VERIF_PANICS").is_err() {
            std::panic::set_hook(Box::new(|_| {}));
        }
        Cx {
            rng: Rng(seed.wrapping_mul(0x1234567).wrapping_add(99)),
            scale,
            part: std::env::var("VERIF_PART")
                .ok()
                .and_then(|v| v.split_once('/').map(|(a, b)| (a.parse().unwrap(), b.parse().unwrap())))
                .unwrap_or((0, 1)),
            turn: 0,
            shards,
            load: vec![0; SHARDS],
            cur: 0,
            prog: File::create(format!("{dir}/current.txt")).unwrap(),
            dir,
            sessions: 0,
            events: 0,
            ops: Default::default(),
            full: Default::default(),
            behaviours,
        }
    }

    fn line(&mut self, s: &str) {
        let w = &mut self.shards[self.cur];
        w.write_all(s.as_bytes()).unwrap();
        w.write_all(b"\n").unwrap();
        self.events += 1;
    }

    /// Whether the next portion of the work belongs to this process.
    pub fn mine(&mut self) -> bool {
        self.turn += 1;
        self.turn % self.part.1 == self.part.0
    }

    /// Account for the estimated cost of checking the session (in blade pairs).
    pub fn cost(&mut self, c: usize) {
        self.load[self.cur] += c as u64;
    }

    /// Start a new session in the least loaded shard.
    pub fn begin(&mut self, sig: &str, ring: &str, store: &str) {
        self.cur = (0..SHARDS).min_by_key(|i| self.load[*i]).unwrap();
        self.load[self.cur] += 50;
        self.sessions += 1;
        let sj = sigj(sig);
        let s = format!(r#"{{"op":"begin","sig":{sj},"ring":"{ring}","store":"{store}","k":"ok"}}"#);
        self.line(&s);
    }

    /// Perform a call on the code under test and record its outcome. Returns false if it did not return a value.
    pub fn call(&mut self, op: &str, head: &str, f: impl FnOnce() -> Res) -> bool {
        let h = if head.is_empty() { format!(r#""op":"{op}""#) } else { format!(r#""op":"{op}",{head}"#) };
        self.load[self.cur] += 10;
        *self.ops.entry(op.to_string()).or_insert(0) += 1;
        let note = format!("{:08} {{{h}}}\n", self.shards_pos());
        let n = note.len().min(4000);
        self.prog.write_all_at(&note.as_bytes()[..n], 0).ok();
        let r = catch_unwind(AssertUnwindSafe(f));
        match r {
            Ok(Ok(v)) => {
                if !["[]", "0", "[0,0]", "false"].contains(&v.as_str()) {
                    *self.full.entry(op.to_string()).or_insert(0) += 1;
                }
                self.line(&format!(r#"{{{h},"k":"ok","v":{v}}}"#));
                true
            }
            Ok(Err(k)) => {
                self.line(&format!(r#"{{{h},"k":"{k}","v":0}}"#));
                false
            }
            Err(_) => {
                self.line(&format!(r#"{{{h},"k":"panic","v":0}}"#));
                false
            }
        }
    }

    fn shards_pos(&self) -> usize {
        self.events
    }

    pub fn finish(mut self) {
        for w in self.shards.iter_mut() {
            w.flush().unwrap();
        }
        let list = |m: &std::collections::BTreeMap<String, usize>| m.iter().map(|(k, v)| format!(r#""{k}":{v}"#)).collect::<Vec<_>>().join(",");
        std::fs::write(
            format!("{}/stats.json", self.dir),
            format!(
                r#"{{"sessions":{},"events":{},"ops":{{{}}},"full":{{{}}}}}"#,
                self.sessions,
                self.events,
                list(&self.ops),
                list(&self.full)
            ),
        )
        .unwrap();
        std::fs::write(format!("{}/current.txt", self.dir), "done\n").unwrap();
    }
}

/// signature string as a JSON array
pub fn sigj(sig: &str) -> String {
    let v: Vec<&str> = sig
        .chars()
        .map(|c| match c {
            '+' => "1",
            '-' => "-1",
            _ => "0",
        })
        .collect();
    format!("[{}]", v.join(","))
}

/// blade index as a JSON array of generators
pub fn bj(idx: usize) -> String {
    let mut s = String::from("[");
    let mut x = idx;
    let mut first = true;
    while x != 0 {
        let g = x.trailing_zeros();
        if !first {
            s.push(',');
        }
        first = false;
        s.push_str(&g.to_string());
        x &= x - 1;
    }
    s.push(']');
    s
}

pub fn bool_j(b: bool) -> Res {
    Ok(if b { "true" } else { "false" }.to_string())
}

/// TLC integers are 32 bit
pub fn int_j(x: i64) -> Res {
    if x.abs() > 2_000_000_000 {
        Err("bad".into())
    } else {
        Ok(x.to_string())
    }
}

/// integer closest to x * d if x * d is one up to rounding errors
pub fn snap(x: f64, d: i64, tol: f64) -> Res {
    let y = x * (d as f64);
    if !y.is_finite() || y.abs() > 2e9 {
        return Err("bad".into());
    }
    let r = y.round();
    if (y - r).abs() > tol * (1.0 + r.abs() * 1e-6) {
        return Err("bad".into());
    }
    Ok((r as i64).to_string())
}

pub fn errk<T>(r: Result<T, tclifford::ClError>) -> Result<T, String> {
    r.map_err(|e| format!("{:?}", e))
}

/// Minimal JSON reader (used for behaviours produced by the model checker).
#[derive(Debug, Clone, PartialEq)]
pub enum J {
    N(i64),
    S(String),
    A(Vec<J>),
    O(Vec<(String, J)>),
    B(bool),
}
impl J {
    pub fn parse(s: &str) -> J {
        let b = s.as_bytes();
        let mut p = 0;
        J::val(b, &mut p)
    }
    fn ws(b: &[u8], p: &mut usize) {
        while *p < b.len() && (b[*p] as char).is_whitespace() {
            *p += 1;
        }
    }
    fn val(b: &[u8], p: &mut usize) -> J {
        J::ws(b, p);
        match b[*p] {
            b'{' => {
                *p += 1;
                let mut v = vec![];
                loop {
                    J::ws(b, p);
                    if b[*p] == b'}' {
                        *p += 1;
                        return J::O(v);
                    }
                    if b[*p] == b',' {
                        *p += 1;
                        continue;
                    }
                    let k = match J::val(b, p) {
                        J::S(s) => s,
                        _ => panic!("json key"),
                    };
                    J::ws(b, p);
                    assert!(b[*p] == b':');
                    *p += 1;
                    v.push((k, J::val(b, p)));
                }
            }
            b'[' => {
                *p += 1;
                let mut v = vec![];
                loop {
                    J::ws(b, p);
                    if b[*p] == b']' {
                        *p += 1;
                        return J::A(v);
                    }
                    if b[*p] == b',' {
                        *p += 1;
                        continue;
                    }
                    v.push(J::val(b, p));
                }
            }
            b'"' => {
                let st = *p + 1;
                *p = st;
                while b[*p] != b'"' {
                    *p += 1;
                }
                *p += 1;
                J::S(String::from_utf8_lossy(&b[st..*p - 1]).to_string())
            }
            b't' => {
                *p += 4;
                J::B(true)
            }
            b'f' => {
                *p += 5;
                J::B(false)
            }
            _ => {
                let st = *p;
                while *p < b.len() && (b[*p] == b'-' || b[*p].is_ascii_digit()) {
                    *p += 1;
                }
                J::N(std::str::from_utf8(&b[st..*p]).unwrap().parse().unwrap())
            }
        }
    }
    pub fn get(&self, k: &str) -> Option<&J> {
        match self {
            J::O(v) => v.iter().find(|(n, _)| n == k).map(|(_, x)| x),
            _ => None,
        }
    }
    pub fn n(&self) -> i64 {
        match self {
            J::N(x) => *x,
            _ => panic!("number expected"),
        }
    }
    pub fn s(&self) -> &str {
        match self {
            J::S(x) => x,
            _ => panic!("string expected"),
        }
    }
    pub fn a(&self) -> &[J] {
        match self {
            J::A(x) => x,
            _ => panic!("array expected"),
        }
    }
    /// array of generators to index
    pub fn blade(&self) -> usize {
        self.a().iter().fold(0, |acc, g| acc | (1usize << g.n()))
    }
}

/// signature string of a "begin" record
pub fn sig_of(j: &J) -> String {
    j.get("sig").unwrap().a().iter().map(|x| match x.n() { 1 => '+', -1 => '-', _ => '0' }).collect()
}
