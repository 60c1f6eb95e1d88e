//! Harness kit: one `Driver` per specification module applies the specification's operations to the
//! real code. `replay` runs operation sequences emitted by TLC and compares every observation;
//! `record` runs generated sequences and logs what the real code did, for TLC to validate.
use std::collections::BTreeMap;
use std::io::{BufRead, BufReader, BufWriter, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub const NAN: i64 = 2_000_000_001;
pub const INF: i64 = 2_000_000_002;
pub const NINF: i64 = -2_000_000_002;
pub const OFF: i64 = 2_000_000_009;
const BIG: f64 = 1_900_000_000.0;

/// One observation: outcome tag and integer values.
#[derive(Clone, Debug, PartialEq)]
pub struct Obs {
    pub r: String,
    pub v: Vec<i64>,
}
pub fn ok(v: Vec<i64>) -> Obs {
    Obs { r: "ok".into(), v }
}
pub fn tag(r: &str, v: Vec<i64>) -> Obs {
    Obs { r: r.into(), v }
}
pub fn err<E: std::fmt::Debug>(e: E) -> Obs {
    // Variant name(s) only: `Signal(NonFinite)` stays, payload fields are dropped.
    let s = format!("{e:?}");
    let s = s.split('{').next().unwrap_or("").trim().to_string();
    Obs { r: s, v: vec![] }
}
pub fn res<T, E: std::fmt::Debug>(x: Result<T, E>, f: impl FnOnce(T) -> Vec<i64>) -> Obs {
    match x {
        Ok(t) => ok(f(t)),
        Err(e) => err(e),
    }
}

/// Exact lattice encoding: `x` must be `k / scale` for an integer `k`.
pub fn enc(x: f64, scale: f64) -> i64 {
    enc_tol(x, scale, 0.0)
}
/// Lattice encoding with an absolute tolerance `tol`, in lattice units.
pub fn enc_tol(x: f64, scale: f64, tol: f64) -> i64 {
    if x.is_nan() {
        return NAN;
    }
    if x == f64::INFINITY {
        return INF;
    }
    if x == f64::NEG_INFINITY {
        return NINF;
    }
    let y = x * scale;
    if y.abs() > BIG {
        return OFF;
    }
    let k = y.round();
    if (y - k).abs() > tol {
        return OFF;
    }
    k as i64
}
/// Argument decoding: inverse of `enc`, sentinels included.
pub fn dec(k: i64, scale: f64) -> f64 {
    match k {
        NAN => f64::NAN,
        INF => f64::INFINITY,
        NINF => f64::NEG_INFINITY,
        _ => k as f64 / scale,
    }
}
pub fn b(x: bool) -> i64 {
    i64::from(x)
}

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0xD1B5_4A32_D192_ED03)
    }
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        self.u64() % n
    }
    /// Inclusive range.
    pub fn int(&mut self, lo: i64, hi: i64) -> i64 {
        lo + (self.u64() % ((hi - lo + 1) as u64)) as i64
    }
    pub fn pick<'a, X>(&mut self, xs: &'a [X]) -> &'a X {
        &xs[self.below(xs.len() as u64) as usize]
    }
    pub fn of(&mut self, xs: &[i64]) -> i64 {
        *self.pick(xs)
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn ints(&mut self, n: usize, lo: i64, hi: i64) -> Vec<i64> {
        (0..n).map(|_| self.int(lo, hi)).collect()
    }
    pub fn shuffle<X>(&mut self, xs: &mut [X]) {
        for i in (1..xs.len()).rev() {
            let j = self.below(i as u64 + 1) as usize;
            xs.swap(i, j);
        }
    }
}

pub trait Driver {
    fn apply(&mut self, op: &str, a: &[i64]) -> Obs;
}
pub type Make = fn(&str) -> Box<dyn Driver>;
pub struct Model {
    pub name: &'static str,
    pub make: Make,
    pub gen: fn(&mut Rng, &mut Sess),
}

#[derive(Clone)]
pub struct Ev {
    pub op: String,
    pub a: Vec<i64>,
    pub obs: Obs,
}
fn ints(v: &[i64]) -> String {
    let s: Vec<String> = v.iter().map(|x| x.to_string()).collect();
    format!("[{}]", s.join(","))
}
fn esc(s: &str) -> String {
    s.replace('\\', "\\\\").replace('"', "\\\"")
}
fn ev_json(e: &Ev) -> String {
    format!(
        "{{\"op\":\"{}\",\"a\":{},\"r\":\"{}\",\"v\":{}}}",
        e.op,
        ints(&e.a),
        esc(&e.obs.r),
        ints(&e.obs.v)
    )
}
fn sess_json(id: &str, ev: &[Ev]) -> String {
    let s: Vec<String> = ev.iter().map(ev_json).collect();
    format!("{{\"id\":\"{}\",\"ev\":[{}]}}", id, s.join(","))
}

/// A session being recorded.
pub struct Sess {
    drv: Box<dyn Driver>,
    pub ev: Vec<Ev>,
    pub dead: bool,
    /// Scalar type under test ("f64", "f32", ...), so that generators can adapt their ranges.
    pub ty: String,
    pub thorough: bool,
}
impl Sess {
    pub fn run(&mut self, op: &str, a: &[i64]) -> Obs {
        if self.dead {
            return tag("dead", vec![]);
        }
        let obs = guarded(&mut *self.drv, op, a, &self.ev);
        if obs.r == "panic" {
            self.dead = true;
        }
        self.ev.push(Ev { op: op.into(), a: a.to_vec(), obs: obs.clone() });
        obs
    }
}

struct Pending {
    since: Instant,
    prefix: Vec<Ev>,
    op: String,
    a: Vec<i64>,
}
static PENDING: Mutex<Option<Pending>> = Mutex::new(None);
static OUT: Mutex<Option<BufWriter<std::fs::File>>> = Mutex::new(None);
static CUR: Mutex<String> = Mutex::new(String::new());
const HANG: Duration = Duration::from_secs(20);

fn guarded(d: &mut dyn Driver, op: &str, a: &[i64], prefix: &[Ev]) -> Obs {
    *PENDING.lock().unwrap() =
        Some(Pending { since: Instant::now(), prefix: prefix.to_vec(), op: op.into(), a: a.to_vec() });
    let r = catch_unwind(AssertUnwindSafe(|| d.apply(op, a)));
    *PENDING.lock().unwrap() = None;
    match r {
        Ok(o) => o,
        Err(p) => {
            let m = p
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_default();
            if m.starts_with("HARNESS") {
                eprintln!("{m}");
                std::process::exit(3);
            }
            eprintln!("panic in {op} {a:?}: {m}");
            tag("panic", vec![])
        }
    }
}
fn emit(line: &str) {
    if let Some(o) = OUT.lock().unwrap().as_mut() {
        let _ = writeln!(o, "{line}");
    }
}
fn flush() {
    if let Some(o) = OUT.lock().unwrap().as_mut() {
        let _ = o.flush();
    }
}
/// A call that does not return is an observation like any other: it is logged as `hang`.
fn watchdog(replaying: bool) {
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(500));
        let g = PENDING.lock().unwrap();
        if let Some(p) = g.as_ref() {
            if p.since.elapsed() > HANG {
                let mut ev = p.prefix.clone();
                ev.push(Ev { op: p.op.clone(), a: p.a.clone(), obs: tag("hang", vec![]) });
                let id = CUR.lock().unwrap().clone();
                if replaying {
                    emit(&format!("{{\"mismatch\":{},\"want\":{{\"r\":\"return\",\"v\":[]}}}}", sess_json(&id, &ev)));
                } else {
                    emit(&sess_json(&id, &ev));
                }
                flush();
                std::process::exit(0);
            }
        }
    });
}

// --- minimal JSON -----------------------------------------------------------------------------
#[derive(Debug, Clone)]
pub enum J {
    N(i64),
    S(String),
    A(Vec<J>),
    O(BTreeMap<String, J>),
}
impl J {
    pub fn get(&self, k: &str) -> Option<&J> {
        if let J::O(m) = self { m.get(k) } else { None }
    }
    pub fn s(&self) -> &str {
        if let J::S(s) = self { s } else { "" }
    }
    pub fn ints(&self) -> Vec<i64> {
        match self {
            J::A(v) => v.iter().map(|x| if let J::N(n) = x { *n } else { panic!("HARNESS int expected") }).collect(),
            _ => vec![],
        }
    }
}
struct P<'a>(&'a [u8], usize);
impl P<'_> {
    fn ws(&mut self) {
        while self.1 < self.0.len() && self.0[self.1].is_ascii_whitespace() {
            self.1 += 1;
        }
    }
    fn val(&mut self) -> J {
        self.ws();
        match self.0[self.1] {
            b'"' => J::S(self.string()),
            b'[' => {
                self.1 += 1;
                let mut v = vec![];
                loop {
                    self.ws();
                    if self.0[self.1] == b']' {
                        self.1 += 1;
                        return J::A(v);
                    }
                    if self.0[self.1] == b',' {
                        self.1 += 1;
                        continue;
                    }
                    v.push(self.val());
                }
            }
            b'{' => {
                self.1 += 1;
                let mut m = BTreeMap::new();
                loop {
                    self.ws();
                    match self.0[self.1] {
                        b'}' => {
                            self.1 += 1;
                            return J::O(m);
                        }
                        b',' => self.1 += 1,
                        _ => {
                            let k = self.string();
                            self.ws();
                            self.1 += 1;
                            let v = self.val();
                            m.insert(k, v);
                        }
                    }
                }
            }
            _ => {
                let s = self.1;
                while self.1 < self.0.len() && matches!(self.0[self.1], b'-' | b'0'..=b'9') {
                    self.1 += 1;
                }
                let t = std::str::from_utf8(&self.0[s..self.1]).unwrap();
                J::N(t.parse().unwrap_or_else(|_| panic!("HARNESS bad json near {s}: {}", String::from_utf8_lossy(self.0))))
            }
        }
    }
    fn string(&mut self) -> String {
        self.1 += 1;
        let mut o = vec![];
        while self.0[self.1] != b'"' {
            if self.0[self.1] == b'\\' {
                self.1 += 1;
            }
            o.push(self.0[self.1]);
            self.1 += 1;
        }
        self.1 += 1;
        String::from_utf8(o).unwrap()
    }
}
pub fn parse(s: &str) -> J {
    P(s.as_bytes(), 0).val()
}

/// `BIN MODEL replay TESTS OUT TYPE` | `BIN MODEL record SEED N OUT TYPE TIER`
pub fn main_with(models: &[Model]) {
    let arg: Vec<String> = std::env::args().collect();
    let m = models.iter().find(|m| m.name == arg[1]).unwrap_or_else(|| {
        eprintln!("no model {}", arg[1]);
        std::process::exit(3)
    });
    std::panic::set_hook(Box::new(|_| {}));
    match arg[2].as_str() {
        "replay" => {
            watchdog(true);
            let f = BufReader::new(std::fs::File::open(&arg[3]).unwrap());
            *OUT.lock().unwrap() = Some(BufWriter::new(std::fs::File::create(&arg[4]).unwrap()));
            let ty = &arg[5];
            let (mut tests, mut events, mut bad) = (0u64, 0u64, 0u64);
            for (n, line) in f.lines().enumerate() {
                let line = line.unwrap();
                if line.is_empty() {
                    continue;
                }
                let J::A(evs) = parse(&line) else { continue };
                *CUR.lock().unwrap() = format!("replay{n}-{ty}");
                let mut d = (m.make)(ty);
                let mut done = vec![];
                for e in &evs {
                    let op = e.get("op").unwrap().s().to_string();
                    let a = e.get("a").map(|x| x.ints()).unwrap_or_default();
                    let want = Obs { r: e.get("r").unwrap().s().into(), v: e.get("v").map(|x| x.ints()).unwrap_or_default() };
                    let got = guarded(&mut *d, &op, &a, &done);
                    events += 1;
                    let same = got == want;
                    done.push(Ev { op, a, obs: got });
                    if !same {
                        bad += 1;
                        emit(&format!(
                            "{{\"mismatch\":{},\"want\":{{\"r\":\"{}\",\"v\":{}}}}}",
                            sess_json(&format!("replay{n}-{ty}"), &done),
                            esc(&want.r),
                            ints(&want.v)
                        ));
                        break;
                    }
                }
                tests += 1;
            }
            emit(&format!("{{\"tests\":{tests},\"events\":{events},\"bad\":{bad}}}"));
            flush();
        }
        "drive" => {
            // Inputs chosen by TLC, observations recorded for the relational trace specification.
            watchdog(false);
            let f = BufReader::new(std::fs::File::open(&arg[3]).unwrap());
            *OUT.lock().unwrap() = Some(BufWriter::new(std::fs::File::create(&arg[4]).unwrap()));
            let ty = &arg[5];
            for (n, line) in f.lines().enumerate() {
                let line = line.unwrap();
                if line.is_empty() {
                    continue;
                }
                let J::A(evs) = parse(&line) else { continue };
                *CUR.lock().unwrap() = format!("drive{n}-{ty}");
                let mut s = Sess { drv: (m.make)(ty), ev: vec![], dead: false, ty: ty.clone(), thorough: false };
                for e in &evs {
                    let op = e.get("op").unwrap().s().to_string();
                    let a = e.get("a").map(|x| x.ints()).unwrap_or_default();
                    s.run(&op, &a);
                }
                emit(&sess_json(&format!("drive{n}-{ty}"), &s.ev));
            }
            flush();
        }
        "record" => {
            watchdog(false);
            let seed: u64 = arg[3].parse().unwrap();
            let n: u64 = arg[4].parse().unwrap();
            *OUT.lock().unwrap() = Some(BufWriter::new(std::fs::File::create(&arg[5]).unwrap()));
            let ty = &arg[6];
            let thorough = arg.get(7).map(|s| s == "thorough").unwrap_or(false);
            for i in 0..n {
                let id = format!("{seed}-{i}-{ty}");
                *CUR.lock().unwrap() = id.clone();
                let mut rng = Rng::new(seed.wrapping_mul(1_000_003).wrapping_add(i).wrapping_add(if ty == "f64" { 0 } else { 77 }));
                let mut s = Sess { drv: (m.make)(ty), ev: vec![], dead: false, ty: ty.clone(), thorough };
                (m.gen)(&mut rng, &mut s);
                emit(&sess_json(&id, &s.ev));
            }
            flush();
        }
        _ => std::process::exit(3),
    }
}

/// The floats the drivers are generic over.
pub trait Fl: multicalc::Numeric + Into<f64> + Send + 'static {}
impl Fl for f32 {}
impl Fl for f64 {}
