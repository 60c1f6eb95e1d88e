use multicalc::signal_processing::{MovingAverage, RunningMedian, SavitzkyGolay};
use multicalc::Numeric;
use vharness::*;

/// A finite sample far off the lattice.
const HUGE: i64 = 2_000_000_003;
trait Win {
    fn feed(&mut self, x: f64) -> f64;
    fn reset(&mut self);
    fn value(&self) -> f64;
}
impl<const W: usize, T: Fl> Win for MovingAverage<W, T> {
    fn feed(&mut self, x: f64) -> f64 {
        self.filter(T::from_f64(x)).into()
    }
    fn reset(&mut self) {
        MovingAverage::reset(self);
    }
    fn value(&self) -> f64 {
        MovingAverage::value(self).into()
    }
}
impl<const W: usize, T: Fl> Win for RunningMedian<W, T> {
    fn feed(&mut self, x: f64) -> f64 {
        self.filter(T::from_f64(x)).into()
    }
    fn reset(&mut self) {
        RunningMedian::reset(self);
    }
    fn value(&self) -> f64 {
        RunningMedian::value(self).into()
    }
}
struct D<T> {
    w: Option<Box<dyn Win>>,
    avg: bool,
    p: std::marker::PhantomData<T>,
}
fn mk<const W: usize, T: Fl>(avg: bool) -> Result<Box<dyn Win>, multicalc::error::SignalError> {
    if avg {
        MovingAverage::<W, T>::new().map(|x| Box::new(x) as Box<dyn Win>)
    } else {
        RunningMedian::<W, T>::new().map(|x| Box::new(x) as Box<dyn Win>)
    }
}
impl<T: Fl> Driver for D<T> {
    fn apply(&mut self, op: &str, a: &[i64]) -> Obs {
        // Averages are of samples times 420, so that every window length divides them.
        let sc = if self.avg { 420.0 } else { 1.0 };
        match op {
            "avg" | "med" => {
                self.avg = op == "avg";
                self.w = None;
                let r = match a[0] {
                    0 => mk::<0, T>(self.avg),
                    1 => mk::<1, T>(self.avg),
                    2 => mk::<2, T>(self.avg),
                    3 => mk::<3, T>(self.avg),
                    4 => mk::<4, T>(self.avg),
                    5 => mk::<5, T>(self.avg),
                    6 => mk::<6, T>(self.avg),
                    7 => mk::<7, T>(self.avg),
                    9 => mk::<9, T>(self.avg),
                    15 => mk::<15, T>(self.avg),
                    21 => mk::<21, T>(self.avg),
                    _ => panic!("HARNESS window"),
                };
                res(r, |w| {
                    let v = vec![enc(w.value(), 1.0)];
                    self.w = Some(w);
                    v
                })
            }
            _ => {
                let Some(w) = self.w.as_mut() else { return tag("none", vec![]) };
                let e = |x: f64| enc_tol(x, 1.0, 0.01);
                match op {
                    "feed" => {
                        let x = if a[0] == HUGE { 1e30 } else { dec(a[0], 1.0) * sc };
                        let y = w.feed(x);
                        ok(vec![e(y), e(w.value())])
                    }
                    "value" => ok(vec![e(w.value())]),
                    "reset" => {
                        w.reset();
                        ok(vec![e(w.value())])
                    }
                    _ => panic!("HARNESS"),
                }
            }
        }
    }
}
fn generate(g: &mut Rng, s: &mut Sess) {
    let avg = g.chance(1, 2);
    // 420 divides by each of these; 9 is odd only
    let n = if avg { g.of(&[1, 2, 3, 4, 5, 6, 7, 15, 21]) } else { g.of(&[1, 3, 5, 7, 9, 15, 21]) };
    s.run(if avg { "avg" } else { "med" }, &[n]);
    let r = g.of(&[1, 3, 60]);
    let wild = g.chance(1, 3);
    for _ in 0..g.int(3, 50) {
        if g.chance(1, 25) {
            s.run("reset", &[]);
        }
        if g.chance(1, 10) {
            s.run("value", &[]);
        }
        let x = if avg && wild && g.chance(1, 12) {
            g.of(&[INF, NINF, NAN, HUGE, HUGE])
        } else if !avg && g.chance(1, 8) {
            g.of(&[INF, NINF])
        } else {
            g.int(-r, r)
        };
        s.run("feed", &[x]);
    }
}

trait Sg {
    fn feed(&mut self, x: f64);
    fn reset(&mut self);
    fn obs(&self) -> [f64; 3];
    fn delay(&self) -> f64;
}
impl<const W: usize, const N: usize> Sg for SavitzkyGolay<W, N, f64> {
    fn feed(&mut self, x: f64) {
        let y = self.filter(x);
        assert!(y.to_bits() == self.value().to_bits(), "filter() and value() differ");
    }
    fn reset(&mut self) {
        SavitzkyGolay::reset(self);
    }
    fn obs(&self) -> [f64; 3] {
        [self.value(), self.first_derivative(), self.second_derivative()]
    }
    fn delay(&self) -> f64 {
        SavitzkyGolay::delay(self)
    }
}
struct S {
    f: Option<Box<dyn Sg>>,
    dt: f64,
    terms: i64,
}
fn sg<const W: usize, const N: usize>(c: bool, dt: f64) -> Result<Box<dyn Sg>, multicalc::error::SignalError> {
    let r = if c { SavitzkyGolay::<W, N, f64>::centered(dt) } else { SavitzkyGolay::<W, N, f64>::latest(dt) };
    r.map(|x| Box::new(x) as Box<dyn Sg>)
}
impl Driver for S {
    fn apply(&mut self, op: &str, a: &[i64]) -> Obs {
        if op == "centered" || op == "latest" {
            self.f = None;
            self.dt = dec(a[2], 8.0);
            self.terms = a[1];
            let (c, dt) = (op == "centered", self.dt);
            macro_rules! pick { ($(($w:literal,$n:literal)),*) => { match (a[0], a[1]) { $(($w,$n) => sg::<$w,$n>(c, dt),)* _ => panic!("HARNESS sg") } } }
            let r = pick!((0, 1), (1, 0), (1, 1), (2, 1), (2, 2), (2, 3), (3, 1), (3, 2), (3, 3), (3, 4), (4, 1), (4, 2), (4, 3), (4, 4), (5, 1), (5, 2), (5, 3), (5, 4), (5, 5), (7, 1), (7, 2), (7, 3), (7, 4), (7, 5), (9, 4), (9, 5));
            return res(r, |f| {
                let o = f.obs();
                let v = vec![enc_tol(f.delay(), 8.0, 1e-9), enc(o[0], 1.0), enc(o[1], 1.0), enc(o[2], 1.0)];
                self.f = Some(f);
                v
            });
        }
        let Some(f) = self.f.as_mut() else { return tag("none", vec![]) };
        match op {
            "feed" => f.feed(a[0] as f64),
            "reset" => f.reset(),
            "curve" => {}
            _ => panic!("HARNESS"),
        }
        if op == "feed" && self.terms > 3 {
            return ok(vec![]);
        }
        let o = f.obs();
        let t = 1e-4;
        ok(vec![enc_tol(o[0], 1.0, t), enc_tol(o[1], self.dt, t), enc_tol(o[2], self.dt * self.dt / 2.0, t)])
    }
}
fn sg_generate(g: &mut Rng, s: &mut Sess) {
    let c = g.chance(1, 2);
    let op = if c { "centered" } else { "latest" };
    if g.chance(1, 15) {
        let (w, n) = *g.pick(&[(0, 1), (1, 0), (2, 1), (2, 3), (3, 4), (4, 3), (5, 3)]);
        s.run(op, &[w, n, g.of(&[NAN, INF, -1, 0, 1, 1])]);
        return;
    }
    let dt = g.of(&[1, 2, 4, 8, 16]);
    if g.chance(2, 3) {
        let (w, n) = *g.pick(&[(1, 1), (2, 1), (2, 2), (3, 1), (3, 2), (3, 3), (4, 1), (4, 2), (4, 3), (5, 1), (5, 2), (5, 3), (7, 1), (7, 2), (7, 3)]);
        if s.run(op, &[w, n, dt]).r != "ok" {
            return;
        }
        // Multiples that give every least-squares coefficient an integer value.
        let l = match w {
            4 => 20,
            5 => 70,
            7 => 84,
            _ => 12,
        };
        for _ in 0..g.int(3, 25) {
            if g.chance(1, 20) {
                s.run("reset", &[]);
            }
            s.run("feed", &[l * g.int(-9, 9)]);
        }
        return;
    }
    let (w, n) = *g.pick(&[(4i64, 4i64), (5, 4), (5, 5), (7, 4), (7, 5), (9, 4), (9, 5)]);
    if s.run(op, &[w, n, dt]).r != "ok" {
        return;
    }
    // Samples of a curve: once the window is full of it, value and derivatives are the curve's own.
    let coef: Vec<i64> = (0..n).map(|_| g.int(-3, 3)).collect();
    let rp = if c { (w - 1) / 2 } else { w - 1 };
    let f = |t: i64| coef.iter().rev().fold(0, |acc, k| acc * t + k);
    for _ in 0..g.int(0, 4) {
        s.run("feed", &[g.int(-50, 50)]);
    }
    let total = w + g.int(0, 3);
    for i in 0..total {
        s.run("feed", &[f(i)]);
        if i + 1 >= w {
            // Taylor shift of the curve to the read position of the window ending at i.
            let t0 = i - (w - 1) + rp;
            let mut sh = coef.clone();
            let m = sh.len();
            for j in 0..m {
                for k in (j..m - 1).rev() {
                    sh[k] += t0 * sh[k + 1];
                }
            }
            s.run("curve", &sh);
        }
    }
}
fn main() {
    main_with(&[
        Model {
            name: "window",
            make: |t| {
                if t == "f32" {
                    Box::new(D::<f32> { w: None, avg: false, p: Default::default() })
                } else {
                    Box::new(D::<f64> { w: None, avg: false, p: Default::default() })
                }
            },
            gen: generate,
        },
        Model { name: "savgol", make: |_| Box::new(S { f: None, dt: 1.0, terms: 0 }), gen: sg_generate },
    ]);
}
