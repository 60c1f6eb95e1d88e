use multicalc::error::SolveError;
use multicalc::numerical_derivative::{AutoDiffMulti, Jacobian};
use multicalc::optimization::*;
use multicalc::scalar::{Numeric, VectorFn};
use std::cell::RefCell;
use vharness::*;
fn two<S: Numeric>(n: i32) -> S {
    S::from_f64(2f64.powi(n / 2)) * S::from_f64(2f64.powi(n - n / 2))
}
/// Residuals that remember where the solver itself (not a dual number) asked, and what they were.
struct Asked<'a> {
    op: &'a str,
    a: &'a [i64],
    e: i32,
    g: i32,
    size: usize,
    log: RefCell<Vec<(Vec<f64>, Vec<f64>)>>,
}
impl Asked<'_> {
    fn at<S: Numeric>(&self, k: &[S]) -> Vec<S> {
        let f = |x: i64| S::from_f64(dec(x, 1.0));
        let a = self.a;
        match self.op {
            "linear" => {
                let (n, m) = (a[0] as usize, a[1] as usize);
                (0..m).map(|i| (0..n).fold(-f(a[2 + m * n + i]), |s, j| s + f(a[2 + i * n + j]) * k[j])).collect()
            }
            "walk" => {
                let p = a[2..].chunks(7).find(|p| p[0] == INF || k[0] < S::from_f64(dec(p[0], 256.0))).unwrap_or(&a[a.len() - 7..]);
                let (dx, dy) = (k[0] - S::from_f64(dec(p[5], 256.0)), k[1] - S::from_f64(dec(p[6], 256.0)));
                vec![f(p[1]) * dx + f(p[2]) * dy, f(p[3]) * dx + f(p[4]) * dy]
            }
            _ => {
                let (p, x, y) = (f(a[1]), k[0], k[1]);
                match a[0] {
                    0 => vec![p * f(5) * (y - x * x), f(1) - x, f(0)],
                    1 => vec![x * x + y - p, x + y * y - f(7), x * y * S::from_f64(0.25)],
                    2 => vec![x.abs() + y, x - y.abs() + p, p],
                    3 => vec![f(3) * x.atan(), y.sin() + p, x - y],
                    4 => vec![(x * S::from_f64(0.25)).exp() - y, y * y - p, x],
                    5 => vec![x.log() - y, y - p, x * y],
                    _ => vec![p / x, y.sqrt() - x, y - p],
                }
            }
        }
    }
}
impl<const N: usize, const M: usize> VectorFn<N, M> for Asked<'_> {
    fn eval<S: Numeric>(&self, x: &[S; N]) -> [S; M] {
        let k = x.map(|x| x * two(-self.e));
        let y = self.at(&k);
        let y: [S; M] = std::array::from_fn(|i| y[i] * two(self.g));
        if size_of::<S>() == self.size {
            let f = |z: &S| -> f64 { unsafe { if self.size == 4 { std::mem::transmute_copy::<S, f32>(z) as f64 } else { std::mem::transmute_copy::<S, f64>(z) } } };
            self.log.borrow_mut().push((x.iter().map(f).collect(), y.iter().map(f).collect()));
        }
        y
    }
}
struct D<T: Fl> {
    c: [i64; 6],
    p: std::marker::PhantomData<T>,
}
fn norm(v: &[f64]) -> f64 {
    let big = v.iter().fold(0f64, |m, x| m.max(x.abs()));
    if big == 0.0 || !big.is_finite() { big } else { big * v.iter().map(|x| (x / big) * (x / big)).sum::<f64>().sqrt() }
}
fn gap(a: &[f64], b: &[f64]) -> f64 {
    norm(&a.iter().zip(b).map(|(a, b)| a - b).collect::<Vec<_>>())
}
trait Solves: Fl {
    fn go<const N: usize, const M: usize>(c: &[i64; 6], f: &Asked, x: &[Self; N]) -> Result<MinimizationReport<N, Self>, SolveError>;
    /// the largest cosine between the residuals and a column
    fn lean<const N: usize, const M: usize>(f: &Asked, x: &[Self; N]) -> f64;
}
macro_rules! solves {
    ($($t:ty)*) => {$(impl Solves for $t {
        fn go<const N: usize, const M: usize>(c: &[i64; 6], f: &Asked, x: &[$t; N]) -> Result<MinimizationReport<N, $t>, SolveError> {
            let d = AutoDiffMulti::<$t>::new();
            let n = c[1] as usize;
            if c[0] == 2 {
                LevenbergMarquardt::from_derivator(d).with_patience(n).with_stepbound((2.0 as $t).powi(c[2] as i32)).with_scale_diag(c[3] == 1).minimize::<_, N, M>(f, x)
            } else {
                GaussNewton::from_derivator(d).with_patience(n).with_backtracking(c[0] == 1).minimize::<_, N, M>(f, x)
            }
        }
        fn lean<const N: usize, const M: usize>(f: &Asked, x: &[$t; N]) -> f64 {
            let j = Jacobian::from_derivator(AutoDiffMulti::<$t>::new()).evaluate::<_, M, N>(f, x).unwrap();
            let r: [$t; M] = f.eval(x);
            let r = r.map(|r| r as f64);
            (0..N).map(|c| {
                let col: Vec<f64> = (0..M).map(|i| j[(i, c)] as f64).collect();
                let (a, b) = (norm(&col), norm(&r));
                // a product below the smallest float settles nothing
                if a * b < f64::from(<$t>::MIN_POSITIVE) * 1e9 { 0.0 } else { (0..M).map(|i| col[i] / a * (r[i] / b)).sum::<f64>().abs() }
            }).fold(0.0, f64::max)
        }
    })*};
}
solves!(f32 f64);
impl<T: Solves> D<T> {
    fn run<const N: usize, const M: usize>(&self, op: &str, a: &[i64], x: [f64; N]) -> Obs {
        let (e, g) = (self.c[4] as i32, self.c[5] as i32);
        let f = Asked { op, a, e, g, size: size_of::<T>(), log: RefCell::new(vec![]) };
        let x = x.map(|x| T::from_f64(x) * two(e));
        let eps: f64 = T::EPSILON.into();
        let r = T::go::<N, M>(&self.c, &f, &x);
        let log = f.log.take();
        let most = self.c[1] as usize * match self.c[0] { 0 => 1, 1 => 21, _ => 100 } + 1;
        let r = match r {
            Err(SolveError::DidNotConverge { iters }) => return if iters == log.len() && iters <= most { err(SolveError::DidNotConverge { iters }) } else { tag("miscounted", vec![iters as i64, log.len() as i64]) },
            Err(e) => return err(e),
            Ok(r) => r,
        };
        let at: Vec<f64> = r.solution.iter().map(|x| (*x).into()).collect();
        let cost = |r: &[f64]| { let n = norm(&r.iter().map(|r| r * 2f64.powi(-g / 2) * 2f64.powi(-g + g / 2)).collect::<Vec<_>>()); 0.5 * n * n };
        let told: f64 = r.objective_function.into();
        let here = log.iter().find(|p| p.0 == at);
        // the report's own cost is squared in the solver's units, and may underflow there
        let told = told * 2f64.powi(-2 * (g / 2)) * 2f64.powi(-2 * (g - g / 2));
        let lower = (2f64).powi(if size_of::<T>() == 4 { -140 } else { -1060 }) * 2f64.powi(-2 * (g / 2)) * 2f64.powi(-2 * (g - g / 2));
        let same = here.is_some_and(|p| (cost(&p.1) - told).abs() <= 16.0 * eps * told + lower);
        // a step is taken once it gains a ten-thousandth of what was foreseen, so only such gains may be passed over
        let least = log.iter().map(|p| cost(&p.1)).fold(cost(&log[0].1), f64::min);
        let better = here.is_some_and(|p| cost(&p.1) <= cost(&log[0].1) * (1.0 + 4.0 * eps) && cost(&p.1) <= least * (1.0 + 2e-4) + lower);
        let tol = 30.0 * eps;
        let why = match r.termination {
            TerminationReason::Gtol => T::lean::<N, M>(&f, &r.solution) <= tol * 2.0,
            TerminationReason::Xtol if self.c[0] == 0 => gap(&log[log.len() - 1].0, &log[log.len() - 2].0) <= (tol + 8.0 * eps) * norm(&at),
            TerminationReason::Ftol if self.c[0] == 0 => (norm(&log[log.len() - 1].1) - norm(&log[log.len() - 2].1)).abs() <= (tol + 8.0 * eps) * norm(&log[log.len() - 2].1),
            _ => true,
        };
        let reason = match r.termination { TerminationReason::Ftol => 0, TerminationReason::Xtol => 1, TerminationReason::Gtol => 2, _ => 9 };
        let mut v = vec![reason, b(here.is_some()), b(same), b(r.evaluations == log.len()), b(log.len() <= most), b(better), b(why)];
        let k: Vec<f64> = r.solution.iter().map(|x| Into::<f64>::into(*x * two::<T>(-e))).collect();
        let fine = eps < 1e-10;
        match op {
            "linear" => {
                let y = f.at::<f64>(&k);
                for j in 0..N {
                    let d: f64 = (0..M).map(|i| a[2 + i * N + j] as f64 * y[i]).sum();
                    v.push(enc_tol(d, 1.0, if fine { if self.c[0] == 2 { 1e-3 } else { 1e-8 } } else if self.c[0] == 2 { 0.2 } else { 2e-2 }));
                }
            }
            "walk" => {
                v.extend(k.iter().map(|x| enc_tol(*x, 256.0, if fine { 1e-6 } else { 0.1 })));
                v.push(log.len() as i64);
            }
            _ => {}
        }
        ok(v)
    }
}
impl<T: Solves> Driver for D<T> {
    fn apply(&mut self, op: &str, a: &[i64]) -> Obs {
        match op {
            "set" => {
                self.c.copy_from_slice(a);
                ok(vec![])
            }
            "linear" => {
                macro_rules! shapes {
                    ($($n:literal $m:literal)*) => { match (a[0], a[1]) { $(($n, $m) => self.run::<$n, $m>(op, a, std::array::from_fn(|i| a[a.len() - $n + i] as f64)),)* _ => panic!("HARNESS shape") } };
                }
                shapes!(1 1 1 2 1 3 1 4 2 1 2 2 2 3 2 4 3 1 3 2 3 3 3 4 3 5)
            }
            "walk" => self.run::<2, 2>(op, a, [a[0] as f64 / 256.0, a[1] as f64 / 256.0]),
            "wild" => self.run::<2, 3>(op, a, [a[2] as f64, a[3] as f64]),
            _ => panic!("HARNESS {op}"),
        }
    }
}
fn gen(r: &mut Rng, s: &mut Sess) {
    let fine = s.ty != "f32";
    for _ in 0..6 {
        let plain = r.chance(2, 3);
        let (e, g) = if plain { (0, 0) } else if fine { (r.int(-300, 300), r.int(-300, 300)) } else { (r.int(-20, 20), r.int(-20, 20)) };
        s.run("set", &[r.int(0, 2), r.of(&[0, 1, 2, 3, 4, 10, 25, 200, 200, 200]), r.of(&[-3, 0, 3, 7, 7]), r.int(0, 1), e, g]);
        for _ in 0..4 {
            let n = r.int(1, 3);
            let m = r.int(1, if n == 3 { 5 } else { 4 });
            let mut a = vec![n, m];
            let big = r.of(&[1, 3, 6]);
            a.extend(r.ints((n * m) as usize, -big, big));
            if n > 1 && r.chance(1, 5) {
                // columns that depend on each other
                for i in 0..m {
                    a[(2 + i * n + 1) as usize] = a[(2 + i * n) as usize] * 2;
                }
            }
            let mut b = r.ints(m as usize, -9, 9);
            if r.chance(1, 20) {
                b[0] = r.of(&[NAN, INF, NINF]);
            }
            a.extend(b);
            a.extend(if r.chance(1, 4) { vec![0; n as usize] } else { r.ints(n as usize, -9, 9) });
            s.run("linear", &a);
        }
        for _ in 0..3 {
            let n = r.int(1, 4);
            let mut at: Vec<i64> = (1..n).map(|_| r.int(-12, 12) * 128 + 61).collect();
            at.sort();
            at.push(INF);
            let mut a = vec![r.int(-12, 12) * 64, r.int(-12, 12) * 64];
            for x in at {
                let m = loop {
                    let m = r.ints(4, -3, 3);
                    if m[0] * m[3] != m[1] * m[2] || r.chance(1, 20) {
                        break m;
                    }
                };
                a.push(x);
                a.extend(m);
                a.extend(if r.chance(1, 20) { [NAN, 0] } else { [r.int(-12, 12) * 64, r.int(-12, 12) * 64] });
            }
            s.run("walk", &a);
        }
        for _ in 0..3 {
            let a = [r.int(0, 6), r.int(-3, 3), r.int(-6, 6), r.int(-6, 6)];
            s.run("wild", &a);
        }
    }
}
fn main() {
    fn fresh<T: Solves>() -> Box<D<T>> {
        Box::new(D { c: [0, 100, 6, 1, 0, 0], p: std::marker::PhantomData })
    }
    main_with(&[Model { name: "fit", make: |ty| if ty == "f32" { fresh::<f32>() } else { fresh::<f64>() }, gen }]);
}
