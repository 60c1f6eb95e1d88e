use multicalc::error::SolveError;
use multicalc::root_finding::*;
use multicalc::scalar::{Numeric, ScalarFn, VectorFn};
use std::cell::RefCell;
use vharness::*;
const U: f64 = 1048576.0;
/// Straight pieces `<<upto, slope, at zero>>`; remembers where it was asked.
struct Pieces<'a> {
    p: &'a [i64],
    e: i32,
    g: i32,
    asked: RefCell<Vec<(f64, f64)>>,
    size: usize,
}
fn two<S: Numeric>(n: i32) -> S {
    // in two halves: either may be out of the scalar's range alone
    S::from_f64(2f64.powi(n / 2)) * S::from_f64(2f64.powi(n - n / 2))
}
impl ScalarFn for Pieces<'_> {
    fn eval<S: Numeric>(&self, x: S) -> S {
        let k = x * two(-self.e);
        let p = self.p.chunks(3).find(|p| p[0] == INF || k < S::from_f64(dec(p[0], U))).unwrap_or(&self.p[self.p.len() - 3..]);
        let y = (S::from_f64(p[1] as f64) * k + S::from_f64(dec(p[2], U))) * two(self.g);
        if size_of::<S>() == self.size {
            // the solver's own scalar, not a dual number
            let f = |z: S| -> f64 { unsafe { if self.size == 4 { std::mem::transmute_copy::<S, f32>(&z) as f64 } else { std::mem::transmute_copy::<S, f64>(&z) } } };
            self.asked.borrow_mut().push((f(x), f(y)));
        }
        y
    }
}
struct Matrices<'a> {
    p: &'a [i64],
    e: i32,
    g: i32,
}
impl VectorFn<2, 2> for Matrices<'_> {
    fn eval<S: Numeric>(&self, x: &[S; 2]) -> [S; 2] {
        let k: [S; 2] = x.map(|x| x * two(-self.e));
        let p = self.p.chunks(7).find(|p| p[0] == INF || k[0] < S::from_f64(dec(p[0], 256.0))).unwrap();
        let n = |i: usize| S::from_f64(p[i] as f64);
        let (dx, dy) = (k[0] - S::from_f64(dec(p[5], 256.0)), k[1] - S::from_f64(dec(p[6], 256.0)));
        [(n(1) * dx + n(2) * dy) * two(self.g), (n(3) * dx + n(4) * dy) * two(self.g)]
    }
}
struct D<T: Fl> {
    c: [i64; 6],
    p: std::marker::PhantomData<T>,
}
fn kind(t: RootTermination) -> i64 {
    match t {
        RootTermination::ResidualTolerance => 0,
        RootTermination::BracketWidth => 1,
        RootTermination::StepTolerance => 2,
        _ => 9,
    }
}
fn fail<T>(r: &Result<T, SolveError>, budget: i64) -> Option<Obs> {
    match r {
        Ok(_) => None,
        Err(SolveError::DidNotConverge { iters }) if *iters as i64 != budget => Some(tag("MiscountedRounds", vec![*iters as i64])),
        Err(e) => Some(err(*e)),
    }
}
trait Solves: Fl {
    fn newton(f: &Pieces, x: Self, xtol: Self, ftol: Self, n: usize, damped: bool) -> Result<RootReport<Self>, SolveError>;
}
impl Solves for f64 {
    fn newton(f: &Pieces, x: f64, xtol: f64, ftol: f64, n: usize, damped: bool) -> Result<RootReport<f64>, SolveError> {
        Newton::new().with_xtol(xtol).with_ftol(ftol).with_max_iterations(n).with_backtracking(damped).solve(f, x)
    }
}
impl Solves for f32 {
    fn newton(f: &Pieces, x: f32, xtol: f32, ftol: f32, n: usize, damped: bool) -> Result<RootReport<f32>, SolveError> {
        type S = multicalc::numerical_derivative::AutoDiffSingle<f32>;
        Newton::from_derivator(S::new()).with_xtol(xtol).with_ftol(ftol).with_max_iterations(n).with_backtracking(damped).solve(f, x)
    }
}
impl<T: Solves> Driver for D<T> {
    fn apply(&mut self, op: &str, a: &[i64]) -> Obs {
        let [j, ftol, budget, damped, e, g] = self.c;
        let (e, g) = (e as i32, g as i32);
        let xtol = T::from_f64(if j < 0 { 0.0 } else { 2f64.powi(-j as i32) });
        let ft = T::from_f64(dec(ftol, U)) * two(g);
        let x = |k: i64| T::from_f64(dec(k, U)) * two(e);
        let back = |x: f64| -> i64 { enc_tol(Into::<f64>::into(T::from_f64(x) * two::<T>(-e)), U, 0.5) };
        let fun = |p| Pieces { p, e, g, asked: RefCell::new(vec![]), size: size_of::<T>() };
        match op {
            "set" => {
                self.c.copy_from_slice(a);
                ok(vec![])
            }
            "bisect" | "brent" => {
                let f = fun(&a[2..]);
                let (l, h) = (x(a[0]), x(a[1]));
                let n = budget as usize;
                let r = if op == "bisect" { Bisection::new().with_xtol(xtol).with_ftol(ft).with_max_iterations(n).solve(&f, l, h) } else { Brent::new().with_xtol(xtol).with_ftol(ft).with_max_iterations(n).solve(&f, l, h) };
                let asked = f.asked.borrow();
                let (l, h): (f64, f64) = (l.min(h).into(), l.max(h).into());
                let inside = asked.iter().all(|p| p.0 >= l && p.0 <= h);
                if !inside {
                    return tag("asked outside", vec![]);
                }
                if let Some(o) = fail(&r, budget) {
                    return if asked.len() > n + 2 { tag("asked too often", vec![]) } else { o };
                }
                let r = r.unwrap();
                let (root, res): (f64, f64) = (r.root.into(), r.residual.into());
                let same = asked.iter().any(|p| p.0 == root && p.1 == res);
                let unit: f64 = Into::<f64>::into(T::from_f64(res) * two::<T>(-g)) * U;
                let mut v = vec![kind(r.termination)];
                if op == "bisect" {
                    v.extend([back(root), enc_tol(unit, 1.0, 0.5), r.iterations as i64, asked.len() as i64, 1, b(same)]);
                } else {
                    let at: f64 = Into::<f64>::into(T::from_f64(root) * two::<T>(-e)) * U;
                    // rounded away from nothing, so that comparison with the tolerance stays true
                    v.extend([at.round() as i64, (unit.abs().ceil() * unit.signum()) as i64, r.iterations as i64, asked.len() as i64, 1, b(same)]);
                    let gap = asked.iter().filter(|p| (p.1 >= 0.0) != (res >= 0.0)).map(|p| (p.0 - root).abs()).fold(f64::INFINITY, f64::min);
                    let smallest = if T::EPSILON.into() < 1e-10 { 1e-323 } else { 3e-45 };
                    let room = Into::<f64>::into(xtol) * (1.0 + root.abs());
                    v.push(if res == 0.0 || kind(r.termination) == 0 || gap <= smallest { 0 } else { (1000.0 * gap / room * (1.0 - 1e-6)).ceil().min(1e6) as i64 });
                }
                ok(v)
            }
            "newton" => {
                let f = fun(&a[1..]);
                let r = T::newton(&f, x(a[0]), xtol, ft, budget as usize, damped == 1);
                if let Some(o) = fail(&r, budget) {
                    return o;
                }
                let r = r.unwrap();
                let there: T = f.eval(r.root);
                ok(vec![kind(r.termination), back(r.root.into()), enc_tol(Into::<f64>::into(r.residual * two::<T>(-g)), U, 0.5), r.iterations as i64, b(there == r.residual)])
            }
            "system" => {
                let f = Matrices { p: &a[2..], e, g };
                let y = |k: i64| dec(k, 256.0) * 2f64.powi(e);
                let s = NewtonSystem::new().with_xtol(xtol.into()).with_ftol(ft.into()).with_max_iterations(budget as usize).with_backtracking(damped == 1);
                let r = s.solve(&f, &[y(a[0]), y(a[1])]);
                if let Some(o) = fail(&r, budget) {
                    return o;
                }
                let r = r.unwrap();
                let units = |x: f64| x * 2f64.powi(-e) * 256.0;
                let n = r.residual_norm * 2f64.powi(-g) * 256.0;
                let there = f.eval(&r.root).map(|x: f64| x * 2f64.powi(-g) * 256.0);
                let far = there[0].hypot(there[1]);
                ok(vec![kind(r.termination), enc_tol(units(r.root[0]), 1.0, 0.5), enc_tol(units(r.root[1]), 1.0, 0.5), enc_tol(n * n, 1.0, 0.5), r.iterations as i64, b((n - far).abs() <= 1e-12 * far)])
            }
            _ => panic!("HARNESS {op}"),
        }
    }
}
fn gen(r: &mut Rng, s: &mut Sess) {
    let fine = s.ty != "f32";
    let u = U as i64;
    for _ in 0..4 {
        let plain = r.chance(1, 2);
        let e = if plain { 0 } else if fine { r.of(&[-900, -300, -50, 30, 400, 1000]) } else { r.of(&[-60, -20, 15, 80]) };
        let mut g = if r.chance(1, 2) { 0 } else if fine { r.of(&[-800, -100, -3, 5, 100, 900]) } else { r.of(&[-50, -7, 20, 60]) };
        if (g - e).abs() > if fine { 1000 } else { 110 } {
            g = 0;
        }
        let j = if !plain || r.chance(1, 6) { -1 } else { r.int(0, if fine { 20 } else { 18 }) };
        let f = if r.chance(1, 3) { 0 } else { 4096 * r.int(1, 256) };
        s.run("set", &[j, f, if r.chance(1, 16) { 400 } else { r.of(&[0, 1, 2, 5, 10, 15, 25]) }, r.int(0, 1), e, g]);
        let half = u / 2;
        let mut fun = |r: &mut Rng, slopes: &[i64], nan: bool| -> Vec<i64> {
            let n = r.int(1, 5);
            let mut at: Vec<i64> = (1..n).map(|_| r.int(-12, 12) * half + if r.chance(1, 4) { r.int(-9, 9) } else { 0 }).collect();
            at.sort();
            at.push(INF);
            at.iter().flat_map(|x| {
                let k = r.of(slopes);
                let mut v = if k == 0 { r.of(&[-2, -1, 1, 2, 3]) * half / 2 } else { k * r.int(-12, 12) * half };
                if nan && r.chance(1, 12) {
                    v = r.of(&[NAN, INF, NINF]);
                }
                [*x, if nan && v.abs() > 1 << 30 { 0 } else { k }, v]
            }).collect()
        };
        let wide = if fine { &[-4, -2, -1, 0, 1, 2, 4, 3][..] } else { &[-1, 0, 1][..] };
        for _ in 0..6 {
            let p = [r.int(-14, 14) * half, r.int(-14, 14) * half];
            let nan = r.chance(1, 4);
            let q = fun(r, wide, nan);
            s.run(if r.chance(1, 2) { "bisect" } else { "brent" }, &[p.to_vec(), q].concat());
            let q = fun(r, if fine { &[-4, -2, -1, 0, 1, 2, 4, 1, 2] } else { &[-1, 0, 1, 1] }, nan);
            s.run("newton", &[vec![r.int(-14, 14) * half], q].concat());
        }
        if fine {
            for _ in 0..2 {
                let n = r.int(1, 4);
                let mut at: Vec<i64> = (1..n).map(|_| r.int(-12, 12) * 128).collect();
                at.sort();
                at.push(INF);
                let mut a = vec![r.int(-12, 12) * 64, r.int(-12, 12) * 64];
                for x in at {
                    let m = loop {
                        let m: Vec<i64> = (0..4).map(|_| r.of(&[0, 1, -1, 2, -2, 4])).collect();
                        let d = (m[0] * m[3] - m[1] * m[2]).abs();
                        if [1, 2, 4, 8, 16].contains(&d) || (d == 0 && r.chance(1, 4)) {
                            break m;
                        }
                    };
                    a.push(x);
                    a.extend(m);
                    a.extend(if r.chance(1, 20) { [NAN, 0] } else { [r.int(-12, 12) * 64, r.int(-12, 12) * 64] });
                }
                s.run("system", &a);
            }
        }
    }
}
fn main() {
    fn fresh<T: Solves>() -> Box<D<T>> {
        Box::new(D { c: [12, 0, 100, 0, 0, 0], p: std::marker::PhantomData })
    }
    main_with(&[Model { name: "search", make: |ty| if ty == "f32" { fresh::<f32>() } else { fresh::<f64>() }, gen }]);
}
