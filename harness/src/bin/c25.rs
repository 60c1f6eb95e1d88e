use multicalc::linear_algebra::Vector;
use multicalc::ode::*;
use multicalc::scalar::{Jet, Numeric};
use multicalc::spatial::{Quaternion, SO3};
use std::cell::Cell;
use std::f64::consts::PI;
use vharness::*;
type V<T> = Vector<2, T>;
struct D<T: Fl> {
    c: [i64; 5],
    u: f64,
    p: std::marker::PhantomData<T>,
}
fn f<T: Numeric>(k: i64) -> T {
    T::from_f64(dec(k, 1.0))
}
fn turned<T: Fl>(o: SO3<T>) -> Vec<i64> {
    let m = o.to_matrix();
    let tol = if T::EPSILON.into() < 1e-10 { 1e-9 } else { 1e-4 };
    (0..9).map(|i| enc_tol(m[(i / 3, i % 3)].into(), 1.0, tol)).collect()
}
fn facing<T: Fl>(a: &[i64]) -> SO3<T> {
    SO3::from_quaternion(Quaternion::new(f(a[0]), f(a[1]), f(a[2]), f(a[3])))
}
/// the axis made as long as n twelfths of a turn
fn turning<T: Fl>(a: &[i64], n: f64) -> Vector<3, T> {
    let l = a.iter().map(|x| (x * x) as f64).sum::<f64>().sqrt();
    Vector::from_fn(|i| T::from_f64(a[i] as f64 / l * n * PI / 6.0))
}
impl<T: Fl> D<T> {
    fn solver(&self) -> Rk45<T> {
        let [r, first, min, max, budget] = self.c;
        let h = |k: i64| T::from_f64(k as f64 / 64.0 * self.u);
        let mut s = Rk45::default().with_rtol(T::from_f64(10f64.powi(-r as i32))).with_atol(T::from_f64(10f64.powi(-r as i32))).with_first_step(h(first)).with_min_step(h(min)).with_max_steps(budget as usize);
        if max > 0 {
            s = s.with_max_step(h(max));
        }
        s
    }
    /// the problem's field and start, in time units of u
    fn problem<'a>(&self, q: &'a [i64], calls: &'a Cell<usize>) -> (impl Fn(T, &V<T>) -> V<T> + 'a, V<T>) {
        let u = self.u;
        let field = move |t: T, y: &V<T>| {
            calls.set(calls.get() + 1);
            let t = T::from_f64(Into::<f64>::into(t) / u);
            let per = T::from_f64(1.0 / u);
            let horner = |c: &[i64]| c.iter().rev().fold(T::ZERO, |s, k| s * t + f(*k));
            let d = match q[0] {
                0 => [horner(&q[3..8]), horner(&q[8..13])],
                1 => {
                    let w = T::from_f64(q[3] as f64 * PI / 2.0);
                    [-w * y[1], w * y[0]]
                }
                2 => [if t > f(q[3]) { T::NAN } else { T::ONE }, T::ZERO],
                _ => [if t < f(q[3]) { T::ONE } else { -T::ONE }, T::ZERO],
            };
            Vector::new(d.map(|x| x * per))
        };
        (field, Vector::new([f(q[1]), f(q[2])]))
    }
    fn tol(&self, q: &[i64], d: i64, span: f64, dense: bool) -> f64 {
        let fine = T::EPSILON.into() < 1e-10;
        let t = 10f64.powi(-self.c[0] as i32);
        let size = (q[1].abs() + q[2].abs()) as f64 + 1.0;
        (match q[0] {
            0 => if fine { 1e-4 } else { 0.4 },
            1 => d as f64 * (t * 300.0 * (1.0 + span * q[3].abs() as f64) * size + if dense { 0.002 } else { 0.0 } + if fine { 0.0 } else { 1e-4 }),
            _ => d as f64 * (t * 3000.0 * size + if fine { 0.0 } else { 1e-4 }),
        }).min(0.45)
    }
    fn seen(&self, y: &V<T>, d: i64, tol: f64) -> Vec<i64> {
        (0..2).map(|i| enc_tol(y[i].into() * d as f64, 1.0, tol)).collect()
    }
}
type Y = Vector<2, f64>;
fn systems(k: i64, p: f64, t: f64, y: &Y) -> Y {
    match k {
        0 => Vector::new([y[0] * y[1] + p * t, 1.0 - y[0] * y[0]]),
        1 => Vector::new([y[1], -p * y[0].sin() - 0.25 * y[1]]),
        2 => Vector::new([(t * p + y[1]).cos() * y[0], y[0] * y[0] * y[1] - p * y[1]]),
        _ => Vector::new([y[0] * (p - y[1]), y[1] * (y[0] - 1.0) + t * t]),
    }
}
fn order(m: i64, k: i64, p: f64) -> f64 {
    let y0 = Vector::new([0.8, 0.6]);
    let go = |n: i32| -> Vec<f64> {
        let h = 0.5 / n as f64;
        match m {
            0 => Rk4::integrate(&|t, y: &Y| systems(k, p, t, y), 0.25, &y0, h, n as usize, |_, _| {}).as_array().to_vec(),
            1 => Rk45::default().with_rtol(1e9).with_first_step(h).with_max_step(h).solve(&|t, y: &Y| systems(k, p, t, y), 0.25, &y0, 0.75).unwrap().as_array().to_vec(),
            _ => {
                let rate = |t: f64, o: SO3<f64>| {
                    let v = o.act(Vector::new([0.3, p, 1.0]));
                    Vector::new([(p * t).sin() + v[0], k as f64 * 0.5 - v[1] * t, 1.0 + t * t - v[2]])
                };
                let m = ExponentialMap::integrate_attitude(&rate, 0.25, SO3::identity(), h, n as usize, |_, _| {}).unwrap().to_matrix();
                (0..9).map(|i| m[(i / 3, i % 3)]).collect()
            }
        }
    };
    // the errors of two lengths may happen to cancel: the better of two readings counts
    let gap = |x: &[f64], y: &[f64]| x.iter().zip(y).map(|(x, y)| (x - y) * (x - y)).sum::<f64>().sqrt();
    let read = |n: i32| {
        let (a, b, c) = (go(n), go(2 * n), go(4 * n));
        (gap(&a, &b) / gap(&b, &c)).log2()
    };
    if m == 1 { read(4).max(read(8)) } else { read(16) }
}
impl<T: Fl> Driver for D<T> {
    fn apply(&mut self, op: &str, a: &[i64]) -> Obs {
        let u = self.u;
        let t = |k: i64, per: f64| T::from_f64(dec(k, per) * u);
        let calls = Cell::new(0);
        match op {
            "set" => {
                self.c.copy_from_slice(&a[..5]);
                self.u = 2f64.powi(a[5] as i32);
                ok(vec![])
            }
            "go" => {
                let (lo, hi, d, q) = (t(a[0], 1.0), t(a[1], 1.0), a[2], &a[3..]);
                let (field, y0) = self.problem(q, &calls);
                let mut steps: Vec<Step<2, T>> = vec![];
                let r = self.solver().for_each_step(&field, lo, &y0, hi, |s| steps.push(*s));
                let n = calls.get();
                let y = match r {
                    Err(e) => {
                        let e = err(e);
                        if e.r.starts_with("DidNotConverge") {
                            assert!(n >= 6 * self.c[4] as usize, "gave up early");
                            return tag("DidNotConverge", vec![]);
                        }
                        return e;
                    }
                    Ok(y) => y,
                };
                calls.set(0);
                let again = self.solver().solve(&field, lo, &y0, hi).unwrap();
                assert!(again == y && calls.get() == n, "solve differs from for_each_step");
                let eps: f64 = T::EPSILON.into();
                let alike = |x: &V<T>, y: &V<T>| (0..2).all(|i| (x[i] - y[i]).abs().into() <= 1e3 * eps * (1.0 + x[i].abs().into()));
                let fwd = hi > lo;
                let (one, l) = (&steps[0], &steps[steps.len() - 1]);
                let joins = steps.iter().all(|s| {
                    let (p, q) = (field(s.time_start, &s.state_start), field(s.time_end, &s.state_end));
                    s.interpolate(s.time_start) == s.state_start && s.interpolate(s.time_end) == s.state_end && (q_kinked(a[3]) || (alike(&p.scale(T::from_f64(u)), &s.derivative_start.scale(T::from_f64(u))) && alike(&q.scale(T::from_f64(u)), &s.derivative_end.scale(T::from_f64(u)))))
                });
                let facts = [
                    one.time_start == lo && one.state_start == y0,
                    steps.windows(2).all(|w| w[0].time_end == w[1].time_start),
                    steps.iter().all(|s| if fwd { s.time_end > s.time_start } else { s.time_end < s.time_start }),
                    l.time_end == hi,
                    l.state_end == y && steps.windows(2).all(|w| w[0].state_end == w[1].state_start && w[0].derivative_end == w[1].derivative_start),
                    joins,
                ];
                let len = |s: &Step<2, T>| Into::<f64>::into((s.time_end - s.time_start).abs()) / u * 6400.0;
                let long = steps.iter().map(len).fold(0.0, f64::max);
                let short = steps[..steps.len() - 1].iter().map(len).fold(1e6, f64::min);
                let mut v = vec![n as i64, steps.len() as i64];
                v.extend(facts.map(b));
                v.extend([long, short, len(one)].map(|x| x.round() as i64));
                v.extend(self.seen(&y, d, self.tol(q, d, (a[1] - a[0]).abs() as f64, false)));
                ok(v)
            }
            "grid" => {
                let n = a[3] as usize;
                let (lo, d, q) = (t(a[0], 1.0), a[1], &a[4 + n..]);
                let times: Vec<T> = a[4..4 + n].iter().map(|k| t(*k, 4.0)).collect();
                let (field, y0) = self.problem(q, &calls);
                let mut out = vec![Vector::zeros(); (n as i64 + a[2]).max(0) as usize];
                let r = self.solver().solve_on_grid(&field, lo, &y0, &times, &mut out);
                let tol = self.tol(q, d, 4.0, true);
                match r {
                    Ok(()) => ok(out.iter().flat_map(|y| self.seen(y, d, tol)).collect()),
                    Err(e) => {
                        let e = err(e);
                        if e.r.starts_with("DidNotConverge") { tag("DidNotConverge", vec![]) } else { e }
                    }
                }
            }
            "fixed" => {
                let (lo, d, n, h, q) = (t(a[0], 1.0), a[1], a[2] as usize, t(a[3], 4.0), &a[4..]);
                let (field, y0) = self.problem(q, &calls);
                let mut seen: Vec<(T, V<T>)> = vec![];
                let y = Rk4::integrate(&field, lo, &y0, h, n, |t, y| seen.push((t, *y)));
                let tol = self.tol(q, d, 1.0, false);
                let one = seen.windows(2).all(|w| w[1].1 == Rk4::step(&field, w[0].0, &w[0].1, h));
                let v = vec![seen.len() as i64, b(seen[0].0 == lo && seen[0].1 == y0), b(seen.iter().enumerate().all(|(k, s)| s.0 == lo + T::from_usize(k) * h)), b(seen[seen.len() - 1].1 == y), b(one)];
                ok([v, self.seen(&y, d, tol)].concat())
            }
            "taylor" => {
                type S = Jet<f64, 5>;
                let n = 4 * a[3] as usize;
                let (p, q) = (&a[4..4 + n], &a[4 + n..]);
                let field = |t: S, y: &Vector<2, S>| {
                    let g = |q: &[i64]| q.chunks(4).fold(S::ZERO, |s, m| s + f::<S>(m[0]) * t.powi(m[1] as i32) * y[0].powi(m[2] as i32) * y[1].powi(m[3] as i32));
                    Vector::new([g(p), g(q)])
                };
                let y = Rk4::step(&field, S::constant(a[0] as f64), &Vector::new([f(a[1]), f(a[2])]), S::variable(0.0));
                ok((0..2).flat_map(|i| (0..5).map(move |k| enc_tol(y[i].derivative(k), 1.0, 1e-6))).collect())
            }
            "order" => ok(vec![(100.0 * order(a[0], a[1], a[2] as f64)).round() as i64]),
            "turn" => {
                let o = facing::<T>(a);
                let h = a[9] as f64 / 4.0;
                let dt = T::from_f64(h);
                let rate = turning::<T>(&a[4..7], a[7] as f64 / h);
                let by = turning::<T>(&a[4..7], 2.0 * a[8] as f64 / h / h);
                let r = ExponentialMap::attitude_step_with_angular_acceleration(o, rate, by, dt);
                let s = ExponentialMap::attitude_step(o, turning(&a[4..7], (a[7] + a[8]) as f64 / h), dt);
                let (v, w) = (turned(r), turned(s));
                if v != w { tag("differ", vec![]) } else { ok(v) }
            }
            "attitude" => {
                let o = facing::<T>(a);
                let (n, bad) = (a[9] as usize, a[11]);
                let h = dec(a[10], 4.0);
                let (dt, lo) = (T::from_f64(h), T::from_f64(0.5));
                let total = h * n as f64;
                let rate = |t: T, _: SO3<T>| {
                    let x: f64 = Into::<f64>::into(t) - 0.5;
                    if bad >= 0 && x > (bad as f64 + 0.25) * h {
                        return Vector::new([T::ONE, T::NAN, T::ONE]);
                    }
                    turning::<T>(&a[4..7], a[7] as f64 / total + 2.0 * a[8] as f64 * x / total / total)
                };
                let mut seen: Vec<(T, SO3<T>)> = vec![];
                let r = ExponentialMap::integrate_attitude(&rate, lo, o, dt, n, |t, o| seen.push((t, o)));
                res(r, |e| {
                    let v = vec![seen.len() as i64, b(seen[0].0 == lo && seen[0].1 == o), b(seen.iter().enumerate().all(|(k, s)| s.0 == lo + T::from_usize(k) * dt)), b(seen[seen.len() - 1].1 == e)];
                    [v, turned(e)].concat()
                })
            }
            _ => panic!("HARNESS {op}"),
        }
    }
}
fn q_kinked(k: i64) -> bool {
    k >= 2
}
fn gen(r: &mut Rng, s: &mut Sess) {
    let fine = s.ty != "f32";
    for _ in 0..4 {
        let rt = if fine { r.int(4, 10) } else { r.int(3, 4) };
        let some = |r: &mut Rng, of: &[i64]| if r.chance(1, 2) { 0 } else { r.of(of) };
        let (first, min, max) = (some(r, &[1, 2, 7, 32, 100, 500]), if r.chance(2, 3) { 0 } else { r.of(&[1, 5, 40]) }, some(r, &[1, 3, 10, 64, 200]));
        let budget = r.of(&[1, 2, 7, 40, 400, 20000, 20000, 20000]);
        let u = if r.chance(1, 2) { 0 } else if fine { r.int(-60, 40) } else { r.int(-30, 12) };
        s.run("set", &[rt, first, min, max, budget, u]);
        let powers = |r: &mut Rng, top: i64| -> Vec<i64> {
            let mut q = vec![0, r.int(-3, 3), r.int(-3, 3)];
            for _ in 0..2 {
                let k = r.int(0, top);
                for j in 0..5 {
                    q.push(if j <= k { if fine { r.int(-3, 3) } else { r.int(-1, 1) } } else { 0 });
                }
            }
            q
        };
        for _ in 0..4 {
            let w = if fine { 3 } else { 2 };
            let mut lo = r.int(-w, w);
            let mut hi = r.int(-w, w);
            let q = match r.int(0, 5) {
                0 | 1 => powers(r, if fine { 4 } else { 2 }),
                2 | 3 => vec![1, r.int(-3, 3), r.int(-3, 3), r.of(&[-2, -1, 1, 2, 3])],
                4 if fine && rt >= 6 => vec![3, r.int(-3, 3), r.int(-3, 3), r.int(lo.min(hi), lo.max(hi))],
                _ => {
                    if lo > hi {
                        std::mem::swap(&mut lo, &mut hi);
                    }
                    vec![2, 1, 1, r.int(lo, (hi - 1).max(lo))]
                }
            };
            if q[0] < 2 && r.chance(1, 20) {
                if r.chance(1, 2) { lo = r.of(&[NAN, INF, NINF]) } else { hi = r.of(&[NAN, INF, NINF]) }
            }
            s.run("go", &[vec![lo, hi, if q[0] > 1 || (q[0] == 1 && rt < 6) { 1 } else { 60 }], q.clone()].concat());
            // a grid
            let lo = r.int(-2, 2);
            let back = r.chance(1, 3);
            let n = r.int(0, 6);
            let q = powers(r, 2);
            let mut t = 4 * lo;
            let mut times: Vec<i64> = (0..n).map(|_| {
                t += if r.chance(1, 4) { 0 } else { r.int(1, 3) * if back { -1 } else { 1 } };
                t
            }).collect();
            if n > 0 && r.chance(1, 5) {
                let k = r.int(0, n - 1) as usize;
                times[k] = if r.chance(1, 3) { r.of(&[NAN, INF, NINF]) } else { r.int(-12, 12) };
            }
            s.run("grid", &[vec![lo, 192, if r.chance(1, 12) { r.of(&[-1, 1]) } else { 0 }, n], times, q].concat());
        }
        let q = powers(r, if fine { 3 } else { 2 });
        s.run("fixed", &[vec![r.int(-1, 1), if fine { 3072 } else { 192 }, r.int(0, 3), r.of(&[1, 2, 4, -4, -2, 3])], q].concat());
        if fine {
            let n = r.int(1, 3);
            let m = r.int(1, 3);
            let mut a = vec![r.int(-1, 1), r.int(-2, 2), r.int(-2, 2), n];
            for _ in 0..n + m {
                let mut e = [0, 0, 0];
                for _ in 0..r.int(0, 3) {
                    e[r.below(3) as usize] += 1;
                }
                a.extend([vec![r.int(-2, 2)], e.to_vec()].concat());
            }
            s.run("taylor", &a);
        }
        let cubes: [[i64; 4]; 6] = [[1, 0, 0, 0], [1, 1, 0, 0], [1, 0, -1, 0], [1, 1, 1, -1], [0, 1, 0, 1], [1, -1, 1, 1]];
        let axes: [([i64; 3], i64); 6] = [([1, 0, 0], 3), ([0, 0, -1], 3), ([0, 2, 0], 3), ([1, 1, 1], 4), ([1, -1, 1], 4), ([0, 1, -1], 6)];
        for _ in 0..2 {
            let (q, (x, unit)) = (*r.pick(&cubes), *r.pick(&axes));
            let (n, k) = (r.int(-4, 4) * unit, r.int(-7, 7));
            let at = [q.to_vec(), x.to_vec(), vec![k, n - k]].concat();
            s.run("turn", &[at.clone(), vec![r.of(&[1, 2, 4, -4, 12])]].concat());
            let h = if r.chance(1, 12) { r.of(&[0, -3, NAN, INF, NINF]) } else { r.int(1, 8) };
            s.run("attitude", &[at, vec![r.int(0, 6), h, if r.chance(1, 6) { r.int(0, 5) } else { -1 }]].concat());
        }
    }
}
fn main() {
    fn fresh<T: Fl>() -> Box<D<T>> {
        Box::new(D { c: [6, 0, 0, 0, 100000], u: 1.0, p: std::marker::PhantomData })
    }
    main_with(&[Model { name: "ode", make: |ty| if ty == "f32" { fresh::<f32>() } else { fresh::<f64>() }, gen }]);
}
