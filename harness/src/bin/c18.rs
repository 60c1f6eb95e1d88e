use multicalc::approximation::{LinearApproximator, QuadraticApproximator};
use multicalc::error::DiffError;
use multicalc::numerical_derivative::{
    AutoDiffMulti, AutoDiffSingle, DerivatorMultiVariable, DerivatorSingleVariable, FiniteDifferenceMode, FiniteDifferenceMulti, FiniteDifferenceSingle,
    Hessian, Jacobian,
};
use multicalc::scalar::{Numeric, ScalarFn, ScalarFnN, VectorFn};
use multicalc::vector_field::{curl_2d, curl_3d, divergence_2d, divergence_3d};
use vharness::*;
/// A sum of monomials, coefficient first.
#[derive(Clone)]
struct Poly(Vec<Vec<i64>>);
impl Poly {
    fn at<S: Numeric>(&self, x: &[S]) -> S {
        let mut y = S::ZERO;
        for t in &self.0 {
            let mut m = S::from_f64(t[0] as f64);
            for (i, e) in t[1..].iter().enumerate() {
                m *= x[i].powi(*e as i32);
            }
            y += m;
        }
        y
    }
}
impl ScalarFn for Poly {
    fn eval<S: Numeric>(&self, x: S) -> S {
        self.at(&[x])
    }
}
impl<const N: usize> ScalarFnN<N> for Poly {
    fn eval<S: Numeric>(&self, x: &[S; N]) -> S {
        self.at(x)
    }
}
struct Field(Vec<Poly>);
impl<const N: usize, const M: usize> VectorFn<N, M> for Field {
    fn eval<S: Numeric>(&self, x: &[S; N]) -> [S; M] {
        std::array::from_fn(|k| self.0[k].at(x))
    }
}
struct In<'a>(&'a [i64], usize);
impl In<'_> {
    fn one(&mut self) -> i64 {
        self.1 += 1;
        self.0[self.1 - 1]
    }
    fn some(&mut self, n: usize) -> Vec<i64> {
        (0..n).map(|_| self.one()).collect()
    }
    fn poly(&mut self, t: usize, n: usize) -> Poly {
        Poly((0..t).map(|_| self.some(n + 1)).collect())
    }
    fn point<const N: usize>(&mut self) -> [f64; N] {
        std::array::from_fn(|_| self.one() as f64)
    }
}
fn mode(b: i64) -> FiniteDifferenceMode {
    match b {
        1 => FiniteDifferenceMode::Forward,
        2 => FiniteDifferenceMode::Backward,
        _ => FiniteDifferenceMode::Central,
    }
}
/// What a difference quotient of this order is a fraction of.
fn whole(b: i64, step: i64, mult: i64, order: usize) -> f64 {
    match b {
        0 => 1.0,
        4 => 1000.0,
        _ => (0..order).map(|l| if b == 3 { 2.0 } else { 1.0 } * step as f64 * (mult as f64).powi(l as i32)).product(),
    }
}
fn tol(b: i64) -> f64 {
    match b {
        0 => 0.0,
        4 => 0.51,
        _ => 1e-3,
    }
}
fn fd(b: i64, step: i64, mult: i64) -> FiniteDifferenceMulti {
    if b == 4 { FiniteDifferenceMulti::default() } else { FiniteDifferenceMulti::from_parameters(dec(step, 1.0), mode(b), mult as f64) }
}
fn dn<const N: usize, const O: usize>(p: &Poly, b: i64, step: i64, mult: i64, idx: &[i64], x: &[f64; N]) -> Obs {
    let i: [usize; O] = std::array::from_fn(|k| idx[k] as usize);
    let y = if b == 0 { AutoDiffMulti::new().differentiate(p, &i, x) } else { fd(b, step, mult).differentiate(p, &i, x) };
    res(y, |y| vec![enc_tol(y * whole(b, step, mult, O), 1.0, tol(b))])
}
fn multi<const N: usize>(op: &str, q: &mut In) -> Obs {
    let b = q.one();
    let (step, mult) = (q.one(), q.one());
    let AD = AutoDiffMulti::new();
    let FD = fd(b, step, mult);
    macro_rules! by {
        ($d:ident => $e:expr) => {
            if b == 0 {
                let $d = AD;
                $e
            } else {
                let $d = FD;
                $e
            }
        };
    }
    let flat = |v: Vec<f64>, o: usize| -> Vec<i64> { v.iter().map(|y| enc_tol(y * whole(b, step, mult, o), 1.0, tol(b))).collect() };
    match op {
        "dn" => {
            let k = q.one() as usize;
            let idx = q.some(k);
            let t = q.one() as usize;
            let p = q.poly(t, N);
            let x = q.point::<N>();
            // the named shorthands have to agree
            let one = |y: Result<f64, DiffError>, o: usize| res(y, |y| flat(vec![y], o));
            match k {
                0 => dn::<N, 0>(&p, b, step, mult, &idx, &x),
                1 => {
                    let d = dn::<N, 1>(&p, b, step, mult, &idx, &x);
                    let e = one(by!(d => d.first_partial_derivative(&p, idx[0] as usize, &x)), 1);
                    if d == e { d } else { tag("differs", vec![]) }
                }
                2 => {
                    let d = dn::<N, 2>(&p, b, step, mult, &idx, &x);
                    let e = one(by!(d => d.second_partial_derivative(&p, &[idx[0] as usize, idx[1] as usize], &x)), 2);
                    if d == e { d } else { tag("differs", vec![]) }
                }
                3 => dn::<N, 3>(&p, b, step, mult, &idx, &x),
                _ => dn::<N, 4>(&p, b, step, mult, &idx, &x),
            }
        }
        "hess" => {
            let t = q.one() as usize;
            let p = q.poly(t, N);
            let x = q.point::<N>();
            res(by!(d => Hessian::from_derivator(d).evaluate(&p, &x)), |h| flat((0..N * N).map(|k| h[(k / N, k % N)]).collect(), 2))
        }
        "jac" => {
            let (heap, m, t) = (q.one() == 1, q.one(), q.one() as usize);
            let f = Field((0..m).map(|_| q.poly(t, N)).collect());
            let x = q.point::<N>();
            macro_rules! m {
                ($m:literal) => {
                    if heap {
                        res(by!(d => Jacobian::from_derivator(d).evaluate_on_heap::<_, $m, N>(&f, &x)), |h| {
                            assert!(h.iter().all(|r| r.len() == N));
                            flat(h.concat(), 1)
                        })
                    } else {
                        res(by!(d => Jacobian::from_derivator(d).evaluate::<_, $m, N>(&f, &x)), |h| flat((0..$m * N).map(|k| h[(k / N, k % N)]).collect(), 1))
                    }
                };
            }
            match m {
                0 => m!(0),
                1 => m!(1),
                2 => m!(2),
                3 => m!(3),
                _ => m!(4),
            }
        }
        "col" => {
            let (col, t) = (q.one() as usize, q.one() as usize);
            let f = Field((0..3).map(|_| q.poly(t, N)).collect());
            let x = q.point::<N>();
            let y: Result<[f64; 3], DiffError> = by!(d => d.jacobian_column(&f, col, &x));
            res(y, |y| flat(y.to_vec(), 1))
        }
        "field" => {
            // curl and divergence in two or three dimensions, of fields of N variables
            let (dim, t) = (q.one(), q.one() as usize);
            let f = Field((0..dim).map(|_| q.poly(t, N)).collect());
            let x = q.point::<N>();
            let y = by!(d => if dim == 2 {
                curl_2d(d, &f, &x).and_then(|c| Ok(vec![c, divergence_2d(d, &f, &x)?]))
            } else {
                curl_3d(d, &f, &x).and_then(|c| Ok([c.to_vec(), vec![divergence_3d(d, &f, &x)?]].concat()))
            });
            res(y, |y| flat(y, 1))
        }
        "model" => {
            let (quad, kahan, t) = (q.one() == 1, q.one() == 1, q.one() as usize);
            let p = q.poly(t, N);
            let x = q.point::<N>();
            let at = q.point::<N>();
            let pts: [[f64; N]; 6] = std::array::from_fn(|_| q.point::<N>());
            let few: [[f64; N]; 2] = [pts[0], pts[1]];
            let k4 = |y: f64| if y.abs() > 2e4 { 200_000_000 } else { enc_tol(y, 1e4, 0.51) };
            let e = |y: f64| enc_tol(y, 2.0, 1e-9);
            macro_rules! metrics {
                ($m:expr) => {{
                    let (m, w) = ($m.prediction_metrics(&pts, &p), $m.prediction_metrics(&few, &p));
                    [m.mean_absolute_error, m.mean_squared_error, m.root_mean_squared_error, m.r_squared, m.adjusted_r_squared, w.mean_absolute_error, w.adjusted_r_squared].map(k4).to_vec()
                }};
            }
            if quad {
                let a = QuadraticApproximator::new();
                let a = if kahan { a.with_kahan_summation() } else { a };
                res(a.approximate(&p, &x), |m| {
                    let h = m.hessian();
                    let hs: Vec<i64> = (0..N * N).map(|k| enc(h[k / N][k % N], 1.0)).collect();
                    let g: Vec<i64> = m.gradient().iter().map(|y| enc(*y, 1.0)).collect();
                    [m.point().iter().map(|y| enc(*y, 1.0)).collect(), g, hs, vec![e(m.predict(&at)), e(m.predict(&x))], metrics!(m)].concat()
                })
            } else {
                let a = LinearApproximator::new();
                let a = if kahan { a.with_kahan_summation() } else { a };
                res(a.approximate(&p, &x), |m| {
                    let g: Vec<i64> = m.coefficients().iter().map(|y| enc(*y, 1.0)).collect();
                    [m.point().iter().map(|y| enc(*y, 1.0)).collect(), g, vec![enc(m.intercept(), 1.0)], vec![e(m.predict(&at)), e(m.predict(&x))], metrics!(m)].concat()
                })
            }
        }
        _ => panic!("HARNESS {op}"),
    }
}
struct D;
impl Driver for D {
    fn apply(&mut self, op: &str, a: &[i64]) -> Obs {
        let mut q = In(a, 0);
        if op == "d1" {
            let (b, order, step, mult, t) = (q.one(), q.one() as usize, q.one(), q.one(), q.one() as usize);
            let p = q.poly(t, 1);
            let x = q.one() as f64;
            let d = FiniteDifferenceSingle::from_parameters(dec(step, 1.0), mode(b), mult as f64);
            let short = |y: Result<f64, DiffError>, z: Option<Result<f64, DiffError>>| match z {
                Some(z) if z != y => tag("differs", vec![]),
                _ => res(y, |y| vec![enc_tol(y * whole(b, step, mult, order), 1.0, tol(b))]),
            };
            macro_rules! all {
                ($d:expr) => {
                    short($d.differentiate(order, &p, x), match order {
                        1 => Some($d.first_derivative(&p, x)),
                        2 => Some($d.second_derivative(&p, x)),
                        _ => None,
                    })
                };
            }
            return match b {
                0 => all!(AutoDiffSingle::new()),
                4 => all!(FiniteDifferenceSingle::default()),
                _ => all!(d),
            };
        }
        match q.one() {
            1 => multi::<1>(op, &mut q),
            2 => multi::<2>(op, &mut q),
            3 => multi::<3>(op, &mut q),
            _ => multi::<4>(op, &mut q),
        }
    }
}
fn poly(r: &mut Rng, t: usize, n: usize, deg: i64) -> Vec<i64> {
    (0..t)
        .flat_map(|_| {
            let mut left = deg;
            let mut m = vec![r.of(&[-3, -2, -1, 1, 2, 3, 4])];
            let mut e = vec![0; n];
            let mut order: Vec<usize> = (0..n).collect();
            r.shuffle(&mut order);
            for i in order {
                e[i] = r.int(0, left.min(4));
                left -= e[i];
            }
            m.extend(e);
            m
        })
        .collect()
}
fn gen(r: &mut Rng, s: &mut Sess) {
    for _ in 0..6 {
        let b = r.of(&[0, 0, 0, 1, 2, 3, 3, 4]);
        let step = if r.chance(1, 12) { r.of(&[0, -1, NAN, INF, NINF]) } else { r.of(&[1, 1, 2, 3]) };
        let mult = r.of(&[1, 2, 3]);
        let t = r.int(1, 4);
        let n = r.int(1, 4);
        // differences stay in the specification's integers: the farthest point they reach, to the degree
        let far = 2 + step.clamp(0, 3) * (1 + mult + mult * mult + mult * mult * mult);
        let deg = match b {
            4 => 3,
            0 => 6,
            _ => (1..=5).rev().find(|d| 256 * far.pow(*d as u32) < 2_000_000_000).unwrap(),
        };
        let near = if b == 0 { 3 } else { 2 };
        match r.int(0, 6) {
            0 => {
                let p = poly(r, t as usize, 1, deg);
                let a = [vec![b, if b == 4 { r.int(0, 2) } else if b == 0 { r.int(0, 8) } else { r.int(0, 4) }, step, mult, t], p, vec![r.int(-near, near)]].concat();
                s.run("d1", &a);
            }
            1 | 2 => {
                let k = if b == 4 { r.int(0, 2) } else { r.int(0, 4) };
                let top = if r.chance(1, 8) { n } else { n - 1 };
                let idx = r.ints(k as usize, 0, top);
                let p = poly(r, t as usize, n as usize, deg);
                let x = r.ints(n as usize, -near, near);
                s.run("dn", &[vec![n, b, step, mult, k], idx, vec![t], p, x].concat());
            }
            3 => {
                let p = poly(r, t as usize, n as usize, deg);
                let x = r.ints(n as usize, -near, near);
                s.run("hess", &[vec![n, b, step, mult, t], p, x].concat());
            }
            4 => {
                let m = r.int(0, 4);
                let p = poly(r, (t * m) as usize, n as usize, deg);
                let x = r.ints(n as usize, -near, near);
                s.run("jac", &[vec![n, b, step, mult, r.int(0, 1), m, t], p, x].concat());
                let p = poly(r, (t * 3) as usize, n as usize, deg);
                let x = r.ints(n as usize, -near, near);
                s.run("col", &[vec![n, b, step, mult, r.int(0, n), t], p, x].concat());
            }
            5 => {
                let dim = r.int(2, 3);
                let n = r.int(2, 4);
                let p = poly(r, (t * dim) as usize, n as usize, deg);
                let x = r.ints(n as usize, -near, near);
                s.run("field", &[vec![n, b, step, mult, dim, t], p, x].concat());
            }
            _ => {
                let p = poly(r, t as usize, n as usize, 3);
                let x = r.ints(n as usize, -2, 2);
                let at = r.ints(n as usize, -3, 3);
                let pts = r.ints(6 * n as usize, -2, 2);
                s.run("model", &[vec![n, 0, 1, 1, r.int(0, 1), r.int(0, 1), t], p, x, at, pts].concat());
            }
        }
    }
}
fn main() {
    main_with(&[Model { name: "partials", make: |_| Box::new(D), gen }]);
}
