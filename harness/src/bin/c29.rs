use multicalc::estimation::*;
use multicalc::linear_algebra::{Matrix, Vector};
use multicalc::scalar::Numeric;
use multicalc::spatial::SO3;
use vharness::*;
type V3<T> = Vector<3, T>;
/// One of the sensors named in the specification.
struct Sensor(i64);
fn wide<S: Numeric, const M: usize>(k: i64, s: &NominalState<S>) -> [S; M] {
    let axes = |i: usize| Vector::<3, S>::from_fn(|j| if i == j { S::ONE } else { S::ZERO });
    let p = s.position();
    let v: Vector<3, S> = match k {
        0 => p,
        1 => s.velocity(),
        2 => s.orientation().act(axes(0)),
        3 => s.gyroscope_bias(),
        4 => s.accelerometer_bias(),
        5 => s.orientation().inverse().act(s.velocity()),
        6 => Vector::from_fn(|_| p[2]),
        7 => Vector::from_fn(|_| (p[0] * p[0] + p[1] * p[1] + p[2] * p[2]) * S::from_f64(0.25)),
        8 => Vector::from_fn(|_| s.orientation().act(axes(1))[2]),
        _ => Vector::from_fn(|_| (p[0] - p[0]) * S::from_f64(f64::NAN)),
    };
    std::array::from_fn(|i| v[i])
}
impl<const M: usize> NominalStateFn<M> for Sensor {
    fn eval<S: Numeric>(&self, state: &NominalState<S>) -> [S; M] {
        wide(self.0, state)
    }
}
fn d8(q: &[i64]) -> Vec<f64> {
    q.iter().map(|x| dec(*x, 8.0)).collect()
}
fn v3<T: Fl>(q: &[f64]) -> V3<T> {
    Vector::from_fn(|i| T::from_f64(q[i]))
}
fn e4<T: Fl>(x: T) -> i64 {
    enc_tol(x.into(), 1e4, 0.51)
}
fn state<T: Fl>(q: &[f64]) -> NominalState<T> {
    NominalState::new(v3(q), v3(&q[3..]), SO3::exp(v3(&q[6..])), v3(&q[9..]), v3(&q[12..]))
}
fn noise<T: Fl>(q: &[f64]) -> ImuNoise<T> {
    ImuNoise {
        gyroscope_noise_density: T::from_f64(q[0]),
        accelerometer_noise_density: T::from_f64(q[1]),
        gyroscope_bias_random_walk: T::from_f64(q[2]),
        accelerometer_bias_random_walk: T::from_f64(q[3]),
    }
}
fn diag<T: Fl, const M: usize>(q: &[f64]) -> Matrix<M, M, T> {
    Matrix::from_fn(|i, j| T::from_f64(if i == j { q[i] } else { 0.0 }))
}
fn error<T: Fl>(a: &[i64]) -> Vector<15, T> {
    Vector::from_fn(|i| T::from_f64(a[i] as f64 / 16.0))
}
fn facts<T: Fl>(s: NominalState<T>) -> Vec<i64> {
    let (r, mut v) = (s.orientation().to_matrix(), vec![]);
    let three = |x: V3<T>, v: &mut Vec<i64>| (0..3).for_each(|i| v.push(e4(x[i])));
    three(s.position(), &mut v);
    three(s.velocity(), &mut v);
    (0..9).for_each(|k| v.push(e4(r[(k / 3, k % 3)])));
    three(s.gyroscope_bias(), &mut v);
    three(s.accelerometer_bias(), &mut v);
    let n: f64 = s.orientation().quaternion().as_array().iter().map(|x| -> f64 { (*x).into() }).map(|x| x * x).sum();
    let eps: f64 = T::EPSILON.into();
    v.push(b((n - 1.0).abs() < eps * 4096.0));
    v
}
struct D<const M: usize, T: Fl>(ErrorStateKalmanFilter<M, T>);
trait Kind {
    fn go(&mut self, op: &str, a: &[i64]) -> Obs;
}
impl<const M: usize, T: Fl> D<M, T> {
    fn new(a: &[i64]) -> Self {
        let q = d8(&a[1..]);
        let u: Vec<f64> = a[31..46].iter().map(|x| *x as f64).collect();
        let p = Matrix::from_fn(|i, j| T::from_f64(u[i] * u[j] / 8.0 + if i == j { q[15 + i] } else { 0.0 }));
        let f = ErrorStateKalmanFilter::new(state(&q), p, noise(&q[45..]), diag(&q[49..]));
        D(if q.len() == 49 + M { f } else { f.with_gravity(v3(&q[49 + M..])) })
    }
    fn look(&self) -> Vec<i64> {
        let (mut v, p) = (facts(self.0.nominal_state()), self.0.covariance());
        // both halves must agree to the last bits
        let eps: f64 = T::EPSILON.into();
        let at = |i: usize, j: usize| -> f64 { p[(i, j)].into() };
        let alike = (0..15).all(|i| (0..i).all(|j| at(i, j) == at(j, i) || (at(i, j) - at(j, i)).abs() <= 256.0 * eps));
        let last = v.len() - 1;
        v[last] &= b(alike);
        (0..15).for_each(|i| (i..15).for_each(|j| v.push(e4(p[(i, j)]))));
        v
    }
    fn other<const W: usize>(&mut self, a: &[i64]) -> Obs {
        let q = d8(&a[1..]);
        let r = self.0.update_other::<W, _>(&Sensor(a[0]), Vector::from_fn(|i| T::from_f64(q[i])), diag(&q[W..]));
        res(r, |_| self.look())
    }
}
impl<const M: usize, T: Fl> Kind for D<M, T> {
    fn go(&mut self, op: &str, a: &[i64]) -> Obs {
        match op {
            "form" => {
                self.0 = self.0.with_covariance_update(if a[0] == 0 { CovarianceUpdate::Joseph } else { CovarianceUpdate::Naive });
                ok(vec![])
            }
            "noise" => { self.0.set_imu_noise(noise(&d8(a))); ok(vec![]) }
            "sensor" => { self.0.set_measurement_noise(diag(&d8(a))); ok(vec![]) }
            "place" => { self.0.set_nominal_state(state(&d8(a))); ok(vec![]) }
            "round" => {
                let s = self.0.nominal_state();
                let e = s.plus_error(error(a)).error_from(s);
                ok((0..15).map(|i| e4(e[i])).collect())
            }
            "look" => ok(self.look()),
            "inno" => {
                let (y, s) = (self.0.innovation(), self.0.innovation_covariance());
                let mut v: Vec<i64> = (0..M).map(|i| e4(y[i])).collect();
                (0..M * M).for_each(|k| v.push(e4(s[(k / M, k % M)])));
                ok(v)
            }
            "nis" => res(self.0.normalized_innovation_squared(), |x| vec![e4(x)]),
            "nees" => {
                // how far a given truth is from the estimate, by the estimate's own spread
                let s = self.0.nominal_state().plus_error(error(a));
                res(self.0.normalized_estimation_error_squared(s), |x| vec![e4(x)])
            }
            "predict" => {
                let (q, dt) = (d8(a), dec(a[6], 16.0));
                let r = self.0.predict(v3(&q), v3(&q[3..]), T::from_f64(dt));
                res(r, |_| self.look())
            }
            "update" | "residual" => {
                let q = d8(&a[1..]);
                let z: Vector<M, T> = Vector::from_fn(|i| T::from_f64(q[i]));
                let r = if op == "update" { self.0.update(&Sensor(a[0]), z) } else { self.0.update_with_residual(&Sensor(a[0]), z) };
                res(r, |_| self.look())
            }
            "other" => if a.len() == 7 { self.other::<3>(a) } else { self.other::<1>(a) },
            "inject" => { self.0.inject_error_and_reset(error(a)); ok(self.look()) }
            "condition" => res(self.0.condition_covariance(T::from_f64(dec(a[0], 8.0))), |_| self.look()),
            _ => panic!("HARNESS {op}"),
        }
    }
}
struct Any<T: Fl>(Option<Box<dyn Kind>>, std::marker::PhantomData<T>);
impl<T: Fl> Driver for Any<T> {
    fn apply(&mut self, op: &str, a: &[i64]) -> Obs {
        if op == "new" {
            self.0 = Some(if a[0] == 3 { Box::new(D::<3, T>::new(a)) } else { Box::new(D::<1, T>::new(a)) });
            return ok(vec![]);
        }
        self.0.as_mut().expect("HARNESS new").go(op, a)
    }
}
fn new(r: &mut Rng) -> Vec<i64> {
    let m = if r.chance(2, 3) { 3 } else { 1 };
    let mut a = vec![m];
    a.extend(r.ints(6, -30, 30));
    a.extend(r.ints(3, -14, 14));
    a.extend(r.ints(6, -3, 3));
    a.extend(r.ints(15, 1, 8));
    a.extend(if r.chance(1, 3) { vec![0; 15] } else { (0..15).map(|_| r.of(&[0, 0, 1, -1, 2])).collect() });
    a.extend(r.ints(4, 0, 4));
    a.extend(r.ints(m as usize, 4, 16));
    if r.chance(1, 3) {
        a.extend(r.ints(3, -40, 40));
    }
    a
}
fn gen(r: &mut Rng, s: &mut Sess) {
    for _ in 0..2 {
        let a = new(r);
        let m = a[0] as usize;
        s.run("new", &a);
        s.run("look", &[]);
        let sensor = |r: &mut Rng, m: usize| if m == 3 { r.int(0, 5) } else { r.int(6, 8) };
        for _ in 0..9 {
            match r.below(18) {
                0..=4 => {
                    let mut q = r.ints(3, -10, 10);
                    q.extend(r.ints(2, -16, 16));
                    q.push(r.of(&[78, 70, 86, 0]));
                    q.push(r.int(1, 4));
                    s.run("predict", &q);
                }
                5..=7 => {
                    let mut q = vec![sensor(r, m)];
                    q.extend(r.ints(m, -24, 24));
                    s.run("update", &q);
                }
                8 => {
                    let mut q = vec![sensor(r, m)];
                    q.extend(r.ints(m, -12, 12));
                    s.run("residual", &q);
                }
                9 | 10 => {
                    let n = r.of(&[1, 3]) as usize;
                    let mut q = vec![sensor(r, n)];
                    q.extend(r.ints(n, -12, 12));
                    q.extend(r.ints(n, 4, 16));
                    if r.chance(1, 6) {
                        let at = q.len() - 1;
                        q[at] = r.of(&[NAN, INF, -400]);
                    }
                    s.run("other", &q);
                    s.run("look", &[]);
                    s.run("inno", &[]);
                }
                11 => { let a = [r.int(0, 1)]; s.run("form", &a); }
                12 => {
                    let mut q = r.ints(15, -8, 8);
                    if r.chance(1, 3) {
                        q[6] = 20;
                    }
                    s.run("inject", &q);
                }
                13 => {
                    let q = r.ints(15, -16, 16);
                    s.run("round", &q);
                    s.run(["inno", "nis"][r.below(2) as usize], &[]);
                }
                14 => {
                    let a = [r.of(&[0, 1, 1, 4, 12])];
                    s.run("condition", &a);
                }
                15 => {
                    if r.chance(1, 2) {
                        let mut q = r.ints(6, -30, 30);
                        q.extend(r.ints(3, -14, 14));
                        q.extend(r.ints(6, -3, 3));
                        s.run("place", &q);
                    } else {
                        let q = r.ints(m, 4, 16);
                        s.run("sensor", &q);
                    }
                }
                16 => { let q: Vec<i64> = r.ints(15, -8, 8); s.run("nees", &q); }
                _ => {
                    // something unusable, and what it left behind
                    match r.below(4) {
                        0 => {
                            let mut q = r.ints(6, -10, 10);
                            q.push(2);
                            q[r.below(7) as usize] = r.of(&[NAN, INF, NINF]);
                            s.run("predict", &q);
                        }
                        1 => {
                            let good = r.ints(4, 0, 4);
                            let mut q = good.clone();
                            q[r.below(4) as usize] = r.of(&[NAN, INF]);
                            s.run("noise", &q);
                            s.run("predict", &[1, 2, 3, 4, 5, 78, 2]);
                            s.run("look", &[]);
                            s.run("noise", &good);
                        }
                        2 => {
                            let mut q = vec![sensor(r, m)];
                            q.extend(r.ints(m, -12, 12));
                            if r.chance(1, 3) { q[0] = if m == 3 { 9 } else { 10 } } else { q[1 + r.below(m as u64) as usize] = r.of(&[NAN, INF]) }
                            let op = ["update", "residual"][r.below(2) as usize];
                            s.run(op, &q);
                        }
                        _ => {
                            let good = r.ints(m, 4, 16);
                            let mut q = good.clone();
                            q[r.below(m as u64) as usize] = r.of(&[NAN, INF, -600]);
                            s.run("sensor", &q);
                            let mut z = vec![sensor(r, m)];
                            z.extend(r.ints(m, -12, 12));
                            s.run("update", &z);
                            s.run("inno", &[]);
                            s.run("look", &[]);
                            s.run("sensor", &good);
                        }
                    }
                    s.run("look", &[]);
                }
            }
        }
        s.run(["look", "inno", "nis"][r.below(3) as usize], &[]);
    }
}
fn main() {
    main_with(&[Model {
        name: "esk",
        make: |ty| if ty == "f32" { Box::new(Any::<f32>(None, std::marker::PhantomData)) } else { Box::new(Any::<f64>(None, std::marker::PhantomData)) },
        gen,
    }]);
}
