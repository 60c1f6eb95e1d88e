use multicalc::estimation::*;
use multicalc::linear_algebra::{Matrix, Vector};
use multicalc::scalar::{Numeric, VectorFn};
use vharness::*;
/// `A x + b`, for any scalar.
struct Affine<'a, const R: usize, const N: usize> {
    a: &'a [[f64; N]; R],
    b: [f64; R],
}
impl<const N: usize, const R: usize> VectorFn<N, R> for Affine<'_, R, N> {
    fn eval<S: Numeric>(&self, x: &[S; N]) -> [S; R] {
        std::array::from_fn(|i| (0..N).fold(S::from_f64(self.b[i]), |s, j| s + S::from_f64(self.a[i][j]) * x[j]))
    }
}
trait Kind {
    fn go(&mut self, op: &str, a: &[i64]) -> Obs;
}
struct K<T, const N: usize, const M: usize> {
    k: i64,
    kf: KalmanFilter<N, M, T>,
    ekf: ExtendedKalmanFilter<N, M, T>,
    ukf: UnscentedKalmanFilter<N, M, T>,
    f: [[f64; N]; N],
    h: [[f64; N]; M],
    direct: Option<DirectMeasurement<N, M>>,
    width: f64,
}
fn d8(q: &[i64]) -> Vec<f64> {
    q.iter().map(|x| dec(*x, 8.0)).collect()
}
fn rows<const R: usize, const N: usize>(q: &[i64]) -> [[f64; N]; R] {
    let q = d8(q);
    std::array::from_fn(|i| std::array::from_fn(|j| q[i * N + j]))
}
fn mat<T: Fl, const R: usize, const N: usize>(q: [[f64; N]; R]) -> Matrix<R, N, T> {
    Matrix::from_fn(|i, j| T::from_f64(q[i][j]))
}
fn vec<T: Fl, const N: usize>(q: &[i64]) -> Vector<N, T> {
    let q = d8(q);
    Vector::from_fn(|i| T::from_f64(q[i]))
}
fn e4<T: Fl>(x: T) -> i64 {
    enc_tol(x.into(), 1e4, 0.51)
}
impl<T: Fl, const N: usize, const M: usize> K<T, N, M> {
    fn new(a: &[i64]) -> Self {
        let x = vec::<T, N>(&a[3..3 + N]);
        let p = mat(rows::<N, N>(&a[3 + N..3 + N + N * N]));
        let q = mat(rows::<N, N>(&a[3 + N + N * N..3 + N + 2 * N * N]));
        let r = mat(rows::<M, M>(&a[3 + N + 2 * N * N..]));
        let f: [[f64; N]; N] = std::array::from_fn(|i| std::array::from_fn(|j| if i == j { 1.0 } else { 0.0 }));
        let h: [[f64; N]; M] = std::array::from_fn(|i| std::array::from_fn(|j| if i == j { 1.0 } else { 0.0 }));
        K {
            k: a[0],
            kf: KalmanFilter::new(x, p, KalmanModel { state_transition: mat(f), measurement_model: mat(h), process_noise: q, measurement_noise: r }),
            ekf: ExtendedKalmanFilter::new(x, p, q, r),
            ukf: UnscentedKalmanFilter::new(x, p, q, r),
            f,
            h,
            direct: None,
            width: 1e-6 * N as f64,
        }
    }
    fn estimate(&self) -> Vec<i64> {
        let (x, p) = match self.k {
            0 => (self.kf.state(), self.kf.covariance()),
            1 => (self.ekf.state(), self.ekf.covariance()),
            _ => (self.ukf.state(), self.ukf.covariance()),
        };
        let mut v: Vec<i64> = (0..N).map(|i| e4(x[i])).collect();
        v.extend(self.flat(p));
        v
    }
    /// Both halves round alike once they agree to the last bits.
    fn flat<const R: usize>(&self, p: Matrix<R, R, T>) -> Vec<i64> {
        let big = (0..R * R).map(|k| { let x: f64 = p[(k / R, k % R)].into(); x.abs() }).fold(0f64, f64::max);
        let eps: f64 = T::EPSILON.into();
        let mut v = vec![];
        for i in 0..R {
            for j in 0..R {
                let (a, b): (f64, f64) = (p[(i, j)].into(), p[(j, i)].into());
                let alike = a == b || (self.k < 2 && (a - b).abs() <= 4096.0 * eps * (big + 4.0));
                v.push(if alike { e4(if i <= j { p[(i, j)] } else { p[(j, i)] }) } else { enc_tol(a, 1e4, 0.51) + i64::from(i > j) });
            }
        }
        v
    }
    fn look(&self) -> Vec<i64> {
        let (r, s) = match self.k {
            0 => (self.kf.innovation(), self.kf.innovation_covariance()),
            1 => (self.ekf.innovation(), self.ekf.innovation_covariance()),
            _ => (self.ukf.innovation(), self.ukf.innovation_covariance()),
        };
        let mut v = self.estimate();
        v.extend((0..M).map(|i| e4(r[i])));
        v.extend(self.flat(s));
        v
    }
    fn predict(&mut self, b: Option<(Vec<f64>, Vec<f64>)>) -> Obs {
        let c = b.as_ref().map_or(0, |b| b.1.len());
        if self.k == 0 {
            match &b {
                None => self.kf.predict(),
                Some((m, u)) if c == 1 => self.kf.predict_with_control::<1>(Matrix::from_fn(|i, j| T::from_f64(m[i + j])), Vector::from_fn(|j| T::from_f64(u[j]))),
                Some((m, u)) => self.kf.predict_with_control::<2>(Matrix::from_fn(|i, j| T::from_f64(m[i * 2 + j])), Vector::from_fn(|j| T::from_f64(u[j]))),
            }
            return ok(self.estimate());
        }
        let off = match &b {
            None => [0.0; N],
            Some((m, u)) => std::array::from_fn(|i| (0..c).map(|j| m[i * c + j] * u[j]).sum()),
        };
        let model = Affine { a: &self.f, b: off };
        let r = if self.k == 1 { self.ekf.predict(&model) } else { self.ukf.predict(&model) };
        res(r, |_| self.estimate())
    }
    fn update(&mut self, z: Vector<M, T>, plain: bool) -> Obs {
        let model = Affine { a: &self.h, b: [0.0; M] };
        let r = match (self.k, plain, &self.direct) {
            (0, true, _) => self.kf.update(z),
            (1, true, None) => self.ekf.update(&model, z),
            (1, false, None) => self.ekf.update_with_residual(&model, z),
            (1, true, Some(d)) => self.ekf.update(d, z),
            (1, false, Some(d)) => self.ekf.update_with_residual(d, z),
            (2, true, None) => self.ukf.update(&model, z),
            (2, false, None) => self.ukf.update_with_residual(&model, z),
            (2, true, Some(d)) => self.ukf.update(d, z),
            (2, false, Some(d)) => self.ukf.update_with_residual(d, z),
            _ => panic!("HARNESS residual"),
        };
        res(r, |_| self.look())
    }
}
impl<T: Fl, const N: usize, const M: usize> Kind for K<T, N, M> {
    fn go(&mut self, op: &str, a: &[i64]) -> Obs {
        match op {
            "set" => {
                let q = &a[1..];
                match a[0] {
                    0 => { let x = vec(q); self.kf.set_state(x); self.ekf.set_state(x); self.ukf.set_state(x) }
                    1 => { self.f = rows(q); self.kf.set_state_transition(mat(self.f)) }
                    2 => { self.h = rows(q); self.direct = None; self.kf.set_measurement_model(mat(self.h)) }
                    3 => { let m = mat(rows::<N, N>(q)); self.kf.set_process_noise(m); self.ekf.set_process_noise(m); self.ukf.set_process_noise(m) }
                    _ => { let m = mat(rows::<M, M>(q)); self.kf.set_measurement_noise(m); self.ekf.set_measurement_noise(m); self.ukf.set_measurement_noise(m) }
                }
                ok(vec![])
            }
            "form" => {
                let f = if a[0] == 0 { CovarianceUpdate::Joseph } else { CovarianceUpdate::Naive };
                self.kf = self.kf.with_covariance_update(f);
                self.ekf = self.ekf.with_covariance_update(f);
                ok(vec![])
            }
            "scaling" => {
                let [al, be, ka] = [0, 1, 2].map(|i| dec(a[i], 8.0));
                let r = self.ukf.with_scaling(T::from_f64(al), T::from_f64(be), T::from_f64(ka));
                res(r, |u| {
                    self.ukf = u.with_regularization(T::ZERO).unwrap();
                    self.width = al * al * (N as f64 + ka);
                    vec![]
                })
            }
            "ridge" => res(self.ukf.with_regularization(T::from_f64(dec(a[0], 8.0) * self.width)), |u| { self.ukf = u; vec![] }),
            "direct" => {
                let idx: [usize; M] = std::array::from_fn(|i| if a[i] < 0 { usize::MAX } else { a[i] as usize });
                res(DirectMeasurement::<N, M>::try_new(idx), |d| {
                    self.h = std::array::from_fn(|i| std::array::from_fn(|j| if idx[i] == j { 1.0 } else { 0.0 }));
                    self.kf.set_measurement_model(mat(self.h));
                    self.direct = Some(d);
                    d.indices().iter().map(|i| *i as i64).collect()
                })
            }
            "look" => ok(self.look()),
            "estimate" => ok(self.estimate()),
            "nis" => {
                let r = match self.k {
                    0 => self.kf.normalized_innovation_squared(),
                    1 => self.ekf.normalized_innovation_squared(),
                    _ => self.ukf.normalized_innovation_squared(),
                };
                res(r, |x| vec![e4(x)])
            }
            "predict" => self.predict(None),
            "control" => {
                let c = a.len() / (N + 1);
                let q = d8(a);
                self.predict(Some((q[..N * c].to_vec(), q[N * c..].to_vec())))
            }
            "update" => self.update(vec(a), true),
            "residual" => self.update(vec(a), false),
            _ => panic!("HARNESS {op}"),
        }
    }
}
struct D<T: Fl> {
    f: Box<dyn Kind>,
    p: std::marker::PhantomData<T>,
}
impl<T: Fl> Driver for D<T> {
    fn apply(&mut self, op: &str, a: &[i64]) -> Obs {
        match op {
            "new" => {
                macro_rules! shapes {
                    ($($n:literal $m:literal)*) => { match (a[1], a[2]) { $(($n, $m) => Box::new(K::<T, $n, $m>::new(a)) as Box<dyn Kind>,)* _ => panic!("HARNESS shape") } };
                }
                self.f = shapes!(1 1 1 2 2 1 2 2 3 1 3 2);
                ok(vec![])
            }
            "turn" => {
                let q: [T; 5] = std::array::from_fn(|i| T::from_f64(a[i] as f64 / 10.0));
                ok(ConstantTurnAndSpeed { timestep: a[5] as f64 / 10.0 }.eval(&q).map(e4).to_vec())
            }
            "folded" => {
                let bits: Vec<usize> = (0..3).filter(|i| a[0] >> i & 1 == 1).collect();
                let q: Vec<f64> = a[1..].iter().map(|x| *x as f64 / 10.0).collect();
                fn fold<T: Fl, const M: usize>(q: &[f64], bits: &[usize]) -> Obs {
                    let r = residual_with_wrapped_angles::<M, T>(Vector::from_fn(|i| T::from_f64(q[i])), Vector::from_fn(|i| T::from_f64(q[M + i])), bits);
                    ok((0..M).map(|i| e4(r[i])).collect())
                }
                match q.len() {
                    2 => fold::<T, 1>(&q, &bits),
                    4 => fold::<T, 2>(&q, &bits),
                    _ => fold::<T, 3>(&q, &bits),
                }
            }
            _ => self.f.go(op, a),
        }
    }
}
fn noise(r: &mut Rng, n: usize, big: i64) -> Vec<i64> {
    // a sum of squares of small vectors, in eighths
    let mut q = vec![0; n * n];
    for _ in 0..r.int(1, 3) {
        let v = r.ints(n, -big, big);
        for i in 0..n {
            for j in 0..n {
                q[i * n + j] += v[i] * v[j];
            }
        }
    }
    q
}
fn gen(r: &mut Rng, s: &mut Sess) {
    let fine = s.ty != "f32";
    for _ in 0..3 {
        let (k, n, m) = (r.int(0, 2), r.int(1, 3), r.int(1, 2));
        let (nn, mm) = (n as usize, m as usize);
        let mut a = vec![k, n, m];
        a.extend(r.ints(nn, -40, 40));
        a.extend(noise(r, nn, 3));
        a.extend(if r.chance(1, 3) { vec![0; nn * nn] } else { noise(r, nn, 1) });
        let strong = |r: &mut Rng| {
            let mut q = noise(r, mm, 2);
            for i in 0..mm {
                q[i * mm + i] += r.int(4, 12);
            }
            q
        };
        a.extend(strong(r));
        s.run("new", &a);
        if k == 2 && (!fine || r.chance(1, 2)) {
            s.run("scaling", &[r.int(4, 12) * if r.chance(1, 8) { -1 } else { 1 }, r.int(-8, 16), r.int(0, 16)]);
        }
        let flow = |r: &mut Rng| -> Vec<i64> {
            (0..nn * nn).map(|i| if i / nn == i % nn { r.of(&[8, 8, 6, -4]) } else { r.of(&[0, 0, 1, 2, 8, -3]) }).collect()
        };
        let mut f = vec![1];
        f.extend(flow(r));
        s.run("set", &f);
        let mut h = vec![2];
        h.extend(r.ints(nn * mm, -8, 8));
        s.run("set", &h);
        for _ in 0..22 {
            match r.below(20) {
                0..=5 => { s.run("predict", &[]); }
                6..=11 => { s.run("update", &r.ints(mm, -60, 60)); }
                12 => {
                    let c = r.int(1, 2) as usize;
                    let mut q = r.ints(nn * c + c, -8, 8);
                    if r.chance(1, 20) && k != 0 {
                        q[0] = r.of(&[NAN, INF]);
                    }
                    s.run("control", &q);
                }
                13 if k > 0 => { s.run("residual", &r.ints(mm, -30, 30)); }
                14 => {
                    let mut q = vec![r.int(0, 4)];
                    q.extend(match q[0] { 0 => r.ints(nn, -40, 40), 1 => flow(r), 2 => r.ints(nn * mm, -8, 8), 3 => noise(r, nn, 1), _ => strong(r) });
                    s.run("set", &q);
                }
                15 if r.chance(1, 2) => { s.run("form", &[r.int(0, 1)]); }
                15 => { s.run("nis", &[]); }
                16 if k == 2 => {
                    if r.chance(1, 2) {
                        s.run("ridge", &[r.of(&[0, 1, 2, 4, -1, NAN, INF])]);
                    } else {
                        let a = [r.of(&[0, 4, 8, -8, 12, NAN]), r.of(&[0, 16, 8, INF]), r.of(&[0, 8, -8, -16, -24, NAN])];
                        s.run("scaling", &a);
                    }
                }
                16 => { s.run("direct", &(0..m).map(|_| r.int(0, n)).collect::<Vec<_>>()); }
                17 => { s.run(["look", "estimate", "nis"][r.below(3) as usize], &[]); }
                18 => {
                    // something unusable, and what follows; then a usable one again
                    match r.below(4) {
                        0 => {
                            let mut z = r.ints(mm, -60, 60);
                            z[r.below(m as u64) as usize] = r.of(&[NAN, INF, NINF]);
                            s.run(if k > 0 && r.chance(1, 3) { "residual" } else { "update" }, &z);
                        }
                        1 => {
                            let mut q = vec![4];
                            q.extend(strong(r));
                            let good = q.clone();
                            q[1] = r.of(&[NAN, INF, -80, -200]);
                            s.run("set", &q);
                            s.run("update", &r.ints(mm, -60, 60));
                            s.run("estimate", &[]);
                            s.run("set", &good);
                        }
                        2 => {
                            let mut q = h.clone();
                            q[1] = r.of(&[NAN, INF]);
                            s.run("set", &q);
                            s.run("update", &r.ints(mm, -60, 60));
                            s.run("estimate", &[]);
                            s.run("set", &h);
                        }
                        _ => {
                            if k > 0 {
                                let mut q = f.clone();
                                q[1] = r.of(&[NAN, INF]);
                                s.run("set", &q);
                                s.run("predict", &[]);
                                s.run("estimate", &[]);
                                if k == 2 && r.chance(1, 2) {
                                    s.run("update", &r.ints(mm, -60, 60));
                                    s.run("estimate", &[]);
                                }
                                s.run("set", &f);
                            }
                        }
                    }
                }
                _ => {
                    if r.chance(1, 2) {
                        let a = [r.int(-50, 50), r.int(-50, 50), r.int(-60, 60), r.int(-30, 30), r.of(&[0, 1, -1, 5, -9, 15]), r.int(1, 20)];
                        s.run("turn", &a);
                    } else {
                        let c = r.int(1, 3) as usize;
                        let mut a = vec![r.int(0, 7)];
                        a.extend(r.ints(2 * c, -90, 90));
                        s.run("folded", &a);
                    }
                }
            }
        }
    }
}
fn main() {
    fn fresh<T: Fl>() -> Box<D<T>> {
        Box::new(D { f: Box::new(K::<T, 1, 1>::new(&[0, 1, 1, 0, 8, 0, 8])), p: std::marker::PhantomData })
    }
    main_with(&[Model { name: "kf", make: |ty| if ty == "f32" { fresh::<f32>() } else { fresh::<f64>() }, gen }]);
}
