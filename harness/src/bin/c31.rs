use multicalc::estimation::*;
use multicalc::linear_algebra::{Matrix, Vector};
use multicalc::mapping::{OccupancyMap, ScanGeometry};
use multicalc::random::{RandomScalar, RandomSource};
use multicalc::scalar::{Numeric, Primal, VectorFn};
use std::cell::{Cell, RefCell};
use std::rc::Rc;
use vharness::*;
/// Draws handed in by the caller, and how many of each kind were taken.
#[derive(Clone, Default)]
struct Script {
    units: Rc<RefCell<Vec<i64>>>,
    normals: Rc<RefCell<Vec<i64>>>,
    used: Rc<Cell<(usize, usize)>>,
}
impl Script {
    fn set(&self, units: &[i64], normals: &[i64]) {
        *self.units.borrow_mut() = units.to_vec();
        *self.normals.borrow_mut() = normals.to_vec();
        self.used.set((0, 0));
    }
}
trait Real: Fl + RandomScalar + Primal {}
impl Real for f32 {}
impl Real for f64 {}
impl<T: Real> RandomSource<T> for Script {
    fn next_u32(&mut self) -> u32 {
        panic!("HARNESS words")
    }
    fn next_unit(&mut self) -> T {
        let (u, z) = self.used.get();
        self.used.set((u + 1, z));
        match self.units.borrow().get(u) {
            Some(4096) => T::ONE - T::EPSILON * T::HALF,
            Some(x) => T::from_f64(*x as f64 / 4096.0),
            None => T::from_f64(2049.0 / 4096.0),
        }
    }
    fn standard_normal(&mut self) -> T {
        let (u, z) = self.used.get();
        self.used.set((u, z + 1));
        T::from_f64(self.normals.borrow().get(z).map_or(0.0, |x| *x as f64 / 4.0))
    }
    fn get_cache(&mut self) -> Option<T> {
        None
    }
    fn set_cache(&mut self, _: T) {}
}
struct Affine([[f64; 2]; 2], [f64; 2]);
impl VectorFn<2, 2> for Affine {
    fn eval<S: Numeric>(&self, x: &[S; 2]) -> [S; 2] {
        [0, 1].map(|i| S::from_f64(self.0[i][0]) * x[0] + S::from_f64(self.0[i][1]) * x[1] + S::from_f64(self.1[i]))
    }
}
struct First;
impl VectorFn<2, 1> for First {
    fn eval<S: Numeric>(&self, x: &[S; 2]) -> [S; 1] {
        [x[0]]
    }
}
fn shape<T: Real>(q: &[i64]) -> Matrix<2, 2, T> {
    let l: Vec<f64> = q.iter().map(|x| *x as f64 / 8.0).collect();
    let m = [[l[0] * l[0], l[0] * l[1]], [l[0] * l[1], l[1] * l[1] + l[2] * l[2]]];
    Matrix::from_fn(|i, j| T::from_f64(m[i][j]))
}
/// The lists of an argument: each a length and that many.
fn lists(mut a: &[i64]) -> Vec<Vec<i64>> {
    let mut v = vec![];
    while !a.is_empty() {
        let n = a[0] as usize;
        v.push(a[1..1 + n].to_vec());
        a = &a[1 + n..];
    }
    while v.len() < 3 {
        v.push(vec![]);
    }
    v
}
struct D<T: Real> {
    f: Option<ParticleFilter<2, 1, T, Script>>,
    s: Script,
}
impl<T: Real> D<T> {
    fn look(&self) -> Vec<i64> {
        let f = self.f.as_ref().unwrap();
        let mut v = vec![];
        f.particles().iter().for_each(|p| (0..2).for_each(|i| v.push(enc_tol(p[i].into(), 4096.0, 0.51))));
        f.weights().iter().for_each(|x| v.push(enc_tol((*x).into(), 1e5, 0.51)));
        let (a, b) = self.s.used.get();
        v.extend([a as i64, b as i64]);
        v
    }
}
fn scheme(k: i64) -> ResamplingScheme {
    [ResamplingScheme::Systematic, ResamplingScheme::Stratified, ResamplingScheme::Multinomial, ResamplingScheme::Residual][k as usize]
}
/// A map that answers each beam of a scan by the side it is cast from.
struct Sides<T> {
    middle: T,
    heading: T,
    right: Vec<i64>,
    left: Vec<i64>,
}
impl<T: Real> OccupancyMap<T> for Sides<T> {
    fn columns(&self) -> usize {
        1
    }
    fn rows(&self) -> usize {
        1
    }
    fn resolution(&self) -> T {
        T::ONE
    }
    fn origin(&self) -> [T; 2] {
        [T::ZERO; 2]
    }
    fn is_occupied(&self, _: usize, _: usize) -> bool {
        false
    }
    fn cast_ray(&self, from: [T; 2], bearing: T, reach: T) -> Option<T> {
        let turn: f64 = (bearing - self.heading).into();
        let turn = turn.sin().atan2(turn.cos());
        let k = (turn / 0.5).round();
        let far: f64 = reach.into();
        if (turn - 0.5 * k).abs() > 0.1 || k.abs() > 1.0 || far != 12.0 {
            return Some(T::NAN);
        }
        let side = if from[0] > self.middle { &self.right } else { &self.left };
        let x = side[(k + 1.0) as usize];
        if x == NINF { None } else { Some(T::from_f64(x as f64)) }
    }
}
fn drawn<T: Real>(a: &[i64]) -> Obs {
    let run = |seed: i64| {
        let m = Vector::from_fn(|i| T::from_f64(i as f64));
        let f = ParticleFilter::<2, 1, T>::new(a[0] as usize, m, shape(&[8, 4, 8]), shape(&[4, 0, 4]), seed as u64)?;
        let mut f = f.with_resampling(scheme(a[3]));
        let like = GaussianLikelihood::<1, T>::new(Matrix::from_fn(|_, _| T::from_f64(0.25)))?;
        for k in 0..a[4] {
            f.predict(&Affine([[1.0, 0.5], [0.0, 1.0]], [0.0, 0.25]))?;
            f.update(&First, &like, Vector::from_fn(|_| T::from_f64(k as f64 * 0.5)))?;
        }
        let mut v: Vec<f64> = f.particles().iter().flat_map(|p| [p[0].into(), p[1].into()]).collect();
        let w: Vec<f64> = f.weights().iter().map(|x| (*x).into()).collect();
        let sound = w.iter().all(|x| x.is_finite() && *x >= 0.0);
        let sum = w.iter().sum::<f64>();
        v.extend(&w);
        Ok::<_, multicalc::error::EstimationError>((w.len(), sum, sound, v))
    };
    res(run(a[1]), |(n, sum, sound, v)| {
        let bits = |q: &[f64]| q.iter().map(|x| x.to_bits()).collect::<Vec<_>>();
        let (x, y) = (run(a[1]).unwrap().3, run(a[2]).map(|r| r.3).unwrap_or_default());
        vec![n as i64, enc_tol(sum, 1e4, 0.51), b(sound), b(bits(&x) == bits(&v)), b(bits(&y) == bits(&v))]
    })
}
fn localizer<T: Real>(n: i64, seed: i64, hint: [T; 3], wide: f64, turned: f64) -> Result<MonteCarloLocalizer<3, T>, multicalc::error::EstimationError> {
    let cloud = InitialParticleCloud { particle_count: n as usize, position_variance: T::from_f64(wide), heading_variance: T::from_f64(turned) };
    let deviation = T::from_f64(1.0 / (2.0 * std::f64::consts::LN_2).sqrt());
    let model = BeamModel { range_deviation: deviation, agreement_reward: T::from_f64(std::f64::consts::LN_2), mismatch_penalty: T::from_f64(-3.0 * std::f64::consts::LN_2) };
    MonteCarloLocalizer::new(hint, cloud, model, seed as u64)
}
fn beams<T: Real>(a: &[i64]) -> Obs {
    let (middle, heading) = (T::from_f64(0.5), T::from_f64(a[2] as f64 * std::f64::consts::FRAC_PI_4));
    let map = Sides { middle, heading, right: a[3..6].to_vec(), left: a[6..9].to_vec() };
    let scan = [9, 10, 11].map(|i| T::from_f64(dec(a[i], 1.0)));
    let far = ScanGeometry::<3, T>::try_new(T::ONE, T::from_f64(12.0)).and_then(|g| g.with_minimum_range(T::ONE)).expect("HARNESS scan");
    let mut l = localizer(a[0], a[1], [middle, T::ONE, heading], 1.0, 1e-6).expect("HARNESS localizer");
    let right = |l: &MonteCarloLocalizer<3, T>| l.particles().iter().filter(|p| p[0] > middle).count() as i64;
    let before = right(&l);
    let r = l.update(&scan, &map, &far);
    res(r, |_| vec![before, enc_tol(l.effective_sample_size().into(), 100.0, 0.51), right(&l), l.particle_count() as i64])
}
fn walk<T: Real>(a: &[i64]) -> Obs {
    let eighth = std::f64::consts::FRAC_PI_4;
    let hint = [T::from_f64(a[3] as f64 / 8.0), T::from_f64(a[4] as f64 / 8.0), T::from_f64(a[5] as f64 * 2.0 * eighth)];
    let run = || {
        let tiny = 1e-10;
        let mut l = localizer::<T>(a[0], a[1], hint, if a[2] == 1 { 0.0 } else { tiny }, if a[2] == 2 { -1.0 } else { tiny })?;
        l.set_motion_noise([1, 1, if a[2] == 3 { 0 } else { 1 }].map(|x| T::from_f64(x as f64 * tiny)))?;
        for q in a[6..].chunks(2) {
            l.predict(T::from_f64(dec(q[0], 8.0)), T::from_f64(q[1] as f64 * 2.0 * eighth))?;
        }
        Ok::<_, multicalc::error::EstimationError>(l)
    };
    res(run(), |l| {
        let (x, _) = l.estimate();
        let h: f64 = x[2].into();
        let at = |x: f64, s: f64| enc_tol(x, s, 0.3);
        let sure = |p: f64, h: f64| b(l.is_converged(T::from_f64(p), T::from_f64(h)));
        vec![at(x[0].into(), 8.0), at(x[1].into(), 8.0), at(h.cos(), 1.0), at(h.sin(), 1.0), sure(1e-4, 1e-3), sure(1e-17, 1e-3), sure(1e-4, 1e-7), l.particle_count() as i64]
    })
}
impl<T: Real> Driver for D<T> {
    fn apply(&mut self, op: &str, a: &[i64]) -> Obs {
        match op {
            "pick" => {
                let q = lists(&a[1..]);
                let w: Vec<T> = q[0].iter().map(|x| T::from_f64(*x as f64 / 1024.0)).collect();
                let mut at = vec![usize::MAX; w.len()];
                let mut s = Script::default();
                s.set(&q[1], &[]);
                scheme(a[0]).resample_indices(&w, &mut s, &mut at);
                let mut v: Vec<i64> = at.iter().map(|x| *x as i64).collect();
                v.push(s.used.get().0 as i64);
                return ok(v);
            }
            "gauss" => {
                let q: Vec<f64> = a.iter().map(|x| *x as f64 / 8.0).collect();
                let m = Matrix::from_fn(|i, j| T::from_f64(if i == j { q[2 * i] } else { q[1] }));
                return res(GaussianLikelihood::<2, T>::new(m), |l| {
                    let x = l.log_weight(&[T::from_f64(1.0), T::from_f64(-2.0)], &[T::from_f64(q[3] + 1.0), T::from_f64(q[4] - 2.0)]);
                    vec![enc_tol(x.into(), 1e4, 0.51)]
                });
            }
            "drawn" => return drawn::<T>(a),
            "beams" => return beams::<T>(a),
            "walk" => return walk::<T>(a),
            "new" => {
                let q = lists(&a[9..]);
                self.s.set(&[], &q[0]);
                let m = Vector::from_fn(|i| T::from_f64(a[1 + i] as f64 / 8.0));
                let r = ParticleFilter::from_random(a[0] as usize, m, shape(&a[3..]), shape(&a[6..]), self.s.clone());
                return res(r, |f| {
                    self.f = Some(f);
                    self.look()
                });
            }
            "process" => return res(self.f.as_mut().unwrap().set_process_noise(shape(a)), |_| vec![]),
            "scheme" | "threshold" | "roughen" => {
                let f = self.f.take().unwrap();
                self.f = Some(match op {
                    "scheme" => f.with_resampling(scheme(a[0])),
                    "threshold" => f.with_resample_threshold(T::from_f64(a[0] as f64 / 8.0)),
                    _ => f.with_roughening(T::from_f64(a[0] as f64 / 4.0)),
                });
                return ok(vec![]);
            }
            _ => {}
        }
        let f = self.f.as_mut().expect("HARNESS none");
        match op {
            "predict" => {
                let q = lists(&a[6..]);
                self.s.set(&[], &q[0]);
                let m: Vec<f64> = (0..4).map(|i| dec(a[i], 1.0)).collect();
                let model = Affine([[m[0], m[1]], [m[2], m[3]]], [dec(a[4], 8.0), dec(a[5], 8.0)]);
                let r = f.predict(&model);
                res(r, |_| self.look())
            }
            "score" => {
                let q = lists(a);
                self.s.set(&q[1], &q[2]);
                let mut k = 0;
                let r = f.update_with_log_weights(|_| {
                    let x = q[0].get(k).map_or(0.0, |x| dec(*x, 1.0));
                    k += 1;
                    T::from_f64(x * std::f64::consts::LN_2)
                });
                res(r, |_| self.look())
            }
            "sense" => {
                let q = lists(&a[1..]);
                self.s.set(&q[0], &q[1]);
                let like = GaussianLikelihood::<1, T>::new(Matrix::from_fn(|_, _| T::from_f64(0.5 / std::f64::consts::LN_2))).expect("HARNESS noise");
                let r = f.update(&First, &like, Vector::from_fn(|_| T::from_f64(dec(a[0], 8.0))));
                res(r, |_| self.look())
            }
            "resample" => {
                let q = lists(a);
                self.s.set(&q[0], &q[1]);
                f.resample();
                ok(self.look())
            }
            "facts" => {
                let (e, m, x) = (f.effective_sample_size(), f.mean(), f.maximum_a_posteriori_state());
                let at = |x: T| enc_tol(x.into(), 4096.0, 0.51);
                ok(vec![enc_tol(e.into(), 100.0, 0.51), at(m[0]), at(m[1]), at(x[0]), at(x[1])])
            }
            _ => panic!("HARNESS {op}"),
        }
    }
}
fn push(a: &mut Vec<i64>, q: Vec<i64>) {
    a.push(q.len() as i64);
    a.extend(q);
}
fn odd(r: &mut Rng, n: usize) -> Vec<i64> {
    (0..n).map(|_| 2 * r.int(0, 2047) + 1).collect()
}
fn shares(r: &mut Rng, n: usize) -> Vec<i64> {
    let mut q = vec![0; n];
    let mut left = 1024;
    while left > 0 {
        let k = r.of(&[1, 7, 16, 64, 128, 256, 512, 1024]).min(left);
        q[r.below(n as u64) as usize] += k;
        left -= k;
    }
    q
}
fn gen(r: &mut Rng, s: &mut Sess) {
    for _ in 0..8 {
        let n = r.int(1, 8) as usize;
        let mut a = vec![r.int(0, 3)];
        push(&mut a, shares(r, n));
        let u = (0..n).map(|_| if r.chance(1, 4) { r.of(&[0, 4096, 2048, 1024, 4095]) } else { r.int(0, 4095) }).collect();
        push(&mut a, u);
        s.run("pick", &a);
    }
    let a = [r.int(-1, 12), r.int(-6, 6), r.int(-1, 12), r.int(-40, 40), r.int(-40, 40)];
    s.run("gauss", &a);
    let a = [r.int(1, 30), r.int(0, 99), r.int(0, 3), r.int(0, 3), r.int(0, 4)];
    s.run("drawn", &a);
    let mut a = vec![r.int(1, 40), r.int(0, 9999), r.int(-4, 4)];
    let near = r.int(2, 11);
    (0..6).for_each(|_| a.push(if r.chance(1, 4) { NINF } else { near + r.int(-1, 1) }));
    (0..3).for_each(|_| a.push(if r.chance(1, 3) { r.of(&[NAN, INF, 0, 13, -3, 1, 12]) } else { near + r.int(-1, 1) }));
    s.run("beams", &a);
    let mut a = vec![if r.chance(1, 12) { 0 } else { r.int(1, 30) }, r.int(0, 9999), if r.chance(1, 6) { r.int(1, 3) } else { 0 }, r.int(-20, 20), r.int(-20, 20), r.int(-2, 2)];
    for _ in 0..r.int(0, 5) {
        a.push(if r.chance(1, 20) { r.of(&[NAN, INF]) } else { r.int(-12, 12) });
        a.push(r.int(-2, 2));
    }
    s.run("walk", &a);
    for _ in 0..2 {
        let n = r.int(1, 8) as usize;
        let l = |r: &mut Rng| vec![r.of(&[8, 8, 16, 32]), r.of(&[0, 0, 8, -8]), r.of(&[8, 16])];
        let mut a = vec![n as i64, 8 * r.int(-3, 3), r.int(-40, 40)];
        a.extend(l(r));
        a.extend(l(r));
        let whole = |r: &mut Rng, n: usize| -> Vec<i64> { (0..n).map(|_| 4 * r.int(-2, 2)).collect() };
        push(&mut a, whole(r, 2 * n));
        let mut bad = a.clone();
        match r.below(4) { 0 => bad[0] = 0, 1 => bad[3] = 0, 2 => bad[8] = 0, _ => {} }
        s.run("new", &a);
        if bad != a {
            s.run("new", &bad);
        }
        if r.chance(3, 4) { let a = [r.int(0, 3)]; s.run("scheme", &a); }
        if r.chance(1, 3) { let a = [r.int(0, 9 * n as i64)]; s.run("threshold", &a); }
        if r.chance(1, 4) { let a = [r.of(&[1, 2, 0, -1])]; s.run("roughen", &a); }
        if r.chance(1, 3) {
            // whoever was ruled out may come back once everybody else is
            s.run("threshold", &[0]);
            let out: Vec<bool> = (0..n).map(|_| r.chance(1, 2)).collect();
            for k in 0..3 {
                let mut a = vec![];
                let sc = (0..n).map(|i| if out[i] == (k == 0) && k < 2 { NINF } else { r.int(-3, 2) }).collect();
                push(&mut a, sc);
                push(&mut a, odd(r, n));
                push(&mut a, vec![]);
                s.run("score", &a);
                s.run("facts", &[]);
            }
        }
        for _ in 0..10 {
            match r.below(12) {
                0..=2 => {
                    let mut a = vec![r.of(&[1, 1, 0, -1]), r.of(&[0, 1]), r.of(&[0, 0, 1]), r.of(&[1, -1, 1]), 8 * r.int(-2, 2), r.int(-9, 9)];
                    if r.chance(1, 20) {
                        a[4] = r.of(&[NAN, INF]);
                    }
                    push(&mut a, whole(r, 2 * n));
                    s.run("predict", &a);
                }
                3..=7 => {
                    let mut a = vec![];
                    let killing = r.chance(1, 3);
                    let mut sc: Vec<i64> = (0..n).map(|_| if killing && r.chance(1, 2) { NINF } else { r.int(-3, 2) }).collect();
                    if r.chance(1, 12) {
                        sc[r.below(n as u64) as usize] = r.of(&[NAN, INF]);
                    }
                    let failing = sc.iter().any(|x| *x == NAN || *x == INF) || sc.iter().all(|x| *x == NINF);
                    push(&mut a, sc);
                    push(&mut a, odd(r, n));
                    push(&mut a, r.ints(2 * n, -8, 8));
                    s.run("score", &a);
                    if failing {
                        // what it left behind: a score that says nothing shows it
                        s.run("facts", &[]);
                        let mut a = vec![];
                        push(&mut a, vec![0; n]);
                        push(&mut a, odd(r, n));
                        push(&mut a, r.ints(2 * n, -8, 8));
                        s.run("score", &a);
                    }
                }
                8 => {
                    let mut a = vec![if r.chance(1, 8) { r.of(&[NAN, INF]) } else { 8 * r.int(-3, 3) }];
                    push(&mut a, odd(r, n));
                    push(&mut a, r.ints(2 * n, -8, 8));
                    s.run("sense", &a);
                }
                9 => {
                    let mut a = vec![];
                    push(&mut a, odd(r, n));
                    push(&mut a, r.ints(2 * n, -8, 8));
                    s.run("resample", &a);
                }
                10 => {
                    let mut a = l(r);
                    if r.chance(1, 3) {
                        a[r.of(&[0, 2]) as usize] = 0;
                    }
                    s.run("process", &a);
                }
                _ => { s.run("facts", &[]); }
            }
        }
    }
}
fn main() {
    main_with(&[Model {
        name: "cloud",
        make: |ty| if ty == "f32" { Box::new(D::<f32> { f: None, s: Script::default() }) } else { Box::new(D::<f64> { f: None, s: Script::default() }) },
        gen,
    }]);
}
