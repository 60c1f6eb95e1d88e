use multicalc::error::EstimationError;
use multicalc::estimation::*;
use multicalc::linear_algebra::Vector;
use multicalc::spatial::SO3;
use vharness::*;
type V3<T> = Vector<3, T>;
enum F<T: Fl> {
    A(MahonyFilter<T>),
    B(MadgwickFilter<T>),
}
struct D<T: Fl>(F<T>);
fn v3<T: Fl>(q: &[i64], scale: f64) -> V3<T> {
    Vector::from_fn(|i| T::from_f64(dec(q[i], scale)))
}
macro_rules! both {
    ($s:expr, $f:ident => $e:expr) => {
        match &mut $s { F::A($f) => $e, F::B($f) => $e }
    };
}
impl<T: Fl> D<T> {
    fn look(&mut self) -> Vec<i64> {
        let (o, g) = both!(self.0, f => (f.orientation(), f.gyroscope_bias()));
        let r = o.to_matrix();
        let mut v: Vec<i64> = (0..9).map(|k| enc_tol(r[(k / 3, k % 3)].into(), 1e4, 0.51)).collect();
        (0..3).for_each(|i| v.push(enc_tol(g[i].into(), 1e4, 0.51)));
        let n: f64 = o.quaternion().as_array().iter().map(|x| -> f64 { (*x).into() }).map(|x| x * x).sum();
        let eps: f64 = T::EPSILON.into();
        v.push(b((n - 1.0).abs() < eps * 8.0));
        v
    }
}
impl<T: Fl> Driver for D<T> {
    fn apply(&mut self, op: &str, a: &[i64]) -> Obs {
        match op {
            "new" => {
                let o = SO3::exp(v3(&a[1..], 8.0));
                self.0 = if a[0] == 0 { F::A(MahonyFilter::new(o)) } else { F::B(MadgwickFilter::new(o)) };
            }
            "pull" => {
                let x = T::from_f64(dec(a[0], 8.0));
                match &mut self.0 { F::A(f) => *f = f.with_proportional_gain(x), F::B(f) => *f = f.with_correction_gain(x) }
            }
            "learn" => {
                let x = T::from_f64(dec(a[0], 8.0));
                match &mut self.0 { F::A(f) => *f = f.with_integral_gain(x), F::B(f) => *f = f.with_bias_gain(x) }
            }
            "world" => both!(self.0, f => *f = f.with_reference_directions(v3(a, 1.0), v3(&a[3..], 1.0))),
            "face" => both!(self.0, f => f.set_orientation(SO3::exp(v3(a, 8.0)))),
            "offset" => both!(self.0, f => f.set_gyroscope_bias(v3(a, 8.0))),
            "look" => return ok(self.look()),
            "step" | "bare" => {
                let (g, acc, dt) = (v3(a, 8.0), v3(&a[3..], 1.0), T::from_f64(dec(a[6], 16.0)));
                let r: Result<(), EstimationError> = if op == "bare" {
                    both!(self.0, f => f.step_without_magnetometer(g, acc, dt))
                } else {
                    let m = if a.len() > 7 { Some(v3(&a[7..], 1.0)) } else { None };
                    both!(self.0, f => f.step(g, acc, m, dt))
                };
                return res(r, |_| self.look());
            }
            "spin" => {
                let dt = T::from_f64(1.0 / 16.0);
                for _ in 0..a[3] {
                    let r = both!(self.0, f => f.step_without_magnetometer(v3(a, 64.0), Vector::zeros(), dt));
                    if let Err(e) = r {
                        return err(e);
                    }
                }
                return ok(self.look());
            }
            _ => panic!("HARNESS {op}"),
        }
        ok(vec![])
    }
}
fn gen(r: &mut Rng, s: &mut Sess) {
    for _ in 0..4 {
        let mut a = vec![r.int(0, 1)];
        a.extend(r.ints(3, -14, 14));
        s.run("new", &a);
        if r.chance(1, 2) {
            let g = [r.of(&[0, 1, 4, 8, 16, 24])];
            s.run("pull", &g);
            let g = [r.of(&[0, 1, 2, 8])];
            s.run("learn", &g);
        }
        if r.chance(1, 2) {
            let mut q = r.ints(6, -4, 4);
            if r.chance(1, 4) {
                let k = r.of(&[1, 2, -1, 3, 0]);
                (0..3).for_each(|i| q[3 + i] = k * q[i]);
            }
            s.run("world", &q);
        }
        let (acc, mag) = (r.ints(3, -90, 90), r.ints(3, -90, 90));
        let steady = r.chance(1, 3);
        for _ in 0..16 {
            match r.below(14) {
                0..=8 => {
                    let mut q = if steady { r.ints(3, -1, 1) } else { r.ints(3, -24, 24) };
                    q.extend(match r.below(12) { 0 => vec![0; 3], 1..=7 => acc.clone(), _ => r.ints(3, -90, 90) });
                    q.push(r.of(&[1, 1, 2, 4, 4, 8, 0, -2]));
                    let bare = r.chance(1, 5);
                    if !bare && r.chance(3, 4) {
                        q.extend(match r.below(8) { 0 => vec![0; 3], 1..=4 => mag.clone(), _ => r.ints(3, -90, 90) });
                    }
                    if r.chance(1, 12) {
                        let at = r.below(q.len() as u64) as usize;
                        q[at] = r.of(&[NAN, INF, NINF]);
                        s.run(if bare { "bare" } else { "step" }, &q);
                        s.run("look", &[]);
                    } else {
                        s.run(if bare { "bare" } else { "step" }, &q);
                    }
                }
                9 => { let q = r.ints(3, -14, 14); s.run("face", &q); }
                10 => {
                    let q = r.ints(3, -6, 6);
                    if r.chance(1, 5) {
                        s.run("offset", &[q[0], NAN, q[2]]);
                        s.run("step", &[1, 2, 3, 0, 0, 9, 2]);
                        s.run("look", &[]);
                    }
                    s.run("offset", &q);
                }
                11 => {
                    let op = ["pull", "learn"][r.below(2) as usize];
                    if r.chance(1, 4) {
                        let x = [r.of(&[NAN, INF])];
                        s.run(op, &x);
                        s.run("step", &[1, 2, 3, 5, 0, 9, 2]);
                        s.run("look", &[]);
                    }
                    let g = [r.of(&[0, 1, 4, 8])];
                    s.run(op, &g);
                }
                12 => {
                    let mut q = r.ints(6, -9, 9);
                    match r.below(4) {
                        0 => { let k = r.of(&[1, 2, -1, 3, 0, 7]); (0..3).for_each(|i| q[3 + i] = k * q[i]) }
                        1 => (0..3).for_each(|i| q[i] = 0),
                        2 => q[r.below(6) as usize] = r.of(&[NAN, INF]),
                        _ => {}
                    }
                    s.run("world", &q);
                }
                _ => { s.run("look", &[]); }
            }
        }
        if r.chance(1, 3) {
            s.run("offset", &[0, 0, 0]);
            s.run("learn", &[0]);
            s.run("pull", &[8]);
            let n = r.int(500, 3000);
            let mut q = r.ints(3, -2000 / n, 2000 / n);
            q[r.below(3) as usize] = 1;
            q.push(n);
            s.run("spin", &q);
        }
    }
}
fn main() {
    main_with(&[Model {
        name: "lean",
        make: |ty| if ty == "f32" { Box::new(D(F::A(MahonyFilter::<f32>::new(SO3::identity())))) } else { Box::new(D(F::A(MahonyFilter::<f64>::new(SO3::identity())))) },
        gen,
    }]);
}
