use multicalc::error::PlantError;
use multicalc::linear_algebra::{Vector, Vector3D};
use multicalc::plant::{MultirotorMixer, RotorLag, RotorSpin};
use vharness::*;
const S: f64 = 4096.0;
const K: f64 = 10000.0;
fn t<T: Fl>(x: f64) -> T {
    T::from_f64(x)
}
fn fix(x: f64, sc: f64) -> i64 {
    if x.is_nan() {
        NAN
    } else if (x * sc).abs() > 1e9 {
        OFF
    } else {
        (x * sc).round() as i64
    }
}
trait Mx {
    fn mix(&self, c: &[i64]) -> Obs;
    fn unmix(&self, c: &[i64]) -> Obs;
}
struct M<const N: usize, T: Fl>(MultirotorMixer<N, T>, MultirotorMixer<N, T>);
impl<const N: usize, T: Fl> Mx for M<N, T> {
    fn mix(&self, c: &[i64]) -> Obs {
        let f = t::<T>(c[0] as f64 / 2.0);
        let q = Vector::new([t::<T>(c[1] as f64 / 2.0), t(c[2] as f64 / 2.0), t(c[3] as f64 / 2.0)]);
        let free = self.1.rotor_thrusts(f, q);
        let r = self.0.rotor_thrusts(f, q);
        let w = self.0.wrench(r.thrusts());
        let mut v: Vec<i64> = (0..N).map(|i| fix(free.thrusts()[i].into(), K)).collect();
        v.extend((0..N).map(|i| fix(r.thrusts()[i].into(), K)));
        v.push(b(r.saturated()));
        v.extend((0..3).map(|i| fix(w.force()[i].into(), K)));
        v.extend((0..3).map(|i| fix(w.torque()[i].into(), K)));
        ok(v)
    }
    fn unmix(&self, c: &[i64]) -> Obs {
        let w = self.0.wrench(Vector::from_fn(|i| t::<T>(c[i] as f64)));
        let a = self.0.allocation() * Vector::from_fn(|i| t::<T>(c[i] as f64));
        let f: [f64; 6] = [w.force()[0].into(), w.force()[1].into(), w.force()[2].into(), w.torque()[0].into(), w.torque()[1].into(), w.torque()[2].into()];
        for i in 0..4 {
            let x: f64 = a[i].into();
            if x != f[2 + i] {
                return tag("allocation disagrees", vec![]);
            }
        }
        ok(f.iter().map(|x| enc_tol(*x, 2.0, 1e-4)).collect())
    }
}
fn build<const N: usize, T: Fl>(a: &[i64]) -> Result<Box<dyn Mx>, PlantError> {
    let p: [Vector3D<T>; N] = std::array::from_fn(|i| Vector::new([t(dec(a[4 + 3 * i], 1.0)), t(dec(a[5 + 3 * i], 1.0)), t(0.25)]));
    let s: [RotorSpin; N] = std::array::from_fn(|i| if a[6 + 3 * i] > 0 { RotorSpin::Clockwise } else { RotorSpin::CounterClockwise });
    let h = |i: usize| t::<T>(dec(a[i], 2.0));
    let m = MultirotorMixer::new(p, s, h(1), h(2), h(3))?;
    assert!(m.minimum_thrust() == h(2) && m.maximum_thrust() == h(3));
    let wide = MultirotorMixer::new(p, s, h(1), t(-1e6), t(1e6))?;
    Ok(Box::new(M::<N, T>(m, wide)))
}
enum O<T: Fl> {
    N,
    Mix(Box<dyn Mx>),
    Lag(RotorLag<3, T>, T),
}
struct D<T: Fl>(O<T>);
impl<T: Fl> Driver for D<T> {
    fn apply(&mut self, op: &str, a: &[i64]) -> Obs {
        let y3 = |v: Vector<3, T>| -> Vec<i64> { (0..3).map(|i| enc_tol(v[i].into(), S, 0.3)).collect() };
        let c3 = |a: &[i64]| Vector::new([t::<T>(a[0] as f64), t(a[1] as f64), t(a[2] as f64)]);
        match op {
            "mixer" => {
                self.0 = O::N;
                let r = match a[0] {
                    1 => build::<1, T>(a),
                    3 => build::<3, T>(a),
                    4 => build::<4, T>(a),
                    5 => build::<5, T>(a),
                    6 => build::<6, T>(a),
                    8 => build::<8, T>(a),
                    _ => panic!("HARNESS rotors"),
                };
                res(r, |m| {
                    self.0 = O::Mix(m);
                    vec![]
                })
            }
            "quadx" => {
                self.0 = O::N;
                let arm = t::<T>(dec(a[0], 1.0) * 2f64.sqrt());
                let h = |i: usize| t::<T>(dec(a[i], 2.0));
                res(MultirotorMixer::<4, T>::quadrotor_x(arm, h(1), h(2), h(3)), |m| {
                    let w = MultirotorMixer::<4, T>::quadrotor_x(arm, h(1), t(-1e6), t(1e6)).unwrap();
                    self.0 = O::Mix(Box::new(M(m, w)));
                    vec![]
                })
            }
            "lag" => {
                self.0 = O::N;
                // one half-life is ln 2 lag times
                let tau = t::<T>(dec(a[0], 4.0));
                let half = t::<T>(std::f64::consts::LN_2) * if a[0] > 0 && a[0] < 100 { tau } else { T::ONE };
                let tick = if a[1].abs() > 1000 { t::<T>(dec(a[1], 1.0)) } else { half * t(a[1] as f64) };
                res(RotorLag::<3, T>::new(tau, tick), |l| {
                    let mut v = y3(l.thrusts());
                    assert!(l.time_constant() == tau);
                    v.push(enc_tol((l.timestep() / half).into(), 1.0, 1e-4));
                    self.0 = O::Lag(l, half);
                    v
                })
            }
            "tiny" => {
                let n = if a[0] > 26 && std::mem::size_of::<T>() == 4 { 26 } else { a[0] };
                let x = 2f64.powi(n as i32);
                let mut l = RotorLag::<1, T>::new(T::ONE, t(1.0 / x)).unwrap();
                let y = l.stepped(Vector::new([t(x)]));
                let mut m = RotorLag::<1, T>::new(T::ONE, T::ONE).unwrap();
                let z = m.stepped_over(Vector::new([t(x)]), t(1.0 / x));
                // 1 - e^-h over h is 1 - h/2 + ...
                let k = 1.0 - 0.5 / x;
                ok(vec![enc_tol(y[0].into() / k, 1000.0, 0.01), enc_tol(z[0].into() / k, 1000.0, 0.01)])
            }
            _ => match &mut self.0 {
                O::N => tag("none", vec![]),
                O::Mix(m) => match op {
                    "mix" => m.mix(a),
                    "unmix" => m.unmix(a),
                    _ => panic!("HARNESS"),
                },
                O::Lag(l, half) => {
                    let two = |r: Vector<3, T>, l: &RotorLag<3, T>| {
                        let mut v = y3(r);
                        v.extend(y3(l.thrusts()));
                        ok(v)
                    };
                    match op {
                        "thrusts" => {
                            *l = l.with_thrusts(c3(a));
                            ok(y3(l.thrusts()))
                        }
                        "step" => {
                            let r = l.stepped(c3(a));
                            two(r, l)
                        }
                        "over" => {
                            let r = l.stepped_over(c3(&a[1..]), *half * t(a[0] as f64));
                            two(r, l)
                        }
                        "rate" => {
                            let r = l.rate(c3(a));
                            ok(y3(r.scale(l.time_constant())))
                        }
                        "reset" => {
                            l.reset();
                            ok(y3(l.thrusts()))
                        }
                        _ => panic!("HARNESS"),
                    }
                }
            },
        }
    }
}
fn generate(g: &mut Rng, s: &mut Sess) {
    match g.below(4) {
        0 => {
            s.run("lag", &[g.int(1, 20), g.int(1, 3)]);
            let tick = s.ev[0].a[1];
            let mut k = 0;
            for _ in 0..g.int(3, 20) {
                match g.below(8) {
                    0 => {
                        s.run("reset", &[]);
                        k = 0;
                    }
                    1 => {
                        let a = g.ints(3, -8, 16);
                        s.run("thrusts", &a);
                        k = 0;
                    }
                    2 => {
                        let a = g.ints(3, -8, 16);
                        s.run("rate", &a);
                    }
                    3 | 4 => {
                        let j = g.int(0, 4);
                        if k + j <= 11 {
                            let mut a = vec![j];
                            a.extend(g.ints(3, -8, 16));
                            s.run("over", &a);
                            k += j;
                        }
                    }
                    _ => {
                        if k + tick <= 11 {
                            let a = g.ints(3, -8, 16);
                            s.run("step", &a);
                            k += tick;
                        }
                    }
                }
            }
        }
        1 => {
            let lo = g.int(-3, 3);
            let a = [g.int(1, 3), g.int(1, 4), lo, lo + g.int(1, 20)];
            s.run("quadx", &a);
            for _ in 0..8 {
                let c = [g.int(-20, 60), g.int(-20, 20), g.int(-20, 20), g.int(-8, 8)];
                s.run("mix", &c);
            }
            let u = g.ints(4, -9, 9);
            s.run("unmix", &u);
        }
        _ => {
            let n = g.of(&[1, 3, 4, 4, 4, 5, 6, 8]);
            let lo = g.int(-3, 3);
            let mut a = vec![n, g.int(1, 4), lo, lo + g.int(1, 20)];
            let spread = g.int(1, 3);
            let line = g.chance(1, 10);
            for _ in 0..n {
                let x = g.int(-spread, spread);
                a.push(x);
                a.push(if line { x } else { g.int(-spread, spread) });
                a.push(g.of(&[-1, 1]));
            }
            if s.run("mixer", &a).r != "ok" {
                return;
            }
            for _ in 0..6 {
                let c = [g.int(-20, 60), g.int(-20, 20), g.int(-20, 20), g.int(-8, 8)];
                s.run("mix", &c);
            }
            let u = g.ints(n as usize, -9, 9);
            s.run("unmix", &u);
        }
    }
}
fn main() {
    main_with(&[Model {
        name: "rotors",
        make: |t| if t == "f32" { Box::new(D::<f32>(O::N)) } else { Box::new(D::<f64>(O::N)) },
        gen: generate,
    }]);
}
