use multicalc::error::SignalError;
use multicalc::linear_algebra::Vector;
use multicalc::signal_processing::{harmonic_notch_coefficients, Biquad, BiquadCascade, BiquadCoefficients, MultiChannelBiquad, OnePoleLowPass};
use vharness::*;
const S: f64 = 16384.0;
const M: f64 = 1e6;
enum O<T: Fl> {
    N,
    One(OnePoleLowPass<T>, f64),
    Bi(Biquad<T>),
    C0(BiquadCascade<0, T>),
    C1(BiquadCascade<1, T>),
    C2(BiquadCascade<2, T>, [BiquadCoefficients<T>; 2]),
    C3(BiquadCascade<3, T>, [BiquadCoefficients<T>; 3]),
    Mu(MultiChannelBiquad<3, T>),
}
struct D<T: Fl>(O<T>);
fn t<T: Fl>(x: f64) -> T {
    T::from_f64(x)
}
fn co<T: Fl>(a: &[i64]) -> BiquadCoefficients<T> {
    let h = |i: usize| t::<T>(a[i] as f64 / 2.0);
    BiquadCoefficients::new([h(0), h(1), h(2)], [h(3), h(4)], t(0.5)).expect("valid weights rejected")
}
fn fx(x: f64) -> i64 {
    if x.is_nan() { NAN } else if x.abs() > 1000.0 { OFF } else { (x * M).round() as i64 }
}
fn oct(phase: f64) -> i64 {
    let k = enc_tol(phase, 4.0 / std::f64::consts::PI, 1e-3);
    if k.abs() < 1000 { k.rem_euclid(8) } else { 9 }
}
fn zero(x: f64, tol: f64) -> i64 {
    // An identity both sides of which may be infinite or undefined together.
    if x.is_nan() || x.abs() <= tol { 0 } else { 1 }
}
fn resp<T: Fl>(cs: &[BiquadCoefficients<T>], f: i64, mag: T, ph: T, delay: T, db: T, stable: bool) -> Obs {
    // timestep 1/2: f*dt = 0, 1/4, 1/2 is f = 0, 1/2, 1
    let fr: T = t(f as f64 / 2.0);
    let mut v = vec![];
    let (mut pm, mut pp) = (1.0f64, 0.0f64);
    for c in cs {
        let (m, p): (f64, f64) = (c.magnitude_at(fr).into(), c.phase_at(fr).into());
        v.push(if m.is_finite() && m < 1e5 { (m * 1000.0).round() as i64 } else { NAN });
        v.push(oct(p));
        pm *= m;
        pp += p;
        // each section's own delay and decibels
        let d: f64 = c.delay_at(fr).into();
        let w = std::f64::consts::PI * f as f64;
        if f == 0 && d != 0.0 || f != 0 && (d * w + p).abs() > 1e-4 {
            v.push(OFF);
        }
        let b: f64 = c.magnitude_in_decibels_at(fr).into();
        if m > 1e-3 && (b - 20.0 * m.log10()).abs() > 1e-3 {
            v.push(OFF);
        }
    }
    let (mag, ph, delay, db): (f64, f64, f64, f64) = (mag.into(), ph.into(), delay.into(), db.into());
    v.push(zero((mag - pm) / (1.0 + pm.abs()), 1e-4));
    v.push(zero(ph - pp, 1e-4));
    let w = std::f64::consts::PI * f as f64;
    v.push(if f == 0 { b(delay != 0.0) } else { zero(delay * w + ph, 1e-4) });
    v.push(if mag > 1e-3 { zero(db - 20.0 * mag.log10(), 1e-3) } else { 0 });
    v.push(b(stable));
    ok(v)
}
impl<T: Fl> Driver for D<T> {
    fn apply(&mut self, op: &str, a: &[i64]) -> Obs {
        let e = |x: T| enc(x.into(), S);
        let q4 = |i: usize| t::<T>(dec(a[i], 4.0));
        match op {
            "one" => {
                self.0 = O::N;
                res(OnePoleLowPass::<T>::new(q4(0)), |f| {
                    let v = vec![e(f.value())];
                    self.0 = O::One(f, 0.0);
                    v
                })
            }
            "onecut" => {
                self.0 = O::N;
                let dt = dec(a[1], 4.0);
                let f = dec(a[0], 1.0) / (3.0 * 2.0 * std::f64::consts::PI * if a[1] > 0 { dt } else { 1.0 });
                res(OnePoleLowPass::<T>::from_cutoff(t(f), t(dt)), |f| {
                    let v = vec![e(f.value())];
                    self.0 = O::One(f, 1e-3);
                    v
                })
            }
            "bi" => {
                self.0 = O::Bi(Biquad::new(co(a)));
                ok(vec![])
            }
            "multi" => {
                self.0 = O::Mu(MultiChannelBiquad::new(co(a)));
                ok(vec![])
            }
            "casc" => {
                let c = |i: usize| co::<T>(&a[5 * i..5 * i + 5]);
                self.0 = match a.len() / 5 {
                    0 => O::C0(BiquadCascade::new([])),
                    1 => O::C1(BiquadCascade::new([c(0)])),
                    2 => O::C2(BiquadCascade::new([c(0), c(1)]), [c(0), c(1)]),
                    _ => O::C3(BiquadCascade::new([c(0), c(1), c(2)]), [c(0), c(1), c(2)]),
                };
                ok(vec![])
            }
            "design" => {
                let angle = (a[1] as f64 / 16.0).acos();
                let al = a[2] as f64 / a[3] as f64;
                let dt = 1.0 / 64.0;
                let f = angle / (2.0 * std::f64::consts::PI * dt);
                let q = if a[0] < 2 { angle.sin() / (2.0 * al) } else { angle / (2.0 * al.atan()) };
                let r = match a[0] {
                    0 => BiquadCoefficients::<T>::low_pass(t(f), t(q), t(dt)),
                    1 => BiquadCoefficients::<T>::high_pass(t(f), t(q), t(dt)),
                    2 => BiquadCoefficients::<T>::band_pass(t(f), t(q), t(dt)),
                    _ => BiquadCoefficients::<T>::notch(t(f), t(q), t(dt)),
                };
                res(r, |c| {
                    let (x, y) = (c.feed_forward(), c.feedback());
                    let mut v: Vec<i64> = x.iter().chain(y.iter()).map(|w| fx((*w).into())).collect();
                    v.push(b(c.is_stable()));
                    v.push(enc(c.timestep().into() * 64.0 - 1.0, 1.0));
                    v
                })
            }
            "harm" => {
                let angle = (a[1] as f64 / 8.0).acos();
                let dt = 1.0 / 64.0;
                let f = angle / (2.0 * std::f64::consts::PI * dt);
                let q = angle / (2.0 * (a[2] as f64 / a[3] as f64).atan());
                let fl = |c: &[BiquadCoefficients<T>]| -> Vec<i64> {
                    c.iter()
                        .flat_map(|c| {
                            let (x, y) = (c.feed_forward(), c.feedback());
                            x.iter().chain(y.iter()).map(|w| fx((*w).into())).collect::<Vec<_>>()
                        })
                        .collect()
                };
                match a[0] {
                    1 => res(harmonic_notch_coefficients::<1, T>(t(f), t(q), t(dt)), |c| fl(&c)),
                    2 => res(harmonic_notch_coefficients::<2, T>(t(f), t(q), t(dt)), |c| fl(&c)),
                    _ => res(harmonic_notch_coefficients::<3, T>(t(f), t(q), t(dt)), |c| fl(&c)),
                }
            }
            "chk" => {
                let r = match a[0] {
                    0 => BiquadCoefficients::<T>::low_pass(q4(1), q4(2), q4(3)),
                    1 => BiquadCoefficients::<T>::high_pass(q4(1), q4(2), q4(3)),
                    2 => BiquadCoefficients::<T>::band_pass(q4(1), q4(2), q4(3)),
                    _ => BiquadCoefficients::<T>::notch(q4(1), q4(2), q4(3)),
                };
                res(r, |_| vec![])
            }
            "chkharm" => {
                let f = |r: Result<(), SignalError>| res(r, |()| vec![]);
                match a[0] {
                    0 => f(harmonic_notch_coefficients::<0, T>(q4(1), q4(2), q4(3)).map(|_| ())),
                    1 => f(harmonic_notch_coefficients::<1, T>(q4(1), q4(2), q4(3)).map(|_| ())),
                    2 => f(harmonic_notch_coefficients::<2, T>(q4(1), q4(2), q4(3)).map(|_| ())),
                    _ => f(harmonic_notch_coefficients::<3, T>(q4(1), q4(2), q4(3)).map(|_| ())),
                }
            }
            "chkw" => res(BiquadCoefficients::<T>::new([q4(0), q4(1), q4(2)], [q4(3), q4(4)], q4(5)), |_| vec![]),
            "feed" => {
                let x: T = t(a[0] as f64);
                match &mut self.0 {
                    O::N => tag("none", vec![]),
                    O::One(f, tol) => {
                        let y: f64 = f.filter(x).into();
                        ok(vec![enc_tol(y, S, *tol), enc_tol(f.value().into(), S, *tol)])
                    }
                    O::Bi(f) => ok(vec![e(f.filter(x)), e(f.value())]),
                    O::C0(f) => {
                        let y = f.filter(x);
                        ok(vec![e(y), e(f.value())])
                    }
                    O::C1(f) => ok(vec![e(f.filter(x)), e(f.value())]),
                    O::C2(f, _) => ok(vec![e(f.filter(x)), e(f.value())]),
                    O::C3(f, _) => ok(vec![e(f.filter(x)), e(f.value())]),
                    O::Mu(f) => {
                        let y = f.filter(Vector::new([t(a[0] as f64), t(a[1] as f64), t(a[2] as f64)]));
                        let z = f.value();
                        ok((0..3).map(|i| e(y[i])).chain((0..3).map(|i| e(z[i]))).collect())
                    }
                }
            }
            "settle" | "reset" => {
                let x: T = t(if op == "settle" { a[0] as f64 } else { 0.0 });
                let st = op == "settle";
                macro_rules! go { ($f:expr) => {{ if st { $f.settle_to(x) } else { $f.reset() }; ok(vec![e($f.value()), e($f.value())]) }} }
                match &mut self.0 {
                    O::N => tag("none", vec![]),
                    O::One(f, _) => {
                        f.reset();
                        ok(vec![e(f.value()), e(f.value())])
                    }
                    O::Bi(f) => go!(f),
                    O::C0(f) => go!(f),
                    O::C1(f) => go!(f),
                    O::C2(f, _) => go!(f),
                    O::C3(f, _) => go!(f),
                    O::Mu(f) => {
                        if st {
                            f.settle_to(Vector::new([t(a[0] as f64), t(a[1] as f64), t(a[2] as f64)]));
                        } else {
                            f.reset();
                        }
                        let z = f.value();
                        ok((0..3).chain(0..3).map(|i| e(z[i])).collect())
                    }
                }
            }
            "set" => {
                // an optional last argument: the coefficients' own timestep, in quarters
                let mut c = co::<T>(&a[1..]);
                if a.len() > 6 {
                    c = BiquadCoefficients::new(c.feed_forward(), c.feedback(), q4(6)).expect("HARNESS");
                }
                let i = a[0] as usize;
                match &mut self.0 {
                    O::Bi(f) => {
                        f.set_coefficients(c);
                        ok(vec![])
                    }
                    O::C0(f) => res(f.set_section(i, c), |()| vec![]),
                    O::C1(f) => res(f.set_section(i, c), |()| vec![]),
                    O::C2(f, k) => res(f.set_section(i, c), |()| {
                        k[i] = c;
                        vec![]
                    }),
                    O::C3(f, k) => res(f.set_section(i, c), |()| {
                        k[i] = c;
                        vec![]
                    }),
                    O::Mu(f) => {
                        f.set_coefficients(c);
                        ok(vec![])
                    }
                    _ => tag("none", vec![]),
                }
            }
            "resp" => {
                let fr: T = t(a[0] as f64 / 2.0);
                match &self.0 {
                    O::Bi(f) => {
                        let c = f.coefficients();
                        resp(&[c], a[0], c.magnitude_at(fr), c.phase_at(fr), c.delay_at(fr), c.magnitude_in_decibels_at(fr), c.is_stable())
                    }
                    O::C2(f, c) => resp(c, a[0], f.magnitude_at(fr), f.phase_at(fr), f.delay_at(fr), f.magnitude_in_decibels_at(fr), f.is_stable()),
                    O::C3(f, c) => resp(c, a[0], f.magnitude_at(fr), f.phase_at(fr), f.delay_at(fr), f.magnitude_in_decibels_at(fr), f.is_stable()),
                    _ => tag("none", vec![]),
                }
            }
            _ => panic!("HARNESS {op}"),
        }
    }
}
fn weights(g: &mut Rng) -> Vec<i64> {
    loop {
        let c = vec![g.int(-4, 4), g.int(-4, 4), g.int(-4, 4), g.int(-2, 2), g.int(-2, 2)];
        if 2 + c[3] + c[4] != 0 {
            return c;
        }
    }
}
fn generate(g: &mut Rng, s: &mut Sess) {
    let f32_ = s.ty == "f32";
    match g.below(8) {
        0 => {
            let sm = g.int(0, 4);
            let depth = if sm % 4 == 0 { 30 } else if sm == 2 && !f32_ { 12 } else if f32_ { 3 } else { 6 };
            s.run("one", &[sm]);
            let mut k = 0;
            for _ in 0..30 {
                if k > depth || g.chance(1, 10) {
                    s.run("reset", &[]);
                    k = 0;
                }
                s.run("feed", &[g.int(-20, 20)]);
                k += 1;
            }
        }
        1 => {
            if g.chance(1, 4) {
                let a = [g.of(&[NAN, INF, NINF, -1, 0, 1]), g.of(&[NAN, INF, -1, 0, 1])];
                s.run("onecut", &a);
                return;
            }
            if f32_ {
                return;
            }
            let w = g.of(&[0, 1, 3, 9]);
            s.run("onecut", &[w, g.of(&[1, 2, 4, 8])]);
            for k in 0..6 {
                if g.chance(1, 10) {
                    s.run("reset", &[]);
                }
                let _ = k;
                s.run("feed", &[g.int(-20, 20)]);
            }
        }
        2 => {
            let tol = if f32_ { 60 } else { 2 };
            for _ in 0..4 {
                s.run("design", &[g.int(0, 3), g.int(-14, 14), g.int(1, 9), g.int(1, 9), tol]);
            }
            if !f32_ {
                s.run("harm", &[g.int(1, 3), g.of(&[5, 6, 7]), 1, g.int(4, 6)]);
                s.run("harm", &[1, g.int(-7, 7), g.int(1, 5), g.int(4, 9)]);
            }
        }
        3 | 4 => {
            let n = if g.chance(1, 2) { 1 } else { g.int(2, 3) };
            let mut a = vec![];
            for _ in 0..n {
                a.extend(weights(g));
            }
            s.run(if n == 1 { "bi" } else { "casc" }, &a);
            for f in 0..3 {
                s.run("resp", &[f]);
            }
            let mut w = vec![g.int(0, n - 1)];
            w.extend(weights(g));
            s.run("set", &w);
            s.run("resp", &[g.int(0, 2)]);
        }
        _ => {
            let kind = *g.pick(&["bi", "casc", "multi"]);
            let n = if kind == "casc" { g.int(1, 3) as usize } else { 1 };
            let mut cs: Vec<Vec<i64>> = (0..n).map(|_| weights(g)).collect();
            s.run(kind, &cs.concat());
            let m = if kind == "multi" { 3 } else { 1 };
            // each filtered sample costs one binary digit per section
            let budget = if f32_ { 5 } else { 11 } / n as i64;
            let mut k = 0;
            for _ in 0..g.int(4, 24) {
                match g.below(8) {
                    0 => {
                        let hi = n as i64 - 1 + i64::from(g.chance(1, 6));
                        let i = g.int(0, hi);
                        let w = weights(g);
                        let mut a = vec![i];
                        a.extend(&w);
                        if g.chance(1, 2) {
                            a.push(g.int(1, 8));
                        }
                        if s.run("set", &a).r == "ok" {
                            let j = if kind == "casc" { i as usize } else { 0 };
                            cs[j] = w;
                        }
                    }
                    1 => {
                        s.run("reset", &[]);
                        k = 0;
                    }
                    2 => {
                        // steady values that stay on the lattice through the chain
                        let p: i64 = cs.iter().map(|c| 2 + c[3] + c[4]).product();
                        let a: Vec<i64> = (0..m).map(|_| p * g.int(-2, 2)).collect();
                        s.run("settle", &a);
                        k = 0;
                        if g.chance(2, 3) {
                            s.run("feed", &a);
                            s.run("feed", &a);
                            k = 2;
                        }
                    }
                    _ if k < budget => {
                        let a = g.ints(m, -3, 3);
                        s.run("feed", &a);
                        k += 1;
                    }
                    _ => {}
                }
            }
        }
    }
}
fn main() {
    main_with(&[Model {
        name: "recur",
        make: |t| if t == "f32" { Box::new(D::<f32>(O::N)) } else { Box::new(D::<f64>(O::N)) },
        gen: generate,
    }]);
}
