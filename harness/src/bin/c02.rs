use multicalc::signal_processing::{Deadband, Hysteresis, SlewRateLimiter};
use multicalc::Numeric;
use vharness::*;
enum O<T: Fl> {
    N,
    D(Deadband<T>),
    H(Hysteresis<T>),
    S(SlewRateLimiter<T>),
}
struct Drv<T: Fl>(O<T>);
fn q<T: Numeric>(k: i64) -> T {
    T::from_f64(dec(k, 4.0))
}
fn h<T: Numeric>(k: i64) -> T {
    T::from_f64(dec(k, 2.0))
}
impl<T: Fl> Driver for Drv<T> {
    fn apply(&mut self, op: &str, a: &[i64]) -> Obs {
        let e = |x: T| enc(x.into(), 4.0);
        match op {
            "dead" | "hyst" | "slew" | "slewsym" => self.0 = O::N,
            _ => {}
        }
        match op {
            "dead" => {
                let r = if a[0] == 1 { Deadband::recentered(q(a[1])) } else { Deadband::plain(q(a[1])) };
                res(r, |d| {
                    let v = vec![e(d.threshold())];
                    self.0 = O::D(d);
                    v
                })
            }
            "hyst" => res(Hysteresis::new(q(a[0]), q(a[1])), |d| {
                let v = vec![b(d.is_high())];
                self.0 = O::H(d);
                v
            }),
            "slew" | "slewsym" => {
                let r = if op == "slew" { SlewRateLimiter::new(h(a[0]), h(a[1]), h(a[2])) } else { SlewRateLimiter::symmetric(h(a[0]), h(a[1])) };
                res(r, |d| {
                    let v = vec![e(d.value())];
                    self.0 = O::S(d);
                    v
                })
            }
            "feed" => match &mut self.0 {
                O::D(d) => ok(vec![e(d.apply(q(a[0])))]),
                O::H(d) => {
                    let x = d.update(q(a[0]));
                    ok(vec![b(x), b(d.is_high())])
                }
                O::S(d) => {
                    let x = d.filter(q(a[0]));
                    ok(vec![e(x), e(d.value())])
                }
                O::N => tag("none", vec![]),
            },
            "reset" => match &mut self.0 {
                O::H(d) => {
                    d.reset();
                    ok(vec![b(d.is_high())])
                }
                O::S(d) => {
                    d.reset();
                    ok(vec![e(d.value())])
                }
                _ => tag("none", vec![]),
            },
            _ => panic!("HARNESS {op}"),
        }
    }
}
fn generate(g: &mut Rng, s: &mut Sess) {
    match g.below(3) {
        0 => {
            let t = g.int(0, 20);
            s.run("dead", &[g.int(0, 1), t]);
            for _ in 0..g.int(4, 12) {
                let x = if g.chance(1, 3) { g.of(&[t, -t, t + 1, -t - 1, t - 1, 1 - t]) } else { g.int(-30, 30) };
                s.run("feed", &[x]);
            }
        }
        1 => {
            let lo = g.int(-20, 20);
            let hi = lo + g.int(0, 8);
            if s.run("hyst", &[lo, hi]).r != "ok" {
                return;
            }
            for _ in 0..g.int(5, 40) {
                if g.chance(1, 15) {
                    s.run("reset", &[]);
                }
                s.run("feed", &[g.int(lo - 2, hi + 2)]);
            }
        }
        _ => {
            let a = [g.int(1, 9), g.int(1, 9), g.int(1, 4)];
            if g.chance(1, 3) {
                s.run("slewsym", &[a[0], a[2]]);
            } else {
                s.run("slew", &a);
            }
            let mut x = g.int(-50, 50);
            for _ in 0..g.int(5, 40) {
                if g.chance(1, 20) {
                    s.run("reset", &[]);
                }
                if g.chance(1, 4) {
                    x = g.int(-100, 100);
                }
                s.run("feed", &[x]);
            }
        }
    }
}
fn main() {
    main_with(&[Model {
        name: "cond",
        make: |t| if t == "f32" { Box::new(Drv::<f32>(O::N)) } else { Box::new(Drv::<f64>(O::N)) },
        gen: generate,
    }]);
}
