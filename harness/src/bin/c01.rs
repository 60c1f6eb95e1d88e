use multicalc::control::Pid;
use multicalc::Numeric;
use vharness::*;

const S: f64 = 16384.0;
struct D<T: Numeric>(Option<Pid<T>>);
fn f<T: Numeric>(k: i64, s: f64) -> T {
    T::from_f64(dec(k, s))
}
impl<T: Numeric + Send> D<T>
where
    T: Into<f64>,
{
    fn i(&self) -> Vec<i64> {
        self.0.map(|c| vec![enc(c.integral().into(), S)]).unwrap_or_default()
    }
}
impl<T: Numeric + Into<f64> + Send> Driver for D<T> {
    fn apply(&mut self, op: &str, a: &[i64]) -> Obs {
        if op == "new" {
            return match Pid::<T>::new(f(a[0], 2.0), f(a[1], 2.0), f(a[2], 2.0), f(a[3], 2.0)) {
                Ok(c) => {
                    self.0 = Some(c);
                    ok(self.i())
                }
                Err(e) => err(e),
            };
        }
        let Some(mut c) = self.0 else { return tag("none", vec![]) };
        let o = match op {
            "limits" => match c.with_output_limits(f(a[0], 1.0), f(a[1], 1.0)) {
                Ok(n) => {
                    c = n;
                    ok(vec![enc(c.integral().into(), S)])
                }
                Err(e) => err(e),
            },
            "smooth" => match c.with_derivative_filter(f(a[0], 4.0)) {
                Ok(n) => {
                    c = n;
                    ok(vec![enc(c.integral().into(), S)])
                }
                Err(e) => err(e),
            },
            "gains" => {
                let r = c.set_gains(f(a[0], 2.0), f(a[1], 2.0), f(a[2], 2.0));
                tag(&r.map_or_else(|e| err(e).r, |()| "ok".into()), vec![enc(c.integral().into(), S)])
            }
            "resume" => {
                let r = c.resume_from(f(a[0], 1.0), f(a[1], 1.0), f(a[2], 1.0));
                tag(&r.map_or_else(|e| err(e).r, |()| "ok".into()), vec![enc(c.integral().into(), S)])
            }
            "update" => {
                let y: f64 = c.update(f(a[0], 1.0), f(a[1], 1.0)).into();
                ok(vec![enc(y, S), enc(c.integral().into(), S)])
            }
            "reset" => {
                c.reset();
                ok(vec![enc(c.integral().into(), S)])
            }
            _ => panic!("HARNESS op {op}"),
        };
        self.0 = Some(c);
        o
    }
}

fn generate(g: &mut Rng, s: &mut Sess) {
    let bad = [NAN, INF, NINF];
    let gain = |g: &mut Rng| if g.chance(1, 3) { g.int(-6, 6) } else { g.int(0, 6) };
    if g.chance(1, 30) {
        let mut a = [g.int(-3, 3), g.int(-3, 3), g.int(-3, 3), g.of(&[-2, -1, 0, 1, 2, 4])];
        for _ in 0..g.int(1, 2) {
            let k = g.below(4) as usize;
            a[k] = g.of(&bad);
        }
        s.run("new", &a);
    }
    let a = [gain(g), gain(g), gain(g), g.of(&[1, 2, 4])];
    s.run("new", &a);
    let mut sm = 4;
    for _ in 0..g.int(0, 3) {
        if g.chance(1, 2) {
            let x = g.of(&[NINF, -20, -3, 0, 2, 5]);
            let y = g.of(&[INF, 20, 3, 0, 8, -5]);
            let (x, y) = if g.chance(1, 12) { (g.of(&[NAN, x]), NAN) } else { (x, y) };
            s.run("limits", &[x, y]);
        } else {
            sm = g.of(&[0, 1, 2, 2, 3, 4]);
            s.run("smooth", &[sm]);
            if g.chance(1, 6) {
                s.run("smooth", &[g.of(&[-1, 5, NAN, INF, NINF])]);
            }
        }
    }
    // The exact lattice allows so many filtered samples between two filter resets.
    let depth = match (sm, s.ty.as_str()) {
        (0 | 4, "f32") => 10,
        (0 | 4, _) => 30,
        (2, "f32") => 5,
        (2, _) => 9,
        (_, "f32") => 2,
        _ => 5,
    };
    let (mut k, mut sp) = (0, g.int(-8, 8));
    for _ in 0..g.int(3, 30) {
        match g.below(12) {
            0 => {
                let a = [gain(g), gain(g), gain(g)];
                s.run("gains", &a);
            }
            1 => {
                s.run("resume", &[g.int(-12, 12), g.int(-8, 8), g.int(-8, 8)]);
                k = 0;
            }
            2 => {
                s.run("reset", &[]);
                k = 0;
            }
            3 if g.chance(1, 4) => {
                let op = *g.pick(&["gains", "resume"]);
                let mut a = g.ints(3, -4, 4);
                let j = g.below(3) as usize;
                a[j] = g.of(&bad);
                s.run(op, &a);
            }
            _ if k < depth => {
                if g.chance(1, 3) {
                    sp = g.int(-8, 8);
                }
                s.run("update", &[sp, g.int(-8, 8)]);
                k += 1;
            }
            _ => {}
        }
    }
}

fn main() {
    main_with(&[Model {
        name: "pid",
        make: |t| if t == "f32" { Box::new(D::<f32>(None)) } else { Box::new(D::<f64>(None)) },
        gen: generate,
    }]);
}
