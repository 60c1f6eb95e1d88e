use multicalc::control::{pure_pursuit_curvature, Curvature};
use multicalc::kinematics::{integrate, BodyArc, BodyTwist, DifferentialDrive, OdometryStep, Unicycle, WheelRotations, WheelVelocities};
use multicalc::linear_algebra::Vector;
use multicalc::scalar::VectorFn;
use multicalc::spatial::{SE2, SO2};
use vharness::*;
fn t<T: Fl>(x: f64) -> T {
    T::from_f64(x)
}
fn d<T: Fl>(k: i64, s: f64) -> T {
    t(dec(k, s))
}
fn f<T: Fl>(x: T) -> f64 {
    x.into()
}
struct D<T: Fl> {
    drive: DifferentialDrive<T>,
    r: f64,
    l: f64,
    at: SE2<T>,
}
fn near(x: f64, s: f64) -> i64 {
    enc_tol(x, s, 1e-2)
}
fn pose<T: Fl>(p: SE2<T>) -> Vec<i64> {
    let x = p.translation();
    [f(x[0]), f(x[1]), f(p.rotation().log())].iter().map(|x| enc_tol(*x, 1e4, 0.51)).collect()
}
fn apart<T: Fl>(p: SE2<T>, q: SE2<T>) -> f64 {
    let (a, b) = (p.translation(), q.translation());
    let turn = f((p.rotation().inverse() * q.rotation()).log()).abs();
    (f(a[0]) - f(b[0])).abs().max((f(a[1]) - f(b[1])).abs()).max(turn)
}
impl<T: Fl> D<T> {
    fn close(&self, p: SE2<T>, q: SE2<T>, n: usize, reach: f64) -> bool {
        apart(p, q) <= f(T::EPSILON) * 16.0 * (n as f64 + 2.0) * (reach + 10.0)
    }
    fn reach(&self) -> f64 {
        let x = self.at.translation();
        f(x[0]).abs() + f(x[1]).abs()
    }
}
impl<T: Fl> Driver for D<T> {
    fn apply(&mut self, op: &str, a: &[i64]) -> Obs {
        let k = self.drive;
        match op {
            "new" => match DifferentialDrive::<T>::new(d(a[0], 64.0), d(a[1], 64.0)) {
                Ok(x) => {
                    self.drive = x;
                    (self.r, self.l) = (a[0] as f64, a[1] as f64);
                    ok(vec![near(f(x.wheel_radius()), 64.0), near(f(x.wheelbase()), 64.0)])
                }
                Err(e) => err(e),
            },
            "set" => {
                self.at = SE2::from_parts(SO2::exp(d(a[2], 100.0)), Vector::new([d(a[0], 100.0), d(a[1], 100.0)]));
                ok(vec![])
            }
            "body" => {
                let x = k.forward(WheelVelocities::new(d(a[0], 8.0), d(a[1], 8.0)));
                let y = k.forward_arc(WheelRotations::new(d(a[0], 8.0), d(a[1], 8.0)));
                let e = |v: T, w: T| vec![enc_tol(f(v), 1024.0, 1e-2), enc_tol(f(w), 8.0 * self.l, 1e-2)];
                ok([e(x.linear(), x.angular()), e(y.linear(), y.angular())].concat())
            }
            "wheels" => {
                let x = k.inverse(BodyTwist::new(d(a[0], 64.0), d(a[1], 64.0)));
                let y = k.inverse_arc(BodyArc::new(d(a[0], 64.0), d(a[1], 64.0)));
                let e = |v: T, w: T| vec![enc_tol(f(v), 128.0 * self.r, 1e-2), enc_tol(f(w), 128.0 * self.r, 1e-2)];
                ok([e(x.left(), x.right()), e(y.left(), y.right())].concat())
            }
            "round" => {
                let e = |x: T| enc_tol(f(x), 64.0, 1e-2);
                let w = k.inverse(k.forward(WheelVelocities::new(d(a[0], 64.0), d(a[1], 64.0))));
                let r = k.inverse_arc(k.forward_arc(WheelRotations::new(d(a[0], 64.0), d(a[1], 64.0))));
                let v = k.forward(k.inverse(BodyTwist::new(d(a[2], 64.0), d(a[3], 64.0))));
                let c = k.forward_arc(k.inverse_arc(BodyArc::new(d(a[2], 64.0), d(a[3], 64.0))));
                ok([w.left(), w.right(), r.left(), r.right(), v.linear(), v.angular(), c.linear(), c.angular()].map(e).to_vec())
            }
            "travel" => {
                let w = k.wheel_rotations_from_travel(d(a[0], 64.0), d(a[1], 64.0));
                let (x, y) = k.wheel_travel(WheelRotations::new(d(a[0], 8.0), d(a[1], 8.0)));
                ok(vec![near(f(w.left()), self.r), near(f(w.right()), self.r), near(f(x), 512.0), near(f(y), 512.0)])
            }
            "twist" => {
                let v = Vector::new([d(a[0], 64.0), d(a[1], 64.0), d::<T>(a[2], 64.0)]);
                let p = BodyTwist::project_tangent(v);
                let g = p.to_tangent();
                let c = p.integrate_over(d(a[3], 8.0));
                let e = |x: T| near(f(x), 64.0);
                ok(vec![e(p.linear()), e(p.angular()), e(BodyTwist::tangent_slip(v)), e(g[0]), e(g[1]), e(g[2]), near(f(c.linear()), 512.0), near(f(c.angular()), 512.0)])
            }
            "arc" => {
                let c = BodyArc::new(d(a[0], 100.0), d(a[1], 100.0));
                let p = integrate(self.at, c);
                let q = k.odometry_step(self.at, k.inverse_arc(c));
                let x = self.at.translation();
                let z = OdometryStep.eval(&[x[0], x[1], self.at.rotation().log(), c.linear(), c.angular()]);
                self.at = p;
                ok([pose(p), pose(q), z.iter().map(|x| enc_tol(f(*x), 1e4, 0.51)).collect()].concat())
            }
            "roll" => {
                self.at = k.odometry_step(self.at, WheelRotations::new(d(a[0], 8.0), d(a[1], 8.0)));
                ok(pose(self.at))
            }
            "split" => {
                let n = a[2] as usize;
                let p = integrate(self.at, BodyArc::new(d(a[0], 100.0), d(a[1], 100.0)));
                let piece = BodyArc::new(d::<T>(a[0], 100.0) / t(n as f64), d::<T>(a[1], 100.0) / t(n as f64));
                let q = (0..n).fold(self.at, |x, _| integrate(x, piece));
                let close = self.close(p, q, n, self.reach() + a[0].abs() as f64 / 100.0);
                self.at = p;
                ok([pose(p), pose(q), vec![b(close)]].concat())
            }
            "flow" => {
                let field = Unicycle::new(BodyTwist::new(d::<T>(a[0], 100.0), d(a[1], 100.0))).field();
                let x = self.at.translation();
                let mut y = Vector::new([x[0], x[1], self.at.rotation().log()]);
                let h = t::<T>(1.0 / 256.0);
                for i in 0..256 {
                    let s = h * t(i as f64);
                    let k1 = field(s, &y);
                    let k2 = field(s, &(y + k1 * (h * T::HALF)));
                    let k3 = field(s, &(y + k2 * (h * T::HALF)));
                    let k4 = field(s, &(y + k3 * h));
                    y = y + (k1 + (k2 + k3) * T::TWO + k4) * (h / t(6.0));
                }
                self.at = SE2::from_parts(SO2::exp(y[2]), Vector::new([y[0], y[1]]));
                ok(pose(self.at))
            }
            "back" => {
                let arcs: Vec<_> = a.chunks(2).map(|x| BodyArc::new(d::<T>(x[0], 100.0), d::<T>(x[1], 100.0))).collect();
                let mut p = self.at;
                for c in &arcs {
                    p = k.odometry_step(p, k.inverse_arc(*c));
                }
                for c in arcs.iter().rev() {
                    p = integrate(p, BodyArc::new(-c.linear(), -c.angular()));
                }
                let far: f64 = a.chunks(2).map(|x| x[0].abs() as f64 / 100.0).sum();
                ok(vec![b(self.close(p, self.at, 2 * arcs.len(), self.reach() + far))])
            }
            "uni" => {
                let v = Unicycle::new(BodyTwist::new(d::<T>(a[0], 100.0), d(a[1], 100.0))).derivative(&Vector::new([t(3.0), t(-7.0), d(a[2], 100.0)]));
                ok((0..3).map(|i| enc_tol(f(v[i]), 1e4, 0.51)).collect())
            }
            "pursue" => res(pure_pursuit_curvature(self.at, Vector::new([d(a[0], 100.0), d(a[1], 100.0)]), d(a[2], 8.0)), |c| {
                let l = dec(a[2], 8.0);
                let w = c.to_body_twist(d(a[3], 8.0));
                let want = f(c.value()) * dec(a[3], 8.0);
                vec![enc_tol(f(c.value()) * l * l, 1e4, 0.51), near(f(w.linear()), 8.0), b((f(w.angular()) - want).abs() <= 4.0 * f(T::EPSILON) * want.abs())]
            }),
            "chase" => {
                let c = BodyArc::new(d::<T>(a[0], 100.0), d(a[1], 100.0));
                let p = integrate(self.at, c).translation();
                let far = p - self.at.translation();
                res(pure_pursuit_curvature(self.at, p, far.norm()), |k: Curvature<T>| vec![enc_tol(f(k.value()) * dec(a[0], 100.0), 100.0, 0.1)])
            }
            _ => panic!("HARNESS op {op}"),
        }
    }
}
fn make(ty: &str) -> Box<dyn Driver> {
    fn new<T: Fl>() -> Box<dyn Driver> {
        Box::new(D::<T> { drive: DifferentialDrive::new(t(0.125), t(0.5)).expect("HARNESS drive"), r: 8.0, l: 32.0, at: SE2::identity() })
    }
    if ty == "f32" { new::<f32>() } else { new::<f64>() }
}
fn gen(g: &mut Rng, s: &mut Sess) {
    let pos = |g: &mut Rng| if g.chance(1, 2) { g.int(1, 64) } else { g.of(&[1, 8, 20, 32, 64, 100]) };
    let any = |g: &mut Rng| if g.chance(1, 6) { g.of(&[NAN, INF, NINF, 0, -3]) } else { g.int(1, 80) };
    let (r, l) = (pos(g), pos(g));
    s.run("new", &[r, l]);
    let p = [g.int(-1000, 1000), g.int(-1000, 1000), g.int(-314, 314)];
    s.run("set", &p);
    for _ in 0..g.int(4, 14) {
        let dist = if g.chance(1, 5) { 0 } else if g.chance(1, 4) { g.int(-20, 20) } else { g.int(-600, 600) };
        let turn = if g.chance(1, 5) { 0 } else if g.chance(1, 3) { g.int(-3, 3) } else if g.chance(1, 4) { g.of(&[157, -157, 314, -314, 628, 900, -1100, 50, 51]) } else { g.int(-400, 400) };
        let w = |g: &mut Rng| if g.chance(1, 6) { 0 } else { g.int(-60, 60) };
        match g.below(14) {
            0 => { let x = [any(g), any(g)]; s.run("new", &x) }
            1 => { let x = [w(g), w(g)]; s.run("body", &x) }
            2 => { let x = [w(g), w(g)]; s.run("wheels", &x) }
            3 => { let x = [w(g), w(g), w(g), w(g)]; s.run("round", &x) }
            4 => { let x = [w(g), w(g)]; s.run("travel", &x) }
            5 => { let x = [w(g), w(g), w(g), w(g)]; s.run("twist", &x) }
            6 | 7 => s.run("arc", &[dist, turn]),
            8 => { let x = [g.int(-20, 20), g.int(-20, 20)]; if g.chance(1, 3) { s.run("roll", &[x[0], x[0]]) } else { s.run("roll", &x) } }
            9 => { let n = g.of(&[1, 2, 3, 8, 100]); s.run("split", &[dist, turn, n]) }
            10 => { let n = g.int(1, 8) as usize; let x: Vec<i64> = (0..n).flat_map(|_| [g.int(-400, 400), if g.chance(1, 4) { 0 } else { g.int(-400, 400) }]).collect(); s.run("back", &x) }
            11 => { let x = [g.int(-300, 300), g.int(-100, 100), g.int(-700, 700)]; if g.chance(1, 3) { s.run("flow", &x[..2]) } else { s.run("uni", &x) } }
            12 => { let mut x = [g.int(-1500, 1500), g.int(-1500, 1500), g.int(1, 100), g.int(-30, 30)]; if g.chance(1, 4) { let i = g.below(3) as usize; x[i] = g.of(&[NAN, INF, NINF, 0, -5]); } s.run("pursue", &x) }
            _ => { let x = [g.int(50, 400), g.int(-500, 500)]; s.run("chase", &x) }
        };
    }
}
fn main() {
    main_with(&[Model { name: "odo", make, gen }]);
}
