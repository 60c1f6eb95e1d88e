use multicalc::motion::*;
use vharness::*;
const NONE: i64 = 7777;
struct D<T: Fl> {
    len: f64,
    time: f64,
    ax: [MotionProfile<T>; 3],
    sy: SynchronizedProfile<3, T>,
}
fn still<T: Fl>() -> MotionProfile<T> {
    MotionProfilePlanner::new(ProfileLimits::try_new(T::ONE, T::ONE, None).unwrap()).plan(T::ZERO).unwrap()
}
fn f4(x: f64) -> i64 {
    enc_tol(x, 1e4, 0.51)
}
impl<T: Fl> D<T> {
    fn fresh() -> Self {
        let ax = [still(); 3];
        D { len: 1.0, time: 1.0, ax, sy: SynchronizedProfile::from_profiles(ax) }
    }
    fn sum(&self, p: &MotionProfile<T>) -> Vec<i64> {
        let mut v = vec![enc_tol(p.distance().into() / self.len, 4.0, 1e-4), f4(p.duration().into() / self.time), f4(p.peak_speed().into() / self.len * self.time)];
        v.extend(p.phase_durations().iter().map(|x| f4((*x).into() / self.time)));
        v
    }
    fn read(&self, x: [T; 4]) -> Vec<i64> {
        let (l, t) = (self.len, self.time);
        let x = x.map(Into::<f64>::into);
        vec![f4(x[0] / l), f4(x[1] / l * t), f4(x[2] / l * t * t), f4(x[3] / l * t * t * t)]
    }
    fn t(&self, k: i64) -> T {
        T::from_f64(dec(k, 4.0) * self.time)
    }
}
impl<T: Fl> Driver for D<T> {
    fn apply(&mut self, op: &str, a: &[i64]) -> Obs {
        match op {
            "units" => {
                *self = Self::fresh();
                self.len = 2f64.powi(a[0] as i32);
                self.time = 2f64.powi(a[1] as i32);
                ok(vec![])
            }
            "plan" => {
                let (l, t) = (self.len, self.time);
                let f = |k: i64, s: f64| T::from_f64(dec(k, 1.0) * s);
                let jerk = if a[3] == NONE { None } else { Some(f(a[3], l / t / t / t)) };
                let limits = match ProfileLimits::try_new(f(a[1], l / t), f(a[2], l / t / t), jerk) {
                    Err(e) => return err(e),
                    Ok(l) => l,
                };
                let how = [ProfileStrategy::Automatic, ProfileStrategy::Trapezoidal, ProfileStrategy::JerkLimited][a[4] as usize];
                let mut p = MotionProfilePlanner::new(limits);
                assert!(p.strategy() == ProfileStrategy::Automatic);
                if a[4] != 0 || a[5] % 2 == 0 {
                    p = p.with_strategy(how);
                }
                assert!(p.limits() == limits && p.strategy() == how && limits.jerk() == jerk);
                match p.plan(T::from_f64(dec(a[5], 4.0) * l)) {
                    Err(e) => err(e),
                    Ok(m) => {
                        self.ax[a[0] as usize - 1] = m;
                        ok(self.sum(&m))
                    }
                }
            }
            "stretch" => {
                let i = a[0] as usize - 1;
                self.ax[i] = self.ax[i].stretched_to(self.t(a[1]));
                ok(self.sum(&self.ax[i]))
            }
            "sync" => {
                let r = if a[0] == 0 { Ok(SynchronizedProfile::from_profiles(self.ax)) } else { SynchronizedProfile::try_from_profiles_over(self.ax, self.t(a[1])) };
                match r {
                    Err(e) => err(e),
                    Ok(s) => {
                        self.sy = s;
                        assert!(s.axis(3).is_none());
                        let mut v = vec![f4(s.duration().into() / self.time)];
                        for i in 0..3 {
                            v.extend(self.sum(s.axis(i).unwrap()));
                        }
                        ok(v)
                    }
                }
            }
            "time" => res(self.ax[a[0] as usize - 1].state_at(self.t(a[1])), |s| self.read([s.position, s.velocity, s.acceleration, s.jerk])),
            "phase" => {
                let p = &self.ax[a[0] as usize - 1];
                let d = p.phase_durations();
                let k = a[1] as usize - 1;
                let mut t = T::ZERO;
                if k < 7 {
                    for x in &d[..k] {
                        t = t + *x;
                    }
                    t = t + d[k] * T::from_f64(a[2] as f64 / 4.0);
                } else {
                    t = p.duration();
                }
                res(p.state_at(t), |s| self.read([s.position, s.velocity, s.acceleration, s.jerk]))
            }
            "all" => res(self.sy.state_at(self.t(a[0])), |s| {
                let v: Vec<Vec<i64>> = (0..3).map(|i| self.read([s.position[i], s.velocity[i], s.acceleration[i], s.jerk[i]])).collect();
                (0..4).flat_map(|k| v.iter().map(move |x| x[k])).collect()
            }),
            _ => panic!("HARNESS {op}"),
        }
    }
}
fn gen(r: &mut Rng, s: &mut Sess) {
    let (l, t) = if s.ty == "f32" { (16, 6) } else { (200, 40) };
    for _ in 0..2 {
        if r.chance(1, 2) {
            s.run("units", &[r.int(-l, l), r.int(-t, t)]);
        }
        let lim = |r: &mut Rng| if r.chance(1, 40) { r.of(&[0, -2, NAN, INF]) } else { r.int(1, 6) };
        for i in 1..=3 {
            let mut o = Obs { r: String::new(), v: vec![] };
            while o.r != "ok" {
                let j = if r.chance(1, 3) { NONE } else { lim(r) };
                let d = if r.chance(1, 30) { r.of(&[NAN, INF, NINF]) } else if r.chance(1, 10) { 0 } else if r.chance(1, 2) { r.int(-8, 8) } else { r.int(-120, 120) };
                let how = r.of(&[0, 0, 1, 2]);
                let (v, a) = (lim(r), lim(r));
                o = s.run("plan", &[i, v, a, j, how, d]);
            }
            if r.chance(1, 4) {
                let q = o.v[1] / 2500;
                let t = if r.chance(1, 8) { r.of(&[0, -3, NAN, INF]) } else { r.int(q - 3, q + q / 2 + 3) };
                s.run("stretch", &[i, t]);
            }
            for _ in 0..4 {
                let q = o.v[1] / 2500;
                let t = if r.chance(1, 30) { r.of(&[NAN, INF, NINF]) } else { r.int(-1, q + 3) };
                s.run("time", &[i, t]);
                s.run("phase", &[i, r.int(1, 8), r.int(0, 4)]);
            }
        }
        let o = if r.chance(1, 2) { s.run("sync", &[0, 0]) } else { let t = if r.chance(1, 10) { r.of(&[0, -1, NAN, INF]) } else { r.int(1, 60) }; s.run("sync", &[1, t]) };
        if o.r == "ok" {
            let q = o.v[0] / 2500;
            for _ in 0..5 {
                let t = if r.chance(1, 30) { r.of(&[NAN, INF, NINF]) } else { r.int(-1, q + 3) };
                s.run("all", &[t]);
            }
        }
    }
}
fn main() {
    main_with(&[Model { name: "profile", make: |ty| if ty == "f32" { Box::new(D::<f32>::fresh()) } else { Box::new(D::<f64>::fresh()) }, gen }]);
}
