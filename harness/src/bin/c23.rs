use multicalc::linear_algebra::Vector;
use multicalc::motion::*;
use vharness::*;
struct D<T: Fl> {
    u: f64,
    p: PolylinePath<6, 3, T>,
}
impl<T: Fl> D<T> {
    fn fresh() -> Self {
        D { u: 1.0, p: PolylinePath::new() }
    }
    fn f4(&self, x: T) -> i64 {
        enc_tol(x.into() / self.u, 1e4, 0.51)
    }
    fn at(&self, a: &[i64]) -> Vector<3, T> {
        Vector::from_fn(|i| T::from_f64(dec(a[i], 1.0) * self.u))
    }
    fn v3(&self, p: Vector<3, T>) -> Vec<i64> {
        (0..3).map(|i| self.f4(p[i])).collect()
    }
    fn q(&self, k: i64) -> T {
        T::from_f64(dec(k, 4.0) * self.u)
    }
}
impl<T: Fl> Driver for D<T> {
    fn apply(&mut self, op: &str, a: &[i64]) -> Obs {
        match op {
            "units" => {
                *self = Self::fresh();
                self.u = 2f64.powi(a[0] as i32);
                ok(vec![])
            }
            "points" => {
                let pts: Vec<Vector<3, T>> = a[1..].chunks(3).map(|c| self.at(c)).collect();
                match PolylinePath::try_from_points(&pts) {
                    Err(e) => err(e),
                    Ok(p) => {
                        self.p = p;
                        ok(vec![])
                    }
                }
            }
            "push" => {
                let p = self.at(a);
                res(self.p.push(p), |_| vec![])
            }
            "end" => {
                self.p = self.p.with_end_of_path(if a[0] == 1 { EndOfPath::Loop } else { EndOfPath::Stop });
                ok(vec![])
            }
            "info" => {
                let mut v = vec![self.p.len() as i64, b(self.p.is_empty()), self.f4(self.p.total_arc_length())];
                for w in self.p.waypoints() {
                    v.extend((0..3).map(|i| enc(w[i].into() / self.u, 1.0)));
                }
                ok(v)
            }
            "near" => res(self.p.closest_point(self.at(a)), |n| {
                let mut v = self.v3(n.point());
                v.extend([n.segment_index() as i64, self.f4(n.arc_length()), self.f4(n.distance())]);
                v
            }),
            "ahead" => res(self.p.lookahead_point(self.q(a[0]), self.q(a[1])), |p| self.v3(p)),
            "follow" => match self.p.closest_point(self.at(a)) {
                Err(e) => err(e),
                Ok(n) => res(self.p.lookahead_point(n.arc_length(), self.q(a[3])), |p| self.v3(p)),
            },
            _ => panic!("HARNESS {op}"),
        }
    }
}
fn gen(r: &mut Rng, s: &mut Sess) {
    let l = if s.ty == "f32" { 40 } else { 200 };
    for _ in 0..2 {
        if r.chance(1, 2) {
            s.run("units", &[r.int(-l, l)]);
        }
        let n = if r.chance(1, 20) { r.int(7, 8) } else { r.int(0, 6) };
        let flat = r.chance(1, 3);
        let square = r.chance(1, 3);
        let mut p: Vec<i64> = vec![0; 3];
        let mut a = vec![n];
        let step = |r: &mut Rng, p: &mut Vec<i64>| {
            if r.chance(1, 6) {
            } else if square {
                let k = r.int(0, if flat { 1 } else { 2 }) as usize;
                p[k] = r.int(-5, 5);
            } else {
                for k in 0..3 {
                    p[k] = if flat && k == 2 { 0 } else { r.int(-5, 5) };
                }
            }
        };
        for _ in 0..n {
            step(r, &mut p);
            a.extend(&p);
            if r.chance(1, 60) {
                let k = a.len() - 1 - r.int(0, 2) as usize;
                a[k] = r.of(&[NAN, INF, NINF]);
            }
        }
        s.run("points", &a);
        for _ in 0..2 {
            for _ in 0..r.int(0, 2) {
                step(r, &mut p);
                let mut q = p.clone();
                if r.chance(1, 12) {
                    q[r.int(0, 2) as usize] = r.of(&[NAN, INF, NINF]);
                }
                s.run("push", &q);
            }
            if r.chance(1, 2) {
                s.run("end", &[r.int(0, 1)]);
            }
            let o = s.run("info", &[]);
            let t = if o.r == "ok" { o.v[2] / 2500 } else { 8 };
            for _ in 0..5 {
                let q: Vec<i64> = (0..3).map(|k| if flat && k == 2 { 0 } else { r.int(-6, 6) }).collect();
                s.run("near", &q);
                let mut q = q;
                q.push(r.int(-t - 4, t + 4));
                s.run("follow", &q);
                let f = r.int(-2, t + 2);
                let g = if r.chance(1, 4) { t * r.int(0, 2) - f } else if r.chance(1, 8) { r.int(-300, 300) } else { r.int(-t - 3, t + 3) };
                s.run("ahead", &[f, g]);
            }
        }
    }
}
fn main() {
    main_with(&[Model { name: "path", make: |ty| if ty == "f32" { Box::new(D::<f32>::fresh()) } else { Box::new(D::<f64>::fresh()) }, gen }]);
}
