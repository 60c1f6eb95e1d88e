use multicalc::linear_algebra::Vector;
use multicalc::motion::{BoundaryDerivatives, MinimumSnapPlanner, durations_from_average_speed};
use multicalc::{PiecewisePolynomial, Polynomial};
use vharness::*;
type Curve = PiecewisePolynomial<4, 4, 2>;
fn f4(x: f64) -> i64 {
    enc_tol(x, 1e4, 0.51)
}
struct P {
    c: Curve,
}
impl Driver for P {
    fn apply(&mut self, op: &str, a: &[i64]) -> Obs {
        match op {
            "build" => {
                let (np, ns) = (a[0] as usize, a[1] as usize);
                let sp: Vec<f64> = a[2..2 + ns].iter().map(|k| dec(*k, 4.0)).collect();
                let pieces: Vec<[Polynomial<4>; 2]> = (0..np)
                    .map(|i| std::array::from_fn(|ax| Polynomial::new(std::array::from_fn(|k| a[2 + ns + 8 * i + 4 * ax + k] as f64))))
                    .collect();
                match Curve::try_from_pieces(&pieces, &sp) {
                    Err(e) => err(e),
                    Ok(c) => {
                        self.c = c;
                        let mut v = vec![c.piece_count() as i64, enc(c.total_span(), 4.0)];
                        assert!(!c.is_empty());
                        v.extend((0..=np).map(|i| c.span(i).map_or(-1, |x| enc(x, 4.0))));
                        ok(v)
                    }
                }
            }
            "slope" => {
                if a[0] == 1 && self.c.derivative() != self.c.nth_derivative(1) {
                    return tag("differs", vec![]);
                }
                self.c = self.c.nth_derivative(a[0] as usize);
                ok(vec![self.c.piece_count() as i64, enc(self.c.total_span(), 4.0)])
            }
            "at" => {
                let t = dec(a[0], 4.0);
                let d = self.c.evaluate_with_derivatives::<5>(t).unwrap();
                let few = self.c.evaluate_with_derivatives::<2>(t).unwrap();
                let x = self.c.evaluate(t).unwrap();
                if few[..] != d[..2] || x != d[0] {
                    return tag("differs", vec![]);
                }
                ok(d.iter().flat_map(|v| v.into_array()).map(f4).collect())
            }
            "area" => res(self.c.definite_integral(dec(a[0], 4.0), dec(a[1], 4.0)), |v| v.into_array().map(f4).to_vec()),
            "poly" => self.c.piece_polynomial(a[0] as usize, a[1] as usize).map_or(tag("none", vec![]), |p| ok(p.coefficients().iter().map(|c| f4(*c)).collect())),
            _ => panic!("HARNESS {op}"),
        }
    }
}
fn gen_p(r: &mut Rng, s: &mut Sess) {
    let mut total = 0;
    for i in 0..24 {
        if i % 8 == 0 {
            let n = r.int(1, 4);
            let mut sp: Vec<i64> = (0..n).map(|_| r.of(&[1, 2, 3, 4, 4, 5, 8])).collect();
            let mut np = n;
            let odd = r.chance(1, 4);
            if odd {
                match r.int(0, 4) {
                    0 => sp[r.below(n as u64) as usize] = r.of(&[0, -1, NAN, INF, NINF]),
                    1 => {
                        sp.pop();
                    }
                    2 => np -= 1,
                    3 => {
                        np = 5;
                        sp.resize(5, 2);
                    }
                    _ => {
                        sp.clear();
                        np = r.of(&[0, n]);
                    }
                }
            }
            let c: Vec<i64> = (0..8 * np).map(|_| if r.chance(1, 3) { 0 } else { r.int(-9, 9) }).collect();
            let o = s.run("build", &[vec![np, sp.len() as i64], sp, c].concat());
            if o.r == "ok" {
                total = o.v[1];
            }
        }
        let t = |r: &mut Rng| if r.chance(1, 20) { r.of(&[INF, NINF]) } else { r.int(-3, total + 3) };
        match r.int(0, 9) {
            0 => {
                s.run("slope", &[r.of(&[0, 1, 1, 1, 2, 3, 4, 9])]);
            }
            1..=5 => {
                let x = t(r);
                s.run("at", &[x]);
            }
            6..=8 => {
                let (x, y) = (t(r), t(r));
                s.run("area", &[x, y]);
            }
            _ => {
                s.run("poly", &[r.int(0, 4), r.int(0, 2)]);
            }
        }
    }
}
struct S {
    b: BoundaryDerivatives<2>,
    e: BoundaryDerivatives<2>,
}
fn bound(a: &[i64]) -> BoundaryDerivatives<2> {
    let v = |i: usize| Vector::new([dec(a[i], 1.0), dec(a[i + 1], 1.0)]);
    BoundaryDerivatives { velocity: v(0), acceleration: v(2), jerk: v(4) }
}
fn points(a: &[i64]) -> Vec<Vector<2>> {
    a.chunks(2).map(|c| Vector::new([dec(c[0], 1.0), dec(c[1], 1.0)])).collect()
}
fn low(x: f64, n: usize) -> i64 {
    enc_tol(x, [1e4, 1e4, 1e4, 1e4, 1e3, 1e2, 1e2][n], 0.51)
}
fn plan<const F: usize>(s: &S, a: &[i64]) -> Obs {
    let (n, nd) = (a[1] as usize, a[2] as usize);
    let w = points(&a[3..3 + 2 * n]);
    let d: Vec<f64> = a[3 + 2 * n..3 + 2 * n + nd].iter().map(|k| dec(*k, 4.0)).collect();
    let planner = MinimumSnapPlanner::<4, F, 2, f64>::new().with_start(s.b).with_end(s.e);
    match planner.plan(&w, &d) {
        Err(e) => err(e),
        Ok(c) => {
            assert!(c.piece_count() == nd);
            let mut v = vec![];
            let mut t = 0.0;
            for i in 0..nd {
                let begin = c.evaluate_with_derivatives::<7>(t).unwrap();
                assert!(c.span(i) == Some(d[i]));
                t += d[i];
                v.extend(begin.iter().enumerate().flat_map(|(n, x)| x.into_array().map(|x| low(x, n))));
                let end: [[f64; 7]; 2] = std::array::from_fn(|ax| {
                    let x: [f64; 7] = c.piece_polynomial(i, ax).unwrap().evaluate_with_derivatives(1.0);
                    std::array::from_fn(|n| x[n] / d[i].powi(n as i32))
                });
                v.extend((0..7).flat_map(|n| [low(end[0][n], n), low(end[1][n], n)]));
            }
            ok(v)
        }
    }
}
impl Driver for S {
    fn apply(&mut self, op: &str, a: &[i64]) -> Obs {
        match op {
            "start" => {
                self.b = bound(a);
                ok(vec![])
            }
            "end" => {
                self.e = bound(a);
                ok(vec![])
            }
            "plan" => match a[0] {
                0 => plan::<0>(self, a),
                3 => plan::<3>(self, a),
                6 => plan::<6>(self, a),
                9 => plan::<9>(self, a),
                _ => plan::<12>(self, a),
            },
            "times" => {
                let mut d = vec![0.0; a[1] as usize];
                match durations_from_average_speed(&points(&a[2..]), dec(a[0], 4.0), &mut d) {
                    Err(e) => err(e),
                    Ok(()) => ok(d.iter().map(|x| f4(*x)).collect()),
                }
            }
            _ => panic!("HARNESS {op}"),
        }
    }
}
fn gen_s(r: &mut Rng, s: &mut Sess) {
    for _ in 0..5 {
        for op in ["start", "end"] {
            if r.chance(1, 2) {
                let mut a = if r.chance(1, 3) { vec![0; 6] } else { r.ints(6, -4, 4) };
                if r.chance(1, 12) {
                    a[r.below(6) as usize] = r.of(&[NAN, INF]);
                }
                s.run(op, &a);
            }
        }
        let n = if r.chance(1, 12) { r.of(&[0, 1, 6]) } else { r.int(2, 5) };
        let mut w = r.ints(2 * n as usize, -9, 9);
        if !w.is_empty() && r.chance(1, 15) {
            w[r.below(2 * n as u64) as usize] = r.of(&[NAN, INF, NINF]);
        }
        let nd = if r.chance(1, 15) { r.int(0, 5) } else { (n - 1).max(0) };
        let mut d: Vec<i64> = (0..nd).map(|_| r.int(2, 12)).collect();
        if nd > 0 && r.chance(1, 15) {
            d[r.below(nd as u64) as usize] = r.of(&[0, -4, NAN, INF]);
        }
        let room = if r.chance(1, 5) { r.of(&[0, 3, 6, 9]) } else { r.of(&[9, 12]) };
        s.run("plan", &[vec![room, n, nd], w.clone(), d].concat());
        let mut w = w;
        if n > 1 && r.chance(1, 12) {
            w[2] = w[0];
            w[3] = w[1];
        }
        let speed = if r.chance(1, 12) { r.of(&[0, -3, NAN, INF]) } else { r.int(1, 20) };
        s.run("times", &[vec![speed, nd], w].concat());
    }
}
fn main() {
    main_with(&[
        Model { name: "pieces", make: |_| Box::new(P { c: Curve::try_from_pieces(&[[Polynomial::zeros(); 2]], &[1.0]).unwrap() }), gen: gen_p },
        Model { name: "snap", make: |_| Box::new(S { b: BoundaryDerivatives::default(), e: BoundaryDerivatives::default() }), gen: gen_s },
    ]);
}
