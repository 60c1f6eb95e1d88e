use multicalc::control::FollowTheGap;
use multicalc::error::{ControlError, MappingError};
use multicalc::mapping::ScanGeometry;
use vharness::*;
const A: f64 = 262144.0;
fn t<T: Fl>(x: f64) -> T {
    T::from_f64(x)
}
fn rnd(x: f64, sc: f64) -> i64 {
    if x.is_nan() {
        NAN
    } else if !((x * sc).abs() < 1e9) {
        OFF
    } else {
        (x * sc).round() as i64
    }
}
trait Gap {
    fn op(&mut self, op: &str, a: &[i64]) -> Obs;
}
struct F<const N: usize, T: Fl>(FollowTheGap<N, T>);
impl<const N: usize, T: Fl> Gap for F<N, T> {
    fn op(&mut self, op: &str, a: &[i64]) -> Obs {
        let upd = |r: Result<FollowTheGap<N, T>, ControlError>, me: &mut FollowTheGap<N, T>| res(r, |g| { *me = g; vec![] });
        let g = self.0;
        match op {
            "gain" => upd(g.with_steering_gain(t(dec(a[0], 2.0))), &mut self.0),
            "bias" => upd(g.with_goal_bias(t(dec(a[0], 2.0))), &mut self.0),
            "scaling" => upd(g.with_speed_scaling(t(dec(a[0], 16.0)), t(dec(a[1], 16.0))), &mut self.0),
            "frontal" => upd(g.with_frontal_half_angle(t(dec(a[0], A))), &mut self.0),
            "beam" => match g.beam_angle(a[0] as usize) {
                Some(x) => ok(vec![enc_tol(x.into(), A, 0.1)]),
                None => tag("none", vec![]),
            },
            "compute" => {
                let r: [T; N] = std::array::from_fn(|i| t(dec(a[i + 1], 8.0)));
                res(g.compute(&r, t(dec(a[0], A))), |o| {
                    let w = o.body_twist();
                    vec![
                        b(o.is_blocked()),
                        o.gap_start_index() as i64,
                        o.gap_end_index() as i64,
                        rnd(o.heading().into(), A),
                        enc(o.minimum_clearance().into(), 8.0),
                        rnd(w.linear().into(), 1e6),
                        rnd(w.angular().into(), A),
                    ]
                })
            }
            _ => panic!("HARNESS {op}"),
        }
    }
}
struct G<const N: usize, T: Fl>(ScanGeometry<N, T>);
fn shape<const N: usize, T: Fl>(g: &ScanGeometry<N, T>) -> Vec<i64> {
    vec![enc(g.field_of_view().into(), 16.0), enc(g.minimum_range().into(), 8.0), enc(g.maximum_range().into(), 8.0), g.num_beams() as i64, enc_tol(g.angle_increment().into(), A, 0.1)]
}
impl<const N: usize, T: Fl + multicalc::Primal> Gap for G<N, T> {
    fn op(&mut self, op: &str, a: &[i64]) -> Obs {
        let g = self.0;
        match op {
            "minrange" => res(g.with_minimum_range(t(dec(a[0], 8.0))), |h| {
                self.0 = h;
                shape(&h)
            }),
            "valid" => ok(vec![b(g.range_is_valid(t(dec(a[0], 8.0))))]),
            "near" => match g.nearest_beam_index(t(dec(a[0], A))) {
                Some(i) => ok(vec![i as i64]),
                None => tag("none", vec![]),
            },
            "beam" => match g.beam_angle(a[0] as usize) {
                Some(x) => ok(vec![enc_tol(x.into(), A, 0.1)]),
                None => tag("none", vec![]),
            },
            _ => panic!("HARNESS {op}"),
        }
    }
}
struct D<T: Fl>(Option<Box<dyn Gap>>, std::marker::PhantomData<T>);
macro_rules! by_n {
    ($n:expr, $f:ident, $a:expr) => {
        match $n {
            0 => $f::<0, T>($a),
            1 => $f::<1, T>($a),
            2 => $f::<2, T>($a),
            3 => $f::<3, T>($a),
            4 => $f::<4, T>($a),
            5 => $f::<5, T>($a),
            7 => $f::<7, T>($a),
            9 => $f::<9, T>($a),
            13 => $f::<13, T>($a),
            17 => $f::<17, T>($a),
            _ => panic!("HARNESS beams"),
        }
    };
}
fn follow<const N: usize, T: Fl>(a: &[i64]) -> Result<Box<dyn Gap>, ControlError> {
    let e = |i: usize| t::<T>(dec(a[i], 8.0));
    Ok(Box::new(F::<N, T>(FollowTheGap::try_new(t(dec(a[1], 16.0)), e(2), e(3), e(4), e(5))?)))
}
fn scan<const N: usize, T: Fl + multicalc::Primal>(a: &[i64]) -> Result<(Box<dyn Gap>, Vec<i64>), MappingError> {
    let g = ScanGeometry::<N, T>::try_new(t(dec(a[1], 16.0)), t(dec(a[2], 8.0)))?;
    Ok((Box::new(G(g)), shape(&g)))
}
impl<T: Fl + multicalc::Primal> Driver for D<T> {
    fn apply(&mut self, op: &str, a: &[i64]) -> Obs {
        match op {
            "follow" => {
                self.0 = None;
                res(by_n!(a[0], follow, a), |g| {
                    self.0 = Some(g);
                    vec![]
                })
            }
            "scan" => {
                self.0 = None;
                res(by_n!(a[0], scan, a), |(g, v)| {
                    self.0 = Some(g);
                    v
                })
            }
            _ => match &mut self.0 {
                None => tag("none", vec![]),
                Some(g) => g.op(op, a),
            },
        }
    }
}
fn generate(g: &mut Rng, s: &mut Sess) {
    let n = g.of(&[2, 3, 4, 5, 7, 9, 9, 13, 17]);
    let fov = (n - 1) * g.int(1, 100 / (n - 1));
    if g.chance(1, 5) {
        if s.run("scan", &[n, fov, g.int(1, 100)]).r != "ok" {
            return;
        }
        for _ in 0..6 {
            let half = fov * 8192;
            let x = match g.int(0, 5) {
                0 => g.of(&[NAN, INF, NINF, half, -half, half + 40, -half - 40]),
                1 => {
                    let step = 2 * half / (n - 1);
                    -half + step * g.int(0, n - 2) + step / 2 + g.of(&[-16, 16])
                }
                _ => g.int(-half, half),
            };
            s.run("near", &[x]);
            s.run("valid", &[g.of(&[NAN, INF, NINF, -1, 0, 1, 5, 20, 50, 99])]);
        }
        s.run("minrange", &[g.int(-1, 60)]);
        s.run("valid", &[g.int(0, 60)]);
        s.run("beam", &[g.int(0, n)]);
        return;
    }
    let max = g.int(8, 32);
    let thr = g.int(2, max.min(22));
    let ch = g.int(1, 12.min(2 * max - 1));
    s.run("follow", &[n, fov, max, ch, thr, g.int(1, 16)]);
    for _ in 0..g.int(0, 4) {
        match g.int(0, 3) {
            0 => s.run("gain", &[g.int(0, 8)]),
            1 => s.run("bias", &[g.of(&[0, 0, 1, 2, 5, 9])]),
            2 => s.run("scaling", &[g.int(0, 20), g.int(10, 60)]),
            _ => s.run("frontal", &[g.int(1, fov) * 8192]),
        };
    }
    s.run("beam", &[g.int(0, n)]);
    for _ in 0..g.int(4, 14) {
        let wild = g.int(0, 3);
        let mut a = vec![g.of(&[0, 0, g.clone().int(-fov * 8192, fov * 8192), g.clone().int(-900000, 900000)])];
        if g.chance(1, 20) {
            a[0] = g.of(&[NAN, INF, NINF]);
        }
        let mut r: Vec<i64> = vec![];
        let near = g.int(1, thr);
        while r.len() < n as usize {
            let x = match wild {
                0 => g.of(&[near, thr, max]),
                1 => if g.chance(1, 3) { near } else { max + 3 },
                2 => g.of(&[NAN, INF, NINF, 0, -3, near, thr - 1, thr, max, max + 9]),
                _ => g.int(1, max + 4),
            };
            for _ in 0..g.int(1, 3) {
                r.push(x);
            }
        }
        r.truncate(n as usize);
        if g.chance(1, 4) {
            // symmetric scans: ties
            for i in 0..r.len() / 2 {
                let j = r.len() - 1 - i;
                r[j] = r[i];
            }
        }
        a.extend(r);
        s.run("compute", &a);
    }
}
fn main() {
    main_with(&[Model {
        name: "gap",
        make: |t| if t == "f32" { Box::new(D::<f32>(None, Default::default())) } else { Box::new(D::<f64>(None, Default::default())) },
        gen: generate,
    }]);
}
