use multicalc::linear_algebra::{Matrix, Vector};
use multicalc::spatial::{Quaternion, Twist, SE2, SE3, SO2, SO3};
use vharness::*;
fn t<T: Fl>(x: f64) -> T {
    T::from_f64(x)
}
fn d<T: Fl>(k: i64, s: f64) -> T {
    // in the scalar's own arithmetic: the nearest value of the fraction
    t(dec(k, s))
}
fn f<T: Fl>(x: T) -> f64 {
    x.into()
}
fn e<T: Fl>(x: T, s: f64) -> i64 {
    enc_tol(f(x), s, 0.51)
}
fn near<T: Fl>(x: T, s: f64) -> i64 {
    enc_tol(f(x), s, 1e-2)
}
const U: f64 = 1e5;
fn mat<T: Fl, const N: usize, const M: usize>(m: Matrix<N, M, T>) -> Vec<i64> {
    (0..N).flat_map(|i| (0..M).map(move |k| (i, k))).map(|ik| e(m[ik], U)).collect()
}
fn vecs<T: Fl, const N: usize>(v: Vector<N, T>, s: f64) -> Vec<i64> {
    (0..N).map(|i| e(v[i], s)).collect()
}
fn v3<T: Fl>(a: &[i64], s: f64) -> Vector<3, T> {
    Vector::new([d(a[0], s), d(a[1], s), d(a[2], s)])
}
fn v6<T: Fl>(a: &[i64], s: f64) -> Vector<6, T> {
    Vector::from_fn(|i| d(a[i], s))
}
fn far<T: Fl, const N: usize, const M: usize>(p: Matrix<N, M, T>, q: Matrix<N, M, T>) -> f64 {
    let mut x = 0.0f64;
    for i in 0..N {
        for k in 0..M {
            let y = (f(p[(i, k)]) - f(q[(i, k)])).abs();
            x = if y.is_nan() { y } else { x.max(y) };
            if x.is_nan() {
                return x;
            }
        }
    }
    x
}
fn tol<T: Fl>() -> f64 {
    (4096.0 * f(T::EPSILON)).max(2e-11)
}
/// How many tolerances a difference amounts to: 0 when it vanishes.
fn gone(x: f64, tol: f64) -> i64 {
    if x.is_nan() { NAN } else { (x / tol).min(1e9) as i64 }
}
fn pose<T: Fl>(p: SE3<T>) -> Vec<i64> {
    let m = p.to_matrix();
    let mut v = vec![];
    for i in 0..3 {
        for k in 0..3 {
            v.push(e(m[(i, k)], U));
        }
    }
    v.extend((0..3).map(|i| e(m[(i, 3)], U)));
    v
}
fn rot<T: Fl>(q: Quaternion<T>) -> Vec<i64> {
    mat(q.to_rotation_matrix())
}
struct D<T: Fl>([SE3<T>; 3]);
impl<T: Fl> Driver for D<T> {
    fn apply(&mut self, op: &str, a: &[i64]) -> Obs {
        let g = |i: usize| self.0[a[i] as usize - 1];
        match op {
            "load" => {
                let q = Quaternion::new(d::<T>(a[1], 1.0), d(a[2], 1.0), d(a[3], 1.0), d(a[4], 1.0));
                match SO3::try_from_quaternion(q) {
                    Some(r) if a[5..8].iter().all(|k| k.abs() < NAN) => {
                        let x = if a[1] % 2 == 0 { SO3::from_quaternion(q) } else { r };
                        self.0[a[0] as usize - 1] = SE3::from_parts(x, v3(&a[5..8], 1.0));
                        ok(pose(self.0[a[0] as usize - 1]))
                    }
                    _ => tag("none", vec![]),
                }
            }
            "mul" => {
                let x = if a[0] % 2 == 0 { g(1) * g(2) } else { g(1).compose(g(2)) };
                // one step of care against drift, as the documentation asks of long chains
                self.0[a[0] as usize - 1] = SE3::from_parts(x.rotation().normalized(), x.translation());
                ok(pose(x))
            }
            "inv" => {
                self.0[a[0] as usize - 1] = g(1).inverse();
                ok(pose(self.0[a[0] as usize - 1]))
            }
            "act" => {
                let p = v3(&a[1..4], 1.0);
                let r = g(0).rotation();
                ok([vecs(g(0).act(p), U), vecs(r.act(p), U), vecs(r.quaternion().inverse_transform_point(p), U)].concat())
            }
            "remake" => {
                let x = g(0);
                let q = x.rotation().quaternion();
                let Some(m) = SE3::try_from_matrix(x.to_matrix()) else { return tag("own matrix refused", vec![]) };
                let Some(r) = SO3::try_from_matrix(x.rotation().to_matrix()) else { return tag("own matrix refused", vec![]) };
                let (er, ep, ey) = q.to_euler_zyx();
                let (ax, an) = q.to_axis_angle();
                let fv = x.rotation().log();
                ok([
                    pose(m),
                    pose(SE3::exp(x.log())),
                    rot(r.quaternion()),
                    rot(Quaternion::from_euler_zyx(er, ep, ey)),
                    rot(Quaternion::from_axis_angle(ax, an)),
                    rot(Quaternion::from_scaled_axis(fv)),
                    vecs(fv, 1e4),
                    vecs(ax, 1e4),
                    vec![e(an, 1e4), e(er, 1e4), e(ep, 1e4), e(ey, 1e4)],
                ]
                .concat())
            }
            "mat" => {
                let m = Matrix::<3, 3, T>::from_fn(|i, k| d(a[1 + 3 * i + k], a[0] as f64));
                match SO3::try_from_matrix(m) {
                    Some(r) => ok(mat(r.to_matrix())),
                    None => tag("none", vec![]),
                }
            }
            "mat4" => {
                let m = Matrix::<4, 4, T>::from_fn(|i, k| match (i, k) {
                    (3, k) => d(a[13 + k], a[0] as f64),
                    (i, 3) => d(a[10 + i], a[0] as f64),
                    _ => d(a[1 + 3 * i + k], a[0] as f64),
                });
                match SE3::try_from_matrix(m) {
                    Some(r) => ok(pose(r)),
                    None => tag("none", vec![]),
                }
            }
            "exp" => {
                let x = SE3::exp(v6::<T>(a, 100.0));
                let m = x.to_matrix();
                let mut v = vec![];
                for i in 0..3 {
                    for k in 0..3 {
                        v.push(e(m[(i, k)], 1e4));
                    }
                }
                v.extend((0..3).map(|i| e(m[(i, 3)], 1e4)));
                ok(v)
            }
            "euler" => {
                let m = Quaternion::<T>::from_euler_zyx(d(a[0], 100.0), d(a[1], 100.0), d(a[2], 100.0)).to_rotation_matrix();
                ok((0..9).map(|i| e(m[(i / 3, i % 3)], 1e4)).collect())
            }
            "axis" => {
                let m = Quaternion::<T>::from_axis_angle(v3(a, 1.0), d(a[3], 100.0)).to_rotation_matrix();
                ok((0..9).map(|i| e(m[(i / 3, i % 3)], 1e4)).collect())
            }
            "quat" => {
                let q = |i: usize| Quaternion::new(d::<T>(a[i], 1.0), d(a[i + 1], 1.0), d(a[i + 2], 1.0), d(a[i + 3], 1.0));
                let (p, r, k) = (q(0), q(4), d::<T>(a[8], 1.0));
                let n2 = p.norm_squared();
                let c = |x: Quaternion<T>, s: f64| x.as_array().map(|y| near(y, s));
                let mut v = vec![];
                for x in [p * r, p + r, p - r, -p, p.conjugate()] {
                    v.extend(c(x, 1.0));
                }
                v.extend([near(p.dot(r), 1.0), near(n2, 1.0)]);
                v.extend(c(p * k, 1.0));
                v.extend(c(p.inverse(), f(n2)));
                v.extend(c(p.normalized(), f(p.norm())));
                ok(v)
            }
            "qlog" => {
                let q = Quaternion::new(d::<T>(a[0], 100.0), d(a[1], 100.0), d(a[2], 100.0), d(a[3], 100.0));
                ok(q.exp().log().as_array().map(|y| near(y, 100.0)).to_vec())
            }
            "two" => {
                let x = v3::<T>(a, 1.0);
                let y: Vec<i64> = perm(&a[..3], a[3]);
                let y = v3::<T>(&y, 1.0);
                let (sx, sy) = (10f64.powi(a[4] as i32), 10f64.powi(a[5] as i32));
                let q = Quaternion::from_two_vectors(x * t::<T>(sx), y * t::<T>(sy));
                if !x.is_finite() || f(x.norm()) == 0.0 {
                    return ok(rot(q));
                }
                let m = q.to_rotation_matrix();
                let back = q.inverse_transform_point(y);
                let same = (0..3).all(|i| (f(back[i]) - f(x[i])).abs() < 1e-3);
                let n = |v: Vector<3, T>| -> Vec<i64> { (0..3).map(|i| near(v[i], 1.0)).collect() };
                ok([n(q.transform_point(x)), n(q.transform_point(x.cross(y))), vec![b((f(q.norm()) - 1.0).abs() < 1e-5 && far(m * m.transpose(), Matrix::identity()) < 1e-5), b(same)]].concat())
            }
            "pairs" => {
                let r = g(0).rotation();
                let (p, q) = (v3::<T>(&a[1..4], 1.0), v3::<T>(&a[4..7], 1.0));
                let (rp, rq) = (r.act(p) * d::<T>(a[7], 4.0), r.act(q * d::<T>(a[8], 4.0) + p * d::<T>(a[9], 4.0)));
                match SO3::from_two_direction_pairs(p, q, rp, rq) {
                    Some(x) => ok(rot(x.quaternion())),
                    None => tag("none", vec![]),
                }
            }
            "adj" => {
                let u = v6::<T>(&a[1..7], 1.0);
                ok([vecs(g(0).adjoint() * u, 1e4), vecs(g(0).act_twist(Twist::from_vector(u)).to_vector(), 1e4)].concat())
            }
            "conj" => {
                let x = g(0);
                let u = v6::<T>(&a[1..7], 100.0);
                let l = x * SE3::exp(u) * x.inverse();
                let r = SE3::exp(x.adjoint() * u);
                let reach = 10.0 + f(x.translation().norm());
                let so = far((x.rotation() * SO3::exp(Vector::new([u[3], u[4], u[5]])) * x.rotation().inverse()).to_matrix(), SO3::exp(x.rotation().adjoint() * Vector::new([u[3], u[4], u[5]])).to_matrix());
                ok(vec![gone(far(l.to_matrix(), r.to_matrix()), tol::<T>() * reach), gone(so, tol::<T>())])
            }
            "jac" => {
                let sc = 100.0 * 10f64.powi(a[0] as i32);
                let mut u = v6::<T>(&a[1..7], 100.0);
                for i in 3..6 {
                    u[i] = d(a[i + 1], sc);
                }
                let w = Vector::new([u[3], u[4], u[5]]);
                let m = tol::<T>() * 40.0;
                let i3 = Matrix::<3, 3, T>::identity();
                let i6 = Matrix::<6, 6, T>::identity();
                let mut v = vec![
                    gone(far(SO3::left_jacobian(w) * SO3::left_jacobian_inverse(w), i3), m),
                    gone(far(SO3::right_jacobian(w) * SO3::right_jacobian_inverse(w), i3), m),
                    gone(far(SO3::right_jacobian(w), SO3::left_jacobian(-w)), m),
                    gone(far(SO3::left_jacobian(w), SO3::exp(w).adjoint() * SO3::right_jacobian(w)), m),
                    gone(far(SE3::left_jacobian(u) * SE3::left_jacobian_inverse(u), i6), m),
                    gone(far(SE3::right_jacobian(u) * SE3::right_jacobian_inverse(u), i6), m),
                    gone(far(SE3::right_jacobian(u), SE3::left_jacobian(-u)), m),
                    gone(far(SE3::left_jacobian(u), SE3::exp(u).adjoint() * SE3::right_jacobian(u)), m),
                ];
                // the definition: what a small change of coordinates does to the motion
                if f(T::EPSILON) < 1e-10 {
                    let h = t::<T>(1e-5);
                    let (x, j, jr) = (SE3::exp(u).inverse(), SE3::left_jacobian(u), SO3::left_jacobian(w));
                    let (mut w3, mut w6) = (0.0f64, 0.0f64);
                    for k in 0..6 {
                        let s = Vector::<6, T>::from_fn(|i| if i == k { h } else { T::ZERO });
                        let g = ((SE3::exp(u + s) * x).log() - (SE3::exp(u - s) * x).log()) * (T::HALF / h);
                        for i in 0..6 {
                            w6 = w6.max((f(g[i]) - f(j[(i, k)])).abs());
                        }
                        if k < 3 {
                            let s = Vector::<3, T>::from_fn(|i| if i == k { h } else { T::ZERO });
                            let x = SO3::exp(w).inverse();
                            let g = ((SO3::exp(w + s) * x).log() - (SO3::exp(w - s) * x).log()) * (T::HALF / h);
                            for i in 0..3 {
                                w3 = w3.max((f(g[i]) - f(jr[(i, k)])).abs());
                            }
                        }
                    }
                    v.extend([gone(w3, 1e-6), gone(w6, 1e-5)]);
                } else {
                    v.extend([0, 0]);
                }
                ok(v)
            }
            "interp" => {
                let (x, y, s) = (g(0), g(1), d::<T>(a[2], 100.0));
                let m = tol::<T>() * (10.0 + f(x.translation().norm()) + f(y.translation().norm()));
                let (p, q) = (x.rotation(), y.rotation());
                let full = f(p.quaternion().rotation_angle_to(q.quaternion()));
                let mid = p.interpolate(q, s);
                let part = f(p.quaternion().rotation_angle_to(mid.quaternion()));
                let clear = full < 3.1;
                let geo = p * SO3::exp((p.inverse() * q).log() * s);
                let xm = x.interpolate(y, s);
                let rel = (x.inverse() * xm).log();
                let want = (x.inverse() * y).log() * s;
                ok(vec![
                    gone(far(p.interpolate(q, T::ZERO).to_matrix(), p.to_matrix()), m),
                    gone(far(p.interpolate(q, T::ONE).to_matrix(), q.to_matrix()), m),
                    gone((part - full * f(s)).abs(), m * 4.0),
                    if clear { gone(far(mid.to_matrix(), geo.to_matrix()), m * 4.0) } else { 0 },
                    gone(far(x.interpolate(y, T::ZERO).to_matrix(), x.to_matrix()), m),
                    gone(far(x.interpolate(y, T::ONE).to_matrix(), y.to_matrix()), m * 10.0),
                    if clear { gone((0..6).map(|i| (f(rel[i]) - f(want[i])).abs()).fold(0.0, f64::max), m * 10.0) } else { 0 },
                ])
            }
            "angle" => ok(vec![e(g(0).rotation().quaternion().rotation_angle_to(g(1).rotation().quaternion()), 1e4)]),
            _ => panic!("HARNESS op {op}"),
        }
    }
}
fn perm(v: &[i64], k: i64) -> Vec<i64> {
    match k {
        0 => v.to_vec(),
        1 => vec![v[1], v[2], v[0]],
        2 => vec![-v[1], v[0], v[2]],
        3 => vec![-v[0], -v[1], -v[2]],
        4 => vec![-v[0], v[1], v[2]],
        _ => vec![v[2], -v[1], -v[0]],
    }
}
struct P<T: Fl>([SE2<T>; 3]);
fn flat<T: Fl>(p: SE2<T>) -> Vec<i64> {
    let m = p.to_matrix();
    // all four rotation entries must agree
    if far(Matrix::new([[m[(0, 0)], m[(0, 1)]], [m[(1, 0)], m[(1, 1)]]]), p.rotation().to_matrix()) > 0.0 || f(m[(0, 0)]) != f(m[(1, 1)]) || f(m[(0, 1)]) != -f(m[(1, 0)]) {
        return vec![OFF];
    }
    vec![e(m[(0, 0)], U), e(m[(1, 0)], U), e(m[(0, 2)], U), e(m[(1, 2)], U)]
}
fn cs<T: Fl>(p: SO2<T>) -> Vec<i64> {
    let (c, s) = p.cos_sin();
    vec![e(c, U), e(s, U)]
}
impl<T: Fl> Driver for P<T> {
    fn apply(&mut self, op: &str, a: &[i64]) -> Obs {
        let g = |i: usize| self.0[a[i] as usize - 1];
        match op {
            "mat" => {
                let n = a[1] as f64;
                match SO2::try_from_matrix(Matrix::new([[d::<T>(a[2], n), d(a[3], n)], [d(a[4], n), d(a[5], n)]])) {
                    Some(r) => ok(cs(r)),
                    None => tag("none", vec![]),
                }
            }
            "load" => {
                let n = a[1] as f64;
                let m = Matrix::new([[d::<T>(a[2], n), d(a[3], n), d(a[6], 1.0)], [d(a[4], n), d(a[5], n), d(a[7], 1.0)], [d(a[8], n), d(a[9], n), d(a[10], n)]]);
                match SE2::try_from_matrix(m) {
                    Some(r) => {
                        self.0[a[0] as usize - 1] = r;
                        ok(flat(r))
                    }
                    None => tag("none", vec![]),
                }
            }
            "mul" => {
                let x = if a[0] % 2 == 0 { g(1) * g(2) } else { g(1).compose(g(2)) };
                self.0[a[0] as usize - 1] = SE2::from_parts(x.rotation().normalized(), x.translation());
                ok(flat(x))
            }
            "inv" => {
                self.0[a[0] as usize - 1] = g(1).inverse();
                ok(flat(self.0[a[0] as usize - 1]))
            }
            "act" => {
                let p = Vector::new([d(a[1], 1.0), d(a[2], 1.0)]);
                ok([vecs(g(0).act(p), U), vecs(g(0).rotation().act(p), U)].concat())
            }
            "remake" => {
                let x = g(0);
                let (Some(m), Some(r)) = (SE2::try_from_matrix(x.to_matrix()), SO2::try_from_matrix(x.rotation().to_matrix())) else { return tag("own matrix refused", vec![]) };
                let h = x.rotation().log();
                ok([flat(m), flat(SE2::exp(x.log())), cs(r), cs(SO2::exp(h)), vec![e(h, 1e4)]].concat())
            }
            "exp" => {
                let x = SE2::exp(v3::<T>(a, 100.0)).to_matrix();
                ok(vec![e(x[(0, 0)], 1e4), e(x[(1, 0)], 1e4), e(x[(0, 2)], 1e4), e(x[(1, 2)], 1e4)])
            }
            "adj" => ok(vecs(g(0).adjoint() * v3::<T>(&a[1..4], 1.0), 1e4)),
            "hat" => {
                let u = v3::<T>(a, 1.0);
                let m = SE2::hat(u);
                let n = SO2::hat(u[2]);
                let mut v: Vec<i64> = (0..9).map(|i| near(m[(i / 3, i % 3)], 1.0)).collect();
                v.extend((0..3).map(|i| near(SE2::vee(m)[i], 1.0)));
                v.extend((0..4).map(|i| near(n[(i / 2, i % 2)], 1.0)));
                v.push(near(SO2::vee(n), 1.0));
                ok(v)
            }
            "conj" => {
                let (x, u) = (g(0), v3::<T>(&a[1..4], 100.0));
                let l = x * SE2::exp(u) * x.inverse();
                let r = SE2::exp(x.adjoint() * u);
                ok(vec![gone(far(l.to_matrix(), r.to_matrix()), tol::<T>() * (10.0 + f(x.translation().norm()))), gone((f(x.rotation().adjoint()) - 1.0).abs(), tol::<T>())])
            }
            "jac" => {
                let mut u = v3::<T>(&a[1..4], 100.0);
                u[2] = d(a[3], 100.0 * 10f64.powi(a[0] as i32));
                let m = tol::<T>() * 40.0;
                let i3 = Matrix::<3, 3, T>::identity();
                let mut v = vec![
                    gone(far(SE2::left_jacobian(u) * SE2::left_jacobian_inverse(u), i3), m),
                    gone(far(SE2::right_jacobian(u) * SE2::right_jacobian_inverse(u), i3), m),
                    gone(far(SE2::right_jacobian(u), SE2::left_jacobian(-u)), m),
                    gone(far(SE2::left_jacobian(u), SE2::exp(u).adjoint() * SE2::right_jacobian(u)), m),
                ];
                let mut w = 0.0f64;
                if f(T::EPSILON) < 1e-10 {
                    let h = t::<T>(1e-5);
                    let (x, j) = (SE2::exp(u).inverse(), SE2::left_jacobian(u));
                    for k in 0..3 {
                        let s = Vector::<3, T>::from_fn(|i| if i == k { h } else { T::ZERO });
                        let g = ((SE2::exp(u + s) * x).log() - (SE2::exp(u - s) * x).log()) * (T::HALF / h);
                        for i in 0..3 {
                            w = w.max((f(g[i]) - f(j[(i, k)])).abs());
                        }
                    }
                }
                v.push(gone(w, 1e-6));
                ok(v)
            }
            "interp" => {
                let (x, y, s) = (g(0), g(1), d::<T>(a[2], 100.0));
                let m = tol::<T>() * (10.0 + f(x.translation().norm()) + f(y.translation().norm()));
                let (p, q) = (x.rotation(), y.rotation());
                let rel = (p.inverse() * q).log();
                let clear = f(rel).abs() < 3.1;
                let mid = p.interpolate(q, s);
                let xm = x.interpolate(y, s);
                let (l, w) = ((x.inverse() * xm).log(), (x.inverse() * y).log() * s);
                ok(vec![
                    gone(far(p.interpolate(q, T::ZERO).to_matrix(), p.to_matrix()), m),
                    gone(far(p.interpolate(q, T::ONE).to_matrix(), q.to_matrix()), m),
                    gone((f((p.inverse() * mid).log()).abs() - f(rel).abs() * f(s)).abs(), m),
                    if clear { gone((f((p.inverse() * mid).log()) - f(rel) * f(s)).abs(), m) } else { 0 },
                    gone(far(x.interpolate(y, T::ZERO).to_matrix(), x.to_matrix()), m),
                    gone(far(x.interpolate(y, T::ONE).to_matrix(), y.to_matrix()), m * 10.0),
                    if clear { gone((0..3).map(|i| (f(l[i]) - f(w[i])).abs()).fold(0.0, f64::max), m * 10.0) } else { 0 },
                ])
            }
            _ => panic!("HARNESS op {op}"),
        }
    }
}
fn make(ty: &str) -> Box<dyn Driver> {
    if ty == "f32" { Box::new(D::<f32>([SE3::identity(); 3])) } else { Box::new(D::<f64>([SE3::identity(); 3])) }
}
fn make2(ty: &str) -> Box<dyn Driver> {
    if ty == "f32" { Box::new(P::<f32>([SE2::identity(); 3])) } else { Box::new(P::<f64>([SE2::identity(); 3])) }
}
const QS: [[i64; 4]; 10] = [[1, 2, 2, 0], [2, 1, 0, 0], [0, 1, 2, 2], [1, 1, 1, 2], [3, 0, 0, 1], [1, -2, 1, 1], [0, 0, 2, 1], [2, -1, 2, 0], [1, 0, 0, 3], [0, 1, 1, 0]];
fn quat(g: &mut Rng) -> [i64; 4] {
    if g.chance(1, 2) {
        loop {
            let q = [g.int(-1, 1), g.int(-1, 1), g.int(-1, 1), g.int(-1, 1)];
            if [1, 2, 4].contains(&q.iter().map(|x| x * x).sum::<i64>()) {
                return q;
            }
        }
    }
    let mut q = *g.pick(&QS);
    g.shuffle(&mut q);
    q.map(|x| if g.chance(1, 3) { -x } else { x })
}
fn gen(g: &mut Rng, s: &mut Sess) {
    // denominators of rotation and translation in each register, from above
    let mut n = [1i64; 3];
    let mut dn = [1i64; 3];
    for i in 0..3 {
        let q = quat(g);
        let m: i64 = q.iter().map(|x| x * x).sum();
        let x = [i + 1, q[0], q[1], q[2], q[3], g.int(-9, 9), g.int(-9, 9), g.int(-9, 9)];
        s.run("load", &x);
        n[i as usize] = if m == 2 || m == 4 { 1 } else { m };
    }
    for _ in 0..g.int(6, 16) {
        let r = |g: &mut Rng| g.int(1, 3);
        let h = |g: &mut Rng, m: i64| if g.chance(1, 6) { 0 } else { g.int(-m, m) };
        match g.below(22) {
            0..=2 => {
                let x = [r(g), r(g), r(g)];
                let (i, j, k) = (x[0] as usize - 1, x[1] as usize - 1, x[2] as usize - 1);
                let (a, c) = (n[j] * n[k], dn[j] * dn[k] * n[j]);
                if a <= 300 && c <= 300 {
                    s.run("mul", &x);
                    (n[i], dn[i]) = (a, c);
                }
            }
            3 | 4 => {
                let x = [r(g), r(g)];
                let (i, j) = (x[0] as usize - 1, x[1] as usize - 1);
                if dn[j] * n[j] <= 300 {
                    s.run("inv", &x);
                    (n[i], dn[i]) = (n[j], dn[j] * n[j]);
                }
            }
            5 => {
                let q = if g.chance(1, 12) { [0, 0, 0, 0] } else { quat(g) };
                let m: i64 = q.iter().map(|x| x * x).sum();
                let i = r(g);
                let mut x = [i, q[0], q[1], q[2], q[3], g.int(-9, 9), g.int(-9, 9), g.int(-9, 9)];
                if g.chance(1, 15) { x[1 + g.below(4) as usize] = g.of(&[NAN, INF]); }
                let o = s.run("load", &x);
                if o.r == "ok" { (n[i as usize - 1], dn[i as usize - 1]) = (if m == 2 || m == 4 { 1 } else { m }, 1); }
            }
            6 | 7 => { let x = [r(g), h(g, 20), h(g, 20), h(g, 20)]; s.run("act", &x); }
            8 | 9 => { let x = [r(g)]; s.run("remake", &x); }
            10 => {
                let x = h3(g, 16);
                let q = quat(g);
                let m = rotm(q);
                let mut a = vec![m.0];
                a.extend(m.1);
                if g.chance(1, 2) {
                    let i = 1 + g.below(9) as usize;
                    match g.below(6) {
                        0 => a[i] = g.of(&[NAN, INF, NINF]),
                        1 => for v in &mut a[1..4] { *v = -*v },
                        2 => for v in &mut a[1..] { *v = -*v },
                        3 => for v in &mut a[1..] { *v *= 2 },
                        4 => { a.iter_mut().for_each(|v| *v *= 250); a[i] += g.of(&[1, -1]) }
                        _ => a[i] += g.of(&[1, -1]),
                    }
                }
                if g.chance(1, 2) {
                    s.run("mat", &a);
                } else {
                    a.extend(x);
                    let k = a[0];
                    a.extend([0, 0, 0, k]);
                    if g.chance(1, 3) { let i = 10 + g.below(7) as usize; a[i] = g.of(&[NAN, INF, k, 1, -1]); }
                    s.run("mat4", &a);
                }
            }
            11 | 12 => { let x = [h(g, 300), h(g, 300), h(g, 300), h(g, 250), h(g, 250), h(g, 250)]; let z = if g.chance(1, 4) { [x[0], x[1], x[2], g.int(-4, 4), g.int(-4, 4), 0] } else { x }; s.run("exp", &z); }
            13 => { let x = [h(g, 314), h(g, 314), h(g, 314)]; s.run("euler", &x); }
            14 => { let x = [h(g, 2), h(g, 2), h(g, 2), h(g, 700)]; s.run("axis", &x); }
            15 => {
                let mut x: Vec<i64> = (0..9).map(|_| h(g, 20)).collect();
                if x[..4] == [0; 4] { x[2] = 3; }
                s.run("quat", &x);
                let y = [h(g, 100), h(g, 180), h(g, 180), h(g, 180)];
                s.run("qlog", &y);
            }
            16 => {
                let mut x = [h(g, 3), h(g, 3), h(g, 3), g.int(0, 5), g.of(&[0, 0, 3, -3, 20, -20, 30, -30]), g.of(&[0, 0, 1, -2, 20, -25, 30])];
                if g.chance(1, 12) { x[g.below(3) as usize] = g.of(&[NAN, INF]); x[3] = 0; }
                s.run("two", &x);
            }
            17 => {
                let mut x = [r(g), h(g, 9), h(g, 9), h(g, 9), h(g, 9), h(g, 9), h(g, 9), g.int(1, 12), g.int(1, 12), h(g, 8)];
                match g.below(8) {
                    0 => { for i in 4..7 { x[i] = 2 * x[i - 3] } }
                    1 => { for i in 4..7 { x[i] = -x[i - 3] } }
                    2 => x[g.below(6) as usize + 1] = g.of(&[NAN, INF]),
                    _ => {}
                }
                s.run("pairs", &x);
            }
            18 => { let x = [r(g), h(g, 9), h(g, 9), h(g, 9), h(g, 9), h(g, 9), h(g, 9)]; s.run("adj", &x); let x = [r(g), h(g, 200), h(g, 200), h(g, 200), h(g, 150), h(g, 150), h(g, 150)]; s.run("conj", &x); }
            19 => { let x = [g.of(&[0, 0, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9]), h(g, 200), h(g, 200), h(g, 200), h(g, 250), h(g, 250), h(g, 250)]; s.run("jac", &x); }
            20 => { let x = [r(g), r(g), g.of(&[0, 100, 50, 25, 33, 90, 7])]; s.run("interp", &x); }
            _ => { let x = [r(g), r(g)]; if n[x[0] as usize - 1] * n[x[1] as usize - 1] <= 90_000 { s.run("angle", &x); } }
        }
    }
}
fn h3(g: &mut Rng, m: i64) -> [i64; 3] {
    [g.int(-m, m), g.int(-m, m), g.int(-m, m)]
}
fn rotm(q: [i64; 4]) -> (i64, [i64; 9]) {
    let [w, x, y, z] = q;
    (w * w + x * x + y * y + z * z, [w * w + x * x - y * y - z * z, 2 * (x * y - w * z), 2 * (x * z + w * y), 2 * (x * y + w * z), w * w - x * x + y * y - z * z, 2 * (y * z - w * x), 2 * (x * z - w * y), 2 * (y * z + w * x), w * w - x * x - y * y + z * z])
}
fn gen2(g: &mut Rng, s: &mut Sess) {
    let mut n = [1i64; 3];
    let mut dn = [1i64; 3];
    fn turn(g: &mut Rng) -> [i64; 3] {
        let [mut c, mut s, n] = *g.pick(&[[1, 0, 1], [3, 4, 5], [5, 12, 13], [1, 0, 1], [8, 15, 17], [7, 24, 25]]);
        if g.chance(1, 2) { (c, s) = (s, c) }
        [if g.chance(1, 2) { -c } else { c }, if g.chance(1, 2) { -s } else { s }, n]
    }
    for _ in 0..g.int(10, 20) {
        let r = |g: &mut Rng| g.int(1, 3);
        let h = |g: &mut Rng, m: i64| if g.chance(1, 6) { 0 } else { g.int(-m, m) };
        match g.below(16) {
            0..=2 => {
                let x = [r(g), r(g), r(g)];
                let (i, j, k) = (x[0] as usize - 1, x[1] as usize - 1, x[2] as usize - 1);
                let (a, c) = (n[j] * n[k], dn[j] * dn[k] * n[j]);
                if a <= 700 && c <= 700 {
                    s.run("mul", &x);
                    (n[i], dn[i]) = (a, c);
                }
            }
            3 | 4 => {
                let x = [r(g), r(g)];
                let (i, j) = (x[0] as usize - 1, x[1] as usize - 1);
                if dn[j] * n[j] <= 700 {
                    s.run("inv", &x);
                    (n[i], dn[i]) = (n[j], dn[j] * n[j]);
                }
            }
            5..=7 => {
                let c = turn(g);
                let i = r(g);
                let mut a = vec![i, c[2], c[0], -c[1], c[1], c[0], g.int(-9, 9), g.int(-9, 9), 0, 0, c[2]];
                if g.chance(1, 4) {
                    let k = 2 + g.below(4) as usize;
                    match g.below(7) {
                        0 => a[k] = g.of(&[NAN, INF, NINF]),
                        1 => { a[3] = -a[3]; a[5] = -a[5] }
                        2 => { for v in &mut a[2..6] { *v *= 2 } }
                        3 => { let k = a[1]; a[8 + g.below(3) as usize] = g.of(&[1, -1, NAN, 2 * k]) }
                        4 => a[6 + g.below(2) as usize] = g.of(&[NAN, INF]),
                        5 => { for z in [1, 2, 3, 4, 5, 8, 9, 10] { a[z] *= 200 } a[k] += g.of(&[1, -1]) }
                        _ => a[k] += g.of(&[1, -1]),
                    }
                }
                if g.chance(1, 4) {
                    s.run("mat", &a[..6]);
                } else if s.run("load", &a).r == "ok" {
                    (n[i as usize - 1], dn[i as usize - 1]) = (c[2], 1);
                }
            }
            8 => { let x = [r(g), h(g, 20), h(g, 20)]; s.run("act", &x); }
            9 | 10 => { let x = [r(g)]; s.run("remake", &x); }
            11 => { let x = [h(g, 400), h(g, 400), if g.chance(1, 3) { h(g, 5) } else { h(g, 700) }]; s.run("exp", &x); }
            12 => { let x = [r(g), h(g, 9), h(g, 9), h(g, 9)]; s.run("adj", &x); s.run("hat", &x[1..]); }
            13 => { let x = [r(g), h(g, 300), h(g, 300), h(g, 300)]; s.run("conj", &x); }
            14 => { let x = [g.of(&[0, 0, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9]), h(g, 300), h(g, 300), h(g, 500)]; s.run("jac", &x); }
            _ => { let x = [r(g), r(g), g.of(&[0, 100, 50, 25, 33, 90, 7])]; s.run("interp", &x); }
        }
    }
}
fn main() {
    main_with(&[Model { name: "group", make, gen }, Model { name: "plane", make: make2, gen: gen2 }]);
}
