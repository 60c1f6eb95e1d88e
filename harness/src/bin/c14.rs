use multicalc::dynamics::{free_joint_from_state_vector, state_vector_from_free_joint, RigidBody};
use multicalc::linear_algebra::{Matrix, Vector};
use multicalc::ode::ExponentialMap;
use multicalc::spatial::{FreeJointState, Quaternion, SpatialInertia, Twist, Wrench, SE3, SO3};
use vharness::*;
const Q: f64 = std::f64::consts::FRAC_PI_2;
fn t<T: Fl>(k: i64) -> T {
    T::from_f64(dec(k, 1.0))
}
fn x3<T: Fl>(a: &[i64]) -> Vector<3, T> {
    Vector::new([t(a[0]), t(a[1]), t(a[2])])
}
fn x6<T: Fl>(a: &[i64]) -> [T; 6] {
    std::array::from_fn(|i| t(a[i]))
}
fn m3<T: Fl>(a: &[i64]) -> Matrix<3, 3, T> {
    Matrix::from_fn(|i, k| t(a[3 * i + k]))
}
fn rot<T: Fl>(a: &[i64]) -> SO3<T> {
    SO3::from_quaternion(Quaternion::new(t(a[0]), t(a[1]), t(a[2]), t(a[3])))
}
fn pose<T: Fl>(a: &[i64]) -> SE3<T> {
    SE3::from_parts(rot(a), x3(&a[4..]))
}
fn e<T: Fl>(x: T) -> i64 {
    let y: f64 = x.into();
    enc_tol(y, 1.0, 1e-2_f64.max(y.abs() * 2e-6))
}
fn es<T: Fl>(v: impl IntoIterator<Item = T>) -> Vec<i64> {
    v.into_iter().map(e).collect()
}
fn mil<T: Fl>(v: Vector<3, T>) -> Vec<i64> {
    (0..3).map(|i| enc_tol(v[i].into(), 1000.0, 0.51)).collect()
}
fn cells<T: Fl, const N: usize, const M: usize>(m: Matrix<N, M, T>) -> Vec<i64> {
    (0..N).flat_map(|i| (0..M).map(move |k| e(m[(i, k)]))).collect()
}
fn cat(v: &[Vec<i64>]) -> Vec<i64> {
    v.concat()
}
fn axis<T: Fl>(k: i64, q: f64) -> Vector<3, T> {
    Vector::from_fn(|i| if i as i64 == k - 1 { T::from_f64(q * Q) } else { T::ZERO })
}
struct D<T: Fl>(Option<SpatialInertia<T>>, Option<RigidBody<T>>);
fn show<T: Fl>(i: SpatialInertia<T>) -> Vec<i64> {
    cat(&[es([i.mass()]), es(i.center_of_mass().scale(i.mass()).into_array()), cells(i.rotational_inertia().scale(i.mass()))])
}
/// World momentum about the balance point, in plain double precision.
fn momenta<T: Fl>(b: &RigidBody<T>, s: FreeJointState<T>) -> ([f64; 3], [f64; 3]) {
    let f = |x: T| -> f64 { x.into() };
    let r = s.pose().rotation().to_matrix();
    let (c, i, m) = (b.inertia().center_of_mass(), b.inertia().rotational_inertia(), f(b.inertia().mass()));
    let w: [f64; 3] = std::array::from_fn(|k| f(s.velocity().angular()[k]));
    let c: [f64; 3] = std::array::from_fn(|k| f(c[k]));
    let swing = [w[1] * c[2] - w[2] * c[1], w[2] * c[0] - w[0] * c[2], w[0] * c[1] - w[1] * c[0]];
    let l: [f64; 3] = std::array::from_fn(|k| (0..3).map(|n| f(i[(k, n)]) * w[n]).sum());
    let world = |x: [f64; 3]| -> [f64; 3] { std::array::from_fn(|k| (0..3).map(|n| f(r[(k, n)]) * x[n]).sum()) };
    let sw = world(swing);
    (std::array::from_fn(|k| m * (f(s.velocity().linear()[k]) + sw[k])), world(l))
}
fn gap(a: [f64; 3], c: [f64; 3]) -> i64 {
    let g = (0..3).map(|k| (a[k] - c[k]).abs()).sum::<f64>() * 1e9;
    if g.is_nan() { NAN } else { g.min(1e9) as i64 }
}
impl<T: Fl> Driver for D<T> {
    fn apply(&mut self, op: &str, a: &[i64]) -> Obs {
        let mk = |a: &[i64]| if a.len() == 7 { SpatialInertia::<T>::from_diagonal_inertia(t(a[0]), x3(&a[1..]), x3(&a[4..])) } else { SpatialInertia::new(t(a[0]), x3(&a[1..]), m3(&a[4..])) };
        let tw = |a: &[i64]| Twist::<T>::from_array(x6(a));
        let wr = |a: &[i64]| Wrench::<T>::from_array(x6(a));
        let at = |x: Twist<T>| es(x.as_array());
        let aw = |x: Wrench<T>| es(x.as_array());
        match op {
            "cross" => ok(cat(&[at(tw(a).cross(tw(&a[6..]))), aw(tw(a).cross_wrench(wr(&a[6..]))), es([tw(a).dot_wrench(wr(&a[6..]))])])),
            "linear" => {
                let (x, y, k) = (tw(a), tw(&a[6..]), t::<T>(a[12]));
                let (p, q) = (wr(a), wr(&a[6..]));
                let v = cat(&[at(x + y), at(x - y), at(-x), at(x.scale(k))]);
                assert!(v == cat(&[aw(p + q), aw(p - q), aw(-p), aw(p.scale(k))]), "wrench algebra differs");
                assert!(Vector::from(x) == x.to_vector() && Twist::from(x.to_vector()) == x && Wrench::from(p.to_vector()) == p);
                assert!(Twist::from_vector(x.to_vector()) == x && Wrench::from_vector(p.to_vector()) == p && Twist::new(x.linear(), x.angular()) == x && Wrench::new(p.force(), p.torque()) == p);
                ok(v)
            }
            "frame" => {
                let (p, x, y) = (pose::<T>(a), tw(&a[7..]), wr(&a[13..]));
                let v = cat(&[at(p.act_twist(x)), aw(p.act_wrench(y)), at(p.inverse_act_twist(x)), aw(p.inverse_act_wrench(y))]);
                let (m, n) = (p.adjoint() * x.to_vector(), p.force_adjoint() * y.to_vector());
                assert!(v[..12] == cat(&[es(m.into_array()), es(n.into_array())]), "adjoint matrices differ");
                ok(v)
            }
            "make" | "diag" => res(mk(a), |i| { self.0 = Some(i); vec![] }),
            "join" => res(mk(a), |i| { self.0 = Some(self.0.unwrap().combined(i)); vec![] }),
            "move" => { self.0 = Some(pose::<T>(a).act_inertia(self.0.unwrap())); ok(vec![]) }
            "unmove" => { self.0 = Some(pose::<T>(a).inverse_act_inertia(self.0.unwrap())); ok(vec![]) }
            "show" => ok(show(self.0.unwrap())),
            "about" => ok(cells(self.0.unwrap().inertia_about(x3(a)))),
            "matrix" => ok(cells(self.0.unwrap().to_matrix())),
            "motion" => {
                let i = self.0.unwrap();
                ok(cat(&[aw(i.momentum(tw(a))), aw(i.bias_wrench(tw(a))), es([i.kinetic_energy(tw(a)) * T::TWO])]))
            }
            "body" => res(RigidBody::new(self.0.unwrap(), x3(a)), |b| { self.1 = Some(b); cat(&[es(b.gravity().into_array()), show(b.inertia())]) }),
            "accel" => {
                let x = self.1.unwrap().accelerations(rot(a), x3(&a[4..]), wr(&a[7..]));
                ok(cat(&[mil(x.linear()), mil(x.angular())]))
            }
            "deriv" => {
                let s = Vector::<13, T>::from_fn(|i| t(a[i]));
                let d = self.1.unwrap().state_derivative(&s, wr(&a[13..]));
                let d3 = |k: usize| Vector::<3, T>::new([d[k], d[k + 1], d[k + 2]]);
                ok(cat(&[es(d3(0).into_array()), es((3..7).map(|k| d[k] * T::TWO)), mil(d3(7)), mil(d3(10))]))
            }
            "step" => {
                let b = self.1.unwrap();
                let s = FreeJointState::new(SE3::from_parts(rot(&a[3..]), x3(a)), Twist::new(x3(&a[7..]), axis(a[10], a[11] as f64)));
                let n = b.stepped(s, Wrench::new(x3(&a[12..]), Vector::zeros()), T::TWO);
                let m = b.inertia().mass();
                ok(cat(&[
                    es(n.pose().translation().scale(m).into_array()),
                    cells(n.pose().rotation().to_matrix()),
                    es(n.velocity().linear().scale(m).into_array()),
                    es(n.velocity().angular().scale(T::from_f64(1.0 / Q)).into_array()),
                ]))
            }
            "spin" => {
                let b = RigidBody::new(self.1.unwrap().inertia(), Vector::zeros()).expect("HARNESS");
                let s = FreeJointState::new(SE3::from_parts(rot(a), Vector::zeros()), Twist::new(x3(&a[7..]), x3(&a[4..])));
                let n = b.stepped(s, Wrench::zeros(), T::from_f64(1.0 / 1024.0));
                let (p, l) = momenta(&b, s);
                let (p2, l2) = momenta(&b, n);
                if T::EPSILON.into() > 1e-10 { ok(vec![0, 0]) } else { ok(vec![gap(p, p2), gap(l, l2)]) }
            }
            "pack" => {
                let place: [T; 7] = std::array::from_fn(|i| t(a[i]));
                match FreeJointState::from_generalized_vectors(place, x6(&a[7..])) {
                    None => {
                        assert!(free_joint_from_state_vector(&Vector::<13, T>::from_fn(|i| t(a[i]))).is_none());
                        tag("none", vec![])
                    }
                    Some(s) => {
                        let v = state_vector_from_free_joint(s);
                        let back = free_joint_from_state_vector(&v).expect("a packed state unpacks");
                        let direct = free_joint_from_state_vector(&Vector::<13, T>::from_fn(|i| t(a[i]))).expect("unpacks");
                        let parts = |s: FreeJointState<T>| cat(&[es(s.pose().translation().into_array()), cells(s.pose().rotation().to_matrix()), at(s.velocity())]);
                        let same = parts(s) == parts(back) && parts(s) == parts(direct) && s.generalized_velocity() == s.velocity().as_array();
                        let (q, u) = (v.into_array(), s.generalized_position());
                        let listed = (0..7).all(|i| q[i] == u[i]) && (0..6).all(|i| q[7 + i] == s.generalized_velocity()[i]);
                        ok(cat(&[parts(s), vec![b(same && listed)]]))
                    }
                }
            }
            "turn" => {
                let rate = Vector::<3, T>::from_fn(|i| if i as i64 == a[4] - 1 { T::from_f64(dec(a[5], 1.0) * Q) } else { T::ZERO });
                let mut seen = vec![];
                let r = ExponentialMap::integrate_attitude(&|_, _| rate, t::<T>(5), rot(a), t(a[7]), a[6] as usize, |at, _| seen.push(e(at)));
                res(r, |r| cat(&[cells(r.to_matrix()), seen]))
            }
            "turn2" => {
                let (r, w, d) = (rot::<T>(a), axis::<T>(a[4], a[5] as f64), axis::<T>(a[4], a[6] as f64));
                ok(cat(&[
                    cells(ExponentialMap::attitude_step(r, w, T::TWO).to_matrix()),
                    cells(ExponentialMap::attitude_step_with_angular_acceleration(r, w, d, T::TWO).to_matrix()),
                ]))
            }
            _ => panic!("HARNESS {op}"),
        }
    }
}
fn cube(r: &mut Rng, k: i64) -> Vec<i64> {
    let all: [[i64; 4]; 12] = [[1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 0, 1], [0, 0, -1, 0], [1, 1, 0, 0], [1, 0, 0, -1], [1, 0, 1, 0], [0, 1, 1, 0], [1, 1, 1, 1], [-1, 1, -1, 1], [0, 1, 0, -1], [1, -1, -1, 1]];
    r.pick(&all).iter().map(|x| x * k).collect()
}
fn inertia(r: &mut Rng) -> Vec<i64> {
    let d = r.ints(3, 3, 6);
    let o = r.ints(3, -1, 1);
    let mut i = vec![d[0], o[0], o[1], o[0], d[1], o[2], o[1], o[2], d[2]];
    if r.chance(1, 12) {
        match r.int(0, 3) {
            0 => i[1] += 1,
            1 => { i[2] = 9; i[6] = 9 }
            2 => i[*r.pick(&[0, 4, 8])] = r.int(-1, 0),
            _ => i[r.below(9) as usize] = r.of(&[NAN, INF]),
        }
    }
    i
}
fn generate(r: &mut Rng, s: &mut Sess) {
    let mass = |r: &mut Rng| if r.chance(1, 15) { r.of(&[0, -1, NAN, INF]) } else { r.int(1, 4) };
    let mut have = false;
    let mut body = 0; // 1: any, 2: balanced on its origin with an axis of symmetry
    for _ in 0..r.int(4, 14) {
        match r.int(0, if body > 0 { 13 } else if have { 8 } else { 5 }) {
            0 => { let a = r.ints(12, -3, 3); s.run("cross", &a); }
            1 => { let a = r.ints(13, -3, 3); s.run("linear", &a); }
            2 => { let mut a = cube(r, 1); a.extend(r.ints(15, -3, 3)); s.run("frame", &a); }
            3 => match r.int(0, 2) {
                0 => { let k = r.int(1, 3); let mut a = r.ints(3, -3, 3); a.extend(if r.chance(1, 8) { vec![0; 4] } else { cube(r, k) }); a.extend(r.ints(6, -3, 3)); s.run("pack", &a); }
                1 => { let mut a = cube(r, 1); a.extend([r.int(1, 3), r.int(-3, 3), r.int(0, 4), r.of(&[1, 1, 2, 0, -1, NAN])]); if r.chance(1, 10) { a[5] = NAN } s.run("turn", &a); }
                _ => { let mut a = cube(r, 1); a.extend([r.int(1, 3), r.int(-1, 1), r.int(-1, 1)]); s.run("turn2", &a); }
            },
            4 | 5 => {
                let m = mass(r);
                let o = if r.chance(1, 3) {
                    let mut a = vec![m, 0, 0, 0];
                    if r.chance(1, 2) { a[1..4].copy_from_slice(&r.ints(3, -2, 2)); }
                    a.extend(r.ints(3, 1, 5));
                    if r.chance(1, 12) { a[r.below(7) as usize] = r.of(&[NAN, 0, -2]); }
                    s.run("diag", &a)
                } else {
                    let mut a = vec![m]; a.extend(r.ints(3, -2, 2)); a.extend(inertia(r)); s.run("make", &a)
                };
                if o.r == "ok" {
                    have = true;
                    s.run("show", &[]);
                }
            }
            6 => {
                let mut a = cube(r, 1); a.extend(r.ints(3, -2, 2));
                if r.chance(1, 3) { let mut a = vec![mass(r)]; a.extend(r.ints(3, -3, 3)); a.extend(inertia(r)); s.run("join", &a); }
                else { s.run(if r.chance(1, 2) { "move" } else { "unmove" }, &a); }
                s.run("show", &[]);
            }
            7 => match r.int(0, 2) { 0 => { let a = r.ints(3, -3, 3); s.run("about", &a); } 1 => { s.run("matrix", &[]); } _ => { let a = r.ints(6, -3, 3); s.run("motion", &a); } },
            8 => {
                if r.chance(1, 3) {
                    let mut a = vec![r.int(1, 4), 0, 0, 0]; a.extend(r.ints(3, 1, 5)); s.run("diag", &a);
                    let g = r.ints(3, -3, 3); s.run("body", &g); body = 2;
                } else {
                    let mut g = r.ints(3, -3, 3);
                    if r.chance(1, 10) { g[1] = NAN }
                    if s.run("body", &g).r == "ok" { body = 1 }
                }
            }
            9 | 10 => { let mut a = cube(r, 1); a.extend(r.ints(3, -2, 2)); a.extend(r.ints(6, -3, 3)); s.run("accel", &a); }
            11 => { let mut a = r.ints(3, -3, 3); let k = r.int(1, 2); a.extend(if r.chance(1, 8) { vec![0; 4] } else { cube(r, k) }); a.extend(r.ints(6, -2, 2)); a.extend(r.ints(6, -3, 3)); s.run("deriv", &a); }
            12 => if body == 2 { let mut a = r.ints(3, -3, 3); a.extend(cube(r, 1)); a.extend(r.ints(3, -3, 3)); a.extend([r.int(1, 3), r.int(-2, 2)]); a.extend(r.ints(3, -3, 3)); s.run("step", &a); }
                  else { let mut a = cube(r, 1); a.extend(r.ints(6, -2, 2)); s.run("spin", &a); },
            _ => { let mut a = cube(r, 1); a.extend(r.ints(6, -2, 2)); s.run("spin", &a); }
        }
    }
}
fn main() {
    main_with(&[Model { name: "body", make: |ty| if ty == "f32" { Box::new(D::<f32>(None, None)) } else { Box::new(D::<f64>(None, None)) }, gen: generate }]);
}
