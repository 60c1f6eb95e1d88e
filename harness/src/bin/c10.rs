use multicalc::kinematics::{CollisionQuery, CollisionSource, Joint, JointParent, KinematicTree, Primitive};
use multicalc::linear_algebra::{Vector, Vector3D};
use multicalc::spatial::{Quaternion, SE3, SO3};
use vharness::*;
const SC: [f64; 4] = [1.0, 1.0 / 1024.0, 64.0, 1.0 / 16384.0];
fn v3<T: Fl>(a: &[i64], s: f64) -> Vector3D<T> {
    Vector::new([0, 1, 2].map(|i| T::from_f64(a[i] as f64 * s)))
}
fn quat<T: Fl>(a: &[i64]) -> SO3<T> {
    let n = a.iter().map(|x| (x * x) as f64).sum::<f64>().sqrt();
    let c = |i: usize| T::from_f64(a[i] as f64 / n);
    SO3::from_quaternion(Quaternion::new(c(0), c(1), c(2), c(3)))
}
fn shape<T: Fl>(a: &[i64], s: f64) -> (Primitive<T>, SE3<T>) {
    let radius = T::from_f64(a[1] as f64 * s);
    let p = if a[0] == 0 { Primitive::Sphere { radius } } else { Primitive::Capsule { radius, half_length: T::from_f64(a[2] as f64 * s) } };
    (p, SE3::from_parts(quat(&a[3..7]), v3(&a[7..10], s)))
}
trait Q {
    fn op(&mut self, op: &str, a: &[i64]) -> Obs;
}
struct Qr<const A: usize, const N: usize, const X: usize, T: Fl>(CollisionQuery<A, N, X, T>, f64);
impl<const A: usize, const N: usize, const X: usize, T: Fl> Q for Qr<A, N, X, T> {
    fn op(&mut self, op: &str, a: &[i64]) -> Obs {
        let s = self.1;
        match op {
            "self" => {
                let (p, at) = shape(&a[1..], s);
                res(self.0.push_self_primitive(a[0] as usize, p, at), |i| vec![i as i64])
            }
            "env" => {
                let (p, at) = shape(a, s);
                res(self.0.push_environment_primitive(p, at), |i| vec![i as i64])
            }
            "excl" => res(self.0.exclude_pair(a[0] as usize, a[1] as usize), |()| vec![]),
            "counts" => ok(vec![self.0.self_primitive_count() as i64, self.0.environment_primitive_count() as i64]),
            "check" => {
                let z = v3(&[0, 0, 1], 1.0);
                let o = |q: &[i64], x: &[i64]| SE3::from_parts(quat::<T>(q), v3(x, s));
                let tree = KinematicTree::<3, 3, T>::try_from_joints(
                    &[Joint::revolute(z, SE3::identity()), Joint::prismatic(v3(&[1, 0, 0], 1.0), o(&[1, 0, 0, 0], &[1, 0, 0])), Joint::fixed(o(&[1, 1, 0, 0], &[0, 2, 1]))],
                    &[JointParent::World, JointParent::Joint(0), JointParent::Joint(0)],
                )
                .expect("HARNESS tree");
                let state = tree.forward_kinematics(&Vector::new([T::from_f64(a[0] as f64 * std::f64::consts::FRAC_PI_2), T::from_f64(a[1] as f64 * s), T::ZERO])).expect("HARNESS fk");
                res(self.0.check(&state), |r| {
                    let clear = b(r.is_clear(T::from_f64(a[2] as f64 * s / 1000.0)));
                    let c = enc_tol(r.minimum_clearance.into() / s, 1000.0, 0.5);
                    let mut v = match r.closest_pair {
                        None => vec![0, 0, 0, 0],
                        Some((CollisionSource::SelfPrimitive(i), CollisionSource::SelfPrimitive(j))) => vec![1, 0, i as i64, j as i64],
                        Some((CollisionSource::SelfPrimitive(i), CollisionSource::Environment(j))) => vec![1, 1, i as i64, j as i64],
                        Some(_) => vec![1, 2, 0, 0],
                    };
                    v.extend([c, clear]);
                    v
                })
            }
            _ => panic!("HARNESS {op}"),
        }
    }
}
struct D<T: Fl>(Option<Box<dyn Q>>, std::marker::PhantomData<T>);
impl<T: Fl> Driver for D<T> {
    fn apply(&mut self, op: &str, a: &[i64]) -> Obs {
        match op {
            "pair" => {
                let s = SC[a[0] as usize];
                let ((p, at), (q, bt)) = (shape::<T>(&a[1..11], s), shape::<T>(&a[11..21], s));
                let m = SE3::from_parts(quat(&a[21..25]), v3(&a[25..28], s));
                let e = |x: T| enc_tol(x.into() / s, 1000.0, 0.5);
                ok(vec![e(p.distance_to(at, q, bt)), e(q.distance_to(bt, p, at)), e(p.distance_to(m * at, q, m * bt))])
            }
            "new" => {
                let s = SC[a[3] as usize];
                macro_rules! sizes {
                    ($(($x:literal, $y:literal, $z:literal)),*) => {
                        match (a[0], a[1], a[2]) {
                            $(($x, $y, $z) => Box::new(Qr::<$x, $y, $z, T>(CollisionQuery::new(), s)) as Box<dyn Q>,)*
                            _ => panic!("HARNESS size"),
                        }
                    };
                }
                self.0 = Some(sizes!((0, 0, 0), (0, 0, 1), (0, 1, 0), (0, 1, 1), (2, 0, 0), (2, 0, 1), (2, 1, 0), (2, 1, 1), (4, 3, 2), (5, 0, 6)));
                self.0.as_mut().unwrap().op("counts", &[])
            }
            _ => match &mut self.0 {
                None => tag("nothing", vec![]),
                Some(q) => q.op(op, a),
            },
        }
    }
}
const QS: [([i64; 4], i64); 12] = [
    ([1, 0, 0, 0], 1), ([1, 0, 1, 0], 1), ([1, 1, 0, 0], 1), ([0, 1, 0, 0], 1), ([1, 1, 1, 1], 1), ([1, 1, 1, 0], 3), ([1, -1, 0, 1], 3), ([0, 1, 1, 1], 3), ([2, 1, 0, 0], 5), ([2, 0, -1, 0], 5), ([1, 0, 2, 0], 5), ([0, 1, 0, 2], 5),
];
fn shape_args(g: &mut Rng, wide: i64) -> Vec<i64> {
    let mut v = if g.chance(1, 3) {
        vec![0, g.int(0, 3), 0, 1, 0, 0, 0]
    } else {
        let (q, n) = *g.pick(&QS);
        let h = if g.chance(1, 12) { 0 } else if n == 1 { g.int(1, 5) } else { n };
        let mut v = vec![1, g.int(0, 2), h];
        v.extend(q);
        v
    };
    v.extend(g.ints(3, -wide, wide));
    v
}
fn generate(g: &mut Rng, s: &mut Sess) {
    if g.chance(2, 3) {
        for _ in 0..14 {
            let mut a = vec![g.int(0, 3)];
            let x = shape_args(g, 2);
            a.extend(&x);
            if g.chance(1, 8) {
                a.extend(&x); // the same shape twice
            } else {
                let w = g.of(&[1, 4, 8]);
                a.extend(shape_args(g, w));
            }
            a.extend(g.pick(&QS[..5]).0);
            a.extend(g.ints(3, -4, 4));
            s.run("pair", &a);
        }
        return;
    }
    let (x, y, z) = *g.pick(&[(4i64, 3i64, 2i64), (4, 3, 2), (5, 0, 6), (5, 0, 6), (2, 1, 1), (2, 0, 1), (0, 1, 1)]);
    s.run("new", &[x, y, z, g.int(0, 3)]);
    for _ in 0..24 {
        match g.int(0, 9) {
            0..=2 => {
                let mut a = vec![if g.chance(1, 40) { 3 } else { g.int(0, 2) }];
                a.extend(shape_args(g, 5));
                s.run("self", &a);
            }
            3 => {
                let a = shape_args(g, 6);
                s.run("env", &a);
            }
            4 => {
                let a = [g.int(0, 5), g.int(0, 5)];
                s.run("excl", &a);
            }
            5 => {
                s.run("counts", &[]);
            }
            _ => {
                s.run("check", &[g.int(-2, 3), g.int(-3, 3), g.int(-3000, 6000)]);
            }
        }
    }
}
fn main() {
    main_with(&[Model { name: "collide", make: |t| if t == "f32" { Box::new(D::<f32>(None, Default::default())) } else { Box::new(D::<f64>(None, Default::default())) }, gen: generate }]);
}
