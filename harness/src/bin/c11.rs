use multicalc::kinematics::{
    InverseKinematics, InverseKinematicsReport, InverseKinematicsTermination, Joint, JointParent, KinematicTree, MultiStartInverseKinematics, MultiStartReport, SecondaryObjective,
};
use multicalc::linear_algebra::Vector;
use multicalc::random::{RandomScalar, RandomSource};
use multicalc::spatial::{SE3, SO3};
use vharness::*;
const REV: u8 = 0;
const PRIX: u8 = 1;
const CON: u8 = 2;
const PRIY: u8 = 3;
const FLO: u8 = 4;
const ROBOTS: [&[(u8, f64)]; 7] = [
    &[(PRIX, 0.0), (PRIY, 0.0)],
    &[(PRIX, 0.0), (PRIY, 0.0), (PRIX, 0.0)],
    &[(REV, 1.0), (REV, 1.0)],
    &[(REV, 1.0), (REV, 1.0), (REV, 0.5)],
    &[(CON, 1.0), (PRIX, 0.5), (CON, 0.5)],
    &[(FLO, 1.0), (REV, 0.5)],
    &[(CON, 1.0), (CON, 1.0), (REV, 0.5), (PRIX, 0.0)],
];
type Tree<T> = KinematicTree<5, 12, T>;
struct Stuck(u32);
impl<T: RandomScalar> RandomSource<T> for Stuck {
    fn next_u32(&mut self) -> u32 {
        self.0 << 29
    }
    fn get_cache(&mut self) -> Option<T> {
        None
    }
    fn set_cache(&mut self, _: T) {}
}
fn t<T: Fl>(x: f64) -> T {
    T::from_f64(x)
}
fn h<T: Fl>(k: i64) -> T {
    t(dec(k, 100.0))
}
fn x3<T: Fl>(x: f64, y: f64, z: f64) -> Vector<3, T> {
    Vector::new([t(x), t(y), t(z)])
}
fn tree<T: Fl>(r: usize, lim: &[i64]) -> Tree<T> {
    let mut out = Tree::<T>::new();
    let mut link = 0.0;
    for (i, (k, l)) in ROBOTS[r].iter().enumerate() {
        let o = SE3::from_parts(SO3::identity(), x3(link, 0.0, 0.0));
        let mut j = match *k {
            REV => Joint::revolute(x3(0.0, 0.0, 1.0), o),
            CON => Joint::continuous(x3(0.0, 0.0, 1.0), o),
            PRIX => Joint::prismatic(x3(1.0, 0.0, 0.0), o),
            PRIY => Joint::prismatic(x3(0.0, 1.0, 0.0), o),
            _ => Joint::floating(o),
        };
        if lim.get(3 * i) == Some(&1) {
            j = j.with_limits(h(lim[3 * i + 1]), h(lim[3 * i + 2]));
        }
        out.push(j, if i == 0 { JointParent::World } else { JointParent::Joint(i - 1) }).expect("HARNESS joint");
        link = *l;
    }
    let n = ROBOTS[r].len();
    out.push(Joint::fixed(SE3::from_parts(SO3::identity(), x3(link, 0.0, 0.0))), JointParent::Joint(n - 1)).expect("HARNESS tool");
    out
}
fn nq(r: usize) -> usize {
    ROBOTS[r].len() + if ROBOTS[r][0].0 == FLO { 2 } else { 0 }
}
fn config<T: Fl>(r: usize, q: &[i64]) -> Vector<12, T> {
    let mut c = Vector::<12, T>::zeros();
    if ROBOTS[r][0].0 == FLO {
        c[0] = h(q[0]);
        c[1] = h(q[1]);
        let a: T = h::<T>(q[2]) * T::HALF;
        c[3] = a.cos();
        c[6] = a.sin();
        for i in 3..q.len() {
            c[i + 4] = h(q[i]);
        }
    } else {
        for i in 0..q.len() {
            c[i] = h(q[i]);
        }
    }
    c
}
fn q_ints<T: Fl>(r: usize, c: &Vector<12, T>) -> Vec<i64> {
    let e = |x: f64| enc_tol(x, 1e4, 0.51);
    let g = |i: usize| -> f64 { c[i].into() };
    if ROBOTS[r][0].0 == FLO {
        // out of the plane there is no heading
        let flat = g(2).abs() < 1e-3 && g(4).abs() < 1e-3 && g(5).abs() < 1e-3;
        let mut v = vec![e(g(0)), e(g(1)), if flat { e(2.0 * g(6).atan2(g(3))) } else { OFF }];
        v.extend((7..7 + ROBOTS[r].len() - 1).map(|i| e(g(i))));
        v
    } else {
        (0..ROBOTS[r].len()).map(|i| e(g(i))).collect()
    }
}
fn solver<T: Fl>(a: &[i64]) -> InverseKinematics<12, T> {
    let tol = |k: i64| if k == 0 { t(1e-6) } else { t::<T>(k as f64 * 1e-4) };
    let mut w = Vector::<12, T>::from_fn(|_| T::ONE);
    match a[7] {
        0 => {}
        1 => w = Vector::from_fn(|i| t((i + 1) as f64)),
        2 => w[0] = T::ZERO,
        _ => w[1] = t(-1.0),
    }
    let mut s = InverseKinematics::<12, T>::new()
        .with_position_tolerance(tol(a[2]))
        .with_orientation_tolerance(tol(a[3]))
        .with_maximum_iterations(a[4] as usize)
        .with_maximum_step_norm(h(a[5]))
        .with_respect_limits(a[12] == 1)
        .with_joint_weights(w)
        .with_secondary_objective(match a[8] {
            0 => SecondaryObjective::None,
            1 => SecondaryObjective::PreferredPosture(Vector::from_fn(|_| T::HALF)),
            _ => SecondaryObjective::JointLimitMargin,
        });
    match a[6] {
        0 => {}
        1 => s = s.with_minimum_step_norm(t(1e-3)),
        _ => s = s.with_minimum_step_norm(t(0.1)),
    }
    s
}
fn term(x: InverseKinematicsTermination) -> i64 {
    match x {
        InverseKinematicsTermination::Converged => 0,
        InverseKinematicsTermination::Stalled => 1,
        InverseKinematicsTermination::IterationBudget => 2,
        _ => 3,
    }
}
fn target<T: Fl>(a: &[i64]) -> SE3<T> {
    let x = h::<T>(a[2]) * T::HALF;
    let (s, c) = (x.sin(), x.cos());
    SE3::from_parts(SO3::from_quaternion(multicalc::spatial::Quaternion::new(c, T::ZERO, T::ZERO, s)), Vector::new([h(a[0]), h(a[1]), T::ZERO]))
}
/// The report speaks of the configuration it returns.
fn truthful<T: Fl>(tr: &Tree<T>, tool: usize, at: SE3<T>, rep: &InverseKinematicsReport<12, T>, tol: [T; 2]) -> bool {
    let Ok(s) = tr.forward_kinematics(&rep.joint_positions) else { return false };
    let e = (s.pose(tool).expect("HARNESS tool").inverse() * at).log();
    let n = |k: usize| -> f64 { (0..3).map(|i| -> f64 { let x: f64 = e[k + i].into(); x * x }).sum::<f64>().sqrt() };
    let (p, o) = (n(0), n(3));
    let eps = T::EPSILON.into() * 64.0;
    let (rp, ro): (f64, f64) = (rep.position_error.into(), rep.orientation_error.into());
    // half a turn away the logarithm has two answers of the same length
    (p - rp).abs() <= eps * (1.0 + p) * 8.0 && (o - ro).abs() <= eps * 8.0 && (rep.termination != InverseKinematicsTermination::Converged || (rep.position_error <= tol[0] && rep.orientation_error <= tol[1]))
}
struct D<T: Fl + RandomScalar>(std::marker::PhantomData<T>);
impl<T: Fl + RandomScalar> Driver for D<T> {
    fn apply(&mut self, op: &str, a: &[i64]) -> Obs {
        match op {
            "solve" => {
                let r = a[0] as usize;
                let n = ROBOTS[r].len();
                let lim = &a[13..13 + 3 * n];
                let tr = tree::<T>(r, lim);
                let tool = a[1] as usize;
                let at = target(&a[9..12]);
                let s = solver(a);
                let tol = |k: i64| if k == 0 { t(1e-6) } else { t::<T>(k as f64 * 1e-4) };
                res(s.solve(&tr, tool, at, &config(r, &a[13 + 3 * n..13 + 3 * n + nq(r)])), |rep| {
                    let held = (0..n).all(|i| match (tr.joint(i).unwrap().limits(), ROBOTS[r][i].0) {
                        (Some((lo, hi)), k) if k != FLO => {
                            let x = rep.joint_positions[tr.config_offset(i).unwrap()];
                            x >= lo && x <= hi
                        }
                        _ => true,
                    });
                    let e = |x: T| enc_tol(x.into(), 1e4, 0.51);
                    let mut v = vec![term(rep.termination), rep.iterations as i64, e(rep.position_error), e(rep.orientation_error)];
                    v.push(b(truthful(&tr, tool, at, &rep, [tol(a[2]), tol(a[3])])));
                    v.push(b(held));
                    v.extend(q_ints(r, &rep.joint_positions));
                    v
                })
            }
            "one" => {
                let tr = tree::<T>(1, &[]);
                let w: [f64; 3] = [[1.0, 1.0, 1.0], [1.0, 2.0, 4.0], [9.0, 1.0, 1.0]][a[0] as usize];
                let pref = config(1, &a[7..10]);
                let s = InverseKinematics::<12, T>::new()
                    .with_maximum_iterations(1)
                    .with_maximum_step_norm(t(1e6))
                    .with_maximum_damping(T::ZERO)
                    .with_joint_weights(Vector::from_fn(|i| if i < 3 { t(w[i]) } else { T::ONE }))
                    .with_secondary_gain(T::ONE)
                    .with_secondary_objective(if a[1] == 1 { SecondaryObjective::PreferredPosture(pref) } else { SecondaryObjective::None });
                res(s.solve(&tr, 3, target(&[a[2], a[3], 0]), &config(1, &a[4..7])), |rep| {
                    let mut v = vec![b(rep.termination != InverseKinematicsTermination::Converged)];
                    v.extend((0..3).map(|i| enc_tol(rep.joint_positions[i].into(), 1e4, 0.1)));
                    v
                })
            }
            "multi" => {
                let r = a[0] as usize;
                let n = ROBOTS[r].len();
                let tr = tree::<T>(r, &[]);
                let at = target(&a[4..7]);
                let m = a[7] as usize;
                let seeds: Vec<Vector<12, T>> = (0..m).map(|i| config(r, &a[8 + i * n..8 + (i + 1) * n])).collect();
                let s = InverseKinematics::<12, T>::new().with_position_tolerance(t(1e-4)).with_orientation_tolerance(t(1e-4));
                let multi = MultiStartInverseKinematics::<4, 12, T>::new().with_solver(s).with_distinct_threshold(h(a[2]));
                let rep: MultiStartReport<4, 12, T> = match multi.solve_from_seeds(&tr, a[1] as usize, at, &seeds) {
                    Ok(x) => x,
                    Err(e) => return err(e),
                };
                let mut v = vec![rep.attempts() as i64, rep.len() as i64];
                if rep.is_empty() != (rep.len() == 0) || rep.solutions().len() != rep.len() {
                    return tag("length disagrees", v);
                }
                let near = rep.closest_to(&tr, &Vector::zeros());
                v.push(near.map_or(-1, |x| rep.solutions().iter().position(|y| y.joint_positions == x.joint_positions).map_or(-2, |i| i as i64)));
                for q in &seeds {
                    let one = s.solve(&tr, a[1] as usize, at, q).expect("HARNESS solve");
                    v.push(term(one.termination));
                    v.extend(q_ints(r, &one.joint_positions));
                }
                for x in rep.solutions() {
                    if x.termination != InverseKinematicsTermination::Converged || !truthful(&tr, a[1] as usize, at, x, [t(1e-4), t(1e-4)]) {
                        return tag("kept solution is not one", v);
                    }
                    v.extend(q_ints(r, &x.joint_positions));
                }
                ok(v)
            }
            "jitter" => {
                let r = a[0] as usize;
                let n = ROBOTS[r].len();
                let lim = &a[6..6 + 3 * n];
                let tr = tree::<T>(r, lim);
                let s = InverseKinematics::<12, T>::new().with_position_tolerance(t(1e9)).with_orientation_tolerance(t(1e9)).with_respect_limits(a[5] == 1);
                let multi = MultiStartInverseKinematics::<4, 12, T>::new().with_solver(s).with_distinct_threshold(T::ZERO).with_jitter_span(h(a[2]));
                let base = config(r, &a[6 + 3 * n..6 + 3 * n + nq(r)]);
                res(multi.solve_seeded(&tr, n, target(&[0, 0, 0]), &base, &mut Stuck(a[3] as u32), a[1] as usize), |rep| {
                    let mut v = vec![rep.attempts() as i64, rep.len() as i64];
                    for x in rep.solutions() {
                        v.extend(q_ints(r, &x.joint_positions));
                    }
                    v
                })
            }
            _ => panic!("HARNESS {op}"),
        }
    }
}
fn limits(g: &mut Rng, r: usize) -> Vec<i64> {
    ROBOTS[r]
        .iter()
        .flat_map(|(k, _)| {
            if *k == CON || *k == FLO || g.chance(1, 2) {
                [0, 0, 0]
            } else {
                let lo = g.int(-200, 100);
                [1, lo, lo + 40 * g.int(0, 7)]
            }
        })
        .collect()
}
fn tgt(g: &mut Rng, r: usize) -> Vec<i64> {
    let th = if r < 2 && g.chance(9, 10) { 0 } else { g.int(-300, 300) };
    let w = g.of(&[100, 200, 200, 400]);
    vec![g.int(-w, w), g.int(-w, w), th]
}
fn generate(g: &mut Rng, s: &mut Sess) {
    for _ in 0..8 {
        match g.int(0, 9) {
            0..=5 => {
                let r = g.int(0, 6) as usize;
                let n = ROBOTS[r].len() as i64;
                let tool = if r < 2 { n } else { g.of(&[n, n, n, n - 1]) };
                let mut a = vec![r as i64, tool, g.of(&[0, 10, 10, 100, 2000]), g.of(&[0, 10, 10, 100, 2000]), g.of(&[0, 1, 2, 3, 5, 20, 60, 100]), g.of(&[5, 20, 30, 100, 100000]), g.of(&[0, 0, 0, 0, 1, 2]), g.of(&[0, 0, 0, 1]), g.int(0, 2)];
                let th = tgt(g, r);
                a.extend(th);
                a.push(g.of(&[0, 1, 1]));
                a.extend(limits(g, r));
                a.extend(g.ints(nq(r), -150, 150));
                if g.chance(1, 15) {
                    match g.int(0, 2) {
                        0 => a[1] = n + g.int(1, 9),
                        1 => {
                            let k = g.of(&[9, 10, 11, a.len() as i64 - 1]) as usize;
                            a[k] = g.of(&[NAN, INF, NINF]);
                        }
                        _ => a[7] = g.int(2, 3),
                    }
                }
                s.run("solve", &a);
            }
            6 => {
                let mut a = vec![g.int(0, 2), g.int(0, 1), 10 * g.int(-30, 30), 10 * g.int(-30, 30)];
                a.extend(g.ints(6, -20, 20).iter().map(|x| 10 * x));
                s.run("one", &a);
            }
            7 => {
                let r = g.of(&[1, 2, 3, 3, 4, 4, 6]) as usize;
                let m = g.int(0, 5);
                let mut a = vec![r as i64, ROBOTS[r].len() as i64, g.of(&[0, 2, 10, 100]), 4];
                let th = tgt(g, r);
                a.extend(th);
                a.push(m);
                for _ in 0..m {
                    a.extend(g.ints(ROBOTS[r].len(), -200, 200));
                }
                s.run("multi", &a);
            }
            _ => {
                let r = g.int(0, 6) as usize;
                let mut a = vec![r as i64, g.int(0, 5), 40 * g.int(0, 6), g.int(0, 7), 4, g.int(0, 1)];
                a.extend(limits(g, r));
                a.extend(g.ints(nq(r), -150, 150));
                s.run("jitter", &a);
            }
        }
    }
}
fn main() {
    main_with(&[Model { name: "ik", make: |t| if t == "f32" { Box::new(D::<f32>(Default::default())) } else { Box::new(D::<f64>(Default::default())) }, gen: generate }]);
}
