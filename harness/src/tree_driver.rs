use multicalc::kinematics::{JacobianFrame, Joint, JointKind, JointParent, KinematicTree, KinematicTreeState};
use multicalc::linear_algebra::{Vector, Vector3D};
use multicalc::spatial::{Quaternion, SE3, SO3};
use vharness::*;

const UNIT: f64 = std::f64::consts::PI / 6.0;
fn t<T: Fl>(x: f64) -> T {
    T::from_f64(x)
}
fn v3<T: Fl>(a: &[i64]) -> Vector3D<T> {
    Vector::new([t(dec(a[0], 1.0)), t(dec(a[1], 1.0)), t(dec(a[2], 1.0))])
}
fn quat<T: Fl>(a: &[i64]) -> SO3<T> {
    let n = a.iter().map(|x| (*x as f64) * (*x as f64)).sum::<f64>().sqrt();
    let c = |i: usize| t::<T>(if a[i].abs() > 1_000_000_000 { dec(a[i], 1.0) } else { a[i] as f64 / n });
    SO3::from_quaternion(Quaternion::new(c(0), c(1), c(2), c(3)))
}
fn pose_ints<T: Fl>(p: SE3<T>) -> Vec<i64> {
    let m = p.rotation().to_matrix();
    let mut v: Vec<i64> = (0..9).map(|i| enc_tol(m[(i / 3, i % 3)].into(), 1.0, 2e-3)).collect();
    v.extend((0..3).map(|i| enc_tol(p.translation()[i].into(), 1.0, 4e-3)));
    v
}
trait TreeOps {
    fn op(&mut self, op: &str, a: &[i64]) -> Obs;
}
struct Tr<const NJ: usize, const NC: usize, T: Fl> {
    tree: KinematicTree<NJ, NC, T>,
    saved: Option<KinematicTreeState<NJ, T>>,
    /// axis as given and kind of every joint
    raw: Vec<(i64, f64)>,
}
impl<const NJ: usize, const NC: usize, T: Fl> Tr<NJ, NC, T> {
    fn floating(&self) -> bool {
        self.raw.first().is_some_and(|x| x.0 == 4)
    }
    /// Which joint a configuration slot belongs to and whether it reads in twelfths of a turn.
    fn config(&self, a: &[i64]) -> Vector<NC, T> {
        Vector::from_fn(|i| {
            let k = a[i];
            let lead = if self.floating() { 7 } else { 0 };
            let j = if self.floating() { (i + 1).saturating_sub(lead) } else { i };
            let turning = (i >= lead) && self.raw.get(j).is_some_and(|x| x.0 == 0 || x.0 == 2);
            if k.abs() > 1_000_000_000 { t(dec(k, 1.0)) } else if turning { t(k as f64 * UNIT) } else { t(k as f64) }
        })
    }
    /// Length of the given axis behind a velocity slot.
    fn scale(&self, slot: usize) -> f64 {
        let lead = if self.floating() { 6 } else { 0 };
        if slot < lead {
            return 1.0;
        }
        let j = if self.floating() { slot - 5 } else { slot };
        match self.raw.get(j) {
            Some((k, n)) if *k < 3 => *n,
            _ => 1.0,
        }
    }
    fn frame(k: i64) -> JacobianFrame {
        if k == 1 { JacobianFrame::Body } else { JacobianFrame::World }
    }
    fn jac_ints(&self, j: multicalc::kinematics::KinematicJacobian<NC, T>) -> Vec<i64> {
        let n = j.columns();
        let mut v = vec![n as i64, b(j.frame() == JacobianFrame::Body)];
        let m = j.matrix();
        for c in 0..n {
            let col = j.column(c).unwrap();
            let rows: [T; 6] = std::array::from_fn(|r| if r < 3 { col.linear()[r] } else { col.angular()[r - 3] });
            for (r, x) in rows.iter().enumerate() {
                assert!(m[(r, c)] == *x, "column and matrix disagree");
                let y: f64 = (*x).into();
                v.push(enc_tol(y * self.scale(c), 1.0, 2e-2));
            }
        }
        assert!(j.column(n).is_none() && j.is_empty() == (n == 0));
        for c in n..NC {
            for r in 0..6 {
                if m[(r, c)].into() != 0.0 {
                    v.push(OFF);
                }
            }
        }
        v
    }
}
impl<const NJ: usize, const NC: usize, T: Fl> TreeOps for Tr<NJ, NC, T> {
    fn op(&mut self, op: &str, a: &[i64]) -> Obs {
        match op {
            "push" => {
                let o = SE3::from_parts(quat(&a[7..11]), v3(&a[11..14]));
                let ax = v3(&a[1..4]);
                let turning = a[0] == 0 || a[0] == 2;
                let u = |k: i64| -> T { if k.abs() > 1_000_000_000 { t(dec(k, 1.0)) } else if turning { t(k as f64 * UNIT) } else { t(k as f64) } };
                let mut j = match a[0] {
                    0 => Joint::revolute(ax, o),
                    1 => Joint::prismatic(ax, o),
                    2 => Joint::continuous(ax, o),
                    3 => Joint::fixed(o),
                    _ => Joint::floating(o),
                };
                j = j.with_anchor(v3(&a[4..7])).with_zero_offset(u(a[14])).with_armature(t(dec(a[18], 1.0))).with_damping(t(dec(a[19], 1.0))).with_friction_loss(t(dec(a[20], 1.0)));
                if a[15] == 1 {
                    j = j.with_limits(u(a[16]), u(a[17]));
                }
                let p = if a[21] < 0 { JointParent::World } else { JointParent::Joint(a[21] as usize) };
                // one at a time and the whole list at once must agree
                let before = self.tree;
                let r = self.tree.push(j, p);
                let mut js: Vec<Joint<T>> = (0..before.len()).map(|i| before.joint(i).unwrap()).collect();
                let mut ps: Vec<JointParent> = (0..before.len()).map(|i| before.parent(i).unwrap()).collect();
                js.push(j);
                ps.push(p);
                let whole = KinematicTree::<NJ, NC, T>::try_from_joints(&js, &ps);
                match (&r, &whole) {
                    (Ok(()), Ok(w)) if w.len() == self.tree.len() => {}
                    (Err(e), Err(f)) if format!("{e:?}") == format!("{f:?}") => {}
                    _ => return tag("list and single append disagree", vec![]),
                }
                if r.is_err() && self.tree != before && before == before {
                    return tag("rejected append changed the tree", vec![]);
                }
                res(r, |()| {
                    let n = ((a[1] * a[1] + a[2] * a[2] + a[3] * a[3]) as f64).sqrt();
                    self.raw.push((a[0], n));
                    vec![self.tree.len() as i64]
                })
            }
            "layout" => {
                let x = &self.tree;
                let mut v = vec![x.len() as i64, b(x.is_empty()), x.config_len() as i64, x.velocity_len() as i64, b(x.has_floating_base())];
                for i in 0..=x.len() {
                    v.push(x.config_offset(i).map_or(-1, |k| k as i64));
                    v.push(x.velocity_offset(i).map_or(-1, |k| k as i64));
                }
                ok(v)
            }
            "joint" => match (self.tree.joint(a[0] as usize), self.tree.parent(a[0] as usize)) {
                (None, None) => tag("none", vec![]),
                (Some(j), Some(p)) => {
                    let (k, n) = self.raw[a[0] as usize];
                    let kind = match j.kind() {
                        JointKind::Revolute => 0,
                        JointKind::Prismatic => 1,
                        JointKind::Continuous => 2,
                        JointKind::Fixed => 3,
                        JointKind::Floating => 4,
                    };
                    let u = if k == 0 || k == 2 { UNIT } else { 1.0 };
                    let mut v = vec![kind];
                    v.extend((0..3).map(|i| if k > 2 { 0 } else { let y: f64 = j.axis()[i].into(); enc_tol(y * n, 1.0, 1e-3) }));
                    v.extend((0..3).map(|i| enc(j.anchor()[i].into(), 1.0)));
                    v.extend(pose_ints(j.origin()));
                    v.push(enc_tol(j.zero_offset().into() / u, 1.0, 1e-3));
                    match j.limits() {
                        None => v.extend([0, 0, 0]),
                        Some((l, h)) => v.extend([1, enc_tol(l.into() / u, 1.0, 1e-3), enc_tol(h.into() / u, 1.0, 1e-3)]),
                    }
                    v.extend([enc(j.armature().into(), 1.0), enc(j.damping().into(), 1.0), enc(j.friction_loss().into(), 1.0)]);
                    v.push(match p {
                        JointParent::World => -1,
                        JointParent::Joint(i) => i as i64,
                    });
                    ok(v)
                }
                _ => tag("joint and parent disagree", vec![]),
            },
            "fk" => {
                let c = self.config(a);
                res(self.tree.forward_kinematics(&c), |s| {
                    assert!(s.len() == self.tree.len() && s.poses().len() == s.len() && s.pose(s.len()).is_none() && s.is_empty() == (s.len() == 0));
                    let v = (0..s.len()).flat_map(|i| pose_ints(s.pose(i).unwrap())).collect();
                    self.saved = Some(s);
                    v
                })
            }
            "jac" => {
                let c = self.config(&a[2..]);
                res(self.tree.geometric_jacobian_at(&c, a[1] as usize, Self::frame(a[0])), |j| self.jac_ints(j))
            }
            "jacs" | "twist" | "pinv" => {
                let Some(s) = self.saved else { return tag("unsaved", vec![]) };
                let j = self.tree.geometric_jacobian(&s, a[1] as usize, Self::frame(a[0]));
                if op == "jacs" {
                    return res(j, |j| self.jac_ints(j));
                }
                let Ok(j) = j else { return tag("unsaved", vec![]) };
                if op == "twist" {
                    let q = Vector::<NC, T>::from_fn(|i| if i < j.columns() { t(a[2 + i] as f64 * self.scale(i)) } else { t(7.0) });
                    let w = j.tool_twist(&q);
                    return ok((0..6).map(|r| enc_tol(if r < 3 { w.linear()[r] } else { w.angular()[r - 3] }.into(), 1.0, 3e-2)).collect());
                }
                let n = j.columns();
                let wts = Vector::<NC, T>::from_fn(|i| if i >= n { t(1.0) } else if a[3 + i] == 0 { t(0.0) } else { t(4.0 / a[3 + i] as f64) });
                let d = t::<T>(a[2] as f64);
                let x = j.damped_pseudo_inverse(&wts, d);
                let p = j.null_space_projector(&wts, d);
                match (x, p) {
                    (Ok(x), Ok(p)) => {
                        let k = 20000.0;
                        let rd = |y: T| { let y: f64 = y.into(); enc_tol(y, k, 0.5) };
                        let mut v: Vec<i64> = (0..n).flat_map(|i| (0..6).map(move |r| (i, r))).map(|(i, r)| rd(x[(i, r)])).collect();
                        v.extend((0..n).flat_map(|i| (0..n).map(move |r| (i, r))).map(|(i, r)| rd(p[(i, r)])));
                        ok(v)
                    }
                    (Err(e), Err(_)) => err(e),
                    _ => tag("inverse and projector disagree", vec![]),
                }
            }
            "dist" => {
                let (c, d) = (self.config(&a[..NC]), self.config(&a[NC..2 * NC]));
                let x: f64 = self.tree.configuration_distance(&c, &d).into();
                let y: f64 = self.tree.configuration_distance(&d, &c).into();
                if (x - y).abs() > 1e-4 {
                    return tag("not symmetric", vec![]);
                }
                ok(vec![enc_tol(x, 1000.0, 0.5)])
            }
            _ => panic!("HARNESS {op}"),
        }
    }
}
struct D<T: Fl>(Option<Box<dyn TreeOps>>, std::marker::PhantomData<T>);
fn fresh<const NJ: usize, const NC: usize, T: Fl>() -> Box<dyn TreeOps> {
    assert!(KinematicTree::<NJ, NC, T>::CAPACITY == NJ && KinematicTree::<NJ, NC, T>::default() == KinematicTree::new());
    Box::new(Tr::<NJ, NC, T> { tree: KinematicTree::new(), saved: None, raw: vec![] })
}
impl<T: Fl> Driver for D<T> {
    fn apply(&mut self, op: &str, a: &[i64]) -> Obs {
        match op {
            "new" => {
                self.0 = Some(match (a[0], a[1]) {
                    (3, 3) => fresh::<3, 3, T>(),
                    (2, 4) => fresh::<2, 4, T>(),
                    (4, 10) => fresh::<4, 10, T>(),
                    (3, 6) => fresh::<3, 6, T>(),
                    (6, 12) => fresh::<6, 12, T>(),
                    (5, 9) => fresh::<5, 9, T>(),
                    (7, 7) => fresh::<7, 7, T>(),
                    _ => panic!("HARNESS size"),
                });
                ok(vec![a[0]])
            }
            "joints" => {
                let j = vec![Joint::<T>::default(); a[0] as usize];
                let p = vec![JointParent::World; a[1] as usize];
                res(KinematicTree::<4, 10, T>::try_from_joints(&j, &p), |_| vec![])
            }
            _ => match &mut self.0 {
                None => tag("nothing", vec![]),
                Some(x) => x.op(op, a),
            },
        }
    }
}
const CUBE: [[i64; 4]; 16] = [
    [1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 1, 0], [0, 0, 0, 1], [1, 1, 0, 0], [1, -1, 0, 0], [1, 0, 1, 0], [1, 0, 0, 1], [1, 0, 0, -1], [0, 1, 1, 0], [0, 1, 0, -1], [0, 0, 1, 1], [1, 1, 1, 1], [1, -1, 1, -1], [-1, 1, 1, -1], [1, -1, -1, -1],
];
fn generate(g: &mut Rng, s: &mut Sess) {
    let (mj, mc) = *g.pick(&[(3i64, 3i64), (4, 10), (3, 6), (6, 12), (6, 12), (5, 9), (7, 7)]);
    s.run("new", &[mj, mc]);
    if g.chance(1, 30) {
        let (x, y) = (g.int(0, 3), g.int(0, 3));
        if x != y {
            s.run("joints", &[x, y]);
        }
    }
    // (kind, multiple of the reading)
    let mut js: Vec<(i64, i64)> = vec![];
    let unit_axes = g.chance(1, 2);
    let floating = g.chance(1, 2);
    let mut turned = 0; // non-orthogonal axes make matrices that are not whole further down
    for step in 0..mj + 2 {
        let kind = if step == 0 && floating { 4 } else { g.of(&[0, 0, 1, 1, 2, 2, 3, 4]) };
        let (ax, m) = match g.int(0, 9) {
            0 if !unit_axes && kind != 1 => ([1, g.of(&[-1, 1]), g.of(&[-1, 1])], 4),
            1 if !unit_axes && kind != 1 => ([2, 2, -2], 4),
            2 if !unit_axes && kind == 1 => ([0, 3, -4], 5),
            3 if !unit_axes && kind == 1 => ([2, -1, 2], 3),
            4 if !unit_axes && kind != 1 => ([0, 1, g.of(&[1, -1])], 6),
            _ => {
                let mut x = [0, 0, 0];
                x[g.below(3) as usize] = if unit_axes { g.of(&[-1, 1]) } else { g.of(&[-3, -1, 1, 2]) };
                (x, if kind == 1 { 1 } else { 3 })
            }
        };
        turned += 1;
        let _ = turned;
        let q = *g.pick(&CUBE);
        let par = if js.is_empty() { -1 } else { g.int(-1, js.len() as i64 - 1) };
        let mut a = vec![kind, ax[0], ax[1], ax[2]];
        a.extend(if g.chance(1, 2) { vec![0, 0, 0] } else { g.ints(3, -2, 2) });
        a.extend(q);
        a.extend(g.ints(3, -3, 3));
        a.push(if g.chance(1, 3) { m * g.int(-2, 2) } else { 0 });
        if kind != 2 && g.chance(1, 3) {
            let l = g.int(-4, 4);
            a.extend([1, l, l + g.int(0, 5)]);
        } else {
            a.extend([0, 0, 0]);
        }
        a.extend(g.ints(3, 0, 3));
        a.push(par);
        if g.chance(1, 6) {
            // break a rule or two
            for _ in 0..g.int(1, 2) {
                match g.int(0, 4) {
                    0 => a[21] = js.len() as i64 + g.int(0, 2),
                    1 => a[g.of(&[1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 18, 19, 20]) as usize] = g.of(&[NAN, INF, NINF]),
                    2 => {
                        a[15] = 1;
                        a[16] = 3;
                        a[17] = g.of(&[2, 3, 5, NAN]);
                    }
                    3 => {
                        a[1] = 0;
                        a[2] = 0;
                        a[3] = 0;
                    }
                    _ => {
                        a[0] = 4;
                    }
                }
            }
        }
        let r = s.run("push", &a);
        if r.r == "ok" {
            js.push((a[0], m));
        }
        if g.chance(1, 3) {
            looks(g, s, &js, mc);
        }
    }
    for _ in 0..3 {
        looks(g, s, &js, mc);
    }
    s.run("layout", &[]);
    let i = g.int(0, js.len() as i64);
    s.run("joint", &[i]);
}
fn reading(g: &mut Rng, js: &[(i64, i64)], mc: i64) -> Vec<i64> {
    let mut c = vec![];
    for (i, (k, m)) in js.iter().enumerate() {
        if i == 0 && *k == 4 {
            c.extend(g.ints(3, -4, 4));
            let q = *g.pick(&CUBE);
            let n = g.of(&[1, 1, 2, -3]);
            c.extend(q.iter().map(|x| x * n));
        } else {
            c.push(m * g.int(-3, 3));
        }
    }
    while c.len() < mc as usize {
        c.push(g.of(&[0, 1, NAN]));
    }
    c
}
fn looks(g: &mut Rng, s: &mut Sess, js: &[(i64, i64)], mc: i64) {
    let tools = js.len() as i64;
    let mut c = reading(g, js, mc);
    if g.chance(1, 12) {
        c[g.below(mc as u64) as usize] = g.of(&[NAN, INF, NINF]);
    }
    if g.chance(1, 20) && js.first().is_some_and(|x| x.0 == 4) {
        c[3..7].fill(0);
    }
    s.run("fk", &c);
    let f = g.int(0, 1);
    let tool = if g.chance(1, 15) { tools } else { g.int(0, (tools - 1).max(0)) };
    match g.int(0, 3) {
        0 => {
            let mut a = vec![f, tool];
            a.extend(reading(g, js, mc));
            s.run("jac", &a);
        }
        1 => {
            s.run("jacs", &[f, tool]);
        }
        2 => {
            let mut a = vec![f, tool];
            a.extend(g.ints(mc as usize, -3, 3));
            s.run("twist", &a);
        }
        _ => {
            if s.ty == "f64" && js.iter().all(|j| j.1 == 3 || (j.0 == 1 && j.1 == 1)) && s.ev.iter().filter(|e| e.op == "push").all(|e| e.a[1].abs() + e.a[2].abs() + e.a[3].abs() <= 1) {
                let mut a = vec![f, tool, g.int(1, 3)];
                a.extend((0..mc).map(|_| g.of(&[1, 2, 4])));
                if g.chance(1, 10) {
                    a[3 + g.below(mc as u64) as usize] = -4;
                }
                s.run("pinv", &a);
            }
        }
    }
    let mut a = reading(g, js, mc);
    if g.chance(1, 4) {
        // whole turns apart
        let mut d = a.clone();
        for (i, x) in d.iter_mut().enumerate() {
            if i >= 7 || js.first().is_none_or(|j| j.0 != 4) {
                if x.abs() < 1000 { *x += 12 * g.int(-2, 2) }
            }
        }
        a.extend(d);
    } else {
        let d = reading(g, js, mc);
        a.extend(d);
    }
    s.run("dist", &a);
}
pub fn tree_model() -> Model {
    Model {
        name: "tree",
        make: |t| if t == "f32" { Box::new(D::<f32>(None, Default::default())) } else { Box::new(D::<f64>(None, Default::default())) },
        gen: generate,
    }
}
