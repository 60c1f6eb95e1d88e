use multicalc::mapping::{DynamicOccupancyGrid, MutableOccupancyMap, OccupancyMap};
use vharness::*;
const U: f64 = 8.0;
const RES: [f64; 8] = [0.0, 0.5, 0.25, 4.0, 0.1, 0.05, 0.3, 0.125];
fn t<T: Fl>(x: f64) -> T {
    T::from_f64(x)
}
fn idx(k: i64) -> usize {
    if k < 0 { usize::MAX } else { k as usize }
}
struct Void(usize, usize);
impl OccupancyMap<f64> for Void {
    fn columns(&self) -> usize {
        self.0
    }
    fn rows(&self) -> usize {
        self.1
    }
    fn resolution(&self) -> f64 {
        1.0
    }
    fn origin(&self) -> [f64; 2] {
        [0.0, 0.0]
    }
    fn is_occupied(&self, _: usize, _: usize) -> bool {
        true
    }
}
struct D<T: Fl + multicalc::Primal>(Option<DynamicOccupancyGrid<T>>, f64, [f64; 2]);
impl<T: Fl + multicalc::Primal> D<T> {
    fn at(&self, x: i64, y: i64) -> [T; 2] {
        let one = |k: i64, o: f64| -> T { if k.abs() > 1_000_000_000 { t(dec(k, 1.0)) } else { t(o + self.1 * (k as f64) / U) } };
        [one(x, self.2[0]), one(y, self.2[1])]
    }
    fn blocked(&self) -> Obs {
        let m = self.0.as_ref().unwrap();
        let mut v = vec![];
        for r in 0..m.rows() {
            for c in 0..m.columns() {
                if m.is_occupied(r, c) {
                    v.push((r * m.columns() + c) as i64);
                }
            }
        }
        ok(v)
    }
}
impl<T: Fl + multicalc::Primal> Driver for D<T> {
    fn apply(&mut self, op: &str, a: &[i64]) -> Obs {
        match op {
            "new" => {
                self.0 = None;
                let res_ = if a[2] > 0 && a[2] < 8 { RES[a[2] as usize] } else { dec(a[2], 1.0) };
                let o: Vec<f64> = (3..5).map(|i| if a[i].abs() > 1_000_000_000 { dec(a[i], 1.0) } else { a[i] as f64 * res_ / 2.0 }).collect();
                self.1 = res_;
                self.2 = [o[0], o[1]];
                res(DynamicOccupancyGrid::<T>::try_new(idx(a[0]), idx(a[1]), t(res_), [t(o[0]), t(o[1])]), |m| {
                    let g: [f64; 3] = [m.resolution().into(), m.origin()[0].into(), m.origin()[1].into()];
                    let rc = (1..8).find(|i| t::<T>(RES[*i]).into() == g[0]).map_or(OFF, |i| i as i64);
                    let v = vec![m.columns() as i64, m.rows() as i64, rc, enc_tol(g[1] / res_, 2.0, 1e-4), enc_tol(g[2] / res_, 2.0, 1e-4)];
                    self.0 = Some(m);
                    v
                })
            }
            "void" => match Void(idx(a[0]), idx(a[1])).cast_ray([0.5, 0.5], 0.0, 10.0) {
                None => tag("none", vec![]),
                Some(_) => ok(vec![]),
            },
            "rim" => {
                let n = a[0];
                let side = (2 * n + 4) as usize;
                let mut m = DynamicOccupancyGrid::<T>::try_new(side, side, t(1.0), [t(0.0), t(0.0)]).unwrap();
                let c = n as f64 + 2.25;
                m.occupy_circle([t(c), t(c)], t(n as f64));
                // breaks: points of the rim with no blocked cell within one of them
                let k = 16 * n;
                let mut breaks = 0;
                for i in 0..k {
                    let th = (i as f64 + 0.37) * std::f64::consts::TAU / k as f64;
                    let (col, row) = ((c + n as f64 * th.cos()).floor() as usize, (c + n as f64 * th.sin()).floor() as usize);
                    let mut seen = false;
                    for dr in 0..3 {
                        for dc in 0..3 {
                            seen |= m.is_occupied((row + dr).wrapping_sub(1), (col + dc).wrapping_sub(1));
                        }
                    }
                    breaks += i64::from(!seen);
                }
                ok(vec![breaks.min(1)])
            }
            _ => {
                if self.0.is_none() {
                    return tag("nothing", vec![]);
                }
                let (pts, s) = ((0..a.len().saturating_sub(1) / 2).map(|i| self.at(a[1 + 2 * i], a[2 + 2 * i])).collect::<Vec<_>>(), self.1);
                let p = if a.len() > 1 { self.at(a[0], a[1]) } else { [t(0.0), t(0.0)] };
                let m = self.0.as_mut().unwrap();
                match op {
                    "set" => m.set_cell(idx(a[0]), idx(a[1]), a[2] == 1),
                    "clear" => m.clear(),
                    "point" => m.occupy_point(p),
                    "poly" => m.occupy_polyline(&pts, a[0] == 1),
                    "circle" => m.occupy_circle(p, t(a[2] as f64 * s / U)),
                    "get" => return ok(vec![b(m.is_occupied(idx(a[0]), idx(a[1])))]),
                    "cellof" => {
                        return match m.cell_of(p) {
                            None => tag("none", vec![]),
                            Some((r, c)) => ok(vec![r as i64, c as i64]),
                        }
                    }
                    "ray" => {
                        // exact quarter-turn bearing only along x; the others carry the rounding of the angle
                        let th = if a[3] == 0 && a[2] > 0 { 0.0 } else { (a[3] as f64).atan2(a[2] as f64) };
                        let far: f64 = dec(a[4], 1.0);
                        let r = m.cast_ray(p, t(th), t(if far.is_finite() { far * s / U } else { far }));
                        return match r {
                            None => tag("none", vec![]),
                            Some(d) => {
                                let d: f64 = d.into();
                                ok(vec![if d.is_nan() { NAN } else { (d / s * U * 1000.0).round() as i64 }])
                            }
                        };
                    }
                    _ => panic!("HARNESS {op}"),
                }
                self.blocked()
            }
        }
    }
}
const DIR: [[i64; 2]; 20] = [
    [1, 0], [1, 0], [0, 1], [-1, 0], [0, -1], [3, 4], [-4, 3], [1, 1], [-1, 1], [1, -1], [5, -12], [2, 1], [-1, -3], [15, 8], [7, -1], [-1, 7], [13, 1], [-5, -2], [1, 12], [-3, -7],
];
fn generate(g: &mut Rng, s: &mut Sess) {
    let (c, r) = (g.int(1, 11), g.int(1, 11));
    let kind = g.of(&[1, 2, 3, 7, 4, 5, 6]);
    let dy = kind < 4;
    s.run("new", &[c, r, kind, g.int(-40, 40), g.int(-40, 40)]);
    if g.chance(1, 60) {
        let n = g.of(&[2, 7, 40, 333, 900]);
        s.run("rim", &[n]);
    }
    // points off the cell edges where the resolution is not binary
    let pt = |g: &mut Rng, n: i64, out: i64| -> i64 {
        let x = g.int(-out, n * 8 + out);
        if dy { x } else { x | 1 }
    };
    for _ in 0..g.int(2, 6) {
        for _ in 0..g.int(0, 5) {
            match g.int(0, 9) {
                0..=4 => {
                    let a = [g.int(-1, r), g.int(-1, c), i64::from(!g.chance(1, 4))];
                    s.run("set", &a);
                }
                5 => {
                    s.run("point", &[pt(g, c, 9), pt(g, r, 9)]);
                    if g.chance(1, 3) {
                        s.run("point", &[g.of(&[NAN, INF, NINF, 1]), g.of(&[NAN, INF, NINF])]);
                    }
                }
                6 | 7 => {
                    let mut a = vec![g.int(0, 1)];
                    for _ in 0..g.int(0, 4) {
                        a.push(pt(g, c, 9));
                        a.push(pt(g, r, 9));
                    }
                    // the lengths of the edges are kept within the specification's arithmetic
                    s.run("poly", &a);
                }
                8 => {
                    let d = g.int(0, 44);
                    s.run("circle", &[pt(g, c, 0), pt(g, r, 0), d]);
                }
                _ => {
                    if g.chance(1, 4) {
                        s.run("clear", &[]);
                    }
                }
            }
        }
        for _ in 0..g.int(1, 6) {
            let d = *g.pick(&DIR);
            let m = g.of(&[INF, INF, g.clone().int(0, 120), -2]);
            let mut a = [pt(g, c, 20), pt(g, r, 20), d[0], d[1], m];
            if !dy && m != INF && d[1] == 0 && d[0] > 0 {
                a[4] = INF;
            }
            s.run("ray", &a);
            s.run("get", &[g.int(-1, r), g.int(-1, c)]);
            s.run("cellof", &[pt(g, c, 9), pt(g, r, 9)]);
        }
    }
}
fn main() {
    main_with(&[Model {
        name: "grid",
        make: |t| if t == "f32" { Box::new(D::<f32>(None, 0.0, [0.0; 2])) } else { Box::new(D::<f64>(None, 0.0, [0.0; 2])) },
        gen: generate,
    }]);
}
