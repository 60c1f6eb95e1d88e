use multicalc::Polynomial;
use vharness::*;
#[derive(Clone)]
struct D {
    p: Polynomial<8>,
}
macro_rules! sized {
    ($n:expr, $N:ident in [$($k:literal)+] => $e:expr) => {
        match $n { $($k => { const $N: usize = $k; $e })+ _ => panic!("HARNESS size {}", $n) }
    };
}
fn micro(x: f64) -> i64 {
    enc_tol(x, 1e6, 0.51)
}
fn end(k: i64) -> f64 {
    dec(k, 8.0)
}
fn times(p: &[i64], q: &[i64]) -> Vec<i64> {
    let mut r = vec![0; p.len() + q.len() - 1];
    for i in 0..p.len() {
        for j in 0..q.len() {
            r[i + j] += p[i] * q[j];
        }
    }
    r
}
fn list<const N: usize>(r: &multicalc::polynomial::RealRoots<N, f64>) -> Vec<i64> {
    assert!(r.len() == r.as_slice().len() && r.is_empty() == (r.len() == 0));
    r.as_slice().iter().map(|x| micro(*x)).collect()
}
impl D {
    fn done(&mut self, p: Polynomial<8>) -> Obs {
        self.p = p;
        ok(vec![p.degree().map_or(-1, |d| d as i64)])
    }
}
impl Driver for D {
    fn apply(&mut self, op: &str, a: &[i64]) -> Obs {
        let p = self.p;
        match op {
            "make" => {
                let n = a[1] as usize;
                let mut q = vec![a[0]]; // in u = 4x
                for r in &a[2..2 + n] {
                    q = times(&q, &[-r, 1]);
                }
                for c in a[2 + n..].chunks(2) {
                    q = times(&q, &[c[0] * c[0] + c[1], -2 * c[0], 1]);
                }
                self.done(Polynomial::new(std::array::from_fn(|k| q.get(k).map_or(0.0, |c| (c << (2 * k)) as f64))))
            }
            "times" => self.done(p.scale(a[0] as f64)),
            "power" => self.done(p.scale(2f64.powi(a[0] as i32))),
            "neg" => self.done(-p),
            "shift" => self.done(p.shift_argument(a[0] as f64 / 4.0)),
            "mirror" => self.done(p.scale_argument(-1.0)),
            "half" => self.done(p.scale_argument(0.5)),
            "factor" => {
                let q = p.multiply_into::<2, 8>(&Polynomial::new([-a[0] as f64 / 4.0, 1.0])).unwrap();
                self.done(q)
            }
            "closed" => sized!(a[0], N in [2 3 4 5] => match p.try_resize::<N>() {
                None => tag("none", vec![]),
                Some(q) => {
                    res(q.real_roots(), |r| list(&r))
                }
            }),
            "count" => res(p.count_real_roots(end(a[0]), end(a[1])), |n| vec![n as i64]),
            "within" => {
                let tol = if a[2] == -1 { 1e-300 } else { dec(a[2], 1e6) };
                res(p.real_roots_in(end(a[0]), end(a[1]), tol, a[3] as usize), |r| list(&r))
            }
            "bound" => res(p.cauchy_root_bound(), |x| vec![if x.is_finite() && x > 1e6 { OFF } else { enc((x * 1000.0).ceil(), 1.0) }]),
            "raw" => sized!(a.len() - 1, N in [2 3 4 5] => {
                let q = Polynomial::<N>::new(std::array::from_fn(|k| dec(a[1 + k], 1.0)));
                match a[0] {
                    0 => res(q.real_roots(), |r| list(&r)),
                    1 => res(q.count_real_roots(-9.0, 9.0), |n| vec![n as i64]),
                    2 => res(q.real_roots_in(-9.0, 9.0, 1e-3, 99), |r| list(&r)),
                    _ => res(q.cauchy_root_bound(), |x| vec![enc(x, 1.0)]),
                }
            }),
            "line" => res(Polynomial::<2>::new([a[0] as f64, a[1] as f64]).real_roots(), |r| list(&r)),
            _ => panic!("HARNESS {op}"),
        }
    }
}
fn gen(r: &mut Rng, s: &mut Sess) {
    let (mut re, mut pairs, mut exp): (Vec<i64>, Vec<i64>, i64) = (vec![], vec![], 0);
    let limit = |d: usize| if d <= 4 { 24 } else { 8 };
    for _ in 0..4 {
        // a polynomial: few or many roots, clustered or spread, with repeats
        let d = r.of(&[0, 1, 2, 2, 3, 3, 3, 4, 4, 4, 4, 5, 5, 6, 7]) as usize;
        let np = if d >= 2 && r.chance(1, 3) { r.int(1, d as i64 / 2) as usize } else { 0 };
        let m = r.of(&[2, 5, limit(d)]).min(limit(d));
        re.clear();
        for _ in 0..d - 2 * np {
            let x = if !re.is_empty() && r.chance(2, 5) { r.of(&re) } else { r.int(-m, m) };
            re.push(x);
        }
        pairs = (0..np).flat_map(|_| [r.int(-m, m), r.int(1, m)]).collect();
        s.run("make", &[vec![r.of(&[1, -1, 1, 2, -3, 7]), re.len() as i64], re.clone(), pairs.clone()].concat());
        exp = 0;
        for _ in 0..6 {
            let top = re.iter().chain(&pairs).map(|x| x.abs()).max().unwrap_or(0);
            let d = re.len() + pairs.len();
            match r.int(0, 11) {
                0 => {
                    s.run("times", &[r.of(&[-3, -1, 2, 3, 5])]);
                }
                1 => {
                    let e = r.int(-800, 800);
                    if (exp + e).abs() <= 800 {
                        exp += e;
                        s.run("power", &[e]);
                    }
                }
                2 => {
                    s.run("neg", &[]);
                }
                3 => {
                    let x = r.int(-4, 4);
                    if top + x.abs() <= limit(d) {
                        s.run("shift", &[x]);
                        re.iter_mut().for_each(|y| *y -= x);
                        pairs.chunks_mut(2).for_each(|c| c[0] -= x);
                    }
                }
                4 => {
                    s.run("mirror", &[]);
                    re.iter_mut().for_each(|y| *y = -*y);
                    pairs.chunks_mut(2).for_each(|c| c[0] = -c[0]);
                }
                5 => {
                    if 4 * top <= limit(d) {
                        s.run("half", &[]);
                        re.iter_mut().for_each(|y| *y *= 2);
                        pairs.chunks_mut(2).for_each(|c| {
                            c[0] *= 2;
                            c[1] *= 4;
                        });
                    }
                }
                6 => {
                    if d < 7 && top <= limit(d + 1) {
                        let m = limit(d + 1);
                        let x = if !re.is_empty() && r.chance(1, 2) { r.of(&re) } else { r.int(-m, m) };
                        s.run("factor", &[x]);
                        re.push(x);
                    }
                }
                _ => {}
            }
            let d = (re.len() + pairs.len()) as i64;
            let mut ends = || {
                let at = |r: &mut Rng, re: &[i64]| if !re.is_empty() && r.chance(1, 3) { 2 * r.of(re) + r.int(-1, 1) } else { r.int(-60, 60) };
                let (x, y) = (at(r, &re), at(r, &re));
                if r.chance(1, 12) { (x, y) } else { (x.min(y), x.max(y)) }
            };
            let (lo, hi) = ends();
            if (1..=4).contains(&d) {
                s.run("closed", &[if r.chance(1, 15) { r.int(2, 5) } else { d + 1 }]);
            }
            if r.chance(2, 3) {
                let (lo, hi) = if r.chance(1, 3) { (-61, 61) } else { (lo, hi) };
                s.run("count", &[if r.chance(1, 30) { r.of(&[NAN, NINF, INF]) } else { lo }, if r.chance(1, 30) { r.of(&[NAN, NINF, INF]) } else { hi }]);
            }
            if r.chance(2, 3) {
                let (lo, hi) = if r.chance(1, 3) { (-61, 61) } else { (lo, hi) };
                let tol = r.of(&[1, 1, 10, 1000, 50000, 2000000, -1, 0, 7, NAN]);
                s.run("within", &[lo, if r.chance(1, 30) { INF } else { hi }, tol, r.of(&[200, 200, 500, 1000, 20, 0, 1])]);
            }
            if r.chance(1, 6) {
                s.run("bound", &[]);
            }
        }
        let n = r.int(2, 5) as usize;
        let mut q = r.ints(n, -3, 3);
        match r.int(0, 3) {
            0 => q = vec![0; n],
            1 => q[r.below(n as u64) as usize] = r.of(&[NAN, INF, NINF]),
            _ => q.clear(),
        }
        if !q.is_empty() {
            s.run("raw", &[vec![r.int(0, 3)], q].concat());
        }
        s.run("line", &[r.int(-900, 900), r.of(&[-7, -1, 1, 3, 11])]);
    }
}
fn main() {
    main_with(&[Model { name: "roots", make: |_| Box::new(D { p: Polynomial::new([0.0; 8]) }), gen }]);
}
