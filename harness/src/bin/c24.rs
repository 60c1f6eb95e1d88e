use multicalc::numerical_integration::*;
use multicalc::vector_field::*;
use vharness::*;
struct D<T: Fl> {
    m: i64,
    n: i64,
    kahan: bool,
    p: std::marker::PhantomData<T>,
}
macro_rules! levels {
    ($n:expr, $N:ident => $e:expr) => {
        match $n { 1 => { const $N: usize = 1; $e } 2 => { const $N: usize = 2; $e } 3 => { const $N: usize = 3; $e } _ => panic!("HARNESS levels") }
    };
}
type R<T> = Result<T, multicalc::error::IntegrateError>;
fn newton(m: i64) -> IterativeMethod {
    [IterativeMethod::Trapezoidal, IterativeMethod::Simpsons, IterativeMethod::Booles][m as usize]
}
fn gauss(m: i64) -> GaussianQuadratureMethod {
    [GaussianQuadratureMethod::GaussLegendre, GaussianQuadratureMethod::GaussHermite, GaussianQuadratureMethod::GaussLaguerre][m as usize - 3]
}
fn same<T: Fl>(a: R<T>, b: R<T>) -> R<T> {
    let (x, y) = (a.map(Into::<f64>::into), b.map(Into::<f64>::into));
    assert!(x == y || x.is_ok_and(f64::is_nan), "two ways to one integral differ: {x:?} {y:?}");
    a
}
impl<T: Fl> D<T> {
    fn t(k: i64) -> T {
        T::from_f64(dec(k, 1.0))
    }
    fn single<const L: usize>(&self, f: &dyn Fn(T) -> T, l: &[[T; 2]; L]) -> R<T> {
        let f = &|x| f(x);
        macro_rules! go {
            ($i:expr) => {{
                let i = $i;
                let r = IntegratorSingleVariable::integrate(&i, f, l);
                if L == 1 {
                    return same(r, i.single_integral(f, &l[0]));
                }
                if L == 2 {
                    return same(r, i.double_integral(f, &[l[0], l[1]]));
                }
                r
            }};
        }
        if self.m > 2 {
            return go!(GaussianSingle::<T>::from_parameters(self.n as usize, gauss(self.m)));
        }
        let mut i = IterativeSingle::<T>::from_parameters(self.n as u64, newton(self.m));
        if self.kahan {
            i = i.with_kahan_summation();
        } else if L == 1 && self.n == 120 && self.m == 2 {
            return same(go_default(f, l[0]), i.integrate_pub(f, l));
        }
        go!(i)
    }
    fn multi<const L: usize>(&self, idx: [usize; L], f: &dyn Fn(&[T; 3]) -> T, l: &[[T; 2]; L], p: &[T; 3]) -> R<T> {
        let f = &|x: &[T; 3]| f(x);
        macro_rules! go {
            ($i:expr) => {{
                let i = $i;
                let r = IntegratorMultiVariable::integrate(&i, idx, f, l, p);
                if L == 1 {
                    return same(r, i.single_partial_integral(f, idx[0], &l[0], p));
                }
                if L == 2 {
                    return same(r, i.double_partial_integral(f, [idx[0], idx[1]], &[l[0], l[1]], p));
                }
                r
            }};
        }
        if self.m > 2 {
            return go!(GaussianMulti::<T>::from_parameters(self.n as usize, gauss(self.m)));
        }
        let i = IterativeMulti::<T>::from_parameters(self.n as u64, newton(self.m));
        go!(if self.kahan { i.with_kahan_summation() } else { i })
    }
    fn whole(&self, x: R<T>, d: f64, size: f64, loose: f64) -> Obs {
        let tol = if T::EPSILON.into() < 1e-10 { 1e-10 } else { 1e-5 };
        res(x, |x| vec![enc_tol(x.into() * d, 1.0, (1e-6 + tol * size).max(loose).min(0.4))])
    }
    fn unit(&self, levels: usize) -> f64 {
        if self.m == 4 { std::f64::consts::PI.sqrt().powi(levels as i32) } else { 1.0 }
    }
}
trait Pub<T: Fl> {
    fn integrate_pub<const L: usize>(&self, f: &impl Fn(T) -> T, l: &[[T; 2]; L]) -> R<T>;
}
impl<T: Fl> Pub<T> for IterativeSingle<T> {
    fn integrate_pub<const L: usize>(&self, f: &impl Fn(T) -> T, l: &[[T; 2]; L]) -> R<T> {
        IntegratorSingleVariable::integrate(self, f, l)
    }
}
fn go_default<T: Fl>(f: &impl Fn(T) -> T, l: [T; 2]) -> R<T> {
    integral(f, l)
}
fn far(l: &[i64]) -> f64 {
    l.iter().map(|x| if x.abs() < 1000 { x.abs() as f64 } else { 3.0 }).fold(1.0, f64::max)
}
impl<T: Fl> Driver for D<T> {
    fn apply(&mut self, op: &str, a: &[i64]) -> Obs {
        let t = Self::t;
        let horner = |c: &[i64], x: T| c.iter().rev().fold(T::ZERO, |s, k| s * x + t(*k));
        match op {
            "rule" => {
                *self = D { m: a[0], n: a[1], kahan: a[2] == 1, p: self.p };
                let n = if a[0] < 3 {
                    let (i, j) = (IterativeSingle::<T>::from_parameters(a[1] as u64, newton(a[0])), IterativeMulti::<T>::from_parameters(a[1] as u64, newton(a[0])));
                    assert!(i.config.total_iterations == j.config.total_iterations);
                    i.config.total_iterations as i64
                } else {
                    GaussianSingle::<T>::from_parameters(a[1] as usize, gauss(a[0])).config.order as i64
                };
                ok(vec![n])
            }
            "one" => {
                let n = a[1] as usize;
                let c = &a[2 + 2 * n..];
                let l = &a[2..2 + 2 * n];
                let f = |x: T| horner(c, x);
                let r = levels!(n, L => self.single::<L>(&f, &std::array::from_fn(|i| [t(l[2 * i]), t(l[2 * i + 1])])));
                let size = a[0] as f64 * c.iter().enumerate().map(|(k, c)| c.abs() as f64 * far(l).powi(k as i32 + n as i32)).sum::<f64>();
                self.whole(r, a[0] as f64 / self.unit(n), size, 0.0)
            }
            "many" => {
                let n = a[1] as usize;
                let (idx, l, p, q) = (&a[2..2 + n], &a[2 + n..2 + 3 * n], &a[2 + 3 * n..5 + 3 * n], &a[5 + 3 * n..]);
                let f = |x: &[T; 3]| q.chunks(4).fold(T::ZERO, |s, q| s + t(q[0]) * x[0].powi(q[1] as i32) * x[1].powi(q[2] as i32) * x[2].powi(q[3] as i32));
                let at: [T; 3] = std::array::from_fn(|i| t(p[i]));
                let r = levels!(n, L => self.multi::<L>(std::array::from_fn(|i| idx[i] as usize), &f, &std::array::from_fn(|i| [t(l[2 * i]), t(l[2 * i + 1])]), &at));
                let g = far(&[l, p].concat());
                let size = a[0] as f64 * q.chunks(4).map(|q| q[0].abs() as f64 * g.powi((q[1] + q[2] + q[3]) as i32 + n as i32)).sum::<f64>();
                let used = (0..3).filter(|v| idx.contains(v)).count();
                let _ = used;
                self.whole(r, a[0] as f64 / self.unit(n), size, 0.0)
            }
            "walk" => {
                let (lo, h, c) = (a[0], a[1], &a[2..]);
                let n = if self.m == 0 { self.n } else if self.m == 1 { (self.n + 2) / 3 * 3 } else { (self.n + 3) / 4 * 4 };
                let l = [t(lo), T::from_f64(lo as f64 + n as f64 / h as f64)];
                let r = self.single::<1>(&|x| horner(c, x), &[l]);
                let d = [2.0, 8.0, 45.0][self.m as usize] * (h as f64).powi(c.len() as i32);
                let size = d * c.iter().enumerate().map(|(k, c)| c.abs() as f64 * l[0].abs().max(l[1].abs()).into().powi(k as i32 + 1)).sum::<f64>();
                self.whole(r, d, size, 0.0)
            }
            "high" => {
                let k = a[0] as i32;
                let got = |f: &dyn Fn(T) -> T, l: [T; 2]| self.single::<1>(f, &[l]);
                let tol = if T::EPSILON.into() < 1e-10 { 1e-9 } else { 1e-3 };
                if self.m == 3 {
                    let (lo, w) = (t(a[1]), t(a[2] - a[1]));
                    return res(got(&|x| ((x - lo) / w).powi(k), [lo, t(a[2])]), |x| vec![enc_tol(x.into() * (k + 1) as f64, 1.0, tol)]);
                }
                let l = if self.m == 4 { [T::NEG_INFINITY, T::INFINITY] } else { [T::ZERO, T::INFINITY] };
                let j = if self.m == 4 && k % 2 == 0 { k - 2 } else { k - 1 };
                match (got(&|x| x.powi(k), l), got(&|x| x.powi(j), l)) {
                    (Ok(x), Ok(y)) => ok(vec![enc_tol(x.into() / y.into() * if self.m == 4 { 2.0 } else { 1.0 }, 1.0, tol)]),
                    (x, _) => res(x, |_| vec![]),
                }
            }
            "tail" => {
                let from = t(a[1]);
                let g = |x: T| {
                    let u = match a[0] {
                        0 => T::ONE + x - from,
                        1 => T::ONE + from - x,
                        _ => T::ONE + x * x,
                    };
                    let v = T::ONE / u;
                    let p = if a[0] == 2 { v } else { v * v };
                    p * (t(a[2]) + v * (t(a[3]) + v * t(a[4])))
                };
                let l = match a[0] {
                    0 => [from, T::INFINITY],
                    1 => [T::NEG_INFINITY, from],
                    _ => [T::NEG_INFINITY, T::INFINITY],
                };
                let r = if a[5] == 0 {
                    self.single::<1>(&g, &[l])
                } else {
                    let f = |x: &[T; 3]| g(x[2]) * (T::ONE + x[0] * x[1]);
                    let at = [T::ZERO, T::ONE, T::ONE];
                    let two = [T::ZERO, T::TWO];
                    if a[1] % 2 == 0 { self.multi::<2>([0, 2], &f, &[two, l], &at) } else { self.multi::<2>([2, 0], &f, &[l, two], &at) }
                };
                res(r, |x| vec![enc_tol(x.into(), 1e4, 0.51)])
            }
            "wave" => res(self.single::<1>(&|x: T| x.cos(), &[[T::from_f64(a[0] as f64 / 4.0), T::from_f64(a[1] as f64 / 4.0)]]), |x| vec![enc_tol(x.into(), 1e4, 0.51)]),
            "broken" => {
                let l = match self.m {
                    4 => [T::NEG_INFINITY, T::INFINITY],
                    5 => [T::ZERO, T::INFINITY],
                    _ => [T::ZERO, T::TWO],
                };
                let bad = [T::NAN, T::INFINITY, T::NEG_INFINITY][a[0] as usize];
                let edge = if self.m == 4 { T::ZERO } else { T::ONE };
                let f = |x: T| if x > edge { bad } else { T::ONE };
                let r = self.single::<1>(&f, &[l]);
                let q = self.multi::<1>([1], &|x: &[T; 3]| f(x[1]), &[l], &[T::ZERO; 3]);
                same(r, q).map_or_else(err, |_| ok(vec![]))
            }
            "curve" => {
                let n = a[2] as usize;
                let (l, rest) = ([t(a[4]), t(a[5])], &a[6..]);
                let (c, q) = (rest[..3 * n].to_vec(), rest[3 * n..].to_vec());
                macro_rules! go {
                    ($N:literal, $line:ident, $line_n:ident, $flux:ident, $flux_n:ident) => {{
                        let fs: Vec<Box<dyn Fn(&[T; $N]) -> T>> = (0..$N).map(|i| { let q: Vec<T> = q[4 * i..4 * i + 4].iter().map(|k| t(*k)).collect(); Box::new(move |x: &[T; $N]| (0..$N).fold(q[0], |s, k| s + q[k + 1] * x[k])) as Box<dyn Fn(&[T; $N]) -> T> }).collect();
                        let rs: Vec<Box<dyn Fn(T) -> T>> = (0..$N).map(|i| { let c: Vec<T> = c[3 * i..3 * i + 3].iter().map(|k| t(*k)).collect(); Box::new(move |x: T| c[0] + x * (c[1] + x * c[2])) as Box<dyn Fn(T) -> T> }).collect();
                        let f: [&dyn Fn(&[T; $N]) -> T; $N] = std::array::from_fn(|i| &*fs[i]);
                        let r: [&dyn Fn(T) -> T; $N] = std::array::from_fn(|i| &*rs[i]);
                        match (a[1], a[3]) {
                            (0, -1) => $line(&f, &r, &l),
                            (0, s) => $line_n(&f, &r, &l, s as u64),
                            (_, -1) => $flux(&f, &r, &l),
                            (_, s) => $flux_n(&f, &r, &l, s as u64),
                        }
                    }};
                }
                let r = if n == 2 { go!(2, line_integral_2d, line_integral_2d_custom, flux_integral_2d, flux_integral_2d_custom) } else { go!(3, line_integral_3d, line_integral_3d_custom, flux_integral_3d, flux_integral_3d_custom) };
                let g = far(&a[4..6]);
                let size = a[0] as f64 * 8.0 * g * g * g * c.iter().map(|x| x.abs()).max().unwrap() as f64 * 4.0 * q.iter().map(|x| x.abs()).max().unwrap() as f64;
                self.whole(r, a[0] as f64, size, if a[3] > 1000 { 0.3 } else { 0.0 })
            }
            _ => panic!("HARNESS {op}"),
        }
    }
}
fn gen(r: &mut Rng, s: &mut Sess) {
    let small = s.ty == "f32";
    for _ in 0..3 {
        let m = r.int(0, 5);
        let n = if m > 2 { if r.chance(1, 15) { r.of(&[0, 31, 100]) } else { r.int(1, 30) } } else if r.chance(1, 20) { 0 } else if r.chance(1, 3) { r.int(1, 9) } else if r.chance(1, 4) && !small { r.int(130, 12000) } else { r.int(10, 150) };
        let o = s.run("rule", &[m, n, r.int(0, 1)]);
        let n = o.v[0];
        let sound = n > 0 && (m < 3 || n <= 30);
        let class = if m > 2 { 2 * n - 1 } else { [1, 3, 5][m as usize] };
        let lim = |r: &mut Rng, w: i64| -> [i64; 2] {
            if r.chance(1, 25) {
                let odd = [NAN, INF, NINF, 0, 1, -2];
                let (mut x, y) = (r.of(&odd), r.of(&odd));
                if m < 3 && (x == NINF && y > x || y == INF && x < 10) && x != NAN && y != NAN {
                    x = NAN;
                }
                if m == 4 && x == NINF && y == INF || m == 5 && x == 0 && y == INF {
                    x = 1;
                }
                return [x, y];
            }
            match m {
                4 => [NINF, INF],
                5 => [0, INF],
                _ => {
                    let x = r.int(-w, w - 1);
                    [x, r.int(x + 1, w)]
                }
            }
        };
        for _ in 0..6 {
            let top = class.min(if small { 3 } else if m == 4 { 8 } else if m == 5 { 7 } else { 8 }).max(0);
            let k = r.int(0, top);
            let lv = if n > 200 { 1 } else { r.of(&[1, 1, 2, 3]) };
            let (d, w) = if small { (12, 2) } else if m == 4 { (16, 3) } else { (if k > 5 { 2520 } else { 60 }, if k > 5 { 2 } else { 3 }) };
            let mut a = vec![d, lv];
            for _ in 0..lv {
                a.extend(lim(r, w));
            }
            for _ in 0..k {
                a.push(r.int(-3, 3));
            }
            a.push(r.of(&[-2, -1, 1, 3]));
            if !(small && m > 2 && n > 12) {
                s.run("one", &a);
            }
        }
        for _ in 0..3 {
            let work = if n > 200 { 1 } else if n > 40 { 2 } else { 3 };
            let lv = r.int(1, work);
            let mut a = vec![if small { 1728 } else { 1728 }, lv];
            let mut order = [0, 1, 2];
            r.shuffle(&mut order);
            for k in 0..lv as usize {
                a.push(if r.chance(1, 30) { r.of(&[3, 9]) } else if r.chance(1, 8) { r.int(0, 2) } else { order[k] });
            }
            for _ in 0..lv {
                a.extend(lim(r, if small { 1 } else { 2 }));
            }
            for _ in 0..3 {
                a.push(if small { r.int(-1, 1) } else { r.int(-2, 3) });
            }
            let top = class.min(if small { 1 } else { 3 }).max(0);
            for _ in 0..r.int(1, 3) {
                a.push(if small { 1 } else { r.int(-3, 3) });
                for _ in 0..3 {
                    a.push(r.int(0, top));
                }
            }
            if !(small && m > 3) {
                s.run("many", &a);
            }
        }
        if sound {
            if m > 2 {
                let k = r.int(1, class.min(if small && m > 3 { 5 } else { 60 }));
                let lo = r.int(-3, 3);
                if !(small && n > 12 && m > 3) {
                    s.run("high", &[k, lo, lo + r.int(1, 4)]);
                }
            } else if n <= 8 {
                let h = r.int(1, 2);
                let mut a = vec![r.int(-2, 0), h];
                for _ in 0..r.int(1, if small { 2 } else { 5 }) {
                    a.push(r.int(-2, 2));
                }
                s.run("walk", &a);
            }
            if m == 3 || (m < 3 && n >= 120) {
                s.run("tail", &[r.int(0, 2), r.int(-2, 2), r.int(-3, 3), r.int(-3, 3), r.int(-3, 3), if n > 200 { 0 } else { r.int(0, 1) }]);
            }
            if m == 3 && n >= 8 || m < 3 && n >= 120 {
                let x = r.int(-8, 8);
                s.run("wave", &[x, x + r.int(1, 10)]);
            }
            if !(m > 2 && n < 2) {
                s.run("broken", &[r.int(0, 2)]);
            }
        }
        let n = r.int(2, 3);
        let bent = !small && r.chance(1, 3);
        let lo = if r.chance(1, 20) { r.of(&[NAN, INF, NINF]) } else { r.int(-2, 2) };
        let hi = if r.chance(1, 20) { r.of(&[NAN, INF, NINF]) } else { r.int(-1, 3) };
        let mut a = vec![12, r.int(0, 1), n, if bent { 2000 } else { r.of(&[-1, -1, 0, 1, 2, 5, 50]) }, lo, hi];
        for _ in 0..n {
            a.extend([r.int(-2, 2), r.int(-2, 2), if bent { r.int(-1, 1) } else { 0 }]);
        }
        a.extend(r.ints(4 * n as usize, -2, 2));
        s.run("curve", &a);
    }
}
fn main() {
    fn fresh<T: Fl>() -> Box<D<T>> {
        Box::new(D { m: 2, n: 120, kahan: false, p: std::marker::PhantomData })
    }
    main_with(&[Model { name: "quad", make: |ty| if ty == "f32" { fresh::<f32>() } else { fresh::<f64>() }, gen }]);
}
