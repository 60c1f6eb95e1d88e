use multicalc::scalar::Jet;
use multicalc::{MultivariatePolynomial, MultivariateTerm, Polynomial};
use vharness::*;
type M = MultivariatePolynomial<2, 6, f64>;
#[derive(Clone)]
struct D {
    p: Polynomial<8>,
    m: M,
}
fn f(k: i64) -> f64 {
    dec(k, 1.0)
}
fn poly<const N: usize>(a: &[i64]) -> Polynomial<N> {
    Polynomial::new(std::array::from_fn(|k| f(a[k])))
}
fn arr<const N: usize>(a: &[i64]) -> [f64; N] {
    std::array::from_fn(|k| f(a[k]))
}
fn es(v: &[f64]) -> Vec<i64> {
    v.iter().map(|x| enc(*x, 1.0)).collect()
}
fn near(v: &[f64], scale: f64) -> Vec<i64> {
    v.iter().map(|x| enc_tol(*x, scale, 0.51)).collect()
}
macro_rules! sized {
    ($n:expr, $N:ident in [$($k:literal)+] => $e:expr) => {
        match $n { $($k => { const $N: usize = $k; $e })+ _ => panic!("HARNESS size {}", $n) }
    };
}
fn power(k: i64) -> u32 {
    if k < 0 { u32::MAX } else { k as u32 }
}
fn terms(a: &[i64]) -> Vec<MultivariateTerm<2>> {
    a.chunks(3).map(|c| MultivariateTerm::new(f(c[0]), [power(c[1]), power(c[2])])).collect()
}
fn dump<const N: usize>(m: &MultivariatePolynomial<2, N>, scale: f64) -> Vec<i64> {
    assert!(m.len() == m.terms().len() && m.is_empty() == (m.len() == 0) && m.is_finite());
    let e = |p: u32| if p == u32::MAX { -1 } else { p as i64 };
    let mut t: Vec<[i64; 3]> = m.terms().iter().map(|t| [e(t.exponents()[0]), e(t.exponents()[1]), enc_tol(t.coefficient(), scale, if scale == 1.0 { 0.0 } else { 1e-6 })]).collect();
    t.sort();
    t.into_iter().flat_map(|t| [t[2], t[0], t[1]]).collect()
}
impl D {
    fn keep(&mut self, p: Polynomial<8>) -> Obs {
        self.p = p;
        let d = p.degree().map_or(-1, |d| d as i64);
        assert!(p.is_zero() == (d < 0) && p.leading_coefficient().is_some() == (d >= 0) && p.coefficient(8).is_none() && (0..8).all(|k| p.coefficient(k) == Some(p.coefficients()[k])));
        ok([vec![d, enc(p.leading_coefficient().unwrap_or(0.0), 1.0)], es(p.coefficients())].concat())
    }
    fn kept<const N: usize, E: std::fmt::Debug>(&mut self, p: Result<Polynomial<N>, E>) -> Obs {
        match p {
            Err(e) => err(e),
            Ok(p) => self.keep(p.try_resize().unwrap()),
        }
    }
    fn hold<const N: usize, E: std::fmt::Debug>(&mut self, m: Result<MultivariatePolynomial<2, N>, E>) -> Obs {
        match m {
            Err(e) => err(e),
            Ok(m) => {
                if m.len() <= 6 {
                    self.m = M::try_from_terms(m.terms()).unwrap();
                }
                ok(dump(&m, 1.0))
            }
        }
    }
}
impl Driver for D {
    fn apply(&mut self, op: &str, a: &[i64]) -> Obs {
        let p = self.p;
        match op {
            "set" => self.keep(poly(a)),
            "eval" => {
                let x = f(a[0]);
                let d: [f64; 10] = p.evaluate_with_derivatives(x);
                let few: [f64; 3] = p.evaluate_with_derivatives(x);
                let none: [f64; 0] = p.evaluate_with_derivatives(x);
                if p.evaluate(x) == d[0] && few[..] == d[..3] && none.is_empty() { ok(es(&d)) } else { tag("differs", es(&d)) }
            }
            "add" => self.keep(p + poly(a)),
            "sub" => self.keep(p - poly(a)),
            "neg" => self.keep(-p),
            "scale" => {
                if p * f(a[0]) != p.scale(f(a[0])) {
                    return tag("differs", vec![]);
                }
                self.keep(p.scale(f(a[0])))
            }
            "over" => self.keep(p / f(a[0])),
            "mul" => sized!(a[0], N in [1 2 3 4 5 8] => sized!(a.len() - 1, K in [1 2 3 4] => self.kept(p.multiply_into::<K, N>(&poly(&a[1..]))))),
            "comp" => sized!(a[0], N in [1 2 3 4 5 8] => sized!(a.len() - 1, K in [1 2 3 4] => self.kept(p.compose_into::<K, N>(&poly(&a[1..]))))),
            "div" => sized!(a[0], Q in [1 2 3 4 5 8] => sized!(a[1], R in [1 2 3 4 5 8] => sized!(a.len() - 3, K in [1 2 3 4] => match p.divide::<K, Q, R>(&poly(&a[3..])) {
                Err(e) => err(e),
                Ok((q, r)) => {
                    self.p = if a[2] == 1 { q.try_resize().unwrap() } else { r.try_resize().unwrap() };
                    ok([es(q.coefficients()), es(r.coefficients())].concat())
                }
            }))),
            "deriv" => {
                if a[0] == 1 && p.derivative() != p.nth_derivative(1) {
                    return tag("differs", vec![]);
                }
                self.keep(p.nth_derivative(a[0] as usize))
            }
            "area" => {
                let y = p.definite_integral(f(a[0]), f(a[1]));
                ok(vec![enc_tol(y, 840.0, 1e-4)])
            }
            "shift" => self.keep(p.shift_argument(f(a[0]))),
            "stretch" => self.keep(p.scale_argument(f(a[0]))),
            "rev" => self.keep(p.reverse()),
            "resize" => sized!(a[0], N in [1 2 3 4 5 8] => p.try_resize::<N>().map_or(tag("none", vec![]), |q| ok(es(q.coefficients())))),
            "roots" => {
                let r: Vec<f64> = a[1..].iter().map(|k| f(*k)).collect();
                sized!(a[0], N in [1 2 3 4 5 8] => self.kept(Polynomial::<N>::from_roots(&r)))
            }
            "jet" => sized!(a[0], N in [1 2 3 4 5 8] => sized!(a.len() - 1, K in [1 2 3 4 5] => self.kept(Polynomial::<N>::from_jet(&Jet::<f64, K>::new(arr(&a[1..])))))),
            "cheb" => sized!(a[2], N in [1 2 3 4 5 6 7 8] => ok(near(&Polynomial::<N>::chebyshev_nodes(f(a[0]), f(a[1])), 1e4))),
            "points" => sized!(a.len() / 2, N in [1 2 3 4 5] => res(Polynomial::<N>::from_points(&arr(a), &arr(&a[N..])), |p| a[..N].iter().map(|x| enc_tol(p.evaluate(f(*x)), 1000.0, 0.01)).collect())),
            "through" => sized!(a.len() / 2, N in [1 2 3 4 5] => {
                let q: Polynomial<N> = poly(&a[N..]);
                let x: [f64; N] = arr(a);
                res(Polynomial::<N>::from_points(&x, &x.map(|x| q.evaluate(x))), |p| p.coefficients().iter().map(|c| enc_tol(*c, 1000.0, 0.01)).collect())
            }),
            "fit" => {
                let k = (a.len() - 1) / 2;
                sized!(a[0], N in [1 2 3 4] => sized!(k, K in [1 2 3 4 5 6] => res(Polynomial::<N>::fit_least_squares::<K>(&arr(&a[1..]), &arr(&a[1 + K..])), |p| {
                    near(&(0..K).map(|i| f(a[1 + K + i]) - p.evaluate(f(a[1 + i]))).collect::<Vec<_>>(), 1e4)
                })))
            }
            "herm3" => res(Polynomial::<4>::from_endpoint_derivatives(f(a[0]), f(a[1]), f(a[2]), f(a[3]), f(a[4])), |p| es(p.coefficients())),
            "herm7" => res(Polynomial::<8>::from_endpoint_derivatives(&arr(a), &arr(&a[4..]), f(a[8])), |p| p.coefficients().iter().map(|c| enc_tol(*c, 6.0, 1e-6)).collect()),
            "fromuni" => sized!(a[0], N in [1 2 3 4 5 8] => res(MultivariatePolynomial::<1, N>::from_univariate(&p), |m| {
                assert!(m.to_univariate::<8>() == Ok(p));
                m.terms().iter().flat_map(|t| [t.exponents()[0] as i64, enc(t.coefficient(), 1.0)]).collect()
            })),
            "touni" => {
                let t: Vec<_> = a[1..].chunks(2).map(|c| MultivariateTerm::new(f(c[0]), [power(c[1])])).collect();
                let m = MultivariatePolynomial::<1, 4>::try_from_terms(&t).unwrap();
                sized!(a[0], N in [1 2 3 4 5 8] => res(m.to_univariate::<N>(), |p| es(p.coefficients())))
            }
            "mset" => self.hold(M::try_from_terms(&terms(a))),
            "mpush" => {
                let mut m = self.m;
                let r = m.push(terms(a)[0]);
                if r.is_err() && m != self.m {
                    return tag("changed", vec![]);
                }
                self.hold(r.map(|()| m))
            }
            "meval" => {
                let (m, x) = (self.m, [f(a[0]), f(a[1])]);
                let g = m.gradient_at(&x).into_array();
                let d = |k: Option<u32>| k.map_or(-1, |k| k as i64);
                ok([es(&[m.evaluate(&x), g[0], g[1]]), vec![m.len() as i64, d(m.total_degree()), d(m.degree_in(0)), d(m.degree_in(1)), d(m.degree_in(2))]].concat())
            }
            "mpart" => self.hold(self.m.partial_derivative(a[0] as usize)),
            "manti" => res(self.m.partial_antiderivative(a[0] as usize), |m| dump(&m, 60.0)),
            "msub" => self.hold(self.m.substitute(a[0] as usize, f(a[1]))),
            "madd" | "mmul" => {
                let o = MultivariatePolynomial::<2, 3>::try_from_terms(&terms(&a[1..])).unwrap();
                let m = self.m;
                sized!(a[0], N in [1 2 4 6 12 18] => if op == "madd" { self.hold(m.add_into::<3, N>(&o)) } else { self.hold(m.multiply_into::<3, N>(&o)) })
            }
            "mcollect" => {
                let mut m = self.m;
                m.collect_like_terms();
                self.hold(Ok::<_, ()>(m))
            }
            _ => panic!("HARNESS {op}"),
        }
    }
}
fn coefs(r: &mut Rng, n: usize, size: i64) -> Vec<i64> {
    let used = r.int(0, n as i64) as usize;
    (0..n).map(|k| if k < used && !r.chance(1, 4) { r.int(-size, size) } else { 0 }).collect()
}
fn mono(r: &mut Rng, n: i64) -> Vec<i64> {
    (0..n).flat_map(|_| [r.int(-4, 4), r.int(0, 3), r.int(0, 3)]).collect()
}
fn gen(r: &mut Rng, s: &mut Sess) {
    let room = [1, 2, 3, 4, 5, 8];
    let mut p = vec![0i64; 8];
    let mut m: Vec<i64> = vec![];
    for _ in 0..8 {
        let size: i64 = p.iter().map(|c| c.abs()).max().unwrap();
        if size == 0 || size > 3000 {
            p = coefs(r, 8, 6);
            s.run("set", &p);
        }
        let deg = p.iter().rposition(|c| *c != 0).map_or(0, |d| d as u32);
        let (op, a): (&str, Vec<i64>) = match r.int(0, 14) {
            0 => ("eval", vec![r.int(-2, 2)]),
            1 => (if r.chance(1, 2) { "add" } else { "sub" }, {
                let q = coefs(r, 8, 9);
                if r.chance(1, 2) { (0..8).map(|k| if k >= deg as usize { p[k] } else { q[k] }).collect() } else { q }
            }),
            2 => ("neg", vec![]),
            3 => ("scale", vec![r.int(-3, 3)]),
            4 => {
                let g: Vec<i64> = (1..=6).filter(|g| p.iter().all(|c| c % g == 0)).collect();
                ("over", vec![r.of(&g) * r.of(&[-1, 1])])
            }
            5 | 6 => {
                let n = r.int(1, 4) as usize;
                ("mul", [vec![r.of(&room)], coefs(r, n, 5)].concat())
            }
            7 => {
                let n = r.int(1, 4) as usize;
                let size = if deg > 4 { 1 } else { 3 };
                ("comp", [vec![if r.chance(1, 2) { 8 } else { r.of(&room) }], coefs(r, n, size)].concat())
            }
            8 | 9 => {
                let n = r.int(1, 4) as usize;
                let mut q = coefs(r, n, 3);
                if let Some(k) = q.iter().rposition(|c| *c != 0) {
                    q[k] = q[k].signum();
                }
                let any = r.chance(1, 3);
                let c = |r: &mut Rng| if any { r.of(&room) } else { 8 };
                ("div", [vec![c(r), c(r), r.int(1, 2)], q].concat())
            }
            10 => ("deriv", vec![r.int(0, 9)]),
            11 => ("area", vec![r.int(-2, 2), r.int(-2, 2)]),
            12 => ("shift", vec![r.int(-2, 2)]),
            13 => ("stretch", vec![r.int(-2, 2)]),
            _ => match r.int(0, 4) {
                0 => ("rev", vec![]),
                1 => ("resize", vec![r.of(&room)]),
                2 => ("fromuni", vec![r.of(&room)]),
                3 => {
                    let n = r.int(0, 7) as usize;
                    let mut q = r.ints(n, -3, 3);
                    if n > 0 && r.chance(1, 6) {
                        q[r.below(n as u64) as usize] = r.of(&[NAN, INF, NINF]);
                    }
                    ("roots", [vec![r.of(&room)], q].concat())
                }
                _ => {
                    let n = r.int(1, 5) as usize;
                    ("jet", [vec![r.of(&room)], coefs(r, n, 9)].concat())
                }
            },
        };
        let o = s.run(op, &a);
        if o.r == "ok" && o.v.len() == 10 && op != "eval" && op != "div" {
            p = o.v[2..].to_vec();
        } else if o.r == "ok" && op == "div" {
            let (q, n) = (a[0] as usize, a[1] as usize);
            p = if a[2] == 1 { o.v[..q].to_vec() } else { o.v[q..q + n].to_vec() };
            p.resize(8, 0);
        }
        // terms in two variables
        let size: i64 = m.chunks(3).map(|t| t[0].abs()).max().unwrap_or(0);
        let high: i64 = m.chunks(3).map(|t| t[1].max(t[2])).max().unwrap_or(0);
        if m.is_empty() || size > 500 || high > 4 || r.chance(1, 8) {
            let n = r.int(1, 7);
            let mut t = mono(r, n);
            if r.chance(1, 10) {
                t[0] = r.of(&[NAN, INF]);
            }
            let o = s.run("mset", &t);
            if o.r == "ok" {
                m = t;
            } else if m.is_empty() || size > 500 || high > 4 {
                m = vec![1, 2, 3];
                s.run("mset", &m);
            }
        }
        let var = if r.chance(1, 10) { r.int(2, 3) } else { r.int(0, 1) };
        let (op, a): (&str, Vec<i64>) = match r.int(0, 7) {
            0 => ("mpush", if m.len() >= 3 && r.chance(1, 2) { vec![-m[0], m[1], m[2]] } else { mono(r, 1) }),
            1 | 2 => ("meval", r.ints(2, -2, 2)),
            3 => ("mpart", vec![var]),
            4 => ("manti", vec![var]),
            5 => ("msub", vec![var, r.int(-2, 2)]),
            6 => {
                let n = r.int(0, 3);
                (if r.chance(1, 2) { "madd" } else { "mmul" }, [vec![r.of(&[2, 4, 6, 12, 18])], mono(r, n)].concat())
            }
            _ => ("mcollect", vec![]),
        };
        let o = s.run(op, &a);
        if o.r == "ok" && op != "meval" && op != "manti" && o.v.len() <= 18 {
            m = o.v;
        }
        match r.int(0, 9) {
            0 => {
                let l = r.int(-5, 5);
                s.run("cheb", &[l, l + r.int(-4, 8), r.int(1, 8)]);
            }
            1 | 2 => {
                let n = r.int(1, 5) as usize;
                let mut a = r.ints(n, -12, 12);
                a.extend(r.ints(n, -9, 9));
                if r.chance(1, 8) {
                    a[r.below(2 * n as u64) as usize] = r.of(&[NAN, INF, NINF]);
                    s.run("points", &a);
                } else {
                    let op = if r.chance(1, 2) { "points" } else { "through" };
                    if op == "through" && a[..n].iter().any(|x| x.abs() > 8) {
                        a[..n].iter_mut().for_each(|x| *x %= 7);
                    }
                    s.run(op, &a);
                }
            }
            3 | 4 => {
                let (n, k) = (r.int(1, 4), r.int(1, 6) as usize);
                let spread = r.of(&[1, 3, 6]);
                let mut a = vec![n];
                a.extend(r.ints(k, -spread, spread));
                a.extend(r.ints(k, -9, 9));
                if r.chance(1, 10) {
                    let n = a.len();
                    a[1 + r.below(n as u64 - 1) as usize] = r.of(&[NAN, INF]);
                }
                s.run("fit", &a);
            }
            5 => {
                let mut a = r.ints(4, -9, 9);
                a.push(r.of(&[1, 1, 2, 3, 5, 0, -2, INF]));
                s.run("herm3", &a);
            }
            6 => {
                let mut a = r.ints(8, -9, 9);
                a.push(r.of(&[1, 1, 2, 3, 4, 0, -2, NAN]));
                s.run("herm7", &a);
            }
            7 => {
                let n = r.int(0, 4);
                let mut a = vec![r.of(&[1, 2, 3, 4, 5, 8])];
                (0..n).for_each(|_| a.extend([r.int(-9, 9), r.int(0, 4)]));
                s.run("touni", &a);
            }
            _ => {}
        }
    }
}
fn main() {
    main_with(&[Model { name: "poly", make: |_| Box::new(D { p: Polynomial::zeros(), m: M::new() }), gen }]);
}
