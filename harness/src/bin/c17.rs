use multicalc::scalar::{constant, Dual, HyperDual, Jet, Numeric, Primal};
use vharness::*;
type DD<T> = Dual<Dual<T>>;
type JD<T> = Jet<Dual<T>, 5>;
/// The same four registers in every scalar type.
struct D<T: Numeric> {
    t: [T; 4],
    d: [Dual<T>; 4],
    h: [HyperDual<T>; 4],
    j: [Jet<T, 5>; 4],
    dd: [DD<T>; 4],
    jd: [JD<T>; 4],
}
type Six<T> = (T, Dual<T>, HyperDual<T>, Jet<T, 5>, DD<T>, JD<T>);
/// A polynomial in two infinitesimals (degree 4 and 1), as each type can carry it.
fn make<T: Numeric>(c: &[T]) -> Six<T> {
    (
        c[0],
        Dual::new(c[0], c[1]),
        HyperDual { real: c[0], eps1: c[1], eps2: c[5], eps1eps2: c[6] },
        Jet::new(std::array::from_fn(|i| c[i])),
        Dual::new(Dual::new(c[0], c[1]), Dual::new(c[5], c[6])),
        Jet::new(std::array::from_fn(|i| Dual::new(c[i], c[i + 5]))),
    )
}
fn flat<T: Numeric>(x: &Six<T>) -> Vec<T> {
    let mut o = vec![x.0, x.1.value, x.1.deriv, x.2.real, x.2.eps1, x.2.eps2, x.2.eps1eps2];
    o.extend(x.3.coeffs);
    o.extend([x.4.value.value, x.4.value.deriv, x.4.deriv.value, x.4.deriv.deriv]);
    o.extend((0..5).map(|i| x.5.coeffs[i].value));
    o.extend((0..5).map(|i| x.5.coeffs[i].deriv));
    o
}
fn ring<S: Numeric>(r: &[S; 4], op: &str, a: &[i64]) -> S {
    let x = r[a[1] as usize % 4];
    let y = r[*a.get(2).unwrap_or(&0) as usize % 4];
    let k = |i: usize| <S::Constant as Numeric>::from_f64(a[i] as f64);
    let mut z = x;
    match op {
        "add" => x + y,
        "sub" => x - y,
        "mul" => x * y,
        "div" => x / y,
        "add=" => {
            z += y;
            z
        }
        "sub=" => {
            z -= y;
            z
        }
        "mul=" => {
            z *= y;
            z
        }
        "div=" => {
            z /= y;
            z
        }
        "safe_div" => x.safe_div(y),
        "recip" => x.recip(),
        "neg" => -x,
        "abs" => x.abs(),
        "sign" => x.signum(),
        "max" => x.max(y),
        "min" => x.min(y),
        "copysign" => x.copysign(y),
        "powi" => x.powi(a[2] as i32),
        "mul_add" => x.mul_add(y, r[a[3] as usize]),
        "clamp" => x.clamp(k(2), k(3)),
        "branch" => {
            // a program that branches on its value
            if x < y { x * x - y } else if x == y { x + S::ONE } else { y * y + x }
        }
        "kadd" => constant(a[2] as f64) + x,
        "ksub" => constant(a[2] as f64) - x,
        "kmul" => constant(a[2] as f64) * x,
        "kdiv" => constant(a[2] as f64) / x,
        "const" => match a[1] {
            0 => S::ZERO,
            1 => S::ONE,
            2 => S::TWO,
            3 => S::THREE,
            4 => S::TEN,
            5 => S::HUNDRED,
            6 => S::ONE_HUNDRED_EIGHTY,
            7 => S::from_f64(a[2] as f64),
            8 => S::from_u64(a[2] as u64),
            9 => S::from_usize(a[2] as usize),
            10 => S::HALF * S::from_usize(2 * a[2] as usize),
            11 => (S::TWO_PI / S::PI) * S::from_f64(a[2] as f64),
            12 => S::EPSILON_X4 / S::EPSILON,
            _ => S::EPSILON_X30 / S::EPSILON,
        },
        _ => panic!("HARNESS {op}"),
    }
}
fn func<S: Numeric>(f: &str, u: S, v: S) -> S {
    match f {
        "sqrt" => u.sqrt(),
        "cbrt" => u.cbrt(),
        "sin" => u.sin(),
        "cos" => u.cos(),
        "tan" => u.tan(),
        "exp" => u.exp(),
        "expm1" => u.expm1(),
        "log" => u.log(),
        "ln_1p" => u.ln_1p(),
        "log2" => u.log2(),
        "log10" => u.log10(),
        "atan" => u.atan(),
        "asin" => u.asin(),
        "acos" => u.acos(),
        "sinh" => u.sinh(),
        "cosh" => u.cosh(),
        "tanh" => u.tanh(),
        "atan2" => u.atan2(v),
        "hypot" => u.hypot(v),
        "powf" => u.powf(v),
        "div" => u / v,
        "recip" => u.recip(),
        "rad" => u.to_radians(),
        "deg" => u.to_degrees(),
        "wrap" => u.wrap_to_pi(),
        "floor" => u.floor(),
        "ceil" => u.ceil(),
        "round" => u.round(),
        "trunc" => u.trunc(),
        "add" => u + v,
        "sub" => u - v,
        "mul" => u * v,
        "max" => u.max(v),
        "min" => u.min(v),
        "copysign" => u.copysign(v),
        "sign" => u.signum(),
        "abs" => u.abs(),
        "neg" => -u,
        "powi" => u.powi(-3),
        "safe_div" => u.safe_div(v),
        "mul_add" => u.mul_add(v, u),
        _ => panic!("HARNESS {f}"),
    }
}
const NAMES: [&str; 41] = [
    "sqrt", "cbrt", "sin", "cos", "tan", "exp", "expm1", "log", "ln_1p", "log2", "log10", "atan", "asin", "acos", "sinh", "cosh", "tanh", "atan2",
    "hypot", "powf", "div", "recip", "rad", "deg", "wrap", "floor", "ceil", "round", "trunc", "add", "sub", "mul", "max", "min", "copysign", "sign",
    "abs", "neg", "powi", "safe_div", "mul_add",
];
const FAR: [f64; 30] = [
    0.0, -0.0, 1e-300, -1e-300, 1e-9, -1e-9, 0.3, -0.3, 0.75, -0.75, 1.0, -1.0, 1.5, -1.5, 2.5, -2.5, 20.0, -20.0, 700.0, -700.0, 1e5, -1e5, 1e10,
    -1e10, 1e150, -1e150, 1e300, -1e300, 800.0, -800.0,
];
const NEAR32: [f64; 30] = [
    0.0, -0.0, 1e-37, -1e-37, 1e-5, -1e-5, 0.3, -0.3, 0.75, -0.75, 1.0, -1.0, 1.5, -1.5, 2.5, -2.5, 12.0, -12.0, 87.0, -87.0, 1e4, -1e4, 1e6, -1e6,
    1e15, -1e15, 1e36, -1e36, 100.0, -100.0,
];
impl<T: Numeric + Fl + Primal> D<T> {
    fn six(&self, f: impl Fn(&D<T>) -> Six<T>) -> Six<T> {
        f(self)
    }
}
fn wide<T: Fl + Numeric>(x: T) -> f64 {
    x.into()
}
impl<T: Fl + Numeric + Primal> Driver for D<T> {
    fn apply(&mut self, op: &str, a: &[i64]) -> Obs {
        let single = wide(T::EPSILON) > 1e-10;
        let reg = |i: i64, me: &Self| -> Six<T> {
            let i = i as usize;
            (me.t[i], me.d[i], me.h[i], me.j[i], me.dd[i], me.jd[i])
        };
        if let Some(f) = op.strip_prefix("f.") {
            let c = |o: usize| a[o..o + 10].iter().map(|k| T::from_f64(dec(*k, 4.0))).collect::<Vec<_>>();
            let (u, v) = (make(&c(0)), make(&c(10)));
            let y = (func(f, u.0, v.0), func(f, u.1, v.1), func(f, u.2, v.2), func(f, u.3, v.3), func(f, u.4, v.4), func(f, u.5, v.5));
            // quantities beyond 150 are only known to be large
            return ok(flat(&y).iter().map(|x| if wide(*x).abs() > 150.0 { 1_900_000_000 } else { enc_tol(wide(*x), 1e4, 0.51) }).collect());
        }
        match op {
            "plain" => {
                let list = if single { NEAR32 } else { FAR };
                let f = NAMES[a[0] as usize];
                let (x, y) = (T::from_f64(list[a[1] as usize]), T::from_f64(list[a[2] as usize]));
                let one = |x: T| {
                    let mut c = vec![T::ZERO; 10];
                    (c[0], c[1]) = (x, T::ONE);
                    make(&c)
                };
                let (u, v) = (one(x), one(y));
                let want = wide(func(f, x, y));
                let same = |got: T| {
                    let got = wide(got);
                    let (rel, abs) = if single { (1e-4, 1e-6) } else { (1e-9, 1e-12) };
                    b((want.is_nan() && got.is_nan()) || want == got || (want - got).abs() <= rel * want.abs().min(1e300) + abs)
                };
                ok(vec![
                    same(func(f, u.1, v.1).value),
                    same(func(f, u.2, v.2).real),
                    same(func(f, u.3, v.3).coeffs[0]),
                    same(func(f, u.4, v.4).value.value),
                    same(func(f, u.5, v.5).coeffs[0].value),
                ])
            }
            "class" => {
                let mut c = vec![T::from_f64(dec(a[1], 1.0)); 10];
                c[0] = T::from_f64(dec(a[0], 1.0));
                let x = make(&c);
                macro_rules! k {
                    ($s:expr) => {
                        [b($s.is_nan()), b($s.is_finite()), b($s.is_infinite())]
                    };
                }
                ok([k!(x.0), k!(x.1), k!(x.2), k!(x.3), k!(x.4), k!(x.5)].concat())
            }
            "cmp" => {
                let (x, y) = (reg(a[0], self), reg(a[1], self));
                macro_rules! k {
                    ($i:tt) => {
                        [match x.$i.partial_cmp(&y.$i) {
                            None => 9,
                            Some(o) => o as i64,
                        }, b(x.$i == y.$i)]
                    };
                }
                ok([k!(0), k!(1), k!(2), k!(3), k!(4), k!(5)].concat())
            }
            "primal" => {
                let x = reg(a[0], self);
                macro_rules! k {
                    ($i:tt) => {
                        [enc(x.$i.to_f64(), 1.0), enc(f64::from(x.$i.to_f32()), 1.0)]
                    };
                }
                ok([k!(0), k!(1), k!(2), k!(3), k!(4), k!(5)].concat())
            }
            "derivs" => {
                // what the jet's accessors say
                let x = reg(a[0], self);
                ok((0..5).map(|k| enc(wide(x.3.derivative(k)), 1.0)).chain((0..5).map(|k| enc(wide(x.3.coefficient(k)), 1.0))).chain([enc(wide(x.3.value()), 1.0)]).collect())
            }
            _ => {
                let s = match op {
                    "load" => make(&a[1..].iter().map(|k| T::from_f64(*k as f64)).collect::<Vec<_>>()),
                    "var" => {
                        let x = T::from_f64(a[1] as f64);
                        (x, Dual::variable(x), HyperDual::variable(x), Jet::variable(x), Dual::new(Dual::variable(x), Dual::constant(T::ONE)), {
                            let mut j = JD::variable(Dual::constant(x));
                            j.coeffs[0].deriv = T::ONE;
                            j
                        })
                    }
                    "fix" => {
                        let x = T::from_f64(a[1] as f64);
                        (x, Dual::constant(x), HyperDual::constant(x), Jet::constant(x), Dual::constant(Dual::constant(x)), JD::constant(Dual::constant(x)))
                    }
                    _ => self.six(|m| (ring(&m.t, op, a), ring(&m.d, op, a), ring(&m.h, op, a), ring(&m.j, op, a), ring(&m.dd, op, a), ring(&m.jd, op, a))),
                };
                let i = a[0] as usize;
                (self.t[i], self.d[i], self.h[i], self.j[i], self.dd[i], self.jd[i]) = s;
                ok(flat(&s).iter().map(|x| enc(wide(*x), 1.0)).collect())
            }
        }
    }
}
fn new<T: Fl + Numeric + Primal + 'static>() -> Box<dyn Driver> {
    let z = make(&[T::ZERO; 10]);
    Box::new(D { t: [z.0; 4], d: [z.1; 4], h: [z.2; 4], j: [z.3; 4], dd: [z.4; 4], jd: [z.5; 4] })
}
/// Coefficients around a value, sparse more often than not.
fn near(r: &mut Rng, c0: i64, m: i64) -> Vec<i64> {
    let p = r.int(1, 4);
    let mut c: Vec<i64> = (0..10).map(|_| if r.int(0, 4) < p { r.int(-m, m) } else { 0 }).collect();
    c[0] = c0;
    c
}
fn gen(r: &mut Rng, s: &mut Sess) {
    let lim = if s.ty == "f32" { 700 } else { 9000 };
    match r.int(0, 5) {
        0..=2 => {
            // a straight-line program; registers that grow too large are loaded afresh
            let mut size = [0i64; 4];
            let mut val = [0i64; 4];
            for _ in 0..r.int(4, 14) {
                let d = r.int(0, 3);
                if let Some(i) = (0..4).find(|i| size[*i] > lim) {
                    let v = r.int(-4, 4);
                    let mut a = vec![i as i64];
                    a.extend(near(r, v, 4));
                    s.run("load", &a);
                    size[i] = 4;
                    val[i] = v;
                }
                let (x, y, z) = (r.int(0, 3), r.int(0, 3), r.int(0, 3));
                let (op, a): (&str, Vec<i64>) = match r.int(0, 30) {
                    0 => ("var", vec![d, r.int(-5, 5)]),
                    1 => ("fix", vec![d, r.int(-9, 9)]),
                    2 | 3 => {
                        let v = r.int(-4, 4);
                        let mut a = vec![d];
                        a.extend(near(r, v, 4));
                        ("load", a)
                    }
                    4 => ("const", vec![d, r.int(0, 13), r.int(0, 20)]),
                    5 => ("add", vec![d, x, y]),
                    6 => ("sub", vec![d, x, y]),
                    7..=9 => ("mul", vec![d, x, y]),
                    10 => (*r.pick(&["add=", "sub=", "mul="]), vec![d, x, y]),
                    11..=13 => {
                        if val[y as usize].abs() != 1 {
                            let v = r.of(&[1, -1]);
                            let mut a = vec![y];
                            a.extend(near(r, v, 2));
                            s.run("load", &a);
                            (size[y as usize], val[y as usize]) = (2, v);
                        }
                        if size[y as usize] > 6 || size[x as usize] > lim / 8 {
                            ("neg", vec![d, x])
                        } else {
                            match r.int(0, 5) {
                                0 => ("recip", vec![d, y]),
                                1 => ("safe_div", vec![d, x, y]),
                                2 => ("div=", vec![d, x, y]),
                                3 => ("kdiv", vec![d, y, r.int(-9, 9)]),
                                4 if size[y as usize] <= 3 => ("powi", vec![d, y, r.int(-3, 0)]),
                                _ => ("div", vec![d, x, y]),
                            }
                        }
                    }
                    14 => ("neg", vec![d, x]),
                    15 | 16 => ("abs", vec![d, x]),
                    17 => ("max", vec![d, x, y]),
                    18 => ("min", vec![d, x, y]),
                    19 if val[y as usize] != 0 && val[x as usize] != 0 => ("copysign", vec![d, x, y]),
                    20 if val[x as usize] != 0 => ("sign", vec![d, x]),
                    21 => ("powi", vec![d, x, if size[x as usize] <= 5 { r.int(0, 4) } else { r.int(0, 1) }]),
                    22 => ("mul_add", vec![d, x, y, z]),
                    23 | 24 => {
                        let lo = r.int(-9, 5);
                        ("clamp", vec![d, x, lo, lo + r.int(0, 9)])
                    }
                    25 => ("branch", vec![d, x, y]),
                    26 => (*r.pick(&["kadd", "ksub", "kmul"]), vec![d, x, r.int(-9, 9)]),
                    27 => ("primal", vec![x]),
                    28 => ("derivs", vec![x]),
                    _ => ("cmp", vec![x, y]),
                };
                let o = s.run(op, &a);
                if o.v.len() == 26 {
                    size[a[0] as usize] = o.v.iter().map(|k| k.abs()).max().unwrap_or(0);
                    val[a[0] as usize] = o.v[0];
                }
            }
        }
        3 | 4 => {
            for _ in 0..6 {
                let f = NAMES[r.int(0, 28) as usize];
                let m = r.int(1, 4);
                let u0 = match f {
                    "sqrt" | "log" | "log2" | "log10" | "powf" => r.int(2, 12),
                    "ln_1p" => r.int(-2, 8),
                    "cbrt" | "recip" => r.of(&[-12, -5, -4, -3, 2, 3, 4, 8, 11]),
                    "tan" => r.int(-4, 4),
                    "asin" | "acos" => r.int(-3, 3),
                    "exp" | "expm1" | "sinh" | "cosh" | "tanh" => r.int(-10, 8),
                    "wrap" => r.of(&[-40, -26, -13, -12, -1, 0, 3, 12, 13, 20, 30, 70]),
                    _ => r.int(-12, 12),
                };
                let v0 = match f {
                    "div" => r.of(&[-9, -4, -2, 2, 3, 4, 8]),
                    "atan2" | "hypot" if u0.abs() < 3 => r.of(&[-9, -4, -3, 3, 5, 8]),
                    "powf" => r.int(-8, 8),
                    _ => r.int(-9, 9),
                };
                let mut a = near(r, u0, m);
                a.extend(near(r, v0, m));
                s.run(&format!("f.{f}"), &a);
            }
        }
        _ => {
            for _ in 0..8 {
                let f = r.int(0, 40);
                let a = [f, r.int(0, 29), r.int(0, 29)];
                s.run("plain", &a);
            }
            let a = [r.of(&[0, 1, -3, NAN, INF, NINF]), r.of(&[0, 1, NAN, INF, NINF])];
            s.run("class", &a);
        }
    }
}
fn main() {
    main_with(&[Model { name: "autodiff", make: |t| if t == "f32" { new::<f32>() } else { new::<f64>() }, gen }]);
}
