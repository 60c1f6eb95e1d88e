use multicalc::control::Lqr;
use multicalc::discretization::{q_discrete_white_noise, van_loan, zoh};
use multicalc::error::ControlError;
use multicalc::linear_algebra::{Matrix, Vector, solve_discrete_lyapunov};
use vharness::*;
const K: f64 = 10000.0;
const M6: f64 = 1e6;
fn mat<const M: usize, const N: usize>(a: &[i64], scale: f64) -> Matrix<M, N, f64> {
    Matrix::from_fn(|i, k| dec(a[N * i + k], scale))
}
fn vec<const N: usize>(a: &[i64]) -> Vector<N, f64> {
    Vector::from_fn(|i| a[i] as f64)
}
fn km<const M: usize, const N: usize>(m: Matrix<M, N, f64>, scale: f64, tol: f64) -> Vec<i64> {
    (0..M).flat_map(|i| (0..N).map(move |k| enc_tol(m[(i, k)], scale, tol.max(m[(i, k)].abs() * scale * 1e-9)))).collect()
}
fn held<const M: usize, const N: usize>(m: Matrix<M, N, f64>) -> Vec<i64> {
    // enormous solutions are only known to be enormous
    (0..M).flat_map(|i| (0..N).map(move |k| if m[(i, k)].abs() > 2e4 { 200_000_000 } else { enc_tol(m[(i, k)], K, 0.51) })).collect()
}
fn kv<const N: usize>(v: Vector<N, f64>) -> Vec<i64> {
    v.into_array().into_iter().map(|y| if y.abs() > 2e4 { 200_000_000 } else { enc_tol(y, K, 0.51) }).collect()
}
fn name(e: ControlError) -> Obs {
    match e {
        ControlError::Linalg(e) => err(e),
        e => err(e),
    }
}
fn lqr<const N: usize, const M: usize>(a: &[i64]) -> Obs {
    let mut k = 0;
    let mut take = |n: usize| {
        k += n;
        &a[k - n..k]
    };
    let (f, g) = (mat::<N, N>(take(N * N), 1.0), mat::<N, M>(take(N * M), 1.0));
    let (q, r) = (mat::<N, N>(take(N * N), 1.0), mat::<M, M>(take(M * M), 1.0));
    let (x, x0, u0) = (vec::<N>(take(N)), vec::<N>(take(N)), vec::<M>(take(M)));
    match Lqr::new(f, g, q, r) {
        Err(e) => name(e),
        Ok(l) => {
            let (code, cert) = match l.certify_stability() {
                Ok(p) => (1, held(p)),
                Err(_) => (0, vec![0; N * N]),
            };
            ok([held(l.cost_to_go()), held(l.gain()), held(l.closed_loop()), kv(l.control(x)), kv(l.control_tracking(x, x0, u0)), vec![code], cert].concat())
        }
    }
}
fn hold<const N: usize, const M: usize, const NM: usize>(a: &[i64]) -> Obs {
    let t = dec(a[1], 1.0) / a[2] as f64;
    res(zoh::<N, M, NM, f64>(mat(&a[3..], a[0] as f64), mat(&a[3 + N * N..], 1.0), t), |(f, g)| [km(f, M6, 0.51), km(g, M6, 0.51)].concat())
}
fn noise<const N: usize, const N2: usize>(a: &[i64]) -> Obs {
    let t = dec(a[1], 1.0) / a[2] as f64;
    res(van_loan::<N, N2, f64>(mat(&a[3..], a[0] as f64), mat(&a[3 + N * N..], 1.0), t), |(f, q)| [km(f, M6, 0.51), km(q, M6, 0.51)].concat())
}
fn exp<const N: usize>(op: &str, a: &[i64]) -> Obs {
    let n = N * N;
    match op {
        "expm" => res(mat::<N, N>(&a[1..], a[0] as f64).expm(), |m| km(m, M6, 0.51)),
        "modes" => {
            let (p, pi) = (mat::<N, N>(&a[N..], 1.0), mat::<N, N>(&a[N + n..], 1.0));
            let d = Matrix::from_diagonal(std::array::from_fn(|i| a[i] as f64 * std::f64::consts::LN_2));
            res((p * d * pi).expm(), |m| km(m, 256.0, 1e-4))
        }
        "chain" => {
            let (p, pi) = (mat::<N, N>(&a[1..], 1.0), mat::<N, N>(&a[1 + n..], 1.0));
            let d = Matrix::from_fn(|i, k| if k == i + 1 { a[0] as f64 } else { 0.0 });
            res((p * d * pi).expm(), |m| km(m, 24.0, 1e-4))
        }
        "wild" => {
            let m = Matrix::<N, N, f64>::from_fn(|i, k| {
                if a[0] == 1 {
                    if k == 0 && i < 2 { f64::MAX } else { 0.0 }
                } else if i == 0 && k == N - 1 {
                    dec(a[0], 1.0)
                } else {
                    0.5
                }
            });
            res(m.expm(), |m| km(m, 1.0, 0.1))
        }
        "lyap" => res(solve_discrete_lyapunov(mat::<N, N>(&a[1..], a[0] as f64), mat(&a[1 + n..], 1.0)), held),
        _ => panic!("HARNESS {op}"),
    }
}
struct D;
impl Driver for D {
    fn apply(&mut self, op: &str, a: &[i64]) -> Obs {
        match (op, a[0]) {
            ("turn", _) => {
                let (d, t) = (a[1] as f64 * std::f64::consts::LN_2, a[2] as f64 / K);
                res(Matrix::<2, 2>::new([[d, -t], [t, d]]).expm(), |m| km(m, K, 0.51))
            }
            ("white", 2) => ok(km(q_discrete_white_noise::<2, f64>(a[1] as f64 / 2.0, a[2] as f64), 2304.0, 1e-6)),
            ("white", 3) => ok(km(q_discrete_white_noise::<3, f64>(a[1] as f64 / 2.0, a[2] as f64), 2304.0, 1e-6)),
            ("white", _) => ok(km(q_discrete_white_noise::<4, f64>(a[1] as f64 / 2.0, a[2] as f64), 2304.0, 1e-6)),
            ("zoh", n) => match (n, a[1]) {
                (1, 1) => hold::<1, 1, 2>(&a[2..]),
                (2, 1) => hold::<2, 1, 3>(&a[2..]),
                (2, 2) => hold::<2, 2, 4>(&a[2..]),
                (3, 1) => hold::<3, 1, 4>(&a[2..]),
                (3, 2) => hold::<3, 2, 5>(&a[2..]),
                _ => panic!("HARNESS size"),
            },
            ("loan", 1) => noise::<1, 2>(&a[1..]),
            ("loan", 2) => noise::<2, 4>(&a[1..]),
            ("loan", _) => noise::<3, 6>(&a[1..]),
            ("lqr", n) => match (n, a[1]) {
                (1, 1) => lqr::<1, 1>(&a[2..]),
                (2, 1) => lqr::<2, 1>(&a[2..]),
                (2, 2) => lqr::<2, 2>(&a[2..]),
                (3, 1) => lqr::<3, 1>(&a[2..]),
                (3, 2) => lqr::<3, 2>(&a[2..]),
                _ => panic!("HARNESS size"),
            },
            (_, 1) => exp::<1>(op, &a[1..]),
            (_, 2) => exp::<2>(op, &a[1..]),
            (_, 3) => exp::<3>(op, &a[1..]),
            _ => exp::<4>(op, &a[1..]),
        }
    }
}
fn cat(p: &[i64], q: &[&[i64]]) -> Vec<i64> {
    [p, &q.concat()].concat()
}
/// A whole change of coordinates with a whole inverse, built from shears and swaps.
fn frame(r: &mut Rng, n: usize) -> (Vec<i64>, Vec<i64>) {
    let eye: Vec<i64> = (0..n * n).map(|k| b(k / n == k % n)).collect();
    let (mut p, mut q) = (eye.clone(), eye);
    for _ in 0..if n > 1 { r.int(0, 3) } else { 0 } {
        let i = r.below(n as u64) as usize;
        let k = (i + 1 + r.below(n as u64 - 1) as usize) % n;
        let c = r.of(&[-1, 1]);
        // p <- p (I + c E_ik), q <- (I - c E_ik) q
        for l in 0..n {
            p[l * n + k] += c * p[l * n + i];
        }
        for l in 0..n {
            q[i * n + l] -= c * q[k * n + l];
        }
    }
    (p, q)
}
fn sym(r: &mut Rng, n: usize, kind: u64) -> Vec<i64> {
    let g = r.ints(n * n, -2, 2);
    (0..n * n)
        .map(|k| {
            let (i, j) = (k / n, k % n);
            let s: i64 = (0..n).map(|l| g[l * n + i] * g[l * n + j]).sum();
            match kind {
                0 => s + b(i == j),
                1 => s,
                2 => b(i == j) * (1 + i as i64),
                _ => g[i.min(j) * n + i.max(j)],
            }
        })
        .collect()
}
fn spoil(r: &mut Rng, v: &mut [i64]) {
    let i = r.below(v.len() as u64) as usize;
    v[i] = r.of(&[NAN, INF, NINF]);
}
fn gen_(r: &mut Rng, s: &mut Sess) {
    for _ in 0..6 {
        let n = *r.pick(&[1usize, 2, 2, 3, 3, 4]);
        let m3 = n.min(3);
        let d = r.of(&[2, 4, 8]);
        let q = r.of(&[4, 8]);
        let mut a = r.ints(n * n, -4, 4);
        if r.chance(1, 3) {
            for k in a.iter_mut() {
                if r.chance(1, 2) {
                    *k = 0;
                }
            }
        }
        let small: Vec<i64> = a[..m3 * m3].to_vec();
        match r.below(10) {
            0 => {
                s.run("expm", &cat(&[n as i64, if n > 2 { 8 } else { d.max(4) }], &[&a]));
            }
            1 => {
                s.run("turn", &[2, r.int(-8, 3), r.int(-300_000, 300_000)]);
            }
            2 => {
                let (p, pi) = frame(r, n);
                let ks = if r.chance(1, 10) { vec![2000; n] } else { r.ints(n, -8, 3) };
                s.run("modes", &cat(&[n as i64], &[&ks, &p, &pi]));
            }
            3 => {
                let (p, pi) = frame(r, n);
                s.run("chain", &cat(&[n as i64, r.int(-40, 40)], &[&p, &pi]));
            }
            4 => {
                s.run("wild", &[2.max(n as i64), r.of(&[NAN, INF, NINF, 1])]);
            }
            5 => {
                let (n, m) = *r.pick(&[(1usize, 1usize), (2, 1), (2, 2), (3, 1), (3, 2)]);
                let p = if r.chance(1, 12) { r.of(&[NAN, INF, NINF, -1]) } else { r.int(0, q) };
                let a = r.ints(n * n, -3, 3);
                s.run("zoh", &cat(&[n as i64, m as i64, 4, p, q], &[&a, &r.ints(n * m, -3, 3)]));
            }
            6 => {
                let p = if r.chance(1, 12) { r.of(&[NAN, INF, NINF, -1]) } else { r.int(0, q) };
                let kind = r.below(3);
                let noise = sym(r, m3, kind);
                let small = r.ints(m3 * m3, -3, 3);
                s.run("loan", &cat(&[m3 as i64, 4, p, q], &[&small, &noise]));
            }
            7 => {
                s.run("white", &[r.int(2, 4), r.int(0, 4), r.int(0, 5)]);
            }
            8 => {
                let kind = r.below(4);
                let mut c = sym(r, m3, kind);
                let mut small = small;
                if r.chance(1, 12) {
                    let both = if r.chance(1, 2) { &mut c } else { &mut small };
                    spoil(r, both);
                } else if m3 > 1 && r.chance(1, 12) {
                    c[1] += 1;
                }
                s.run("lyap", &cat(&[m3 as i64, r.of(&[4, 5, 8])], &[&small, &c]));
            }
            _ => {
                let (n, m) = *r.pick(&[(1usize, 1usize), (2, 1), (2, 1), (2, 2), (3, 1), (3, 2)]);
                let mut a = r.ints(n * n, -2, 2);
                let mut bm = r.ints(n * m, -2, 2);
                if r.chance(1, 4) {
                    for k in bm.iter_mut() {
                        if r.chance(1, 2) {
                            *k = 0;
                        }
                    }
                }
                let kind = *r.pick(&[0, 0, 0, 2, 1, 3]);
                let mut c = sym(r, n, kind);
                let kind = *r.pick(&[0, 0, 2, 2, 3]);
                let mut e = sym(r, m, kind);
                if r.chance(1, 15) {
                    match r.below(4) {
                        0 => spoil(r, &mut a),
                        1 => spoil(r, &mut bm),
                        2 => spoil(r, &mut c),
                        _ => spoil(r, &mut e),
                    }
                } else if r.chance(1, 15) {
                    if n > 1 {
                        c[1] += 1;
                    }
                    if m > 1 {
                        e[1] -= 1;
                    }
                }
                let x = r.ints(2 * n, -3, 3);
                s.run("lqr", &cat(&[n as i64, m as i64], &[&a, &bm, &c, &e, &x, &r.ints(m, -3, 3)]));
            }
        }
    }
}
fn main() {
    main_with(&[Model { name: "disc", make: |_| Box::new(D), gen: gen_ }]);
}
