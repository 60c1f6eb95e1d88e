use multicalc::linear_algebra::{Matrix, PivotedQr, Vector};
use vharness::*;
const K: f64 = 10000.0;
fn x<T: Fl>(k: i64) -> T {
    T::from_f64(dec(k, 1.0))
}
fn mat<T: Fl, const M: usize, const N: usize>(a: &[i64]) -> Matrix<M, N, T> {
    Matrix::from_fn(|i, k| x(a[N * i + k]))
}
fn vec<T: Fl, const N: usize>(a: &[i64]) -> Vector<N, T> {
    Vector::from_fn(|i| x(a[i]))
}
fn k1<T: Fl>(v: T) -> i64 {
    enc_tol(v.into(), K, 0.51)
}
/// A ratio that may be enormous: held at a large number, infinity included.
fn ratio<T: Fl>(v: T) -> i64 {
    let y: f64 = v.into();
    if y.is_nan() { NAN } else { k1(T::from_f64(y.min(1e4))) }
}
fn whole<T: Fl>(v: T) -> i64 {
    let y: f64 = v.into();
    enc_tol(y, 1.0, 1e-5_f64.max(y.abs() * 1e-7))
}
fn ks<T: Fl, const N: usize>(v: Vector<N, T>) -> Vec<i64> {
    v.into_array().into_iter().map(k1).collect()
}
fn km<T: Fl, const M: usize, const N: usize>(m: Matrix<M, N, T>) -> Vec<i64> {
    (0..M).flat_map(|i| (0..N).map(move |k| k1(m[(i, k)]))).collect()
}
fn is<T: Fl>(v: impl IntoIterator<Item = T>) -> Vec<i64> {
    v.into_iter().map(whole).collect()
}
fn im<T: Fl, const M: usize, const N: usize>(m: Matrix<M, N, T>) -> Vec<i64> {
    (0..M).flat_map(|i| (0..N).map(move |k| whole(m[(i, k)]))).collect()
}
fn rect<const M: usize, const N: usize>(op: &str, a: &[i64]) -> Obs {
    let (raw, e) = (&a[..M * N], &a[M * N..]);
    let m: Matrix<M, N, f64> = mat(raw);
    match op {
        "basics" => {
            let (r, c) = (e[0] as usize - 1, e[1] as usize - 1);
            let row = m.try_row(r).unwrap();
            let col = m.try_column(c).unwrap();
            assert!(m.try_row(M).is_none() && m.try_column(N).is_none() && m.get(M, 0).is_none() && *m.get(r, c).unwrap() == m[(r, c)]);
            let flat: Vec<f64> = raw.iter().map(|&k| k as f64).collect();
            assert!(Matrix::<M, N, f64>::try_from_row_slice(&flat) == Some(m) && Matrix::<M, N, f64>::try_from_row_slice(&flat[1..]).is_none());
            let f = m.frobenius_norm();
            assert!((m + m) - m == m && m.scale(0.5) == m / 2.0);
            ok([im(m.transpose()), is(row.into_array()), is(col.into_array()), vec![whole(f * f)], im(m * m.transpose()), im(m * 3.0), im(-m), vec![b(m.is_finite())]].concat())
        }
        "qr" => res(PivotedQr::decompose(m), |q| [km(q.orthogonal()), km(q.triangular()), q.permutation().iter().map(|&p| p as i64 + 1).collect()].concat()),
        "ls" => match PivotedQr::decompose(m) {
            Err(e) => err(e),
            Ok(q) => res(q.solve_least_squares(vec(e)), ks),
        },
        "damped" => {
            let q = PivotedQr::decompose(m).unwrap();
            let perm = q.permutation();
            let d = std::array::from_fn(|i| e[i] as f64);
            let p = q.into_damped(vec(&e[N..]));
            let (sol, f) = p.solve_with_diagonal(&d);
            if d == [0.0; N] {
                assert!(p.solve_with_zero_diagonal().0 == sol);
            }
            let z: Vector<N, f64> = vec(&e[N + M..]);
            let nz = m.transpose() * (m * z) + Vector::from_fn(|i| d[i] * d[i] * z[i]);
            let w = f.solve(std::array::from_fn(|i| nz[perm[i]]));
            let x0: Vector<N, f64> = vec(&e[2 * N + M..]);
            let l = p.a_x_norm(&x0);
            let g = p.max_a_t_b_scaled(e[3 * N + M] as f64);
            ok([ks(sol), vec![enc_tol(w.iter().map(|y| y * y).sum(), 1.0, 1e-4), whole(l * l), b(p.is_non_singular()), enc_tol(g * g, 1000.0, 0.51)]].concat())
        }
        "svd" => res(m.svd(), |s| [km(s.left()), ks(s.singular_values()), km(s.right()), vec![s.rank(1e-6) as i64, ratio(s.condition_number())], ks(s.solve(vec(e)))].concat()),
        "pinv" => {
            // Default cutoff when told so; otherwise one well clear of rounding.
            if e[0] == 1 {
                res(m.pseudo_inverse(), km)
            } else if M >= N {
                res(m.svd(), |s| km(s.pseudo_inverse_tol(1e-6)))
            } else {
                res(m.transpose().svd(), |s| km(s.pseudo_inverse_tol(1e-6).transpose()))
            }
        }
        _ => panic!("HARNESS op {op}"),
    }
}
fn square<const N: usize>(op: &str, a: &[i64]) -> Obs {
    let (raw, e) = (&a[..N * N], &a[N * N..]);
    let m: Matrix<N, N, f64> = mat(raw);
    match op {
        "det" => ok(vec![whole(m.determinant()), whole(m.trace())]),
        "square" => {
            let f = Matrix::from_diagonal(m.diagonal());
            assert!((0..N).all(|i| (0..N).all(|k| f[(i, k)] == if i == k { m[(i, k)] } else { 0.0 })));
            ok([is(m.diagonal()), im(m.symmetrized() * 2.0), vec![b(m.is_symmetric())], is((m * vec(e)).into_array())].concat())
        }
        "vector" => {
            let (p, q): (Vector<N, f64>, Vector<N, f64>) = (vec(e), vec(&e[N..]));
            let n = p.norm();
            let u = p.try_normalized();
            let mut moved = p;
            assert!(moved.try_normalize().is_some() == u.is_some() && (u.is_none() || moved == u.unwrap() && p.normalized() == moved));
            ok([vec![whole(p.dot(q)), whole(n * n)], is((p + q).into_array()), is((p - q).into_array()), is((-p * 2.0).into_array()), vec![b(u.is_some())], u.map_or(vec![0; N], ks)].concat())
        }
        "lu" => res(m.lu_decompose(), |f| [km(f.lower()), km(f.upper()), f.permutation().iter().map(|&p| p as i64 + 1).collect(), vec![whole(f.determinant())]].concat()),
        "solve" => {
            let (p, q): (Vector<N, f64>, Vector<N, f64>) = (vec(e), vec(&e[N..]));
            let both = Matrix::<N, 2, f64>::from_fn(|i, k| if k == 0 { p[i] } else { q[i] });
            match (m.solve(p), m.lu_decompose()) {
                (Ok(y), Ok(f)) => {
                    let z = f.solve_matrix(both);
                    ok([ks(y), ks(f.solve(p)), ks(z.try_column(0).unwrap()), ks(z.try_column(1).unwrap())].concat())
                }
                (Err(d), Err(f)) if d == f => err(d),
                other => tag(&format!("{other:?}"), vec![]),
            }
        }
        "inverse" => res(m.inverse(), km),
        "edge" => {
            let s = if e[0] == 0 { 0.0 } else { 2f64.powi(-(e[0] as i32)) };
            let g = Matrix::<N, N, f64>::from_fn(|i, k| if (i + e[1] as usize) % N != k { 0.0 } else if k == N - 1 { s } else { 1.0 });
            let code = |r: Result<(), multicalc::error::LinalgError>| match r {
                Ok(()) => 0,
                Err(multicalc::error::LinalgError::IllConditioned) => 1,
                Err(multicalc::error::LinalgError::Singular) => 2,
                Err(_) => 3,
            };
            let f = if s == 0.0 { 1.0 } else { 1.0 / s };
            ok(vec![code(g.lu_decompose().map(|_| ())), code(g.inverse().map(|_| ())), whole(g.determinant() * f)])
        }
        "chol" => {
            let mut m = m;
            for i in 0..N {
                if e[i] == NAN {
                    m[(i, i)] = f64::NAN;
                }
            }
            res(m.cholesky(), |c| {
                let both = Matrix::<N, 1, f64>::from_fn(|i, _| e[i] as f64);
                assert!(c.solve_matrix(both).try_column(0).unwrap() == c.solve(vec(e)));
                [km(c.lower()), km(c.inverse()), ks(c.solve(vec(e))), vec![whole(c.determinant())]].concat()
            })
        }
        "eig" => res(m.symmetric_eigendecomposition(), |s| {
            [ks(s.eigenvalues()), km(s.eigenvectors()), km(s.clamped(e[0] as f64)), vec![whole(s.determinant()), b(s.is_positive_definite()), ratio(s.condition_number())]].concat()
        }),
        _ => rect::<N, N>(op, a),
    }
}
struct D;
impl Driver for D {
    fn apply(&mut self, op: &str, a: &[i64]) -> Obs {
        let r = &a[2..];
        macro_rules! pick { ($($m:literal $n:literal),*) => { match (a[0], a[1]) {
            (1, 1) => square::<1>(op, r), (2, 2) => square::<2>(op, r), (3, 3) => square::<3>(op, r), (4, 4) => square::<4>(op, r), (5, 5) => square::<5>(op, r), (6, 6) => square::<6>(op, r),
            $(($m, $n) => rect::<$m, $n>(op, r),)* o => panic!("HARNESS size {o:?}") } } }
        pick!(2 1, 3 1, 3 2, 4 2, 4 3, 5 3, 1 2, 1 3, 2 3, 2 4, 3 4)
    }
}
/// A whole matrix with the structure that decides pivots: random, sparse, low rank, permuted triangular.
fn entries(r: &mut Rng, m: usize, n: usize, z: i64) -> Vec<i64> {
    let mut v = r.ints(m * n, -z, z);
    match r.below(8) {
        0 => for k in v.iter_mut() { if r.chance(1, 2) { *k = 0 } },
        1 if m > 1 => { let (i, k, f) = (r.below(m as u64) as usize, r.below(m as u64) as usize, r.of(&[1, 1, -1, 0])); if i != k { for c in 0..n { v[i * n + c] = f * v[k * n + c] } } }
        2 if n > 1 => { let (i, k, f) = (r.below(n as u64) as usize, r.below(n as u64) as usize, r.of(&[1, -1, 0])); if i != k { for c in 0..m { v[c * n + i] = f * v[c * n + k] } } }
        3 => { let mut p: Vec<usize> = (0..m).collect(); r.shuffle(&mut p); for i in 0..m { for c in 0..n { if c < p[i] { v[i * n + c] = 0 } else if c == p[i] { v[i * n + c] = r.of(&[1, -1, 2]) } } } }
        4 => { let d = v[0]; for i in 0..m.min(n) { v[i * n + i] = if r.chance(1, 2) { 0 } else { d } } }
        _ => {}
    }
    v
}
fn det(v: &[i64], n: usize) -> i128 {
    if n == 0 { return 1 }
    (0..n).map(|c| { let s: Vec<i64> = (1..n).flat_map(|i| (0..n).filter(move |&k| k != c).map(move |k| (i, k))).map(|(i, k)| v[i * n + k]).collect(); (if c % 2 == 0 { 1 } else { -1 }) * v[c] as i128 * if v[c] == 0 { 0 } else { det(&s, n - 1) } }).sum()
}
fn gram(v: &[i64], m: usize, n: usize) -> Vec<i64> {
    (0..n * n).map(|q| (0..m).map(|i| v[i * n + q / n] * v[i * n + q % n]).sum()).collect()
}
/// Singular only where elimination meets an exact zero: a line of zeros or two equal lines.
fn plain(v: &[i64], n: usize) -> bool {
    det(v, n) != 0 || (0..n).any(|i| (0..n).all(|k| v[i * n + k] == 0) || (0..n).all(|k| v[k * n + i] == 0) || (0..i).any(|j| (0..n).all(|k| v[i * n + k].abs() == v[j * n + k].abs()) && ((0..n).all(|k| v[i * n + k] == v[j * n + k]) || (0..n).all(|k| v[i * n + k] == -v[j * n + k]))))
}
fn arg(m: usize, n: usize, v: &[i64], e: &[i64]) -> Vec<i64> {
    [&[m as i64, n as i64], v, e].concat()
}
fn gen(r: &mut Rng, s: &mut Sess) {
    for _ in 0..4 {
        let n = *r.pick(&[1usize, 2, 2, 3, 3, 3, 4, 4, 5, 6]);
        let z = if n <= 3 { r.of(&[1, 3, 9]) } else if n == 4 { r.of(&[1, 2, 5]) } else { r.of(&[1, 2]) };
        let v = entries(r, n, n, z);
        let be = r.ints(2 * n, -6, 6);
        match r.below(9) {
            0 => { s.run("det", &arg(n, n, &v, &[])); }
            1 => { s.run("square", &arg(n, n, &if r.chance(1, 2) { gram(&v, n, n) } else { v }, &be[..n])); }
            2 => { s.run("vector", &arg(n, n, &vec![0; n * n], &if r.chance(1, 6) { vec![0; 2 * n] } else { be })); }
            3 | 4 => if plain(&v, n) { s.run("lu", &arg(n, n, &v, &[])); },
            5 => if plain(&v, n) { s.run("solve", &arg(n, n, &v, &be)); },
            6 => if n <= 4 || plain(&v, n) { s.run("inverse", &arg(n, n, &v, &[])); },
            7 => { s.run("edge", &arg(n, n, &vec![0; n * n], &[r.of(&[0, 1, 20, 40, 51, 52, 60, 70]).min(if n <= 4 { 70 } else { 70 }), r.int(0, n as i64 - 1)])); }
            _ => {
                let n = n.min(4);
                let mut g = match r.below(3) { 0 => gram(&entries(r, n, n, 2), n, n), 1 => { let mut g = gram(&entries(r, n, n, 2), n, n); for i in 0..n { g[i * n + i] += r.of(&[1, 1, 2, -1, -3]) } g } _ => entries(r, n, n, 4) };
                let mut be = be[..n].to_vec();
                if r.chance(1, 6) { let i = r.below(n as u64) as usize; be[i] = NAN }
                for i in 0..n { for k in i + 1..n { if r.chance(1, 2) { g[i * n + k] = r.int(-9, 9) } } }
                s.run("chol", &arg(n, n, &g, &be));
            }
        }
        let (m, n) = *r.pick(&[(1, 1), (2, 2), (3, 3), (4, 4), (2, 1), (3, 1), (3, 2), (4, 2), (4, 3), (5, 3), (1, 2), (1, 3), (2, 3), (2, 4), (3, 4)]);
        let z = r.of(&[1, 3]);
        let v = entries(r, m, n, z);
        let tall = m >= n;
        let rank = tall && det(&gram(&v, m, n), n) != 0;
        match r.below(7) {
            0 => { s.run("basics", &arg(m, n, &v, &[r.int(1, m as i64), r.int(1, n as i64)])); }
            1 => { s.run("qr", &arg(m, n, &v, &[])); }
            2 => if rank || tall && (0..n).any(|k| (0..m).all(|i| v[i * n + k] == 0) || (0..k).any(|j| (0..m).all(|i| v[i * n + k] == v[i * n + j]))) { s.run("ls", &arg(m, n, &v, &r.ints(m, -5, 5))); },
            3 => if tall && {
                // full rank apart from columns of zeros
                let keep: Vec<usize> = (0..n).filter(|&k| (0..m).any(|i| v[i * n + k] != 0)).collect();
                let u: Vec<i64> = (0..m).flat_map(|i| keep.iter().map(move |&k| (i, k))).map(|(i, k)| v[i * n + k]).collect();
                det(&gram(&u, m, keep.len()), keep.len()) != 0
            } {
                let d = if r.chance(1, 4) { vec![0; n] } else { r.ints(n, 0, 3) };
                let e = [d, r.ints(m, -4, 4), r.ints(2 * n, -3, 3), vec![r.int(0, 5)]].concat();
                s.run("damped", &arg(m, n, &v, &e));
            },
            4 => {
                let mut v = v;
                if r.chance(1, 6) { let i = r.below((m * n) as u64) as usize; v[i] = r.of(&[NAN, INF, NINF]) }
                s.run("svd", &arg(m, n, &v, &r.ints(m, -5, 5)));
            }
            5 => {
                let full = if tall { rank } else { det(&gram(&(0..m * n).map(|q| v[(q % m) * n + q / m]).collect::<Vec<_>>(), n, m), m) != 0 };
                let mut v = v;
                if r.chance(1, 8) { let i = r.below((m * n) as u64) as usize; v[i] = r.of(&[NAN, INF]) }
                s.run("pinv", &arg(m, n, &v, &[b(full)]));
            }
            _ => {
                let n = *r.pick(&[1usize, 2, 3, 3, 4]);
                let g = entries(r, n, n, 4);
                let mut g: Vec<i64> = match r.below(3) { 0 => gram(&g, n, n).iter().map(|k| k % 30).collect(), _ => (0..n * n).map(|q| g[(q / n).max(q % n) * n + (q / n).min(q % n)]).collect() };
                if r.chance(1, 8) && n > 1 { g[1] += 1 }
                if r.chance(1, 10) { let i = r.below((n * n) as u64) as usize; g[i] = r.of(&[NAN, INF]) }
                s.run("eig", &arg(n, n, &g, &[r.int(-4, 4)]));
            }
        }
    }
}
fn main() {
    main_with(&[Model { name: "linalg", make: |_| Box::new(D), gen }]);
}
