//! C01-C07 (matrices, linear algebra, modular solver) and C16 (partitions).
use hx::engine::*;
use hx::la::*;
use hx::{ensure, ensure_eq};

use num_traits::{One, Signed, Zero};
use rust_systre::arithmetic::linear_algebra::{extend_basis, gcdx, LinearAlgebra, Scalar};
use rust_systre::arithmetic::matrices::Matrix;
use rust_systre::arithmetic::modular_solver as ms;
use rust_systre::partitions::Partition;

fn main() {
    hx::engine::main(&[
        ("C01", c01), ("C02", c02), ("C03", c03), ("C04", c04), ("C05", c05),
        ("C06", c06), ("C07", c07), ("C16", c16), ("C51", c51),
    ]);
}

fn maxabs(m: &IM) -> i64 {
    m.iter().flatten().map(|x| x.abs()).max().unwrap_or(0)
}

/// Below these bounds no intermediate value can overflow the type.
fn tame<T: Kind>(m: &IM) -> bool {
    let (r, c) = (m.len(), m.get(0).map_or(0, |x| x.len()));
    let k = maxabs(m);
    match T::NAME {
        "rational" => true,
        "i64" => r <= 4 && c <= 4 && k <= 5,
        _ => r <= 3 && c <= 3 && k <= 4,
    }
}

trait Kind: FromI + Scalar + PartialEq + std::fmt::Debug + Zero + One + 'static {
    const NAME: &'static str;
    const INTEGER: bool;
}
impl Kind for Q { const NAME: &'static str = "rational"; const INTEGER: bool = false; }
impl Kind for i64 { const NAME: &'static str = "i64"; const INTEGER: bool = true; }
impl Kind for i32 { const NAME: &'static str = "i32"; const INTEGER: bool = true; }

/// `None` if the case leaves the range of a machine integer type.
fn in_range<R, T: Kind>(m: &IM, r: Result<R, String>, o: &mut Obs)
    -> Result<Option<R>, String>
{
    match r {
        Ok(x) => Ok(Some(x)),
        Err(e) if T::INTEGER && is_overflow(&e) && !tame::<T>(m) => {
            o.label("skipped: out of range");
            Ok(None)
        },
        Err(e) => Err(e),
    }
}

// ------------------------------------------------------------------ C01

fn c01_test<T: Kind>(m: &IM, o: &mut Obs) -> Outcome
    where Matrix<T>: LinearAlgebra<T>
{
    let (r, c) = (m.len(), m.get(0).map_or(0, |x| x.len()));
    let a = qm(m);
    let rk = rank(&a);
    o.label_if(rk < r.min(c), "rank deficient");
    o.label_if(r == c && r >= 4, "square >= 4");
    o.label_if(r != c, "rectangular");
    o.nontrivial(r >= 2 && c >= 2 && rk >= 2);

    let Some(x) = in_range::<_, T>(m, sut(|| lib::<T>(m, c).rank()), o)?
        else { return Ok(()) };
    ensure_eq!(x, rk, "rank over {} of {:?}", T::NAME, m);

    if r == c {
        let want = det(&a);
        o.label_if(want.is_negative(), "negative determinant");
        let d = sut(|| lib::<T>(m, c).determinant());
        let Some(d) = in_range::<_, T>(m, d, o)? else { return Ok(()) };
        ensure_eq!(d.tq(), want, "determinant over {} of {:?}", T::NAME, m);
    }
    Ok(())
}

fn c01(h: &mut Harness) {
    h.boost(6);
    h.rule("Integer and rational matrices of 6 kinds (dense, sparse, given \
        rank, repeated rows, permuted triangular, zero row/column); non-trivial: \
        at least 2x2 with rank at least 2. Most up to 6x7, some up to 12x14 or with entries of 100 digits.");
    h.assume("machine integer cases whose intermediate values overflow are \
        skipped and counted (rational arithmetic never is)");
    let ex: Vec<IM> = vec![
        vec![],
        vec![vec![0]],
        vec![vec![0, 0, 0, 1], vec![0, 0, 1, 0], vec![0, 1, 0, 0], vec![1, 0, 0, 0]],
        vec![vec![0, 1, 0, 0], vec![1, 0, 0, 0], vec![0, 0, 0, 1], vec![0, 0, 1, 0]],
        vec![vec![1, 2], vec![2, 4]],
    ];
    fn sq(g: &mut Gen, n: usize, k: i64) -> IM {
        if g.chance(1, 40) { return vec![]; }
        let r = g.larger(1, n, 2 * n);
        let c = if g.chance(2, 3) { r } else { g.larger(1, n + 1, 2 * n + 2) };
        gen_matrix(g, r, c, k)
    }
    h.sub("rational", 12000, 300000, ex.clone(),
        |g| { let k = *g.pick(&[1, 3, 9, 1000]); sq(g, 6, k) }, c01_test::<Q>);
    h.sub("i64", 24000, 600000, ex.clone(),
        |g| { let k = *g.pick(&[1, 2, 3, 9]); sq(g, 6, k) }, c01_test::<i64>);
    h.sub("i32", 24000, 600000, ex.clone(),
        |g| { let k = *g.pick(&[1, 2, 4]); sq(g, 5, k) }, c01_test::<i32>);
    h.sub("fractions", 6000, 150000, vec![],
        |g| {
            let n = g.size(1, 5);
            let m = gen_matrix(g, n, n, 9);
            let d: Vec<i64> = (0..n).map(|_| g.int(1, 12)).collect();
            (m, d)
        },
        |(m, d), o| {
            let a: QM = m.iter().enumerate().map(|(i, r)| r.iter().enumerate()
                .map(|(j, &x)| qf(x, d[i] * d[j])).collect()).collect();
            let (r, dd) = sut(|| (libq(&a).rank(), libq(&a).determinant()))?;
            o.nontrivial(a.len() > 1 && rank(&a) > 1);
            ensure_eq!(r, rank(&a), "rank of {:?}", a);
            ensure_eq!(dd, det(&a), "determinant of {:?}", a);
            Ok(())
        });
    h.sub("large numbers", 300, 8000, vec![],
        |g| { let r = g.size(1, 5); let c = if g.chance(2, 3) { r } else { g.size(1, 6) }; gen_big(g, r, c) },
        |b, o| {
            let a = b.q();
            big_note(&a, o);
            ensure_eq!(sut(|| libq(&a).rank())?, rank(&a), "rank of {:?}", a);
            if a.len() == a[0].len() {
                ensure_eq!(sut(|| libq(&a).determinant())?, det(&a), "determinant of {:?}", a);
            }
            Ok(())
        });
    h.sub("f64", 6000, 100000, vec![],
        |g| {
            let n = g.larger(1, 6, 12);
            let m = gen_dense(g, n, n, 9);
            let p = g.perm(n);
            (m, p)
        },
        |(m, p), o| {
            // diagonally dominant up to a row permutation: well conditioned
            let n = m.len();
            let mut m = m.clone();
            for i in 0..n {
                let s: i64 = m[i].iter().map(|x| x.abs()).sum();
                m[i][i] = if m[i][i] < 0 { -s - 1 } else { s + 1 };
            }
            let m: IM = if n <= 3 { p.iter().map(|&i| m[i].clone()).collect() }
                else { m };
            let d: Vec<f64> = m.iter().flatten().map(|&x| x as f64).collect();
            let (r, x) = sut(|| {
                let a = Matrix::new(n, &d);
                (a.rank(), a.determinant())
            })?;
            let want: f64 = det(&qm(&m)).to_integer().to_string().parse().unwrap();
            o.nontrivial(n >= 2);
            ensure_eq!(r, n, "f64 rank of {:?}", m);
            ensure!((x - want).abs() <= 1e-9 * want.abs(),
                "f64 determinant of {:?}: got {}, expected {}", m, x, want);
            Ok(())
        });
}

/// Rational matrices with numerators and denominators far beyond 64 bits: an
/// integer matrix with scaled rows and columns.
#[derive(Debug, Clone)]
struct Big {
    m: IM, rows: Vec<(u8, u8)>, cols: Vec<(u8, u8)>,
    /// Added to one entry: comparatively tiny, so that the matrix is all but
    /// of the lower rank it has without it.
    bump: Option<(usize, usize, i64, u8)>,
}

fn scale_of(&(n, d): &(u8, u8)) -> Q {
    let pow = |b: i64, e: u32| Q::from(num_traits::pow(z(b), e as usize));
    let f = |k: u8| match k {
        0 => q(1), 1 => q(1_000_003), 2 => q(i64::MAX), 3 => pow(2, 64) + q(13),
        4 => pow(10, 20), _ => pow(10, 40) + q(121),
    };
    let x = f(n >> 1) / f(d);
    if n & 1 == 1 { -x } else { x }
}

fn gen_big(g: &mut Gen, r: usize, c: usize) -> Big {
    let m = gen_matrix(g, r, c, 9);
    let mut f = |n: usize| (0..n).map(|_| if g.flip() { (g.below(12) as u8, g.below(6) as u8) }
        else { (0, 0) }).collect::<Vec<_>>();
    let (rows, cols) = (f(r), f(c));
    if r > 1 && c > 1 && g.chance(1, 3) {
        // all entries large
        let mut m = if g.flip() { m } else { gen_dense(g, r, c, 9) };
        if g.chance(3, 4) {
            let k = g.int(-3, 3);
            m[r - 1] = m[0].iter().map(|x| x * k).collect();
        }
        let k = 2 * (3 + g.below(3) as u8) + g.flip() as u8;
        let rows = if g.flip() { vec![(k, 0); r] } else { rows };
        let cols = if g.flip() { vec![(k, 0); c] } else { cols };
        let bump = (g.below(r as u64) as usize, g.below(c as u64) as usize,
            if g.flip() { 1 } else { -1 }, g.below(6) as u8);
        return Big { m, rows, cols, bump: Some(bump) };
    }
    Big { m, rows, cols, bump: None }
}

impl Big {
    fn q(&self) -> QM {
        let mut a: QM = self.m.iter().zip(&self.rows).map(|(r, s)| r.iter().zip(&self.cols)
            .map(|(&x, t)| q(x) * scale_of(s) * scale_of(t)).collect()).collect();
        if let Some((i, j, k, d)) = self.bump { a[i][j] += q(k) * scale_of(&(0, d)); }
        a
    }
}

fn big_note(a: &QM, o: &mut Obs) {
    o.nontrivial(a.iter().flatten().any(|x| x.numer().bits() > 64 || x.denom().bits() > 64));
    o.label_if(rank(a) < a.len().min(a[0].len()), "rank deficient");
    let fl = |x: &Q| -> f64 {
        let e = x.numer().bits() as f64 - x.denom().bits() as f64;
        if x.is_zero() { f64::NEG_INFINITY } else { e }
    };
    if a.len() == a[0].len() && a.len() > 1 {
        let size: f64 = a.iter().map(|r| r.iter().map(fl).fold(f64::NEG_INFINITY, f64::max)).sum();
        let d = det(a);
        o.label_if(!d.is_zero() && fl(&d) < size - 60.0, "all but singular");
    }
}

// ------------------------------------------------------------------ C02

#[derive(Debug, Clone)]
struct System { a: IM, b: IM }

fn gen_system(g: &mut Gen, n: usize, k: i64) -> System {
    let r = g.larger(1, n, 2 * n);
    let c = g.larger(1, n, 2 * n);
    let a = gen_matrix(g, r, c, k);
    let w = g.larger(1, 3, 12);
    let mut b = match g.weighted(&[3, 2, 1]) {
        0 => imul(&a, &gen_dense(g, c, w, 3)),
        1 => gen_matrix(g, r, w, k),
        _ => vec![vec![0; w]; r],
    };
    if g.chance(1, 4) {
        // perturb one entry, or take a fraction of an integral solution
        let i = g.below(r as u64) as usize;
        let j = g.below(w as u64) as usize;
        b[i][j] += g.int(-1, 1);
    }
    System { a, b }
}

fn int_solvable(a: &IM, b: &IM) -> bool {
    let at = transpose(&zm(a));
    let mut both = at.clone();
    both.extend(transpose(&zm(b)));
    hnf(&at) == hnf(&both)
}

fn c02_solve<T: Kind>(s: &System, o: &mut Obs) -> Outcome
    where
        Matrix<T>: LinearAlgebra<T>,
{
    let (r, c, w) = (s.a.len(), s.a[0].len(), s.b[0].len());
    let (a, b) = (qm(&s.a), qm(&s.b));
    let ab: QM = (0..r).map(|i| [a[i].clone(), b[i].clone()].concat()).collect();
    let rat = rank(&ab) == rank(&a);
    let solvable = if T::INTEGER { int_solvable(&s.a, &s.b) } else { rat };
    o.label(if solvable { "solvable" } else { "unsolvable" });
    o.label_if(rat && !solvable, "only rationally solvable");
    o.label_if(rank(&a) < c, "underdetermined");
    o.label_if(rank(&a) < r, "dependent rows");
    o.nontrivial(r > 1 && c > 1 && rank(&a) > 0 && b.iter().flatten().any(|x| !x.is_zero()));

    let both: IM = (0..r).map(|i| [s.a[i].clone(), s.b[i].clone()].concat()).collect();
    let x = sut(|| lib::<T>(&s.a, c).solve(&lib::<T>(&s.b, w)));
    let Some(x) = in_range::<_, T>(&both, x, o)? else { return Ok(()) };
    match x {
        None => ensure!(!solvable, "no solution reported over {}", T::NAME),
        Some(x) => {
            ensure_eq!(x.shape(), (c, w), "shape of the solution");
            let x = unlib(&x);
            ensure!(mul(&a, &x) == b,
                "A X = B violated over {} by X = {:?}", T::NAME, x);
            ensure!(solvable, "oracle disagrees on solvability");
        }
    }
    Ok(())
}

fn c02_inverse<T: Kind>(m: &IM, o: &mut Obs) -> Outcome
    where Matrix<T>: LinearAlgebra<T>
{
    let n = m.len();
    let a = qm(m);
    let d = det(&a);
    let exists = if T::INTEGER { d.abs().is_one() } else { !d.is_zero() };
    o.label(if exists { "invertible" } else { "not invertible" });
    o.nontrivial(n > 1 && exists);
    let x = sut(|| lib::<T>(m, n).inverse());
    let Some(x) = in_range::<_, T>(m, x, o)? else { return Ok(()) };
    match x {
        None => ensure!(!exists, "inverse not found over {}", T::NAME),
        Some(x) => {
            ensure_eq!(x.shape(), (n, n), "shape of the inverse");
            let x = unlib(&x);
            ensure!(exists, "inverse of a non-invertible matrix: {:?}", x);
            ensure!(mul(&a, &x) == identity(n) && mul(&x, &a) == identity(n),
                "not a two-sided inverse over {}: {:?}", T::NAME, x);
        }
    }
    Ok(())
}

fn c02(h: &mut Harness) {
    h.boost(6);
    h.rule("A of 6 kinds and B solvable by construction, arbitrary, zero or \
        perturbed; non-trivial: A larger than a vector with non-zero A and B \
        (solve), or an invertible matrix of size at least 2 (inverse). Most up to 5x5, some up to 10x10 or with large numbers.");
    h.assume("machine integer cases that overflow are skipped and counted");
    h.sub("solve_rational", 8000, 200000, vec![],
        |g| { let k = *g.pick(&[2, 5, 50]); gen_system(g, 5, k) }, c02_solve::<Q>);
    h.sub("solve_i64", 20000, 500000, vec![],
        |g| { let k = *g.pick(&[2, 3, 9]); gen_system(g, 5, k) }, c02_solve::<i64>);
    h.sub("solve_i32", 12000, 300000, vec![],
        |g| gen_system(g, 4, 3), c02_solve::<i32>);
    h.sub("large numbers", 300, 8000, vec![],
        |g| { let (r, c, w) = (g.size(1, 5), g.size(1, 5), g.size(1, 3));
            let a = gen_big(g, r, c);
            let b = if g.flip() { gen_big(g, r, w) } else { gen_big(g, c, w) };
            (a, b) },
        |(a, b), o| {
            let (a, b) = (a.q(), b.q());
            big_note(&a, o);
            let b = if b.len() == a.len() { b } else { mul(&a, &b) };
            let ab: QM = a.iter().zip(&b).map(|(x, y)| [x.clone(), y.clone()].concat()).collect();
            match sut(|| libq(&a).solve(&libq(&b)))? {
                None => ensure!(rank(&ab) > rank(&a), "no solution reported"),
                Some(x) => ensure!(mul(&a, &unlibq(&x)) == b, "A X = B violated by {:?}", x),
            }
            if a.len() == a[0].len() {
                let x = sut(|| libq(&a).inverse())?.map(|x| unlibq(&x));
                ensure!(x == inverse(&a), "inverse of {:?}: {:?}", a, x);
            }
            Ok(())
        });
    fn inv(g: &mut Gen, n: usize, k: i64) -> IM {
        let n = g.larger(1, n, 2 * n);
        match g.below(3) {
            0 => gen_unimodular(g, n, 6, 2),
            1 => gen_matrix(g, n, n, k),
            _ => {
                let mut m = gen_unimodular(g, n, 5, 2);
                let f = g.int(2, 3);
                let i = g.below(n as u64) as usize;
                for x in &mut m[i] { *x *= f; }
                m
            }
        }
    }
    h.sub("inverse_rational", 6000, 150000, vec![vec![]],
        |g| inv(g, 5, 9), c02_inverse::<Q>);
    h.sub("inverse_i64", 12000, 300000, vec![], |g| inv(g, 5, 3), c02_inverse::<i64>);
    h.sub("inverse_i32", 8000, 200000, vec![], |g| inv(g, 4, 2), c02_inverse::<i32>);
}

// ------------------------------------------------------------------ C03

fn c03_test<T: Kind>(m: &IM, o: &mut Obs) -> Outcome
    where Matrix<T>: LinearAlgebra<T>
{
    let c = m[0].len();
    let a = qm(m);
    let k = c - rank(&a);
    o.label_if(k == 0, "full column rank");
    o.label_if(k >= 2, "nullity >= 2");
    o.nontrivial(k > 0 && k < c);
    let x = sut(|| lib::<T>(m, c).null_space());
    let Some(x) = in_range::<_, T>(m, x, o)? else { return Ok(()) };
    match x {
        None => ensure_eq!(k, 0, "null space missing over {}; nullity", T::NAME),
        Some(x) => {
            ensure!(k > 0, "null space of a matrix of full column rank");
            ensure_eq!(x.shape(), (c, k), "shape of the null space");
            let x = unlib(&x);
            ensure!(mul(&a, &x).iter().flatten().all(|v| v.is_zero()),
                "A N = 0 violated over {}: {:?}", T::NAME, x);
            ensure_eq!(rank(&x), k, "rank of the null space columns");
            if T::INTEGER {
                // saturated: generates all integer solutions
                let cols = transpose(&x);
                let zs: ZM = cols.iter().map(|r|
                    r.iter().map(|v| v.to_integer()).collect()).collect();
                ensure!(saturated(&zs),
                    "columns do not generate all integer solutions: {:?}", x);
            }
        }
    }
    Ok(())
}

/// True if the row lattice of `a` contains every integer vector of its span:
/// the column lattice of a full-row-rank matrix must then be all of Z^k.
fn saturated(a: &ZM) -> bool {
    let t = transpose(a);
    let k = a.len();
    let id: ZM = (0..k).map(|i| (0..k).map(|j| z((i == j) as i64)).collect()).collect();
    hnf(&t) == id
}

fn c03(h: &mut Harness) {
    h.boost(8);
    h.rule("Matrices of 6 kinds up to 5x6, some up to 10x12 or with large numbers; non-trivial: nullity strictly \
        between 0 and the number of columns.");
    h.assume("machine integer cases that overflow are skipped and counted");
    fn gen(g: &mut Gen, k: i64) -> IM {
        let r = g.larger(1, 5, 10);
        let c = g.larger(1, 6, 12);
        gen_matrix(g, r, c, k)
    }
    h.sub("rational", 10000, 250000, vec![vec![vec![0, 0]]],
        |g| { let k = *g.pick(&[1, 5, 60]); gen(g, k) }, c03_test::<Q>);
    h.sub("i64", 20000, 500000, vec![vec![vec![0, 0]]],
        |g| { let k = *g.pick(&[1, 3, 8]); gen(g, k) }, c03_test::<i64>);
    h.sub("large numbers", 300, 8000, vec![],
        |g| { let (r, c) = (g.size(1, 5), g.size(1, 6)); gen_big(g, r, c) },
        |b, o| {
            let a = b.q();
            big_note(&a, o);
            let k = a[0].len() - rank(&a);
            match sut(|| libq(&a).null_space())? {
                None => ensure_eq!(k, 0, "null space missing; nullity"),
                Some(x) => {
                    ensure_eq!(x.shape(), (a[0].len(), k), "shape of the null space");
                    let x = unlibq(&x);
                    ensure!(mul(&a, &x).iter().flatten().all(|v| v.is_zero()), "A N = 0 violated: {:?}", x);
                    ensure_eq!(rank(&x), k, "rank of the null space columns");
                }
            }
            Ok(())
        });
}

// ------------------------------------------------------------------ C04

fn is_echelon<T: Kind>(b: &Vec<Vec<T>>) -> bool {
    let piv: Vec<Option<usize>> = b.iter()
        .map(|r| r.iter().position(|x| !x.is_zero())).collect();
    piv.iter().all(|p| p.is_some()) && piv.windows(2).all(|w| w[0] < w[1])
}

fn canon<T: Kind>(m: &QM) -> QM {
    if T::INTEGER { qhnf(m) } else { rref(m).0 }
}

fn c04_incremental<T: Kind>(m: &IM, o: &mut Obs) -> Outcome
    where T: Clone + std::ops::Neg<Output=T>
{
    o.nontrivial(m.len() >= 3 && rank(&qm(m)) >= 2);
    o.label_if(rank(&qm(m)) < m.len(), "dependent");
    let mut bs: Vec<Vec<T>> = vec![];
    for n in 0..m.len() {
        let v: Vec<T> = m[n].iter().map(|&x| T::fi(x)).collect();
        let r = sut(|| { extend_basis(&v, &mut bs); });
        let fed: IM = m[..=n].to_vec();
        if in_range::<_, T>(&fed, r, o)?.is_none() { return Ok(()); }
        ensure!(is_echelon(&bs), "not echelon over {} after {} vectors: {:?}",
            T::NAME, n + 1, bs);
        let got: QM = bs.iter().map(|r| r.iter().map(|x| x.tq()).collect()).collect();
        ensure!(canon::<T>(&got) == canon::<T>(&qm(&fed)),
            "basis over {} spans something else after {} vectors: {:?}",
            T::NAME, n + 1, bs);
    }
    Ok(())
}

#[derive(Debug, Clone)]
struct Pair { m: IM, t: IM, extra: IM }

fn c04_canonical<T: Kind>(p: &Pair, o: &mut Obs) -> Outcome
    where Matrix<T>: LinearAlgebra<T>
{
    // t is invertible over the scalars; extra adds dependent rows
    let c = p.m[0].len();
    let mut m2 = imul(&p.t, &p.m);
    m2.extend(imul(&p.extra, &p.m));
    let rk = rank(&qm(&p.m));
    o.nontrivial(rk >= 2 && m2 != p.m);
    o.label_if(rk < p.m.len(), "rank deficient");
    o.label_if(rk == 0, "zero");
    let r1 = sut(|| lib::<T>(&p.m, c).reduced_basis());
    let Some(r1) = in_range::<_, T>(&p.m, r1, o)? else { return Ok(()) };
    let r2 = sut(|| lib::<T>(&m2, c).reduced_basis());
    let Some(r2) = in_range::<_, T>(&m2, r2, o)? else { return Ok(()) };
    ensure!(r1 == r2, "reduced bases over {} differ: {:?} and {:?} (rows {:?} and {:?})",
        T::NAME, unlib(&r1), unlib(&r2), p.m, m2);
    ensure!(canon::<T>(&unlib(&r1)) == canon::<T>(&qm(&p.m)),
        "reduced basis over {} spans something else: {:?}", T::NAME, unlib(&r1));
    ensure_eq!(r1.shape().0, rk, "number of rows");
    Ok(())
}

fn c04(h: &mut Harness) {
    h.boost(6);
    h.rule("Sequences of up to 8 (some 24) vectors of dimension 1-5 (some 9), and matrices with \
        a row-equivalent partner (random unimodular or invertible row \
        operations plus dependent rows); non-trivial: rank at least 2 and \
        (for pairs) actually different rows.");
    h.assume("machine integer cases that overflow are skipped and counted");
    fn seq(g: &mut Gen, k: i64) -> IM {
        let r = g.larger(1, 8, 24);
        let c = g.larger(1, 5, 9);
        gen_matrix(g, r, c, k)
    }
    h.sub("incremental_rational", 5000, 120000, vec![],
        |g| { let k = *g.pick(&[1, 5, 60]); seq(g, k) }, c04_incremental::<Q>);
    h.sub("incremental_i64", 12000, 300000, vec![],
        |g| { let k = *g.pick(&[1, 3, 9]); seq(g, k) }, c04_incremental::<i64>);
    h.sub("incremental_i32", 10000, 250000, vec![],
        |g| { let k = *g.pick(&[1, 3]); seq(g, k) }, c04_incremental::<i32>);
    h.sub("large numbers", 300, 8000, vec![],
        |g| { let (r, c) = (g.size(1, 6), g.size(1, 5)); gen_big(g, r, c) },
        |b, o| {
            let a = b.q();
            big_note(&a, o);
            let mut bs: QM = vec![];
            for (n, v) in a.iter().enumerate() {
                sut(|| { extend_basis(v, &mut bs); })?;
                ensure!(is_echelon(&bs), "not echelon after {} vectors: {:?}", n + 1, bs);
                ensure!(rref(&bs).0 == rref(&a[..=n].to_vec()).0,
                    "basis spans something else after {} vectors: {:?}", n + 1, bs);
            }
            let r = sut(|| libq(&a).reduced_basis())?;
            let mut turned = a.clone();
            turned.reverse();
            ensure!(sut(|| libq(&turned).reduced_basis())? == r, "reduced bases differ");
            ensure_eq!(r.shape().0, rank(&a), "number of rows");
            ensure!(rank(&a) == 0 || rref(&unlibq(&r)).0 == rref(&a).0, "reduced basis spans something else: {:?}", r);
            Ok(())
        });
    fn pair(g: &mut Gen, k: i64, unimodular: bool) -> Pair {
        let r = g.larger(1, 4, 8);
        let c = g.larger(1, 5, 10);
        let m = gen_matrix(g, r, c, k);
        let mut t = gen_unimodular(g, r, 4, 2);
        if !unimodular {
            let i = g.below(r as u64) as usize;
            let f = g.int(1, 5);
            for x in &mut t[i] { *x *= f; }
        }
        let e = g.size(0, 2);
        let extra = gen_dense(g, e, r, 1);
        Pair { m, t, extra }
    }
    let ex = vec![Pair {
        m: vec![vec![1, -1], vec![0, 1]], t: vec![vec![1, 1], vec![0, 1]], extra: vec![]
    }];
    fn fix(mut p: Pair) -> Pair {
        // extra = [] times m is fine for imul only with rows
        if p.extra.is_empty() { p.extra = vec![vec![0; p.m.len()]]; }
        p
    }
    let ex: Vec<Pair> = ex.into_iter().map(fix).collect();
    h.sub("canonical_rational", 5000, 120000, ex.clone(),
        |g| { let k = *g.pick(&[1, 5, 60]); fix(pair(g, k, false)) }, c04_canonical::<Q>);
    h.sub("canonical_i64", 12000, 300000, ex.clone(),
        |g| { let k = *g.pick(&[1, 3, 8]); fix(pair(g, k, true)) }, c04_canonical::<i64>);
    h.sub("canonical_i32", 10000, 250000, ex,
        |g| { let k = *g.pick(&[1, 3]); fix(pair(g, k, true)) }, c04_canonical::<i32>);
}

// ------------------------------------------------------------------ C05

fn same<T: PartialEq + Clone>(m: &Matrix<T>, r: usize, c: usize, d: &[T]) -> bool {
    m.shape() == (r, c)
        && (0..r).all(|i| (0..c).all(|j| m[(i, j)] == d[i * c + j]))
        && m.iter().cloned().collect::<Vec<_>>() == d
        && m.get_rows() == d.chunks(c.max(1)).map(|x| x.to_vec()).collect::<Vec<_>>()
        && (0..c).all(|j| m.get_col(j)
            == (0..r).map(|i| d[i * c + j].clone()).collect::<Vec<_>>())
        && m.clone().into_iter().collect::<Vec<_>>() == d
}

#[derive(Debug, Clone)]
struct Mats { r: usize, c: usize, a: Vec<i64>, b: Vec<i64>, c2: usize, x: Vec<i64>, s: i64 }

fn gen_mats(g: &mut Gen) -> Mats { gen_mats_to(g, 20) }

fn gen_mats_to(g: &mut Gen, n: usize) -> Mats {
    let (r, c, c2) = (g.larger(1, 5, n), g.larger(1, 6, n), g.larger(1, 5, n));
    let k = *g.pick(&[3, 50, 10000, 100_000_000]);
    let mut v = |n: usize, g: &mut Gen| (0..n).map(|_| g.int(-k, k)).collect::<Vec<i64>>();
    let a = v(r * c, g);
    let b = v(r * c, g);
    let x = v(c * c2, g);
    let s = g.int(-k, k);
    Mats { r, c, a, b, c2, x, s }
}

macro_rules! c05_ops {
    ($t:ty, $case:expr, $o:expr, $conv:expr) => {{
        let m: &Mats = $case;
        let conv = $conv;
        let va: Vec<$t> = m.a.iter().map(|&x| conv(x)).collect();
        let vb: Vec<$t> = m.b.iter().map(|&x| conv(x)).collect();
        let vx: Vec<$t> = m.x.iter().map(|&x| conv(x)).collect();
        let s: $t = conv(m.s);
        let (r, c, c2) = (m.r, m.c, m.c2);
        let a = Matrix::new(c, &va);
        let b = Matrix::new(c, &vb);
        let x = Matrix::new(c2, &vx);
        ensure!(same(&a, r, c, &va), "construction");
        let zip = |f: &dyn Fn(&$t, &$t) -> $t| -> Vec<$t> {
            va.iter().zip(vb.iter()).map(|(p, q)| f(p, q)).collect()
        };
        let map = |f: &dyn Fn(&$t) -> $t| -> Vec<$t> { va.iter().map(|p| f(p)).collect() };
        macro_rules! chk {
            ($what:expr, $e:expr, $rr:expr, $cc:expr, $want:expr) => {{
                let got = sut(|| $e).map_err(|e| format!("{}: {}", $what, e))?;
                let want: Vec<$t> = $want;
                ensure!(same(&got, $rr, $cc, &want),
                    "{}: got {:?}, expected {:?}", $what, got, want);
            }};
        }
        let sum = zip(&|p, q| p.clone() + q.clone());
        chk!("&a + &b", &a + &b, r, c, sum.clone());
        chk!("&a + b", &a + b.clone(), r, c, sum.clone());
        chk!("a + &b", a.clone() + &b, r, c, sum.clone());
        chk!("a + b", a.clone() + b.clone(), r, c, sum.clone());
        chk!("a += &b", { let mut t = a.clone(); t += &b; t }, r, c, sum.clone());
        chk!("a += b", { let mut t = a.clone(); t += b.clone(); t }, r, c, sum);
        let dif = zip(&|p, q| p.clone() - q.clone());
        chk!("&a - &b", &a - &b, r, c, dif.clone());
        chk!("&a - b", &a - b.clone(), r, c, dif.clone());
        chk!("a - &b", a.clone() - &b, r, c, dif.clone());
        chk!("a - b", a.clone() - b.clone(), r, c, dif.clone());
        chk!("a -= &b", { let mut t = a.clone(); t -= &b; t }, r, c, dif.clone());
        chk!("a -= b", { let mut t = a.clone(); t -= b.clone(); t }, r, c, dif);
        let neg = map(&|p| -p.clone());
        chk!("-&a", -&a, r, c, neg.clone());
        chk!("-a", -a.clone(), r, c, neg);
        let ads = map(&|p| p.clone() + s.clone());
        chk!("&a + &s", &a + &s, r, c, ads.clone());
        chk!("&a + s", &a + s.clone(), r, c, ads.clone());
        chk!("a + &s", a.clone() + &s, r, c, ads.clone());
        chk!("a + s", a.clone() + s.clone(), r, c, ads.clone());
        chk!("a += s", { let mut t = a.clone(); t += s.clone(); t }, r, c, ads.clone());
        chk!("a += &s", { let mut t = a.clone(); t += &s; t }, r, c, ads);
        let sbs = map(&|p| p.clone() - s.clone());
        chk!("&a - &s", &a - &s, r, c, sbs.clone());
        chk!("&a - s", &a - s.clone(), r, c, sbs.clone());
        chk!("a - &s", a.clone() - &s, r, c, sbs.clone());
        chk!("a - s", a.clone() - s.clone(), r, c, sbs.clone());
        chk!("a -= s", { let mut t = a.clone(); t -= s.clone(); t }, r, c, sbs.clone());
        chk!("a -= &s", { let mut t = a.clone(); t -= &s; t }, r, c, sbs);
        let mls = map(&|p| p.clone() * s.clone());
        chk!("&a * &s", &a * &s, r, c, mls.clone());
        chk!("&a * s", &a * s.clone(), r, c, mls.clone());
        chk!("a * &s", a.clone() * &s, r, c, mls.clone());
        chk!("a * s", a.clone() * s.clone(), r, c, mls.clone());
        chk!("a *= s", { let mut t = a.clone(); t *= s.clone(); t }, r, c, mls.clone());
        chk!("a *= &s", { let mut t = a.clone(); t *= &s; t }, r, c, mls);
        if !s.is_zero() {
            let dvs = map(&|p| p.clone() / s.clone());
            chk!("&a / &s", &a / &s, r, c, dvs.clone());
            chk!("&a / s", &a / s.clone(), r, c, dvs.clone());
            chk!("a / &s", a.clone() / &s, r, c, dvs.clone());
            chk!("a / s", a.clone() / s.clone(), r, c, dvs.clone());
            chk!("a /= s", { let mut t = a.clone(); t /= s.clone(); t }, r, c, dvs.clone());
            chk!("a /= &s", { let mut t = a.clone(); t /= &s; t }, r, c, dvs);
        }
        let mut prod: Vec<$t> = vec![];
        for i in 0..r {
            for j in 0..c2 {
                let mut t = <$t>::zero();
                for k in 0..c {
                    t = t + va[i * c + k].clone() * vx[k * c2 + j].clone();
                }
                prod.push(t);
            }
        }
        chk!("&a * &x", &a * &x, r, c2, prod.clone());
        chk!("&a * x", &a * x.clone(), r, c2, prod.clone());
        chk!("a * &x", a.clone() * &x, r, c2, prod.clone());
        chk!("a * x", a.clone() * x.clone(), r, c2, prod);
        let mut tr: Vec<$t> = vec![];
        for j in 0..c { for i in 0..r { tr.push(va[i * c + j].clone()); } }
        chk!("transpose", a.transpose(), c, r, tr);
        chk!("clone is independent", {
            let mut t = a.clone();
            t[(r - 1, c - 1)] = s.clone();
            let mut back = t.clone();
            back[(r - 1, c - 1)] = a[(r - 1, c - 1)].clone();
            assert!(t[(r - 1, c - 1)] == s);
            back
        }, r, c, va.clone());
        $o.nontrivial(r > 1 && c > 1);
        Ok(())
    }};
}

#[derive(Debug, Clone)]
enum Shape {
    New { c: usize, n: usize },
    Reshape { r: usize, c: usize, k: usize },
    Index { r: usize, c: usize, i: usize, j: usize },
    Sub { r: usize, c: usize, r0: usize, r1: usize, c0: usize, c1: usize },
    HStack(Vec<(usize, usize)>),
    VStack(Vec<(usize, usize)>),
    Arith { a: (usize, usize), b: (usize, usize), op: u8 },
    Special { n: usize, k: usize },
}

fn counted(r: usize, c: usize, from: i64) -> Matrix<i64> {
    Matrix::new(c, &(0..(r * c) as i64).map(|x| x + from).collect::<Vec<_>>())
}

fn c05_shape(s: &Shape, o: &mut Obs) -> Outcome {
    match s {
        Shape::New { c, n } => {
            let d: Vec<i64> = (0..*n as i64).collect();
            let ok = *n == 0 || (*c > 0 && n % c == 0);
            let got = sut(|| Matrix::new(*c, &d));
            o.label(if ok { "good new" } else { "bad new" });
            match got {
                Ok(m) => {
                    ensure!(ok, "ragged data accepted: {:?}", m);
                    if *n > 0 {
                        ensure!(same(&m, n / c, *c, &d), "new: {:?}", m);
                    } else {
                        ensure_eq!(m.shape(), (0, *c), "empty shape");
                    }
                },
                Err(e) => ensure!(!ok, "new({}, {} entries): {}", c, n, e),
            }
            if *n > 0 {
                ensure!(same(&sut(|| Matrix::row(&d))?, 1, *n, &d), "row");
                ensure!(same(&sut(|| Matrix::col(&d))?, *n, 1, &d), "col");
                let it: Matrix<i64> = sut(|| d.iter().cloned().collect())?;
                ensure!(same(&it, *n, 1, &d), "collect");
            }
        },
        Shape::Reshape { r, c, k } => {
            let m = counted(*r, *c, 5);
            let d: Vec<i64> = m.iter().cloned().collect();
            let ok = *k > 0 && (r * c) % k == 0;
            o.label(if ok { "good reshape" } else { "bad reshape" });
            match sut(|| m.clone().reshape(*k)) {
                Ok(m) => {
                    ensure!(ok, "bad reshape accepted: {:?}", m);
                    ensure!(same(&m, r * c / k, *k, &d), "reshape: {:?}", m);
                },
                Err(e) => ensure!(!ok, "reshape({}): {}", k, e),
            }
        },
        Shape::Index { r, c, i, j } => {
            let m = counted(*r, *c, 7);
            let ok = i < r && j < c;
            o.label(if ok { "index in range" } else { "index out of range" });
            let got = sut(|| m[(*i, *j)]);
            let set = sut(|| { let mut t = m.clone(); t[(*i, *j)] = -1; t });
            let row = sut(|| m.get_row(*i));
            let col = sut(|| m.get_col(*j));
            ensure_eq!(got.is_ok(), ok, "indexing accepted");
            ensure_eq!(set.is_ok(), ok, "index assignment accepted");
            ensure_eq!(row.is_ok(), i < r, "get_row accepted");
            ensure_eq!(col.is_ok(), j < c, "get_col accepted");
            if ok {
                ensure_eq!(got.unwrap(), 7 + (i * c + j) as i64, "entry");
                let t = set.unwrap();
                for a in 0..*r { for b in 0..*c {
                    let want = if (a, b) == (*i, *j) { -1 } else { m[(a, b)] };
                    ensure_eq!(t[(a, b)], want, "after assignment");
                } }
            }
        },
        Shape::Sub { r, c, r0, r1, c0, c1 } => {
            let m = counted(*r, *c, 0);
            let ok = r1 <= r && c1 <= c && r0 <= r1 && c0 <= c1;
            o.label(if ok { "good submatrix" } else { "bad submatrix" });
            match sut(|| m.submatrix(*r0..*r1, *c0..*c1)) {
                Ok(t) => {
                    ensure!(ok, "bad submatrix accepted: {:?}", t);
                    let mut d = vec![];
                    for i in *r0..*r1 { for j in *c0..*c1 { d.push((i * c + j) as i64); } }
                    if !d.is_empty() {
                        ensure!(same(&t, r1 - r0, c1 - c0, &d), "submatrix: {:?}", t);
                    }
                },
                Err(e) => ensure!(!ok, "submatrix: {}", e),
            }
        },
        Shape::HStack(v) => {
            let ps: Vec<_> = v.iter().enumerate()
                .map(|(k, (r, c))| counted(*r, *c, 100 * k as i64)).collect();
            let ok = v.windows(2).all(|w| w[0].0 == w[1].0);
            o.label(if ok { "good hstack" } else { "bad hstack" });
            match sut(|| Matrix::hstack(&ps)) {
                Ok(t) => {
                    ensure!(ok, "bad hstack accepted: {:?}", t);
                    if let Some((r, _)) = v.first() {
                        let mut d = vec![];
                        for i in 0..*r { for p in &ps { d.extend(p.get_row(i)); } }
                        ensure!(same(&t, *r, v.iter().map(|x| x.1).sum(), &d), "hstack: {:?}", t);
                    }
                },
                Err(e) => ensure!(!ok, "hstack: {}", e),
            }
        },
        Shape::VStack(v) => {
            let ps: Vec<_> = v.iter().enumerate()
                .map(|(k, (r, c))| counted(*r, *c, 100 * k as i64)).collect();
            let ok = v.windows(2).all(|w| w[0].1 == w[1].1);
            o.label(if ok { "good vstack" } else { "bad vstack" });
            match sut(|| Matrix::vstack(&ps)) {
                Ok(t) => {
                    ensure!(ok, "bad vstack accepted: {:?}", t);
                    if let Some((_, c)) = v.first() {
                        let d: Vec<i64> = ps.iter().flat_map(|p| p.iter().cloned().collect::<Vec<_>>()).collect();
                        ensure!(same(&t, v.iter().map(|x| x.0).sum(), *c, &d), "vstack: {:?}", t);
                    }
                },
                Err(e) => ensure!(!ok, "vstack: {}", e),
            }
        },
        Shape::Arith { a, b, op } => {
            let (x, y) = (counted(a.0, a.1, 1), counted(b.0, b.1, 2));
            let (ok, got) = match op {
                0 => (a == b, sut(|| &x + &y)),
                1 => (a == b, sut(|| &x - &y)),
                2 => (a == b, sut(|| { let mut t = x.clone(); t += y.clone(); t })),
                3 => (a == b, sut(|| { let mut t = x.clone(); t -= &y; t })),
                4 => (a == b, sut(|| { let mut t = x.clone(); t += &y; t })),
                5 => (a == b, sut(|| { let mut t = x.clone(); t -= y.clone(); t })),
                _ => (a.1 == b.0, sut(|| &x * &y)),
            };
            o.label(if ok { "compatible" } else { "incompatible" });
            o.label_if(!ok && a.0 * a.1 == b.0 * b.1, "same size, other shape");
            ensure_eq!(got.is_ok(), ok, "operation {} on {:?} and {:?} accepted", op, a, b);
            ensure_eq!(x == y, a == b && x.iter().eq(y.iter()), "equality");
        },
        Shape::Special { n, k } => {
            let id: Matrix<i64> = sut(|| Matrix::identity(*n))?;
            let ze: Matrix<i64> = sut(|| Matrix::zero(*n, *k))?;
            ensure_eq!(id.shape(), (*n, *n), "identity shape");
            if *n > 0 && *k > 0 { ensure_eq!(ze.shape(), (*n, *k), "zero shape"); }
            ensure!(ze.iter().all(|x| *x == 0), "zero entries");
            for i in 0..*n { for j in 0..*n {
                ensure_eq!(id[(i, j)], (i == j) as i64, "identity entry");
            } }
            ensure!(id.is_identity(), "is_identity of identity");
            if *n > 0 && *k > 0 { ensure!(!ze.is_identity(), "zero is_identity"); }
            if *n > 0 {
                let mut t = id.clone();
                let (i, j) = (k % n, (k / 2) % n);
                t[(i, j)] += 1;
                ensure!(!t.is_identity(), "is_identity of perturbed identity");
            }
            let u = sut(|| Matrix::<i64>::unit_vector(*n, *k));
            ensure_eq!(u.is_ok(), k < n, "unit vector accepted");
            if let Ok(u) = u {
                let d: Vec<i64> = (0..*n).map(|i| (i == *k) as i64).collect();
                ensure!(same(&u, 1, *n, &d), "unit vector: {:?}", u);
            }
            if n != k && *n > 0 && *k > 0 {
                ensure!(!counted(*n, *k, 0).is_identity(), "rectangular is_identity");
                let mut t: Matrix<i64> = Matrix::zero(*n, *k);
                for i in 0..*n.min(k) { t[(i, i)] = 1; }
                let is = sut(|| t.is_identity())?;
                ensure!(!is, "is_identity of a {}x{} matrix", n, k);
            }
        }
    }
    o.nontrivial(true);
    Ok(())
}

fn c05(h: &mut Harness) {
    h.boost(15);
    h.rule("Matrices up to 5x6 (some 20x20) with every operator form compared entrywise; \
        shapes, ranges and indices in and out of bounds. Non-trivial: at least \
        2x2 (operators), every shape case.");
    h.assume("matrices with rows but no columns are not representable in the \
        library and not generated");
    h.sub("operators_i64", 6000, 150000, vec![], gen_mats,
        |m, o| c05_ops!(i64, m, o, |x: i64| x));
    h.sub("operators_rational", 1500, 40000, vec![], |g| gen_mats_to(g, 12),
        |m, o| c05_ops!(Q, m, o, |x: i64| qf(x, 1 + (x.rem_euclid(7)))));
    h.sub("shapes", 20000, 400000, vec![],
        |g| match g.below(8) {
            0 => Shape::New { c: g.larger(0, 6, 40), n: g.larger(0, 24, 400) },
            1 => { let (r, c) = (g.larger(1, 5, 20), g.larger(1, 6, 20)); Shape::Reshape { r, c, k: g.larger(1, 12, 60) } },
            2 => { let (r, c) = (g.larger(1, 5, 20), g.larger(1, 6, 20));
                Shape::Index { r, c, i: g.size(0, r + 1), j: g.size(0, c + 1) } },
            3 => { let (r, c) = (g.larger(1, 5, 20), g.larger(1, 6, 20));
                let (r0, c0) = (g.size(0, r - 1), g.size(0, c - 1));
                Shape::Sub { r, c, r0, c0, r1: g.size(r0, r + 1), c1: g.size(c0, c + 1) } },
            4 => { let r = g.larger(1, 4, 20); let n = g.larger(0, 4, 12); Shape::HStack((0..n).map(|_|
                (if g.chance(1, 2 * n as u64) { g.size(1, 5) } else { r }, g.larger(1, 3, 20))).collect()) },
            5 => { let c = g.larger(1, 4, 20); let n = g.larger(0, 4, 12); Shape::VStack((0..n).map(|_|
                (g.larger(1, 3, 20), if g.chance(1, 2 * n as u64) { g.size(1, 5) } else { c })).collect()) },
            6 => { let a = (g.larger(1, 4, 20), g.larger(1, 4, 20));
                let b = match g.below(4) { 0 => a, 1 => (a.1, a.0), 2 => (a.1, g.larger(1, 4, 20)),
                    _ => (g.size(1, 4), g.size(1, 4)) };
                Shape::Arith { a, b, op: g.below(9) as u8 } },
            _ => Shape::Special { n: g.larger(0, 6, 20), k: g.larger(0, 8, 20) },
        },
        c05_shape);
}

// ------------------------------------------------------------------ C06

const PRIMES: [i64; 15] = [2, 3, 5, 7, 11, 13, 101, 997, 10007, 1000003, 9999973, 9999991,
    1000000007, 2147483629, 2147483647];

fn mod_rref(m: &IM, p: i64) -> IM {
    let p = p as i128;
    let inv = |x: i128| -> i128 {
        // Fermat
        let (mut r, mut b, mut e) = (1i128, x, p - 2);
        while e > 0 {
            if e & 1 == 1 { r = r * b % p; }
            b = b * b % p;
            e >>= 1;
        }
        r
    };
    let mut a: Vec<Vec<i128>> = m.iter()
        .map(|r| r.iter().map(|&x| (x as i128).rem_euclid(p)).collect()).collect();
    let (nr, nc) = (a.len(), a[0].len());
    let mut r = 0;
    for c in 0..nc {
        let Some(k) = (r..nr).find(|&i| a[i][c] != 0) else { continue };
        a.swap(r, k);
        let f = if p == 2 { 1 } else { inv(a[r][c]) };
        for x in &mut a[r] { *x = *x * f % p; }
        for i in 0..nr {
            if i != r {
                let f = a[i][c];
                for k in 0..nc {
                    a[i][k] = (a[i][k] - f * a[r][k]).rem_euclid(p);
                }
            }
        }
        r += 1;
        if r == nr { break; }
    }
    a.iter().map(|r| r.iter().map(|&x| x as i64).collect()).collect()
}

const HUGE: i64 = 4_000_000_000_000_000_000;

#[derive(Debug, Clone)]
struct ModCase { p: i64, m: IM }

fn gen_mod(g: &mut Gen, square: bool) -> ModCase {
    let p = *g.pick(&PRIMES);
    let r = g.larger(1, 5, 12);
    let c = if square { r } else { g.larger(1, 6, 14) };
    let kind = g.below(5);
    let k = match kind { 0 => 3, 1 => p, 2 => 3 * p, 3 => 1_000_000_000, _ => HUGE };
    let mut m = if k > 1000 && g.flip() {
        // rank deficient modulo p with large entries
        let s = g.size(1, r.min(c));
        let a = gen_dense(g, r, s, 30000);
        let b = gen_dense(g, s, c, 30000);
        imul(&a, &b)
    } else if k == HUGE {
        gen_dense(g, r, c, k)
    } else {
        gen_matrix(g, r, c, k)
    };
    // sprinkle multiples of p
    for row in &mut m {
        for x in row {
            if g.chance(1, 6) { *x = p * g.int(-3, 3); }
        }
    }
    ModCase { p, m }
}

fn c06(h: &mut Harness) {
    h.boost(15);
    h.rule("Integer matrices up to 5x6, some up to 12x14 (any rank, either sign, entries up to \
        10^9 and multiples of the prime) and 15 primes from 2 to 2^31 - 1; \
        non-trivial: rank at least 2 modulo the prime.");
    let ex = vec![
        ModCase { p: 7, m: vec![vec![1, 2, 3], vec![2, 4, 6], vec![0, 0, 5]] },
        ModCase { p: 7, m: vec![vec![-7, 1], vec![1, 1]] },
        ModCase { p: 3, m: vec![vec![0, 1], vec![0, 2]] },
    ];
    h.sub("echelon", 20000, 500000, ex.clone(), |g| gen_mod(g, false),
        |c, o| {
            let want = mod_rref(&c.m, c.p);
            let rk = want.iter().filter(|r| r.iter().any(|&x| x != 0)).count();
            o.label_if(rk < c.m.len().min(c.m[0].len()), "rank deficient");
            o.label_if(c.m.iter().flatten().any(|x| *x < 0), "negative entries");
            o.nontrivial(rk >= 2);
            let got = sut(|| ms::modular_row_echelon_form(&c.m, c.p))?;
            ensure_eq!(got, want, "reduced echelon form modulo {} of {:?}", c.p, c.m);
            Ok(())
        });
    h.sub("matrix_inverse", 12000, 300000, vec![ex[1].clone()], |g| gen_mod(g, true),
        |c, o| {
            let n = c.m.len();
            let ech = mod_rref(&c.m, c.p);
            let exists = ech == iidentity(n);
            o.label(if exists { "invertible" } else { "singular" });
            o.nontrivial(exists && n >= 2);
            let got = sut(|| ms::modular_matrix_inverse(&c.m, c.p))?;
            match got {
                None => ensure!(!exists, "inverse modulo {} not found", c.p),
                Some(x) => {
                    ensure!(exists, "inverse of a singular matrix modulo {}: {:?}", c.p, x);
                    ensure!(x.len() == n && x.iter().all(|r| r.len() == n), "shape of {:?}", x);
                    ensure!(x.iter().flatten().all(|&v| 0 <= v && v < c.p),
                        "entries out of range: {:?}", x);
                    for i in 0..n { for j in 0..n {
                        let s: i128 = (0..n).map(|k| (c.m[i][k] as i128).rem_euclid(c.p as i128) * x[k][j] as i128).sum();
                        ensure_eq!(s.rem_euclid(c.p as i128), (i == j) as i128,
                            "entry {},{} of the product with the inverse", i, j);
                    } }
                    // products of canonical matrices
                    let red: IM = c.m.iter().map(|r|
                        r.iter().map(|v| v.rem_euclid(c.p)).collect()).collect();
                    let pr = sut(|| ms::modular_matrix_product(&red, &x, c.p))?;
                    ensure_eq!(pr, iidentity(n), "modular product");
                }
            }
            Ok(())
        });
    h.sub("number_inverse", 20000, 500000, vec![],
        |g| {
            let m = match g.below(4) { 0 => *g.pick(&PRIMES), 1 => g.int(2, 60), 2 => g.int(2, 1_000_000_000), _ => g.int(2, HUGE) };
            (g.int(0, m - 1), m)
        },
        |&(a, m), o| {
            use num_integer::Integer;
            let exists = a.gcd(&m) == 1;
            o.label(if exists { "coprime" } else { "not coprime" });
            o.nontrivial(exists && a > 1);
            match sut(|| ms::modular_inverse(a, m))? {
                None => ensure!(!exists, "inverse of {} modulo {} not found", a, m),
                Some(x) => {
                    ensure!(exists, "inverse {} of {} modulo {}", x, a, m);
                    ensure!(0 <= x && x < m, "inverse {} out of range", x);
                    ensure_eq!((a as i128 * x as i128) % m as i128, 1, "product");
                }
            }
            Ok(())
        });
    h.sub("products", 6000, 100000, vec![],
        |g| {
            let p = *g.pick(&PRIMES);
            let (r, s, c) = (g.larger(1, 4, 12), g.larger(1, 4, 12), g.larger(1, 4, 12));
            let a: IM = (0..r).map(|_| (0..s).map(|_| g.int(0, p - 1)).collect()).collect();
            let b: IM = (0..s).map(|_| (0..c).map(|_| g.int(0, p - 1)).collect()).collect();
            // all residues close to the modulus, now and then
            let top = |m: IM| m.iter().map(|r| r.iter().map(|x| p - 1 - x % 3.min(p)).collect()).collect();
            if g.chance(1, 4) { (p, top(a), top(b)) } else { (p, a, b) }
        },
        |(p, a, b), o| {
            o.nontrivial(a.len() > 1 && b.len() > 1);
            let got = sut(|| ms::modular_matrix_product(a, b, *p))?;
            o.label_if(*p > 1 << 30, "modulus near 2^31");
            // stay clear of sums beyond 64 bits
            let room = *p as i128 * *p as i128 * b.len() as i128;
            let int = if room < 1 << 62 { Some(sut(|| ms::integer_matrix_product(a, b))?) } else { None };
            for i in 0..a.len() { for j in 0..b[0].len() {
                let s: i128 = (0..b.len()).map(|k| a[i][k] as i128 * b[k][j] as i128).sum();
                ensure_eq!(got[i][j] as i128, s % *p as i128, "modular product entry");
                if let Some(int) = &int {
                    ensure_eq!(int[i][j] as i128, s, "integer product entry");
                }
            } }
            Ok(())
        });
}

// ------------------------------------------------------------------ C07

fn gen_padic(g: &mut Gen) -> System {
    const P: i64 = 9999991;
    let n = if g.chance(1, 100) { g.size(8, 16) } else { g.size(1, 8) };
    let w = g.larger(1, 3, 8);
    let a = match g.weighted(&[3, 3, 2, 2, 1]) {
        0 => gen_dense(g, n, n, 9),
        1 => {
            // graph Laplacian with a ground
            let mut a = vec![vec![0i64; n]; n];
            for i in 0..n {
                a[i][i] += g.int(0, 1);
                for j in 0..i {
                    let k = g.int(0, 2);
                    a[i][i] += k; a[j][j] += k;
                    a[i][j] -= k; a[j][i] -= k;
                }
            }
            a[0][0] += 1;
            a
        },
        2 => { let k = *g.pick(&[100, 10000, 1000000]); let n = n.min(5); gen_dense(g, n, n, k) },
        3 => {
            // determinant divisible by the working prime
            let n = n.min(5);
            let mut a = gen_unimodular(g, n, 5, 3);
            let i = g.below(n as u64) as usize;
            let f = *g.pick(&[P, -P, P]);
            for x in &mut a[i] { *x *= f; }
            let u = gen_unimodular(g, n, 2, 1);
            let m = imul(&a, &u);
            if m.iter().flatten().any(|x| x.abs() > 1_000_000_000) { a } else { m }
        },
        _ => { let n = n.min(10); gen_matrix(g, n, n, 5) },
    };
    let n = a.len();
    let k = *g.pick(&[0, 1, 50, 1000000, 100_000_000_000]);
    let b = (0..n).map(|_| (0..w).map(|_|
        if g.chance(1, 4) { 0 } else { g.int(-k, k) }).collect()).collect();
    System { a, b }
}

fn c07_test(s: &System, o: &mut Obs) -> Outcome {
    let (a, b) = (qm(&s.a), qm(&s.b));
    let singular = rank(&a) < a.len();
    let x = sut(|| ms::solve(&s.a, &s.b))?;
    if singular {
        o.label("singular");
        ensure!(x.is_none(), "solution of a singular system: {:?}", x);
        return Ok(());
    }
    let Some(x) = x else {
        return Err("no solution of a regular system".to_string())
    };
    ensure!(x.len() == a.len() && x.iter().all(|r| r.len() == b[0].len()),
        "shape of {:?}", x);
    ensure!(mul(&a, &x) == b, "A X = B violated by X = {:?}", x);
    let big = x.iter().flatten().map(|v| v.denom().bits().max(v.numer().bits())).max().unwrap();
    o.label_if(big > 11, "beyond one p-adic step");
    o.label_if(big > 40, "beyond 40 bits");
    o.label_if(b.iter().flatten().all(|v| v.is_zero()), "zero right-hand side");
    let p = z(9999991);
    if let Some(inv) = inverse(&a) {
        o.label_if(inv.iter().flatten().any(|v| (v.denom() % &p).is_zero()),
            "determinant divisible by the prime");
    }
    o.nontrivial(a.len() >= 2 && big > 11);
    Ok(())
}

fn c07(h: &mut Harness) {
    h.boost(10);
    h.rule("Systems up to 8x8 (some 16x16): small dense, grounded graph Laplacians, large \
        entries, determinant divisible by the working prime 9999991, singular; \
        right-hand sides up to 10^11. Non-trivial: size at least 2 and a \
        solution with more than 11 bits (beyond one p-adic step).");
    h.assume("entries bounded so that products fit in 64 bits (|a| <= 10^9 \
        for the rational fallback, n |a| <= 5 10^6 otherwise; |b| <= 10^11)");
    let ex = vec![
        System { a: vec![vec![9999991]], b: vec![vec![1]] },
        System { a: vec![vec![2, 1], vec![1, 5000000 - 4]], b: vec![vec![1], vec![0]] },
        System { a: vec![vec![0]], b: vec![vec![1]] },
        System { a: vec![vec![1]], b: vec![vec![0]] },
    ];
    h.sub("solve", 6000, 150000, ex, gen_padic, c07_test);
    // numerators and denominators about as large as the number of steps of
    // the solver allows: nearly orthogonal columns of suitable length
    h.sub("tight", 6000, 150000, vec![],
        |g| {
            let n = g.size(1, 4);
            let k = g.size(1, if n == 1 { 1 } else { 2 * n - 2 });
            let h = (9999991f64).powi(k as i32);
            let c = 1.0 + g.below(200) as f64 / 100.0;
            let len = (h / c).sqrt().powf(1.0 / n as f64);
            if n == 1 {
                let (x, y) = (len as i64, len as i64 + g.int(-100, 100));
                let f = |g: &mut Gen, x: i64| if g.flip() { x } else { -x };
                return System { a: vec![vec![f(g, x)]], b: vec![vec![f(g, y.max(1))]] };
            }
            let signs: IM = match n {
                2 => vec![vec![1, 1], vec![1, -1]],
                3 => vec![vec![2, -1, 2], vec![2, 2, -1], vec![-1, 2, 2]],
                _ => vec![vec![1, 1, 1, 1], vec![1, -1, 1, -1], vec![1, 1, -1, -1], vec![1, -1, -1, 1]],
            };
            let s = len / if n == 3 { 3.0 } else { (n as f64).sqrt() };
            let t = (s / 10.0).min(100.0) as i64;
            let mut a: IM = signs.iter().map(|r| r.iter().map(|&x| (x as f64 * s) as i64 + g.int(-t, t)).collect()).collect();
            let p = g.perm(n);
            a = p.iter().map(|&i| a[i].clone()).collect();
            // close to the first column
            let b = a.iter().map(|r| vec![r[0] + g.int(-t, t)]).collect();
            System { a, b }
        },
        c07_test);
}

// ------------------------------------------------------------------ C16

#[derive(Debug, Clone)]
enum POp { Unite(u32, u32), Find(u32), Classes(Vec<u32>) }

/// Elements that often have the same hash.
#[derive(Debug, Clone, PartialEq, Eq)]
struct Crowded(u32);

impl std::hash::Hash for Crowded {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) { h.write_u32(self.0 % 3) }
}

fn c16_test<E>(ops: &Vec<POp>, wrap: fn(u32) -> E, bare: fn(E) -> u32, o: &mut Obs) -> Outcome
    where E: Clone + Eq + std::hash::Hash + std::fmt::Debug
{
    let mut p: Partition<E> = Partition::new();
    let mut cls: std::collections::BTreeMap<u32, u32> = Default::default();
    let mut unions = 0;
    let root = |cls: &std::collections::BTreeMap<u32, u32>, x: u32| *cls.get(&x).unwrap_or(&x);
    let mut seen: Vec<u32> = vec![];
    for (n, op) in ops.iter().enumerate() {
        match op {
            POp::Unite(a, b) => {
                sut(|| p.unite(&wrap(*a), &wrap(*b)))?;
                let (ra, rb) = (root(&cls, *a), root(&cls, *b));
                if ra != rb { unions += 1; }
                for x in [*a, *b] { if !seen.contains(&x) { seen.push(x); } }
                let xs: Vec<u32> = seen.clone();
                for x in xs {
                    if root(&cls, x) == rb { cls.insert(x, ra); }
                }
            },
            POp::Find(a) => {
                let r = sut(|| bare(p.find(&wrap(*a))))?;
                ensure!(root(&cls, r) == root(&cls, *a),
                    "step {}: representative {} of {} is in another class", n, r, a);
            },
            POp::Classes(es) => {
                let got: Vec<Vec<u32>> = sut(|| p.classes(&es.iter().map(|x| wrap(*x)).collect::<Vec<_>>()))?
                    .into_iter().map(|c| c.into_iter().map(bare).collect()).collect();
                let mut want: Vec<(u32, Vec<u32>)> = vec![];
                for e in es {
                    let r = root(&cls, *e);
                    match want.iter_mut().find(|w| w.0 == r) {
                        Some(w) => w.1.push(*e),
                        None => want.push((r, vec![*e])),
                    }
                }
                let want: Vec<Vec<u32>> = want.into_iter().map(|w| w.1).collect();
                ensure_eq!(got, want, "step {}: classes of {:?}", n, es);
            }
        }
    }
    let mut all: Vec<u32> = (0..40).collect();
    all.extend(seen.iter().filter(|x| **x >= 40).step_by(1 + seen.len() / 60));
    for &a in &all {
        let ra = sut(|| bare(p.find(&wrap(a))))?;
        ensure!(root(&cls, ra) == root(&cls, a), "final representative of {} is {}", a, ra);
        for &b in &all {
            let rb = sut(|| bare(p.find(&wrap(b))))?;
            ensure_eq!(ra == rb, root(&cls, a) == root(&cls, b),
                "equivalence of {} and {}", a, b);
        }
        ensure_eq!(sut(|| bare(p.find(&wrap(a))))?, ra, "repeated find of {}", a);
    }
    o.label_if(unions >= 10, "10 or more unions");
    o.nontrivial(unions >= 3);
    Ok(())
}

fn c16(h: &mut Harness) {
    h.boost(12);
    h.rule("Sequences of up to 60 (some 600) unite/find/classes operations over 40 (some 1000) \
        elements (random, chains, balanced trees), compared with a naive \
        class table after every step; classes of equal size united up to nine times over \
        (trees as deep as they get), then looked up in random order. Non-trivial: at least 3 effective unions.");
    h.sub("history", 12000, 300000, vec![],
        |g| {
            let large = g.chance(1, 300);
            let n = if large { *g.pick(&[100u64, 300, 1000]) } else { *g.pick(&[5u64, 12, 40]) };
            let style = g.below(3);
            let mut k = 0u32;
            let limit = n.max(40);
            g.vec(0, if large { 600 } else { 60 }, |g| {
                k += 1;
                match g.weighted(&[5, 2, 1]) {
                    0 => match style {
                        0 => POp::Unite(g.below(n) as u32, g.below(n) as u32),
                        1 => { let (a, b) = (k % n as u32, (k + 1) % n as u32);
                            if g.flip() { POp::Unite(a, b) } else { POp::Unite(b, a) } },
                        _ => { let s = 1u32 << g.below(if large { 10 } else { 5 });
                            let a = g.below(n) as u32; POp::Unite(a, (a ^ s) % limit as u32) },
                    },
                    1 => POp::Find(g.below(limit) as u32),
                    _ => POp::Classes(g.vec(0, if large { 80 } else { 12 }, |g| g.below(limit) as u32)),
                }
            })
        },
        |ops, o| {
            c16_test(ops, |x| x, |x| x, o)?;
            if ops.len() % 4 == 0 && ops.len() < 100 {
                o.label("elements with equal hashes");
                c16_test(ops, Crowded, |x| x.0, o)?;
            }
            if ops.len() % 4 == 1 {
                o.label("elements with text");
                c16_test(ops, |x| vec![x.to_string()], |x| x[0].parse().unwrap(), o)?;
            }
            Ok(())
        });
    // classes of equal size united over and over: the deepest possible trees
    h.sub("deep", 300, 20000, vec![],
        |g| {
            let k = g.size(3, 9);
            let n = 1usize << k;
            let names = g.perm(n);
            let mut trees: Vec<Vec<u32>> = names.iter().map(|&x| vec![x as u32]).collect();
            let mut ops = vec![];
            let stray = *g.pick(&[0u64, 0, 1, 4]);
            let stop = g.size(1, 2);
            while trees.len() > stop {
                let mut next = vec![];
                while let Some(mut a) = trees.pop() {
                    let Some(b) = trees.pop() else { next.push(a); break };
                    // the first element stays the root unless ranks differ
                    let (mut x, mut y) = (a[0], b[0]);
                    if g.chance(stray, 40) { x = *g.pick(&a); }
                    if g.chance(stray, 40) { y = *g.pick(&b); }
                    ops.push(POp::Unite(x, y));
                    if g.chance(stray, 80) { ops.push(POp::Find(*g.pick(&b))); }
                    a.extend(b);
                    next.push(a);
                }
                next.reverse();
                trees = next;
            }
            let last: Vec<u32> = g.perm(n).into_iter().map(|x| x as u32).collect();
            (ops, last)
        },
        |(ops, last), o| {
            let mut p: Partition<u32> = Partition::new();
            let n = last.len();
            let mut cls: Vec<u32> = (0..n as u32).collect();
            for op in ops {
                match op {
                    POp::Unite(a, b) => {
                        sut(|| p.unite(a, b))?;
                        let (x, y) = (cls[*a as usize], cls[*b as usize]);
                        for t in &mut cls { if *t == y { *t = x; } }
                    },
                    POp::Find(a) => {
                        let r = sut(|| p.find(a))?;
                        ensure!(cls[r as usize] == cls[*a as usize], "representative of {}", a);
                    },
                    _ => {},
                }
            }
            o.nontrivial(n >= 16);
            let mut rep = std::collections::BTreeMap::new();
            for x in last {
                let r = sut(|| p.find(x))?;
                let c = cls[*x as usize];
                ensure!(cls[r as usize] == c, "representative {} of {} is in another class", r, x);
                let first = *rep.entry(c).or_insert(r);
                ensure!(first == r, "representatives {} and {} in one class", first, r);
            }
            let got = sut(|| p.classes(last))?;
            let mut want: Vec<Vec<u32>> = vec![];
            let mut at = std::collections::BTreeMap::new();
            for x in last {
                let c = cls[*x as usize];
                let k = *at.entry(c).or_insert(want.len());
                if k == want.len() { want.push(vec![]); }
                want[k].push(*x);
            }
            ensure_eq!(got, want, "classes");
            Ok(())
        });
    h.sub("strings", 3000, 60000, vec![],
        |g| g.vec(0, 30, |g| (g.below(8), g.below(8))),
        |ops, o| {
            // same behaviour for another element type
            let name = |k: u64| format!("element {}", k);
            let mut p: Partition<String> = Partition::new();
            let mut c: Vec<u64> = (0..8).collect();
            for &(a, b) in ops {
                sut(|| p.unite(&name(a), &name(b)))?;
                let (x, y) = (c[a as usize], c[b as usize]);
                for t in &mut c { if *t == y { *t = x; } }
            }
            o.nontrivial(ops.len() >= 3);
            for a in 0..8 { for b in 0..8 {
                let r = sut(|| p.find(&name(a)) == p.find(&name(b)))?;
                ensure_eq!(r, c[a as usize] == c[b as usize], "{} and {}", a, b);
            } }
            Ok(())
        });
}

// ------------------------------------------------------------------ C51

fn c51_test<T>(a: T, b: T, one: T, o: &mut Obs) -> Outcome
    where T: Copy + Zero + One + PartialEq + std::fmt::Debug + TryInto<i128>
        + std::ops::Div<Output=T> + std::ops::Sub<Output=T> + std::ops::Mul<Output=T>
{
    use num_integer::Integer;
    let w = |x: T| -> i128 { x.try_into().unwrap_or_else(|_| panic!("range")) };
    let _ = one;
    let (g, r, s, t, u) = sut(|| gcdx(a, b))?;
    let (a, b, g, r, s, t, u) = (w(a), w(b), w(g), w(r), w(s), w(t), w(u));
    o.nontrivial(a != 0 && b != 0 && a.abs() != b.abs());
    o.label_if(a < 0 || b < 0, "negative");
    o.label_if(a == 0 || b == 0, "zero");
    ensure_eq!(g.abs(), a.gcd(&b), "greatest common divisor of {} and {}", a, b);
    ensure_eq!(a * r + b * s, g, "first combination ({}, {})", r, s);
    ensure_eq!(a * t + b * u, 0, "second combination ({}, {})", t, u);
    ensure_eq!((r * u - s * t).abs(), 1, "determinant of {:?}", (r, s, t, u));
    Ok(())
}

fn c51(h: &mut Harness) {
    h.boost(15);
    h.rule("Pairs of 32 and 64 bit integers: all signs, zeros, multiples, \
        neighbouring Fibonacci numbers, values up to a quarter of the range; \
        non-trivial: both nonzero and of different size.");
    h.assume("|a|, |b| at most a quarter of the range of the type, so that no \
        intermediate value leaves it");
    fn pair(g: &mut Gen, max: i64) -> (i64, i64) {
        let (a, b) = match g.below(5) {
            0 => (g.int(-12, 12), g.int(-12, 12)),
            1 => { let f = g.int(-1000, 1000); (f * g.int(-1000, 1000), f * g.int(-1000, 1000)) },
            2 => {
                let (mut a, mut b) = (g.int(0, 3), g.int(1, 3));
                for _ in 0..g.size(0, 80) { if b < max / 3 { (a, b) = (b, a + b); } }
                (a, b)
            },
            3 => (g.skewed(max), g.skewed(max)),
            _ => (g.int(-max, max), g.int(-max, max)),
        };
        let (a, b) = if g.flip() { (a, b) } else { (b, a) };
        (if g.chance(1, 4) { -a } else { a }, if g.chance(1, 4) { -b } else { b })
    }
    h.sub("gcdx_i64", 20000, 500000, vec![(0, 0), (0, 5), (5, 0), (-6, 4), (4, -6), (7, 7), (-7, 7)],
        |g| pair(g, i64::MAX / 4),
        |&(a, b), o| c51_test(a, b, 1i64, o));
    h.sub("gcdx_i32", 20000, 500000, vec![(0, 0), (0, 5), (5, 0), (-6, 4), (4, -6), (7, 7), (-7, 7)],
        |g| { let (a, b) = pair(g, (i32::MAX / 4) as i64); (a as i32, b as i32) },
        |&(a, b), o| c51_test(a, b, 1i32, o));
}
