//! Independent exact linear algebra used as oracle (plain nested vectors).
use num_bigint::BigInt;
use num_integer::Integer;
use num_rational::BigRational;
use num_traits::{One, Signed, Zero};

use rust_systre::arithmetic::matrices::Matrix;

use crate::engine::Gen;

pub type Q = BigRational;
pub type Z = BigInt;
pub type QM = Vec<Vec<Q>>;
pub type ZM = Vec<Vec<Z>>;
pub type IM = Vec<Vec<i64>>;

pub fn z(n: i64) -> Z { Z::from(n) }
pub fn q(n: i64) -> Q { Q::from(Z::from(n)) }
pub fn qf(n: i64, d: i64) -> Q { Q::new(Z::from(n), Z::from(d)) }

pub fn qm(m: &IM) -> QM {
    m.iter().map(|r| r.iter().map(|&x| q(x)).collect()).collect()
}

pub fn zm(m: &IM) -> ZM {
    m.iter().map(|r| r.iter().map(|&x| z(x)).collect()).collect()
}

pub fn transpose<T: Clone>(m: &Vec<Vec<T>>) -> Vec<Vec<T>> {
    if m.is_empty() { return vec![]; }
    (0..m[0].len()).map(|j| m.iter().map(|r| r[j].clone()).collect()).collect()
}

pub fn identity(n: usize) -> QM {
    (0..n).map(|i| (0..n).map(|j| q((i == j) as i64)).collect()).collect()
}

pub fn iidentity(n: usize) -> IM {
    (0..n).map(|i| (0..n).map(|j| (i == j) as i64).collect()).collect()
}

/// a (n x k) times b (k x m); `m` needed when k = 0.
pub fn mul(a: &QM, b: &QM) -> QM {
    let m = if b.is_empty() { 0 } else { b[0].len() };
    a.iter().map(|r| {
        assert_eq!(r.len(), b.len());
        (0..m).map(|j| {
            let mut s = Q::zero();
            for (k, x) in r.iter().enumerate() {
                s += x * &b[k][j];
            }
            s
        }).collect()
    }).collect()
}

pub fn imul(a: &IM, b: &IM) -> IM {
    let m = b[0].len();
    a.iter().map(|r| {
        assert_eq!(r.len(), b.len());
        (0..m).map(|j| (0..r.len()).map(|k| r[k] * b[k][j]).sum()).collect()
    }).collect()
}

pub fn mul_vec(a: &QM, v: &[Q]) -> Vec<Q> {
    a.iter().map(|r| dot(r, v)).collect()
}

pub fn dot(a: &[Q], b: &[Q]) -> Q {
    assert_eq!(a.len(), b.len());
    let mut s = Q::zero();
    for i in 0..a.len() {
        s += &a[i] * &b[i];
    }
    s
}

pub fn vadd(a: &[Q], b: &[Q]) -> Vec<Q> {
    assert_eq!(a.len(), b.len());
    (0..a.len()).map(|i| &a[i] + &b[i]).collect()
}

pub fn vsub(a: &[Q], b: &[Q]) -> Vec<Q> {
    assert_eq!(a.len(), b.len());
    (0..a.len()).map(|i| &a[i] - &b[i]).collect()
}

/// Reduced row echelon form without zero rows, with pivot columns.
pub fn rref(m: &QM) -> (QM, Vec<usize>) {
    let mut a = m.clone();
    let ncols = if a.is_empty() { 0 } else { a[0].len() };
    let mut pivots = vec![];
    let mut r = 0;
    for c in 0..ncols {
        let Some(p) = (r..a.len()).find(|&i| !a[i][c].is_zero()) else {
            continue
        };
        a.swap(r, p);
        let f = a[r][c].clone();
        for x in &mut a[r] { *x = &*x / &f; }
        for i in 0..a.len() {
            if i != r && !a[i][c].is_zero() {
                let f = a[i][c].clone();
                for k in 0..ncols {
                    let t = &a[r][k] * &f;
                    a[i][k] -= t;
                }
            }
        }
        pivots.push(c);
        r += 1;
    }
    a.truncate(r);
    (a, pivots)
}

pub fn rank(m: &QM) -> usize { rref(m).1.len() }

/// By expansion along the first row, or beyond size 4 by elimination.
pub fn det(m: &QM) -> Q {
    let n = m.len();
    if n == 0 { return Q::one(); }
    assert!(m.iter().all(|r| r.len() == n));
    if n > 4 {
        let mut a = m.clone();
        let mut d = Q::one();
        for c in 0..n {
            let Some(p) = (c..n).find(|&i| !a[i][c].is_zero()) else {
                return Q::zero()
            };
            if p != c { a.swap(c, p); d = -d; }
            d *= &a[c][c];
            for i in c + 1..n {
                if a[i][c].is_zero() { continue; }
                let f = &a[i][c] / &a[c][c];
                for k in c..n {
                    let t = &a[c][k] * &f;
                    a[i][k] -= t;
                }
            }
        }
        return d;
    }
    let mut s = Q::zero();
    for j in 0..n {
        if m[0][j].is_zero() { continue; }
        let minor: QM = m[1..].iter().map(|r|
            (0..n).filter(|&k| k != j).map(|k| r[k].clone()).collect()
        ).collect();
        let t = &m[0][j] * det(&minor);
        if j % 2 == 0 { s += t } else { s -= t }
    }
    s
}

pub fn idet(m: &IM) -> i64 {
    use num_traits::ToPrimitive;
    det(&qm(m)).to_integer().to_i64().unwrap()
}

pub fn inverse(m: &QM) -> Option<QM> {
    let n = m.len();
    let a: QM = (0..n).map(|i| {
        let mut r = m[i].clone();
        r.extend((0..n).map(|j| q((i == j) as i64)));
        r
    }).collect();
    let (a, p) = rref(&a);
    if p.len() == n && (0..n).all(|i| p[i] == i) {
        Some(a.iter().map(|r| r[n..].to_vec()).collect())
    } else {
        None
    }
}

/// Basis of the solutions of m x = 0, as rows.
pub fn null_basis(m: &QM, ncols: usize) -> QM {
    let (a, p) = rref(m);
    let free: Vec<usize> = (0..ncols).filter(|c| !p.contains(c)).collect();
    free.iter().map(|&f| {
        let mut v = vec![Q::zero(); ncols];
        v[f] = Q::one();
        for (i, &c) in p.iter().enumerate() {
            v[c] = -a[i][f].clone();
        }
        v
    }).collect()
}

/// Canonical basis (Hermite normal form) of the lattice spanned by rows.
pub fn hnf(m: &ZM) -> ZM {
    let mut a: ZM = m.iter()
        .filter(|r| r.iter().any(|x| !x.is_zero())).cloned().collect();
    if a.is_empty() { return a; }
    let ncols = a[0].len();
    let mut r = 0;
    for c in 0..ncols {
        loop {
            // smallest non-zero entry of column c as pivot
            let p = (r..a.len()).filter(|&i| !a[i][c].is_zero())
                .min_by_key(|&i| a[i][c].abs());
            let Some(p) = p else { break };
            a.swap(r, p);
            if a[r][c].is_negative() {
                for x in &mut a[r] { *x = -&*x; }
            }
            let mut clean = true;
            for i in (r + 1)..a.len() {
                if !a[i][c].is_zero() {
                    let f = a[i][c].div_floor(&a[r][c]);
                    for k in 0..ncols {
                        let t = &a[r][k] * &f;
                        a[i][k] -= t;
                    }
                    clean &= a[i][c].is_zero();
                }
            }
            if clean {
                for i in 0..r {
                    let f = a[i][c].div_floor(&a[r][c]);
                    for k in 0..ncols {
                        let t = &a[r][k] * &f;
                        a[i][k] -= t;
                    }
                }
                r += 1;
                break;
            }
        }
        a.retain(|x| x.iter().any(|y| !y.is_zero()));
        if r >= a.len() { break; }
    }
    a
}

/// Canonical form of the lattice spanned by rational rows.
pub fn qhnf(m: &QM) -> QM {
    let mut d = Z::one();
    for r in m { for x in r { d = d.lcm(x.denom()); } }
    let dq = Q::from(d);
    let a: ZM = m.iter().map(|r|
        r.iter().map(|x| (x * &dq).to_integer()).collect()
    ).collect();
    hnf(&a).into_iter().map(|r|
        r.into_iter().map(|x| Q::from(x) / &dq).collect()
    ).collect()
}

pub fn same_lattice(a: &QM, b: &QM) -> bool { qhnf(a) == qhnf(b) }

pub fn in_lattice(v: &[Q], basis: &QM) -> bool {
    let mut b = basis.clone();
    b.push(v.to_vec());
    same_lattice(&b, basis)
}

pub fn is_integral(v: &[Q]) -> bool { v.iter().all(|x| x.is_integer()) }

/// Fractional parts in [0, 1).
pub fn frac(v: &[Q]) -> Vec<Q> { v.iter().map(|x| x - x.floor()).collect() }

// ------------------------------------------- conversion to the library

pub trait FromI: Clone { fn fi(x: i64) -> Self; fn tq(&self) -> Q; }
impl FromI for i64 { fn fi(x: i64) -> i64 { x } fn tq(&self) -> Q { q(*self) } }
impl FromI for i32 {
    fn fi(x: i64) -> i32 { x as i32 }
    fn tq(&self) -> Q { q(*self as i64) }
}
impl FromI for Q { fn fi(x: i64) -> Q { q(x) } fn tq(&self) -> Q { self.clone() } }

pub fn lib<T: FromI>(m: &IM, ncols: usize) -> Matrix<T> {
    let d: Vec<T> = m.iter().flatten().map(|&x| T::fi(x)).collect();
    if m.is_empty() && ncols == 0 {
        Matrix::new(0, &[])
    } else {
        Matrix::new(ncols, &d)
    }
}

pub fn libq(m: &QM) -> Matrix<Q> {
    let n = if m.is_empty() { 0 } else { m[0].len() };
    Matrix::new(n, &m.iter().flatten().cloned().collect::<Vec<_>>())
}

pub fn unlib<T: FromI>(m: &Matrix<T>) -> QM {
    let (r, c) = m.shape();
    (0..r).map(|i| (0..c).map(|j| m[(i, j)].tq()).collect()).collect()
}

pub fn unlibq(m: &Matrix<Q>) -> QM { unlib(m) }

pub fn is_overflow(msg: &str) -> bool {
    msg.contains("with overflow")
}

// ---------------------------------------------------------- generators

pub fn gen_dense(g: &mut Gen, r: usize, c: usize, k: i64) -> IM {
    (0..r).map(|_| (0..c).map(|_| g.int(-k, k)).collect()).collect()
}

/// Random unimodular matrix as a product of elementary operations.
pub fn gen_unimodular(g: &mut Gen, n: usize, steps: usize, k: i64) -> IM {
    let mut m = iidentity(n);
    if n == 1 {
        if g.flip() { m[0][0] = -1; }
        return m;
    }
    let steps = g.size(0, steps);
    for _ in 0..steps {
        match g.below(4) {
            0 | 1 => {
                let i = g.below(n as u64) as usize;
                let j = (i + 1 + g.below(n as u64 - 1) as usize) % n;
                let f = g.int(-k, k);
                for t in 0..n { m[i][t] += f * m[j][t]; }
            },
            2 => {
                let i = g.below(n as u64) as usize;
                for t in 0..n { m[i][t] = -m[i][t]; }
            },
            _ => {
                let i = g.below(n as u64) as usize;
                let j = (i + 1 + g.below(n as u64 - 1) as usize) % n;
                m.swap(i, j);
            }
        }
    }
    m
}

/// Integer matrices of many kinds; entries mostly within [-k, k].
pub fn gen_matrix(g: &mut Gen, r: usize, c: usize, k: i64) -> IM {
    match g.weighted(&[4, 3, 3, 2, 1, 1]) {
        0 => gen_dense(g, r, c, k),
        1 => (0..r).map(|_| (0..c).map(|_|
            if g.chance(2, 5) { g.int(-k, k) } else { 0 }
        ).collect()).collect(),
        2 => {
            // given rank
            let s = g.size(1, r.min(c).max(1));
            let a = gen_dense(g, r, s, 2);
            let b = gen_dense(g, s, c, (k / 2).max(1));
            imul(&a, &b)
        },
        3 => {
            // few distinct rows, repeated, negated, zeroed
            let base = gen_dense(g, 2, c, k);
            (0..r).map(|_| {
                let f = g.int(-2, 2);
                let i = g.below(2) as usize;
                base[i].iter().map(|x| x * f).collect()
            }).collect()
        },
        4 => {
            // permuted triangular
            let mut m: IM = (0..r).map(|i| (0..c).map(|j|
                if j >= i { g.int(-k, k) } else { 0 }
            ).collect()).collect();
            let p = g.perm(r);
            m = p.iter().map(|&i| m[i].clone()).collect();
            m
        },
        _ => {
            let mut m = gen_dense(g, r, c, k);
            let zr = g.below(r as u64) as usize;
            for x in &mut m[zr] { *x = 0; }
            if g.flip() {
                let zc = g.below(c as u64) as usize;
                for row in &mut m { row[zc] = 0; }
            }
            m
        }
    }
}
