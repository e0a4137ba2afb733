//! C08-C11 (affine geometry) and C12-C15 (lattices).
use hx::engine::*;
use hx::la::*;
use hx::{ensure, ensure_eq};

use num_traits::{Signed, Zero};
use rust_systre::arithmetic::geometry::{
    AffineMap, CoordinateMap, ModZ, Point, ScalarProduct, Vector
};
use rust_systre::spacegroups::lattices;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct W {}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct L {}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct X {}

fn main() {
    hx::engine::main(&[
        ("C08", c08), ("C09", c09), ("C10", c10), ("C11", c11),
        ("C12", c12), ("C13", c13), ("C14", c14), ("C15", c15),
        ("C48", c48), ("C50", c50), ("C54", c54),
        ("C55", c55),
    ]);
}

// ------------------------------------------------------ affine model

/// An affine map given by integer numerators over a common denominator.
#[derive(Clone, Debug)]
struct Aff { m: IM, t: Vec<i64>, d: i64, dt: i64 }

impl Aff {
    fn lin(&self) -> QM {
        self.m.iter().map(|r| r.iter().map(|&x| qf(x, self.d)).collect()).collect()
    }
    fn shift(&self) -> Vec<Q> { self.t.iter().map(|&x| qf(x, self.dt)).collect() }
    fn lib<C: Clone>(&self) -> AffineMap<Q, C> {
        AffineMap::new(&libq(&self.lin()), &Vector::new(&self.shift()))
    }
}

fn gen_aff(g: &mut Gen, n: usize, regular: bool) -> Aff {
    let mut m = match g.weighted(&[3, 2, 1, 1]) {
        0 => gen_dense(g, n, n, 4),
        1 => gen_unimodular(g, n, 4, 2),
        2 => iidentity(n),
        _ => gen_matrix(g, n, n, 3),
    };
    if regular && rank(&qm(&m)) < n {
        // shear the identity by it: triangular part only, hence regular
        for i in 0..n { for j in 0..n {
            if i == j { m[i][j] = 1 } else if i > j { m[i][j] = 0 }
        } }
    }
    let d = *g.pick(&[1, 1, 1, 2, 3, 6]);
    let dt = *g.pick(&[1, 2, 3, 12]);
    let k = if g.chance(1, 12) { 3_000_000_000_000 } else { 20 };
    let t = (0..n).map(|_| if g.chance(1, 4) { 0 } else { g.int(-k, k) }).collect();
    Aff { m, t, d, dt }
}

#[derive(Clone, Debug)]
struct Vq { v: Vec<i64>, d: i64 }

impl Vq {
    fn q(&self) -> Vec<Q> { self.v.iter().map(|&x| qf(x, self.d)).collect() }
}

fn gen_vq(g: &mut Gen, n: usize) -> Vq {
    let d = if g.chance(1, 12) { 1_000_003 } else { *g.pick(&[1, 2, 3, 5, 12]) };
    let k = if g.chance(1, 12) { 3_000_000_000_000 } else { *g.pick(&[1, 9, 40]) };
    Vq { v: (0..n).map(|_| if g.chance(1, 4) { 0 } else { g.int(-k, k) }).collect(), d }
}

fn cv<C>(v: &Vector<Q, C>) -> Vec<Q> { v.iter().cloned().collect() }
fn cp<C>(v: &Point<Q, C>) -> Vec<Q> { v.iter().cloned().collect() }
fn ca<C: Clone>(a: &AffineMap<Q, C>) -> (QM, Vec<Q>) {
    (unlibq(&a.linear_matrix()), cv(&a.shift()))
}
fn scale(v: &[Q], f: &Q) -> Vec<Q> { v.iter().map(|x| x * f).collect() }

/// Model: (linear, shift), composition as functions on points.
fn comp(a: &(QM, Vec<Q>), b: &(QM, Vec<Q>)) -> (QM, Vec<Q>) {
    (mul(&a.0, &b.0), vadd(&mul_vec(&a.0, &b.1), &a.1))
}
fn at(a: &(QM, Vec<Q>), p: &[Q]) -> Vec<Q> { vadd(&mul_vec(&a.0, p), &a.1) }

fn model_inverse(a: &(QM, Vec<Q>)) -> Option<(QM, Vec<Q>)> {
    let i = inverse(&a.0)?;
    let s = mul_vec(&i, &a.1).iter().map(|x| -x).collect();
    Some((i, s))
}

type V = Vector<Q, W>;
type P = Point<Q, W>;

fn c08(h: &mut Harness) {
    h.boost(4);
    h.rule("Affine maps in dimensions 1-4, now and then higher (dense, unimodular, identity, \
        singular; rational) with points and vectors; every operator form. \
        Non-trivial: dimension at least 2 and non-zero shifts.");
    h.sub("maps", 8000, 200000, vec![],
        |g| {
            let n = g.larger(1, 4, 6);
            (gen_aff(g, n, false), gen_aff(g, n, false), gen_aff(g, n, false),
                gen_vq(g, n), gen_vq(g, n))
        },
        |(a, b, c, p, q_), o| {
            let n = a.m.len();
            o.nontrivial(n >= 2 && a.t.iter().any(|x| *x != 0)
                && b.t.iter().any(|x| *x != 0));
            let (ma, mb, mc) = ((a.lin(), a.shift()), (b.lin(), b.shift()), (c.lin(), c.shift()));
            let (la, lb, lc) = (a.lib::<W>(), b.lib::<W>(), c.lib::<W>());
            ensure_eq!(la.dim(), n, "dim");
            ensure_eq!(ca(&la), ma, "parts of the map");
            let ab = sut(|| &la * &lb)?;
            ensure_eq!(ca(&ab), comp(&ma, &mb), "composite");
            ensure!(sut(|| &la * lb.clone())? == ab && sut(|| la.clone() * &lb)? == ab
                && sut(|| la.clone() * lb.clone())? == ab, "forms of the product differ");
            let abc = sut(|| &ab * &lc)?;
            ensure_eq!(ca(&abc), comp(&comp(&ma, &mb), &mc), "triple composite");
            ensure!(sut(|| &la * &(&lb * &lc))? == abc, "associativity");
            let id: AffineMap<Q, W> = sut(|| AffineMap::identity(n))?;
            ensure_eq!(ca(&id), (identity(n), vec![Q::zero(); n]), "identity");
            ensure!(sut(|| &id * &la)? == la && sut(|| &la * &id)? == la, "neutral element");
            for (l, m) in [(&la, &ma), (&ab, &comp(&ma, &mb)), (&id, &ca(&id))] {
                ensure_eq!(sut(|| l.is_identity())?,
                    m.0 == identity(n) && m.1.iter().all(|x| x.is_zero()), "is_identity");
            }
            let m: AffineMap<Q, W> = sut(|| AffineMap::from(libq(&ma.0)))?;
            ensure_eq!(ca(&m), (ma.0.clone(), vec![Q::zero(); n]), "from matrix");

            let (pq, qq) = (p.q(), q_.q());
            let (pp, pr): (P, P) = (Point::new(&pq), Point::new(&qq));
            let (vp, vr): (V, V) = (Vector::new(&pq), Vector::new(&qq));
            ensure_eq!(cp(&sut(|| &la * &pp)?), at(&ma, &pq), "image of a point");
            ensure_eq!(cp(&sut(|| &la * pp.clone())?), at(&ma, &pq), "image of a point by value");
            ensure_eq!(cp(&sut(|| la.clone() * &pp)?), at(&ma, &pq), "image of a point, map by value");
            ensure_eq!(cv(&sut(|| &la * &vp)?), mul_vec(&ma.0, &pq), "image of a vector");
            ensure_eq!(cv(&sut(|| &la * vp.clone())?), mul_vec(&ma.0, &pq), "image of a vector by value");
            ensure_eq!(cv(&sut(|| la.clone() * &vp)?), mul_vec(&ma.0, &pq), "image of a vector, map by value");
            ensure!(sut(|| &ab * &pp)? == sut(|| &la * &(&lb * &pp))?, "composite on points");
            ensure!(sut(|| &ab * &vp)? == sut(|| &la * &(&lb * &vp))?, "composite on vectors");
            ensure!(sut(|| &(&la * &pp) - &(&la * &pr))? == sut(|| &la * &(&pp - &pr))?,
                "difference of images");
            ensure!(sut(|| &la * &(&pp + &vr))? == sut(|| &(&la * &pp) + &(&la * &vr))?,
                "image of a translate");

            let inv = sut(|| la.inverse())?;
            match (inv, model_inverse(&ma)) {
                (None, None) => o.label("singular"),
                (Some(x), Some(y)) => {
                    o.label("invertible");
                    ensure_eq!(ca(&x), y, "inverse");
                    ensure!(sut(|| &x * &la)?.is_identity() && sut(|| &la * &x)?.is_identity(),
                        "inverse does not undo the map");
                },
                (x, y) => return Err(format!("inverse {:?}, expected {:?}", x.map(|x| ca(&x)), y)),
            }
            Ok(())
        });
    h.sub("vectors", 8000, 200000, vec![],
        |g| {
            let n = g.larger(1, 5, 16);
            let f = Vq { v: vec![g.int(-9, 9)], d: *g.pick(&[1, 2, 7]) };
            (gen_vq(g, n), gen_vq(g, n), f, g.below(n as u64) as usize)
        },
        |(u, v, f, k), o| {
            let n = u.v.len();
            o.nontrivial(n >= 2 && u.v != v.v && u.v.iter().any(|x| *x != 0));
            let (a, b, f) = (u.q(), v.q(), f.q()[0].clone());
            let (x, y): (V, V) = (Vector::new(&a), Vector::new(&b));
            let (p, r): (P, P) = (Point::new(&a), Point::new(&b));
            let sum = vadd(&a, &b);
            let dif = vsub(&a, &b);
            ensure_eq!((x.dim(), p.dim()), (n, n), "dim");
            ensure_eq!(x[*k], a[*k], "index");
            ensure_eq!(p[*k], a[*k], "point index");
            for (w, t) in [
                (sut(|| &x + &y)?, "&+&"), (sut(|| x.clone() + &y)?, "+&"),
                (sut(|| &x + y.clone())?, "&+"), (sut(|| x.clone() + y.clone())?, "+"),
                (sut(|| { let mut t = x.clone(); t += &y; t })?, "+=&"),
                (sut(|| { let mut t = x.clone(); t += y.clone(); t })?, "+="),
            ] { ensure_eq!(cv(&w), sum, "vector {}", t); }
            for (w, t) in [
                (sut(|| &x - &y)?, "&-&"), (sut(|| x.clone() - &y)?, "-&"),
                (sut(|| &x - y.clone())?, "&-"), (sut(|| x.clone() - y.clone())?, "-"),
                (sut(|| { let mut t = x.clone(); t -= &y; t })?, "-=&"),
                (sut(|| { let mut t = x.clone(); t -= y.clone(); t })?, "-="),
                (sut(|| &p - &r)?, "point &-&"), (sut(|| p.clone() - &r)?, "point -&"),
                (sut(|| &p - r.clone())?, "point &-"), (sut(|| p.clone() - r.clone())?, "point -"),
            ] { ensure_eq!(cv(&w), dif, "vector {}", t); }
            for (w, t) in [
                (sut(|| &p + &y)?, "&+&"), (sut(|| p.clone() + &y)?, "+&"),
                (sut(|| &p + y.clone())?, "&+"), (sut(|| p.clone() + y.clone())?, "+"),
                (sut(|| { let mut t = p.clone(); t += &y; t })?, "+=&"),
                (sut(|| { let mut t = p.clone(); t += y.clone(); t })?, "+="),
            ] { ensure_eq!(cp(&w), sum, "point and vector {}", t); }
            for (w, t) in [
                (sut(|| &p - &y)?, "&-&"), (sut(|| p.clone() - &y)?, "-&"),
                (sut(|| &p - y.clone())?, "&-"), (sut(|| p.clone() - y.clone())?, "-"),
                (sut(|| { let mut t = p.clone(); t -= &y; t })?, "-=&"),
                (sut(|| { let mut t = p.clone(); t -= y.clone(); t })?, "-="),
            ] { ensure_eq!(cp(&w), dif, "point and vector {}", t); }
            for (w, t) in [
                (sut(|| &x * &f)?, "&*&"), (sut(|| x.clone() * &f)?, "*&"),
                (sut(|| &x * f.clone())?, "&*"), (sut(|| x.clone() * f.clone())?, "*"),
                (sut(|| { let mut t = x.clone(); t *= &f; t })?, "*=&"),
                (sut(|| { let mut t = x.clone(); t *= f.clone(); t })?, "*="),
            ] { ensure_eq!(cv(&w), scale(&a, &f), "vector {}", t); }
            if !f.is_zero() {
                let fi = f.recip();
                for (w, t) in [
                    (sut(|| &x / &f)?, "&/&"), (sut(|| x.clone() / &f)?, "/&"),
                    (sut(|| &x / f.clone())?, "&/"), (sut(|| x.clone() / f.clone())?, "/"),
                    (sut(|| { let mut t = x.clone(); t /= &f; t })?, "/=&"),
                    (sut(|| { let mut t = x.clone(); t /= f.clone(); t })?, "/="),
                ] { ensure_eq!(cv(&w), scale(&a, &fi), "vector {}", t); }
            }
            let neg: Vec<Q> = a.iter().map(|x| -x).collect();
            ensure_eq!(cv(&sut(|| -&x)?), neg, "negated");
            ensure_eq!(cv(&sut(|| -x.clone())?), neg, "negated by value");
            ensure_eq!(cv(&sut(|| Vector::<Q, W>::unit(n, *k))?), identity(n)[*k], "unit vector");
            ensure_eq!(cv(&sut(|| Vector::<Q, W>::zero(n))?), vec![Q::zero(); n], "zero");
            ensure_eq!(cp(&sut(|| Point::<Q, W>::origin(n))?), vec![Q::zero(); n], "origin");
            ensure_eq!(x == y, a == b, "equality of vectors");
            ensure_eq!(p == r, a == b, "equality of points");
            // dimensions must agree
            let mut longer = b.clone();
            longer.push(Q::zero());
            let long: V = Vector::new(&longer);
            ensure!(sut(|| &x + &long).is_err() && sut(|| &x - &long).is_err()
                && sut(|| &p + &long).is_err() && sut(|| &p - &long).is_err(),
                "mixed dimensions accepted");
            Ok(())
        });
}

// ---------------------------------------------------------------- C09

fn gen_spd(g: &mut Gen, n: usize) -> IM {
    // A^T A + diagonal, or well-known lattices
    let k = *g.pick(&[1, 2, 3]);
    let a = gen_dense(g, n, n, k);
    let mut m = imul(&transpose(&a), &a);
    for i in 0..n { m[i][i] += g.int(0, 2); }
    if !is_spd(&qm(&m)) { for i in 0..n { m[i][i] += 1; } }
    m
}

/// Independent test by symmetric elimination (all pivots positive).
fn is_spd(m: &QM) -> bool {
    let n = m.len();
    if m.iter().any(|r| r.len() != n) { return false; }
    if transpose(m) != *m { return false; }
    let mut a = m.clone();
    for i in 0..n {
        if !a[i][i].is_positive() { return false; }
        for j in (i + 1)..n {
            let f = &a[j][i] / &a[i][i];
            for k in i..n {
                let x = &f * &a[i][k];
                a[j][k] -= x;
            }
        }
    }
    true
}

fn c09(h: &mut Harness) {
    h.boost(3);
    h.rule("Invertible rational coordinate maps with and without shift in \
        dimensions 1-4 and now and then higher, points, vectors, affine maps, positive definite \
        products, bases. Non-trivial: dimension at least 2 and a linear part \
        that is neither symmetric nor orthogonal.");
    h.sub("changes", 6000, 150000, vec![],
        |g| {
            let n = g.larger(1, 4, 5);
            (gen_aff(g, n, true), gen_aff(g, n, true), gen_aff(g, n, false),
                gen_vq(g, n), gen_vq(g, n), gen_spd(g, n))
        },
        |(c, e, a, p, v, s), o| {
            let n = c.m.len();
            let mc = (c.lin(), c.shift());
            let me = (e.lin(), e.shift());
            let t = transpose(&mc.0);
            o.nontrivial(n >= 2 && t != mc.0 && mul(&t, &mc.0) != identity(n));
            o.label_if(idet(&c.m) < 0, "orientation reversing");
            let f: CoordinateMap<Q, W, L> = sut(|| CoordinateMap::new(&c.lib()))?;
            let k: CoordinateMap<Q, L, X> = sut(|| CoordinateMap::new(&e.lib()))?;
            let b = sut(|| f.inverse())?;
            ensure_eq!(f.dim(), n, "dim");
            ensure_eq!(ca(&f.forward()), mc, "forward part");
            ensure_eq!(ca(&b.forward()), model_inverse(&mc).unwrap(), "inverse");
            ensure!(sut(|| b.inverse())? == f, "inverse of the inverse");
            ensure!(sut(|| &b * &f)?.is_identity(), "inverse after map");
            ensure!(sut(|| &f * &b)?.is_identity(), "map after inverse");
            ensure_eq!(sut(|| f.is_identity())?,
                mc == (identity(n), vec![Q::zero(); n]), "is_identity");
            ensure_eq!(sut(|| f.determinant())?, det(&mc.0), "determinant");
            let id: CoordinateMap<Q, W, L> = sut(|| CoordinateMap::identity(n))?;
            ensure!(id.is_identity(), "identity");

            let kf: CoordinateMap<Q, W, X> = sut(|| &k * &f)?;
            ensure_eq!(ca(&kf.forward()), comp(&me, &mc), "composite");
            ensure_eq!(ca(&sut(|| kf.inverse())?.forward()),
                model_inverse(&comp(&me, &mc)).unwrap(), "inverse of the composite");
            ensure!(sut(|| k.clone() * f.clone())? == kf, "composite by value");

            let (pw, vw, uw): (P, V, V) =
                (Point::new(&p.q()), Vector::new(&v.q()), Vector::new(&p.q()));
            let aw: AffineMap<Q, W> = a.lib();
            let sw: ScalarProduct<Q, W> = sut(|| ScalarProduct::from(lib::<Q>(s, n)))?;
            let pl: Point<Q, L> = sut(|| &f * &pw)?;
            let vl: Vector<Q, L> = sut(|| &f * &vw)?;
            let ul: Vector<Q, L> = sut(|| &f * &uw)?;
            let al: AffineMap<Q, L> = sut(|| &f * &aw)?;
            let sl: ScalarProduct<Q, L> = sut(|| &f * &sw)?;
            ensure_eq!(cp(&pl), at(&mc, &p.q()), "transformed point");
            ensure_eq!(cv(&vl), mul_vec(&mc.0, &v.q()), "transformed vector");
            ensure!(sut(|| f.clone() * pw.clone())? == pl && sut(|| f.clone() * vw.clone())? == vl
                && sut(|| f.clone() * aw.clone())? == al && sut(|| f.clone() * sw.clone())? == sl,
                "forms by value differ");
            // there and back
            ensure!(sut(|| &b * &pl)? == pw, "point there and back");
            ensure!(sut(|| &b * &vl)? == vw, "vector there and back");
            ensure!(sut(|| &b * &al)? == aw, "map there and back");
            ensure!(sut(|| &b * &sl)? == sw, "product there and back");
            // in two steps
            ensure!(sut(|| &kf * &pw)? == sut(|| &k * &pl)?, "point in two steps");
            ensure!(sut(|| &kf * &vw)? == sut(|| &k * &vl)?, "vector in two steps");
            ensure!(sut(|| &kf * &aw)? == sut(|| &k * &al)?, "map in two steps");
            ensure!(sut(|| &kf * &sw)? == sut(|| &k * &sl)?, "product in two steps");
            // commutes with geometry
            ensure!(sut(|| sl.apply(&vl, &ul))? == sut(|| sw.apply(&vw, &uw))?,
                "product of transformed vectors");
            ensure!(sut(|| &f * &(&aw * &pw))? == sut(|| &al * &pl)?, "image of a transformed point");
            ensure!(sut(|| &f * &(&aw * &vw))? == sut(|| &al * &vl)?, "image of a transformed vector");
            ensure!(sut(|| &f * &(&pw + &vw))? == sut(|| &pl + &vl)?, "translate");

            // bases: the rows of c and e as vectors
            let basis: Vec<Vector<Q, W>> = mc.0.iter().map(|r| Vector::new(r)).collect();
            let to: CoordinateMap<Q, W, L> = sut(|| CoordinateMap::to_basis(&basis))?;
            let from: CoordinateMap<Q, L, W> = sut(|| CoordinateMap::from_basis(&basis))?;
            for i in 0..n {
                ensure_eq!(cv(&sut(|| &to * &basis[i])?), identity(n)[i], "basis vector to unit vector");
                let unit: Vector<Q, L> = Vector::unit(n, i);
                ensure!(sut(|| &from * &unit)? == basis[i], "unit vector to basis vector");
            }
            let o_: Point<Q, W> = Point::origin(n);
            ensure!(cp(&sut(|| &to * &o_)?).iter().all(|x| x.is_zero()), "origin moved");
            ensure!(sut(|| &to * &from)?.is_identity(), "to_basis after from_basis");
            let fm: CoordinateMap<Q, W, L> = sut(|| CoordinateMap::from(libq(&mc.0)))?;
            ensure_eq!(ca(&fm.forward()), (mc.0.clone(), vec![Q::zero(); n]), "from matrix");
            Ok(())
        });
}

// ---------------------------------------------------------------- C10

fn c10(h: &mut Harness) {
    h.boost(6);
    h.rule("Symmetric and asymmetric rational matrices in dimensions 1-5 and now and then higher: \
        positive definite, semidefinite, indefinite (by congruence with chosen \
        signature, and positive leading minors broken at a chosen position), \
        non-square. Non-trivial: dimension at least 2.");
    h.sub("accept", 10000, 250000,
        vec![
            (vec![vec![0, 0], vec![0, 0]], 1, vec![]),
            (vec![vec![1, 0, 0], vec![0, 1, 0]], 1, vec![]),
            (vec![vec![-1, 0], vec![0, -1]], 1, vec![]),
        ],
        |g| {
            let n = g.larger(1, 5, 9);
            let d = *g.pick(&[1, 2, 5]);
            let mut m = match g.weighted(&[3, 4, 2, 1]) {
                0 => gen_spd(g, n),
                1 => {
                    // congruence with a chosen signature
                    let u = gen_unimodular(g, n, 6, 2);
                    let sig: Vec<i64> = (0..n).map(|_| *g.pick(&[1, 1, 3, 1, 0, -1])).collect();
                    let dg: IM = (0..n).map(|i| (0..n).map(|j|
                        if i == j { sig[i] } else { 0 }).collect()).collect();
                    imul(&imul(&transpose(&u), &dg), &u)
                },
                2 => {
                    let a = gen_dense(g, n, n, 3);
                    (0..n).map(|i| (0..n).map(|j| a[i][j] + a[j][i]).collect()).collect()
                },
                _ => gen_dense(g, n, n, 3),
            };
            if n >= 2 && g.chance(1, 8) {
                let i = g.below(n as u64) as usize;
                let j = (i + 1 + g.below(n as u64 - 1) as usize) % n;
                m[i][j] += *g.pick(&[1, -1]);
            }
            if g.chance(1, 6) {
                // definite or not by next to nothing
                let big = *g.pick(&[1_000_003, 1 << 33, 1_000_000_000_000]);
                for r in &mut m { for x in r { *x *= big; } }
                let i = g.below(n as u64) as usize;
                m[i][i] += *g.pick(&[1, -1]);
                if n >= 2 && g.chance(1, 8) { m[i][(i + 1) % n] += 1; }
            }
            if n >= 2 && g.chance(1, 20) { m.pop(); }
            let vs: Vec<Vec<i64>> = (0..3).map(|_| (0..n).map(|_| g.int(-5, 5)).collect()).collect();
            (m, d, vs)
        },
        |(m, d, vs), o| {
            let c = m[0].len();
            let a: QM = m.iter().map(|r| r.iter().map(|&x| qf(x, *d)).collect()).collect();
            let want = is_spd(&a);
            o.nontrivial(c >= 2);
            o.label(if want { "positive definite" } else if transpose(&a) != a
                { "not symmetric" } else { "not positive definite" });
            let got = sut(|| ScalarProduct::<Q, W>::from(Matrix::new(
                c, &a.iter().flatten().cloned().collect::<Vec<_>>())));
            match got {
                Err(e) => ensure!(!want, "refused: {}", e),
                Ok(s) => {
                    ensure!(want, "accepted as scalar product");
                    ensure_eq!(s.dim(), c, "dimension");
                    let ws: Vec<V> = vs.iter().map(|v| Vector::new(&qm(&vec![v.clone()])[0])).collect();
                    for (i, u) in ws.iter().enumerate() { for (j, w) in ws.iter().enumerate() {
                        let x = sut(|| s.apply(u, w))?;
                        let mut e = Q::zero();
                        for k in 0..c { for l in 0..c {
                            e += &a[k][l] * q(vs[i][k] * vs[j][l]);
                        } }
                        ensure_eq!(x, e, "product of {:?} and {:?}", vs[i], vs[j]);
                    } }
                    for i in 0..c { for j in 0..c {
                        ensure_eq!(s[(i, j)], a[i][j], "coefficient");
                    } }
                    let u: V = Vector::zero(c + 1);
                    if !ws.is_empty() {
                        ensure!(sut(|| s.apply(&u, &ws[0])).is_err()
                            && sut(|| s.apply(&ws[0], &u)).is_err(), "mixed dimensions accepted");
                    }
                }
            }
            let std: ScalarProduct<Q, W> = sut(|| ScalarProduct::default(c))?;
            for v in vs {
                let w: V = Vector::new(&qm(&vec![v.clone()])[0]);
                ensure_eq!(sut(|| std.apply(&w, &w))?,
                    q(v.iter().map(|x| x * x).sum::<i64>()), "standard product");
            }
            Ok(())
        });
}
use rust_systre::arithmetic::linear_algebra::LinearAlgebra;
use rust_systre::arithmetic::matrices::Matrix;

// ---------------------------------------------------------------- C11

fn c11(h: &mut Harness) {
    h.boost(12);
    h.rule("Rational vectors and affine maps in dimensions 1-4, now and then higher, with integer \
        translates; non-trivial: some coordinate is negative or an integer.");
    h.sub("reduce", 10000, 250000,
        vec![
            (Vq { v: vec![-1, 0, 1], d: 1 }, vec![0, 3, -3], Aff { m: iidentity(3), t: vec![-3, 3, -1], d: 1, dt: 3 }),
        ],
        |g| {
            let n = g.larger(1, 4, 6);
            let v = gen_vq(g, n);
            let t = (0..n).map(|_| g.int(-5, 5)).collect();
            (v, t, gen_aff(g, n, false))
        },
        |(v, t, a), o| {
            let n = v.v.len();
            let x = v.q();
            let want = frac(&x);
            o.label_if(x.iter().any(|c| c.is_negative()), "negative coordinate");
            o.label_if(x.iter().any(|c| c.is_integer() && c.is_negative()), "negative integer");
            o.nontrivial(x.iter().any(|c| c.is_negative() || c.is_integer()));
            let l: V = Vector::new(&x);
            ensure_eq!(cv(&sut(|| l.mod_z())?), want, "reduced vector");
            let y = vadd(&x, &qm(&vec![t.clone()])[0]);
            let l2: V = Vector::new(&y);
            ensure!(sut(|| l.mod_z())? == sut(|| l2.mod_z())?, "translates reduce differently");
            ensure!(sut(|| l.mod_z().mod_z())? == sut(|| l.mod_z())?, "not idempotent");

            let m: AffineMap<Q, W> = AffineMap::new(&libq(&a.lin()), &l);
            let m2: AffineMap<Q, W> = AffineMap::new(&libq(&a.lin()), &l2);
            let r = sut(|| m.mod_z())?;
            ensure_eq!(ca(&r), (a.lin(), want), "reduced map");
            ensure!(sut(|| m2.mod_z())? == r, "translated maps reduce differently");
            use std::collections::HashSet;
            let set: HashSet<_> = [r, sut(|| m2.mod_z())?].into_iter().collect();
            ensure_eq!(set.len(), 1, "hashes of equal maps");
            let s: V = Vector::new(&a.shift());
            ensure_eq!(cv(&sut(|| s.mod_z())?), frac(&a.shift()), "reduced shift");
            ensure_eq!(n, l.dim(), "dim");
            Ok(())
        });
}

// ------------------------------------------------------ lattices

/// A lattice with basis `b` (rows, moderately sized), inner product with
/// matrix `gram`, and the skewed generators `u` times `b`, all divided by `d`.
#[derive(Clone, Debug)]
struct Lat { b: IM, u: IM, gram: IM, d: i64 }

impl Lat {
    fn n(&self) -> usize { self.b.len() }
    fn basis(&self) -> QM { self.scaled(&self.b) }
    fn skewed(&self) -> QM { self.scaled(&imul(&self.u, &self.b)) }
    fn scaled(&self, m: &IM) -> QM {
        m.iter().map(|r| r.iter().map(|&x| qf(x, self.d)).collect()).collect()
    }
    fn dot(&self, v: &[Q], w: &[Q]) -> Q {
        let mut s = Q::zero();
        for i in 0..v.len() { for j in 0..w.len() {
            if self.gram[i][j] != 0 { s += q(self.gram[i][j]) * &v[i] * &w[j]; }
        } }
        s
    }
    /// Integer Gram matrix of the rows of `b` (times d squared).
    fn a0(&self) -> Vec<Vec<i128>> {
        let n = self.n();
        (0..n).map(|i| (0..n).map(|j| {
            let mut s = 0i128;
            for k in 0..n { for l in 0..n {
                s += self.b[i][k] as i128 * self.gram[k][l] as i128 * self.b[j][l] as i128;
            } }
            s
        }).collect()).collect()
    }
    /// All coefficient vectors with respect to `b` of norm at most r.
    fn short(&self, r: i128) -> Vec<(i128, Vec<i64>)> {
        let a = self.a0();
        let n = self.n();
        let aq: QM = a.iter().map(|x| x.iter().map(|&y| Q::from(Z::from(y))).collect()).collect();
        let inv = inverse(&aq).unwrap();
        let bound: Vec<i64> = (0..n).map(|i| {
            let x = (&inv[i][i] * Q::from(Z::from(r))).to_integer();
            let x: i64 = x.try_into().unwrap();
            let mut k = (x as f64).sqrt() as i64 + 1;
            while k * k > x { k -= 1; }
            k
        }).collect();
        let mut res = vec![];
        // all values of the other coefficients, with the range of the first
        // one that they leave (found approximately, with a margin)
        let mut c: Vec<i64> = bound.iter().map(|x| -x).collect();
        loop {
            c[0] = 0;
            let a00 = a[0][0] as f64;
            let b: f64 = (1..n).map(|j| a[0][j] as f64 * c[j] as f64).sum();
            let rest = norm(&a, &c);
            let disc = b * b - a00 * (rest - r) as f64;
            let slack = 1e-9 * (b * b).max(a00 * r as f64);
            if disc >= -slack {
                let w = (disc + slack).max(0.0).sqrt();
                let lo = (((-b - w) / a00) as i64 - 2).max(-bound[0]);
                let hi = (((-b + w) / a00) as i64 + 2).min(bound[0]);
                for x in lo..=hi {
                    c[0] = x;
                    let norm = norm(&a, &c);
                    if norm <= r { res.push((norm, c.clone())); }
                }
            }
            let mut i = 1;
            while i < n && c[i] == bound[i] { c[i] = -bound[i]; i += 1; }
            if i >= n { break; }
            c[i] += 1;
        }
        res.sort();
        res
    }
    fn vector(&self, c: &[i64]) -> Vec<Q> {
        let v = imul(&vec![c.to_vec()], &self.b);
        self.scaled(&v).remove(0)
    }
    /// Coordinates of `v` with respect to `b`.
    fn coords(&self, v: &[Q]) -> Vec<Q> {
        let i = inverse(&self.basis()).unwrap();
        mul(&vec![v.to_vec()], &i).remove(0)
    }
    fn icoords(&self, v: &[Q]) -> Result<Vec<i64>, String> {
        let c = self.coords(v);
        ensure!(is_integral(&c), "not a lattice vector: {:?}", v);
        c.iter().map(|x| x.to_integer().try_into()
            .map_err(|_| format!("huge vector {:?}", v))).collect()
    }
    /// Minimal norm in each non-trivial class modulo twice the lattice, with
    /// all minimal vectors.
    fn class_minima(&self) -> Vec<(i128, Vec<Vec<i64>>)> {
        let n = self.n();
        let a = self.a0();
        let reps: Vec<Vec<i64>> = (1..(1usize << n))
            .map(|k| (0..n).map(|i| ((k >> i) & 1) as i64).collect()).collect();
        // best representative with coefficients in -1..=1 bounds the minimum
        let mut r = 0;
        for rep in &reps {
            let mut best = norm(&a, rep);
            for s in 0..(1usize << n) {
                let c: Vec<i64> = (0..n).map(|i|
                    if (s >> i) & 1 == 1 { -rep[i] } else { rep[i] }).collect();
                best = best.min(norm(&a, &c));
            }
            r = r.max(best);
        }
        let short = self.short(r);
        reps.iter().map(|rep| {
            let of: Vec<_> = short.iter().filter(|(_, c)|
                (0..n).all(|i| (c[i] - rep[i]).rem_euclid(2) == 0)).collect();
            let m = of[0].0;
            (m, of.iter().filter(|x| x.0 == m).map(|x| x.1.clone()).collect())
        }).collect()
    }
}

fn norm(a: &Vec<Vec<i128>>, c: &[i64]) -> i128 {
    let mut s = 0;
    for i in 0..c.len() { for j in 0..c.len() {
        s += a[i][j] * (c[i] * c[j]) as i128;
    } }
    s
}

/// One basis vector much shorter than the others, in terms of vectors that
/// differ by it and hence have nearly equal lengths.
fn gen_needle(g: &mut Gen, lo: usize) -> Lat {
    let n = if g.chance(1, 4) { 3 } else { 2 }.max(lo);
    let k = *g.pick(&[10_000, 1_000_000, 10_000_000, if n == 2 { 100_000_000 } else { 10_000_000 }]);
    let gram = (0..n).map(|i| (0..n).map(|j| if i != j { 0 } else if i == 0 { 1 }
        else { k + g.int(-1, 1) }).collect()).collect();
    let (x, s) = (g.int(-30, 30), *g.pick(&[1, -1]));
    let mut u = iidentity(n);
    u[0][0] = x;
    u[0][1] = s;
    u[1][0] = x + *g.pick(&[1, -1]);
    u[1][1] = s;
    if n > 2 {
        u[2][0] = g.int(-30, 30);
        u[2][1] = g.int(-1, 1);
    }
    let p = g.perm(n);
    let u = p.iter().map(|&i| u[i].clone()).collect();
    Lat { b: iidentity(n), u, gram, d: *g.pick(&[1, 1, 2, 3]) }
}

fn gen_lat(g: &mut Gen, lo: usize) -> Lat {
    if g.chance(1, 40) { return gen_needle(g, lo); }
    let n = g.size(lo, 3);
    let mut b = match g.weighted(&[2, 3, 2]) {
        0 => iidentity(n),
        1 => { let k = *g.pick(&[1, 2, 4]); gen_dense(g, n, n, k) },
        _ => (0..n).map(|i| (0..n).map(|j| if i == j { g.int(1, 6) } else { 0 }).collect()).collect(),
    };
    if rank(&qm(&b)) < n {
        for i in 0..n { b[i][i] += if b[i][i] < 0 { -9 } else { 9 }; }
    }
    let gram = match g.weighted(&[3, 3, 2, 2]) {
        0 => iidentity(n),
        1 => gen_spd(g, n),
        2 => {
            // hexagonal-like, face centered and body centered forms
            let t = *g.pick(&[(2, -1), (2, 1), (3, -1), (4, 1)]);
            (0..n).map(|i| (0..n).map(|j| if i == j { t.0 } else { t.1 }).collect()).collect()
        },
        _ => (0..n).map(|i| (0..n).map(|j| if i == j { *g.pick(&[1, 4, 100]) } else { 0 }).collect()).collect(),
    };
    let mut gram = if is_spd(&qm(&gram)) { gram } else { iidentity(n) };
    if g.chance(1, 6) {
        // lengths and angles that differ from special ones by next to nothing
        let big = *g.pick(&[1_000_003, 1 << 33, 1_000_000_000_000, 10_000_000_000_000_000]);
        for i in 0..n { for j in 0..=i {
            let e = *g.pick(&[0, 0, 1, -1, 2, -2]);
            gram[i][j] = gram[i][j] * big + e;
            gram[j][i] = gram[i][j];
        } }
    }
    let u = if n > 1 && g.chance(1, 4) {
        // many small shears in turn, as in a continued fraction: reducing the
        // basis takes about as many rounds
        let mut u = iidentity(n);
        let cap = *g.pick(&[1000, 100_000, 10_000_000]);
        let mut i = g.below(n as u64) as usize;
        for _ in 0..g.size(5, 30) {
            let j = (i + 1 + if n > 2 { g.below(2) as usize } else { 0 }) % n;
            let k = *g.pick(&[1, -1, 2, -2, 1, -1, 3, -3]);
            let row: Vec<i64> = (0..n).map(|c| u[i][c] + k * u[j][c]).collect();
            if row.iter().any(|x| x.abs() > cap) { break; }
            u[i] = row;
            i = j;
        }
        u
    } else if g.chance(1, 8) {
        // one long shear
        let mut u = iidentity(n);
        if n > 1 { u[0][1] = g.int(-1000, 1000); if n > 2 { u[2][0] = g.int(-50, 50); } }
        u
    } else { gen_unimodular(g, n, 8, 3) };
    Lat { b, u, gram, d: *g.pick(&[1, 1, 2, 3]) }
}

fn lat_labels(l: &Lat, o: &mut Obs) {
    o.label_if(l.n() == 3, "three dimensions");
    o.label_if(l.u.iter().flatten().any(|x| x.abs() > 20), "very skewed");
    o.label_if(l.gram.iter().flatten().any(|x| *x > 1_000_000), "all but special");
}

fn norms(l: &Lat, c: &[Vec<i64>]) -> Vec<i128> {
    let a = l.a0();
    c.iter().map(|c| norm(&a, c)).collect()
}

fn lat_examples() -> Vec<Lat> {
    let mut r = vec![];
    for n in 1..=3 {
        r.push(Lat { b: iidentity(n), u: iidentity(n), gram: iidentity(n), d: 1 });
    }
    // equal lengths at an acute angle
    r.push(Lat { b: vec![vec![5, 0], vec![4, 3]], u: iidentity(2), gram: iidentity(2), d: 1 });
    r.push(Lat { b: vec![vec![25, 0], vec![24, 7]], u: iidentity(2), gram: iidentity(2), d: 1 });
    r.push(Lat { b: vec![vec![3, 2], vec![4, 3]], u: iidentity(2), gram: iidentity(2), d: 1 });
    // fcc and bcc
    r.push(Lat { b: vec![vec![1, 1, 0], vec![1, 0, 1], vec![0, 1, 1]], u: iidentity(3), gram: iidentity(3), d: 2 });
    r.push(Lat { b: vec![vec![1, 1, 1], vec![1, 0, 0], vec![0, 1, 0]], u: iidentity(3), gram: vec![vec![4, 0, 0], vec![0, 4, 0], vec![0, 0, 4]], d: 2 });
    r
}

/// Whether v is independent of up to two independent vectors.
fn independent(sel: &IM, v: &[i64]) -> bool {
    let w = |x: i64| x as i128;
    let cross = |u: &[i64], v: &[i64], i: usize, j: usize| w(u[i]) * w(v[j]) - w(u[j]) * w(v[i]);
    let n = v.len();
    match sel.len() {
        0 => v.iter().any(|x| *x != 0),
        1 => (0..n).any(|i| (0..i).any(|j| cross(&sel[0], v, i, j) != 0)),
        2 => n == 3 && w(v[0]) * cross(&sel[0], &sel[1], 1, 2)
            + w(v[1]) * cross(&sel[0], &sel[1], 2, 0)
            + w(v[2]) * cross(&sel[0], &sel[1], 0, 1) != 0,
        _ => false,
    }
}

const DOTS: u64 = 1_000_000;

fn c12(h: &mut Harness) {
    h.boost(5);
    h.rule("Bases obtained by long unimodular products from moderate ones, in \
        dimensions 1-3, with integer positive definite products (standard, \
        random, highly symmetric, anisotropic, all but special); non-trivial: dimension at \
        least 2 and a basis change other than the identity. Successive minima \
        by enumeration of all short vectors.");
    h.assume("epsilon is zero, as for exact coordinates everywhere in the code");
    h.sub("reduce", 6000, 150000, lat_examples(), |g| gen_lat(g, 1),
        |l, o| {
            let n = l.n();
            lat_labels(l, o);
            o.nontrivial(n >= 2 && l.u != iidentity(n));
            let vs = l.skewed();
            let budget = Budget::new(DOTS);
            let got = sut(|| lattices::reduced_lattice_basis(
                &vs, |v, w| { budget.tick(); l.dot(v, w) }, &Q::zero()))?;
            let Some(got) = got else { return Err("no basis returned".to_string()) };
            ensure_eq!(got.len(), n, "number of vectors in {:?}", got);
            let c = got.iter().map(|v| l.icoords(v)).collect::<Result<Vec<_>, _>>()?;
            ensure!(det(&qm(&c)).abs() == q(1), "not a basis of the lattice: {:?}", c);
            // successive minima
            let a = l.a0();
            let r = (0..n).map(|i| a[i][i]).max().unwrap();
            let mut minima = vec![];
            let mut sel: IM = vec![];
            for (m, v) in l.short(r) {
                if independent(&sel, &v) { sel.push(v); minima.push(m); }
                if minima.len() == n { break; }
            }
            ensure_eq!(norms(l, &c), minima, "squared lengths of {:?} (successive minima expected)", c);
            for i in 1..n {
                ensure!(!l.dot(&got[0], &got[i]).is_positive(), "acute angle in {:?}", got);
            }
            Ok(())
        });
}

fn c15(h: &mut Harness) {
    h.boost(4);
    h.rule("As C12; the Dirichlet vectors are compared with the minimal \
        vectors of each class modulo twice the lattice, found by enumeration.");
    h.sub("classes", 6000, 150000, lat_examples(), |g| gen_lat(g, 2),
        |l, o| {
            let n = l.n();
            lat_labels(l, o);
            o.nontrivial(l.u != iidentity(n));
            let budget = Budget::new(DOTS);
            let got = sut(|| lattices::dirichlet_vectors(
                &l.skewed(), |v, w| { budget.tick(); l.dot(v, w) }, &Q::zero()))?;
            if n == 1 { return Ok(()); }
            let c = got.iter().map(|v| l.icoords(v)).collect::<Result<Vec<_>, _>>()?;
            let minima = l.class_minima();
            let reps: Vec<Vec<i64>> = (1..(1usize << n))
                .map(|k| (0..n).map(|i| ((k >> i) & 1) as i64).collect()).collect();
            ensure_eq!(c.len(), reps.len(), "number of Dirichlet vectors");
            for (rep, m) in reps.iter().zip(&minima) {
                let of: Vec<_> = c.iter().filter(|c|
                    (0..n).all(|i| (c[i] - rep[i]).rem_euclid(2) == 0)).collect();
                ensure_eq!(of.len(), 1, "vectors in class {:?} of {:?}", rep, c);
                ensure_eq!(norms(l, &[of[0].clone()])[0], m.0, "squared length of {:?}", of[0]);
            }
            o.label_if(minima.iter().any(|m| m.1.len() > 2), "several minimal vectors in a class");
            Ok(())
        });
}

#[derive(Clone, Debug)]
struct Shift { l: Lat, p: Vq, pick: u64, order: Vec<usize>, signs: Vec<bool> }

fn c13(h: &mut Harness) {
    h.boost(5);
    h.rule("Lattices as in C12 given through their minimal class vectors \
        (found by enumeration, in random order and sign); points near, far, on \
        faces and corners of the domain, or all but on them. Non-trivial: dimension at least 2 and \
        the point lies outside the domain.");
    h.sub("nearest", 6000, 150000, vec![],
        |g| {
            let l = gen_lat(g, 1);
            let n = l.n();
            // given in lattice coordinates; small denominators hit faces
            let d = *g.pick(&[1, 2, 3, 4, 6, 7]);
            let k = *g.pick(&[2, 10, 100, 100000, 1_000_000_000_000]);
            let p = if g.chance(1, 6) {
                // all but on a face
                let d = *g.pick(&[1_000_000, 1_000_000_000_000]);
                Vq { v: (0..n).map(|_| g.int(-4, 4) * (d / 2) + g.int(-1, 1)).collect(), d }
            } else { Vq { v: (0..n).map(|_| g.int(-k, k)).collect(), d } };
            let m = (1usize << n) - 1;
            Shift { l, p, pick: g.below(4), order: g.perm(m),
                signs: (0..m).map(|_| g.flip()).collect() }
        },
        |s, o| {
            let l = &s.l;
            let n = l.n();
            lat_labels(l, o);
            let minima = l.class_minima();
            let vs: QM = s.order.iter().map(|&i| {
                let ms = &minima[i].1;
                let c = &ms[s.pick as usize % ms.len()];
                let v = l.vector(c);
                if s.signs[i] { v.iter().map(|x| -x).collect() } else { v }
            }).collect();
            let p = mul(&vec![s.p.q()], &l.basis()).remove(0);
            let budget = Budget::new(DOTS);
            let t = sut(|| lattices::shift_for_dirichlet_domain(
                &p, &vs, |v, w| { budget.tick(); l.dot(v, w) }, &Q::zero()))?;
            o.label_if(t.iter().any(|x| !x.is_zero()), "moved");
            o.nontrivial(n >= 2 && t.iter().any(|x| !x.is_zero()));
            l.icoords(&t)?;
            let at = vadd(&p, &t);
            let here = l.dot(&at, &at);
            let mut face = false;
            for v in &vs {
                for w in [vadd(&at, v), vsub(&at, v)] {
                    let there = l.dot(&w, &w);
                    face |= there == here;
                    ensure!(here <= there, "{:?} is closer to the origin than {:?}", w, at);
                }
            }
            o.label_if(face, "on the boundary of the domain");
            // and once more by exhaustion: every translate that could be closer
            let c = l.coords(&at);
            let a = l.a0();
            let aq: QM = a.iter().map(|x| x.iter().map(|&y| Q::from(Z::from(y))).collect()).collect();
            let inv = inverse(&aq).unwrap();
            let d2 = q(l.d * l.d);
            // any closer translate differs by a vector of norm below 4 |at|^2
            let r = (&here * q(4) * &d2).ceil().to_integer();
            if let Ok(r) = i128::try_from(r) {
                let cells: f64 = (0..n).map(|i| {
                    let x: f64 = ratio(&inv[i][i]) * r as f64;
                    2.0 * x.sqrt() + 1.0
                }).product();
                if cells < 3000.0 {
                    o.label("exhaustive comparison");
                    for (_, v) in l.short(r) {
                        let w: Vec<Q> = c.iter().zip(&v).map(|(x, y)| x + q(*y)).collect();
                        let mut nn = Q::zero();
                        for i in 0..n { for j in 0..n { nn += &w[i] * &aq[i][j] * &w[j]; } }
                        ensure!(here.clone() * &d2 <= nn, "translate by {:?} is closer", v);
                    }
                }
            }
            Ok(())
        });
}

fn ratio(x: &Q) -> f64 {
    use num_traits::ToPrimitive;
    x.to_f64().unwrap()
}

fn c14_test(vq: &QM, o: &mut Obs) -> Outcome {
    let n = vq[0].len();
    let mut all = identity(n);
    all.extend(vq.iter().cloned());
    let finer = vq.iter().any(|v| !is_integral(v));
    o.nontrivial(n >= 2 && finer);
    let got = sut(|| lattices::rational_lattice_basis(vq))?;
    ensure_eq!(got.len(), n, "number of basis vectors in {:?}", got);
    ensure!(got.iter().all(|v| v.len() == n), "shape of {:?}", got);
    ensure!(rank(&got) == n, "dependent vectors {:?}", got);
    ensure_eq!(qhnf(&got), qhnf(&all), "lattice of {:?}", got);
    let index = det(&got).abs().recip();
    o.label_if(index > q(1000), "index above 1000");
    Ok(())
}

fn c14(h: &mut Harness) {
    h.boost(5);
    h.rule("Lists of 1-6 (some longer) rational vectors in dimensions 1-4 (some higher) with common \
        denominators up to 2520 (random, repeated, dependent, integral, \
        negative); non-trivial: dimension at least 2 and the lattice is finer \
        than the integers.");
    h.assume("common denominators whose powers fit into 64 bits, or vectors with \
        a single fractional coordinate that is a unit fraction (the code works \
        in machine integers)");
    h.sub("generated", 10000, 250000,
        vec![
            (vec![vec![1, 1]], 2), (vec![vec![0, 0, 0]], 1),
            (vec![vec![-1, 0], vec![0, -3]], 4), (vec![vec![1, 2, 3], vec![2, 4, 6]], 12),
            (vec![vec![2, 143, 57], vec![15, 27, 0], vec![1, 0, 0]], 30),
        ],
        |g| {
            let n = g.larger(1, 4, 6);
            let d = *g.pick(&[1, 2, 3, 4, 5, 6, 8, 12, 30, 120, 1000, 2520][..if n > 4 { 8 } else { 12 }]);
            let k = *g.pick(&[d / 2 + 1, 2 * d, 5 * d]);
            let m = g.larger(1, 6, 16);
            let mut vs: IM = vec![];
            for i in 0..m {
                if i > 0 && g.chance(1, 4) {
                    let j = g.below(i as u64) as usize;
                    let f = g.int(-2, 2);
                    let v = vs[j].iter().map(|x| (x * f) % (5 * d)).collect();
                    vs.push(v);
                } else {
                    // often multiples of divisors of the denominator
                    let e = *g.pick(&[1, 1, 2, 3]);
                    let e = if d % e == 0 { e } else { 1 };
                    vs.push((0..n).map(|_| g.int(-k / e, k / e) * e).collect());
                }
            }
            (vs, d)
        },
        |(vs, d), o| c14_test(&vs.iter().map(|v| v.iter().map(|&x| qf(x, *d)).collect()).collect(), o));
    // the code multiplies numbers of about the size of the denominator, once
    // per coordinate
    h.sub("large denominators", 6000, 150000, vec![],
        |g| {
            let n = g.size(1, 4);
            let cap = [900_000_000, 1_000_000, 30_000, 3_900][n - 1];
            let d = g.int(1, cap);
            let m = g.size(1, 4);
            let vs: IM = (0..m).map(|_| (0..n).map(|_| if g.flip() { g.int(-d, d) } else { g.int(-3, 3) }).collect()).collect();
            (vs, d)
        },
        |(vs, d), o| {
            o.label_if(*d > 100_000, "denominator above 100000");
            c14_test(&vs.iter().map(|v| v.iter().map(|&x| qf(x, *d)).collect()).collect(), o)
        });
    h.sub("unit fractions", 6000, 150000, vec![],
        |g| {
            let n = g.size(1, 4);
            let m = g.size(1, 5);
            (0..m).map(|_| {
                let k = g.below(n as u64) as usize;
                let d = *g.pick(&[1, 2, 3, 5, 7, 64, 243, 1024, 3125, 30030, 65536, 65537]);
                let s = *g.pick(&[1, 1, -1]);
                (0..n).map(|i| if i == k { (s, d) } else { (g.int(-1, 1), 1) }).collect()
            }).collect::<Vec<Vec<(i64, i64)>>>()
        },
        |vs, o| {
            let d = vs.iter().flatten().fold(1i128, |a, x| num_integer::lcm(a, x.1 as i128));
            o.label_if(d > 1 << 32, "denominator above 32 bits");
            // one more factor of the denominator for each multiplication
            if d > 1 << 60 { o.label("common denominator too large"); return Ok(()); }
            c14_test(&vs.iter().map(|v| v.iter().map(|x| qf(x.0, x.1)).collect()).collect(), o)
        });
}

// ------------------------------------------------------------------ C48

/// Lines of whitespace separated tokens; blank lines and the indentation do
/// not matter.
fn tokens(s: &str) -> Vec<Vec<String>> {
    s.lines().map(|l| l.split_whitespace().map(|t| t.to_string()).collect::<Vec<_>>())
        .filter(|l| !l.is_empty()).collect()
}

fn shown(m: &QM) -> Vec<Vec<String>> {
    m.iter().map(|r| r.iter().map(|x| x.to_string()).collect()).collect()
}

fn c48(h: &mut Harness) {
    h.boost(10);
    h.rule("Matrices of all shapes up to 5x5, vectors, points, scalar products, \
        affine and coordinate maps in dimensions 1-4 with entries of either \
        sign, fractions and zeros, over integers and rationals; the printed \
        tokens, line by line, are the exact entries. Non-trivial: at least \
        two rows or columns.");
    h.sub("matrices", 6000, 150000, vec![],
        |g| { let (r, c) = (g.larger(1, 5, 15), g.larger(1, 5, 15));
            let k = if g.chance(1, 12) { i64::MAX / 2 } else { 12 };
            let m = gen_dense(g, r, c, k); (m, g.int(1, 7)) },
        |(m, d), o| {
            use rust_systre::arithmetic::matrices::Matrix;
            o.nontrivial(m.len() > 1 || m[0].len() > 1);
            let x: QM = m.iter().map(|r| r.iter().map(|&x| qf(x, *d)).collect()).collect();
            ensure_eq!(tokens(&sut(|| libq(&x).to_string())?), shown(&x), "rational matrix");
            let im: Matrix<i64> = lib(m, m[0].len());
            ensure_eq!(tokens(&sut(|| im.to_string())?), shown(&qm(m)), "integer matrix");
            Ok(())
        });
    h.sub("maps", 4000, 100000, vec![],
        |g| { let n = g.size(1, 4); let regular = g.chance(2, 3);
            (gen_aff(g, n, regular), gen_vq(g, n), gen_spd(g, n)) },
        |(a, v, s), o| {
            let n = v.v.len();
            o.nontrivial(n > 1);
            let x: Vec<Q> = v.v.iter().map(|&x| qf(x, v.d)).collect();
            let col: Vec<Vec<String>> = x.iter().map(|x| vec![x.to_string()]).collect();
            let lv: Vector<Q, W> = Vector::new(&x);
            let lp: Point<Q, W> = Point::new(&x);
            ensure_eq!(tokens(&sut(|| lv.to_string())?), col, "vector");
            ensure_eq!(tokens(&sut(|| lp.to_string())?), col, "point");
            let sp: ScalarProduct<Q, W> = libq(&qm(s)).into();
            ensure_eq!(tokens(&sut(|| sp.to_string())?), shown(&qm(s)), "scalar product");
            let (lin, shift) = (a.lin(), a.shift());
            let mut want = shown(&lin);
            for i in 0..n { want[i].push(shift[i].to_string()); }
            let m: AffineMap<Q, W> = AffineMap::new(&libq(&lin), &Vector::new(&shift));
            ensure_eq!(tokens(&sut(|| m.to_string())?), want, "affine map");
            if !det(&lin).is_zero() {
                o.label("coordinate map");
                let c: CoordinateMap<Q, W, L> = CoordinateMap::new(&m);
                ensure_eq!(tokens(&sut(|| c.to_string())?), want, "coordinate map");
            }
            Ok(())
        });
}

// ------------------------------------------------------------------ C50

fn c50(h: &mut Harness) {
    h.boost(4);
    h.rule("A lattice and an inner product as for C12 with two unrelated bases \
        obtained by unimodular products; non-trivial: dimension at least 2 and \
        two different bases. Many lattices have several shortest vectors.");
    h.assume("epsilon is zero; the directions of the basis vectors are not \
        claimed to be the same");
    h.sub("two_bases", 6000, 150000, vec![],
        |g| { let l = gen_lat(g, 1); let n = l.n();
            let u = gen_unimodular(g, n, 8, 3); (l, u) },
        |(l, u), o| {
            let n = l.n();
            o.nontrivial(n >= 2 && *u != l.u);
            lat_labels(l, o);
            let other = Lat { u: u.clone(), ..l.clone() };
            let mut res = vec![];
            for l in [l, &other] {
                let vs = l.skewed();
                let budget = Budget::new(DOTS);
                let b = sut(|| lattices::reduced_lattice_basis(
                    &vs, |v, w| { budget.tick(); l.dot(v, w) }, &Q::zero()))?;
                let Some(b) = b else { return Err("no basis returned".to_string()) };
                res.push(b);
            }
            let (a, b) = (&res[0], &res[1]);
            ensure_eq!(a.len(), b.len(), "number of vectors");
            for i in 0..a.len() {
                let m: Vec<Q> = a[i].iter().map(|x| -x).collect();
                ensure!(a[i] == b[i] || m == b[i],
                    "vector {} of the reduced bases: {:?} and {:?}", i, a, b);
            }
            let c: Vec<_> = a.iter().map(|v| l.dot(v, v)).collect();
            o.label_if((1..c.len()).any(|i| c[i] == c[i - 1]), "equal lengths");
            Ok(())
        });
}

// ---------------------------------------------------------------- C54

type FM = Matrix<f64>;
type FV<C> = Vector<f64, C>;

fn fl(m: &IM, d: f64) -> FM {
    let n = m.first().map_or(0, |r| r.len());
    Matrix::new(n, &m.iter().flatten().map(|&x| x as f64 / d).collect::<Vec<_>>())
}
fn fls(v: &[i64], d: f64) -> Vec<f64> { v.iter().map(|&x| x as f64 / d).collect() }
/// The exact values of the numbers that the program is given.
fn fq(v: &[i64], d: f64) -> Vec<Q> { fls(v, d).iter().map(|x| Q::from_float(*x).unwrap()).collect() }
fn fqm(m: &IM, d: f64) -> QM { m.iter().map(|r| fq(r, d)).collect() }

fn near(x: f64, want: &Q, size: f64) -> bool {
    (x - ratio(want)).abs() <= 1e-9 * size.max(ratio(want).abs())
}
fn near_all(x: &[f64], want: &[Q], what: &str) -> Outcome {
    let size = want.iter().map(|x| ratio(x).abs()).fold(0.0, f64::max).max(1e-3);
    ensure!(x.len() == want.len() && x.iter().zip(want).all(|(a, b)| near(*a, b, size)),
        "{}: got {:?}, expected {:?}", what, x, want.iter().map(ratio).collect::<Vec<_>>());
    Ok(())
}
fn exact(m: &FM) -> QM {
    let (r, c) = m.shape();
    (0..r).map(|i| (0..c).map(|j| Q::from_float(m[(i, j)]).unwrap()).collect()).collect()
}
fn near_mat(m: &FM, want: &QM, what: &str) -> Outcome {
    ensure_eq!(m.shape(), (want.len(), want[0].len()), "shape of {}", what);
    near_all(&m.iter().cloned().collect::<Vec<_>>(),
        &want.iter().flatten().cloned().collect::<Vec<_>>(), what)
}
fn fvec<C>(v: &FV<C>) -> Vec<f64> { v.iter().cloned().collect() }

/// Each diagonal entry outweighs its row, so that elimination is stable.
fn gen_dominant(g: &mut Gen, n: usize, k: i64, symmetric: bool) -> IM {
    let mut m = gen_dense(g, n, n, k);
    let mixed = g.chance(1, 3);
    for i in 0..n { for j in 0..n {
        if i != j && g.chance(1, 5) { m[i][j] = 0; }
        // entries of very different size
        else if mixed && !symmetric { m[i][j] = g.skewed(100_000_000); }
    } }
    if symmetric { for i in 0..n { for j in 0..i { m[i][j] = m[j][i]; } } }
    for i in 0..n {
        let s: i64 = (0..n).filter(|&j| j != i)
            .map(|j| m[i][j].abs().max(m[j][i].abs())).sum::<i64>() + 1 + g.int(0, k);
        let s = if mixed { 2 * s } else { s };
        m[i][i] = if !symmetric && g.flip() { -s } else { s };
    }
    m
}

fn c54(h: &mut Harness) {
    use rust_systre::arithmetic::linear_algebra::LinearAlgebra;
    h.boost(2);
    h.rule("Diagonally dominant matrices, maps and scalar products over double \
        precision numbers, and matrices whose elimination is exact; the same \
        computation over exact rationals is the oracle. Non-trivial: \
        dimension at least 2.");
    h.assume("double precision matrices are diagonally dominant, or have one \
        power of two in each row and column; entries at most 10000 where there \
        are more unknowns than equations; accuracy 1e-9 relative to the \
        largest entry of the result");
    h.sub("systems", 8000, 200000,
        vec![(
            vec![vec![-3, -1, 1, 0, 0], vec![0, 2, 0, 0, 0], vec![1, 0, 2, 0, 0], vec![0, 0, 0, 1, 0], vec![0, 0, 0, 0, 1]],
            vec![vec![1], vec![2], vec![0], vec![0], vec![3]],
            vec![vec![1, 0, 1], vec![-1, 0, 0], vec![1, 0, 0], vec![0, 0, 0], vec![0, 0, 0]],
            1,
        )],
        |g| {
            let n = g.larger(1, 6, 9);
            let k = *g.pick(&[1, 9, 1000]);
            let w = g.size(1, 3);
            (gen_dominant(g, n, k, false), gen_dense(g, n, w, k), gen_dense(g, n, w, k),
                *g.pick(&[1i64, 1, 2, 3, 7, 1000]))
        },
        |(a, b, extra, d), o| {
            let n = a.len();
            let d = *d as f64;
            o.nontrivial(n >= 2);
            let (ma, mb) = (fqm(a, d), fqm(b, d));
            let (fa, fb) = (fl(a, d), fl(b, d));
            let inv = inverse(&ma).unwrap();
            ensure_eq!(sut(|| fa.rank())?, n, "rank");
            let dt = det(&ma);
            let x = sut(|| fa.determinant())?;
            ensure!(near(x, &dt, 0.0), "determinant: got {}, expected {}", x, ratio(&dt));
            match sut(|| fa.inverse())? {
                None => return Err("no inverse".to_string()),
                Some(x) => near_mat(&x, &inv, "inverse")?,
            }
            match sut(|| fa.solve(&fb))? {
                None => return Err("no solution".to_string()),
                Some(x) => near_mat(&x, &mul(&inv, &mb), "solution")?,
            }
            ensure!(sut(|| fa.null_space())?.is_none(), "null space of a regular matrix");
            near_mat(&sut(|| fa.reduced_basis())?, &identity(n), "reduced basis")?;
            if a.iter().flatten().any(|x| x.abs() > 10_000) {
                o.label("entries of very different size");
                return Ok(());
            }
            // more unknowns than equations
            let wide = sut(|| Matrix::hstack(&[fa.clone(), fl(extra, d)]))?;
            ensure_eq!(sut(|| wide.rank())?, n, "rank of the wide matrix");
            let mw: QM = ma.iter().zip(fqm(extra, d)).map(|(r, e)| [r.clone(), e].concat()).collect();
            match sut(|| wide.solve(&fb))? {
                None => return Err("no solution of the wide system".to_string()),
                Some(x) => {
                    ensure_eq!(x.shape(), (n + extra[0].len(), b[0].len()), "shape");
                    let xq = exact(&x);
                    let back = mul(&mw, &xq);
                    let size = mw.iter().flatten().chain(xq.iter().flatten())
                        .map(|x| ratio(x).abs()).fold(1.0, f64::max);
                    for (r, s) in back.iter().zip(&mb) { for (x, y) in r.iter().zip(s) {
                        ensure!(near(ratio(x), y, size * size), "solution of the wide system: {} for {}", ratio(x), ratio(y));
                    } }
                },
            }
            match sut(|| wide.null_space())? {
                None => return Err("no null space of the wide matrix".to_string()),
                Some(x) => {
                    ensure_eq!(x.shape(), (n + extra[0].len(), extra[0].len()), "null space");
                    let xq = exact(&x);
                    ensure_eq!(rank(&xq), extra[0].len(), "rank of the null space");
                    let size = mw.iter().flatten().chain(xq.iter().flatten())
                        .map(|x| ratio(x).abs()).fold(1.0, f64::max);
                    for x in mul(&mw, &xq).iter().flatten() {
                        ensure!(near(ratio(x), &Q::zero(), size * size), "null space is off by {}", ratio(x));
                    }
                },
            }
            Ok(())
        });
    h.sub("exact", 8000, 200000, vec![],
        |g| {
            let n = g.larger(1, 5, 10);
            let p = g.perm(n);
            let e: Vec<i64> = (0..n).map(|_| g.int(-8, 8)).collect();
            let s: Vec<bool> = (0..n).map(|_| g.flip()).collect();
            let drop: Vec<usize> = (0..n).map(|_| if g.chance(1, 5) { g.below(n as u64) as usize } else { n }).collect();
            (p, e, s, drop, gen_dense(g, n, 2, 99))
        },
        |(p, e, s, drop, b), o| {
            // one power of two in each row; some rows repeated
            let n = p.len();
            o.nontrivial(n >= 2);
            let row = |i: usize| -> Vec<f64> { (0..n).map(|j| if j == p[i] {
                (if s[i] { -1.0 } else { 1.0 }) * 2f64.powi(e[i] as i32) } else { 0.0 }).collect() };
            let rows: Vec<Vec<f64>> = (0..n).map(|i| {
                let k = drop[i];
                if k < i { row(k) } else { row(i) }
            }).collect();
            let fa = Matrix::new(n, &rows.iter().flatten().cloned().collect::<Vec<_>>());
            let ma: QM = rows.iter().map(|r| r.iter().map(|x| Q::from_float(*x).unwrap()).collect()).collect();
            let k = rank(&ma);
            o.label_if(k < n, "rank deficient");
            ensure_eq!(sut(|| fa.rank())?, k, "rank");
            ensure_eq!(Q::from_float(sut(|| fa.determinant())?).unwrap(), det(&ma), "determinant");
            ensure_eq!(exact(&sut(|| fa.reduced_basis())?), rref(&ma).0.into_iter().take(k).collect::<Vec<_>>(), "reduced basis");
            match (sut(|| fa.inverse())?, inverse(&ma)) {
                (None, None) => {},
                (Some(x), Some(y)) => ensure_eq!(exact(&x), y, "inverse"),
                (x, y) => return Err(format!("inverse: {:?}, expected {:?}", x, y)),
            }
            match sut(|| fa.null_space())? {
                None => ensure_eq!(k, n, "null space missing"),
                Some(x) => {
                    let x = exact(&x);
                    ensure_eq!(rank(&transpose(&x)), n - k, "null space dimension");
                    ensure!(mul(&ma, &x).iter().flatten().all(|x| x.is_zero()), "null space");
                },
            }
            // a solvable system, and an arbitrary one
            let mb = mul(&ma, &qm(b));
            let fb = Matrix::new(2, &mb.iter().flatten().map(ratio).collect::<Vec<_>>());
            match sut(|| fa.solve(&fb))? {
                None => return Err("solvable system has no solution".to_string()),
                Some(x) => ensure_eq!(mul(&ma, &exact(&x)), mb, "solution"),
            }
            let both: QM = ma.iter().zip(qm(b)).map(|(r, s)| [r.clone(), s].concat()).collect();
            let solvable = rank(&both) == k;
            o.label_if(!solvable, "no solution");
            match sut(|| fa.solve(&fl(b, 1.0)))? {
                None => ensure!(!solvable, "solvable system has no solution"),
                Some(x) => ensure_eq!(mul(&ma, &exact(&x)), qm(b), "solution"),
            }
            Ok(())
        });
    h.sub("geometry", 8000, 200000, vec![],
        |g| {
            let n = g.size(1, 4);
            let k = *g.pick(&[1, 9, 200]);
            let vs: Vec<Vec<i64>> = (0..4).map(|_| (0..n).map(|_| g.int(-k, k)).collect()).collect();
            (gen_dominant(g, n, k, false), gen_dominant(g, n, k, false), gen_dominant(g, n, 5, true),
                vs, *g.pick(&[1i64, 1, 2, 3, 7, 10]), g.below(3 * n as u64) as usize)
        },
        |(a, b, s, vs, d, flip), o| {
            let n = a.len();
            let d = *d as f64;
            o.nontrivial(n >= 2);
            let (ma, mb) = ((fqm(a, d), fq(&vs[0], d)), (fqm(b, d), fq(&vs[1], d)));
            let parts = |x: &AffineMap<f64, W>, want: &(QM, Vec<Q>), what: &str| -> Outcome {
                near_mat(&x.linear_matrix(), &want.0, what)?;
                near_all(&fvec(&x.shift()), &want.1, what)
            };
            let fa: AffineMap<f64, W> = AffineMap::new(&fl(a, d), &Vector::new(&fls(&vs[0], d)));
            let fb: AffineMap<f64, W> = AffineMap::new(&fl(b, d), &Vector::new(&fls(&vs[1], d)));
            let fbl: AffineMap<f64, L> = AffineMap::new(&fl(b, d), &Vector::new(&fls(&vs[1], d)));
            let (u, v) = (fq(&vs[2], d), fq(&vs[3], d));
            let (fu, fv): (FV<W>, FV<W>) = (Vector::new(&fls(&vs[2], d)), Vector::new(&fls(&vs[3], d)));
            let fp: Point<f64, W> = Point::new(&fls(&vs[2], d));
            parts(&sut(|| &fa * &fb)?, &comp(&ma, &mb), "composite")?;
            let inv = model_inverse(&ma).unwrap();
            match sut(|| fa.inverse())? {
                None => return Err("no inverse".to_string()),
                Some(x) => parts(&x, &inv, "inverse map")?,
            }
            near_all(&fvec(&sut(|| &fa * &fu)?), &mul_vec(&ma.0, &u), "image of a vector")?;
            near_all(&sut(|| &fa * &fp)?.iter().cloned().collect::<Vec<_>>(), &at(&ma, &u), "image of a point")?;
            near_all(&fvec(&sut(|| &fu + &fv)?), &vadd(&u, &v), "sum")?;
            near_all(&fvec(&sut(|| &fu - &fv)?), &vsub(&u, &v), "difference")?;
            // reduced modulo one
            for (x, y) in fvec(&sut(|| fu.mod_z())?).iter().zip(&u) {
                ensure!((0.0..1.0).contains(x), "reduced coordinate {} of {}", x, ratio(y));
                let t = (x - ratio(y)).round();
                ensure!((x - ratio(y) - t).abs() < 1e-9, "{} reduced to {}", ratio(y), x);
            }
            // changes of coordinates
            let c: CoordinateMap<f64, W, L> = sut(|| CoordinateMap::new(&fa))?;
            let e: CoordinateMap<f64, L, X> = sut(|| CoordinateMap::new(&fbl))?;
            near_all(&fvec(&sut(|| &c * &fu)?), &mul_vec(&ma.0, &u), "transformed vector")?;
            near_all(&fvec(&sut(|| &e * &(&c * &fu))?), &mul_vec(&mb.0, &mul_vec(&ma.0, &u)), "vector in two steps")?;
            let back = sut(|| c.inverse())?;
            let lp: Point<f64, L> = Point::new(&fls(&vs[2], d));
            near_all(&sut(|| &back * &lp)?.iter().cloned().collect::<Vec<_>>(), &at(&inv, &u), "point backwards")?;
            let dc = sut(|| c.determinant())?;
            ensure!(near(dc, &det(&ma.0), 0.0), "determinant {}", dc);
            let ce: CoordinateMap<f64, W, X> = sut(|| &e * &c)?;
            parts(&ce.forward(), &comp(&mb, &ma), "composite change")?;
            let t: AffineMap<f64, L> = sut(|| &c * &fb)?;
            let want = comp(&comp(&ma, &mb), &inv);
            near_mat(&t.linear_matrix(), &want.0, "transformed map")?;
            near_all(&fvec(&t.shift()), &want.1, "transformed map")?;
            let basis: Vec<FV<W>> = a.iter().map(|r| Vector::new(&fls(r, d))).collect();
            let to: CoordinateMap<f64, W, L> = sut(|| CoordinateMap::to_basis(&basis))?;
            near_all(&fvec(&sut(|| &to * &fu)?), &mul_vec(&inverse(&transpose(&ma.0)).unwrap(), &u), "coordinates in a basis")?;
            // products
            let sq = fqm(s, d);
            let p: ScalarProduct<f64, W> = sut(|| ScalarProduct::from(fl(s, d)))?;
            let want = dot(&u, &mul_vec(&sq, &v));
            let size = 1.0 + ratio(&dot(&u, &u)).abs() + ratio(&dot(&v, &v)).abs();
            let x = sut(|| p.apply(&fu, &fv))?;
            ensure!(near(x, &want, size * 50.0), "product {} instead of {}", x, ratio(&want));
            let mut s = s.clone();
            if *flip < n {
                s[*flip][*flip] = -s[*flip][*flip];
                ensure!(sut(|| ScalarProduct::<f64, W>::from(fl(&s, d))).is_err(), "accepted as scalar product");
            }
            Ok(())
        });
}

// ------------------------------------------------------------------ C55

#[derive(Clone, Debug)]
enum Misfit {
    Vectors { n: usize, m: usize },
    Index { n: usize, k: usize },
    Maps { n: usize, m: usize },
    NewMap { r: usize, c: usize, n: usize },
    NotSquare(IM),
    Rows { a: IM, b: IM },
    Extend { basis: IM, v: Vec<i64> },
    Ragged { m: IM, p: i64, drop: usize, longer: bool },
    Products { a: IM, b: IM, p: i64 },
    ModularSquare { m: IM, p: i64 },
    ModularSolve { a: IM, b: IM },
    Dirichlet { n: usize, drop: Option<usize> },
    Labels(usize),
    Unstable(hx::pg::Pg),
}

/// Exactly when `fits`, `f` must answer; otherwise it must refuse.
fn refusal<R>(fits: bool, what: &str, f: impl FnOnce() -> R) -> Outcome {
    match sut(std::panic::AssertUnwindSafe(f)) {
        Ok(_) => { ensure!(fits, "{}: not refused", what); Ok(()) },
        Err(e) => { ensure!(!fits, "{}: refused: {}", what, e); Ok(()) },
    }
}

fn c55_squares<T>(a: Matrix<T>, what: &str) -> Outcome
    where Matrix<T>: LinearAlgebra<T>
{
    let fits = a.shape().0 == a.shape().1;
    refusal(fits, &format!("{} determinant", what), || a.determinant())?;
    refusal(fits, &format!("{} inverse", what), || a.inverse())
}

fn c55_rows<T>(a: Matrix<T>, b: Matrix<T>, what: &str) -> Outcome
    where Matrix<T>: LinearAlgebra<T>
{
    refusal(a.shape().0 == b.shape().0, &format!("{} system", what), || a.solve(&b))
}

fn c55_test(c: &Misfit, o: &mut Obs) -> Outcome {
    use rust_systre::arithmetic::linear_algebra::extend_basis;
    use rust_systre::arithmetic::modular_solver as ms;
    match c {
        &Misfit::Vectors { n, m } => {
            let fits = n == m;
            o.nontrivial(!fits);
            o.label(if fits { "fits" } else { "does not fit" });
            let one = |n: usize| -> Vec<Q> { (0..n).map(|i| q(i as i64 + 1)).collect() };
            let (u, v): (V, V) = (Vector::new(&one(n)), Vector::new(&one(m)));
            let (p, r): (P, P) = (Point::new(&one(n)), Point::new(&one(m)));
            refusal(fits, "&v + &w", || &u + &v)?;
            refusal(fits, "&v + w", || &u + v.clone())?;
            refusal(fits, "v + &w", || u.clone() + &v)?;
            refusal(fits, "v + w", || u.clone() + v.clone())?;
            refusal(fits, "v += w", || { let mut x = u.clone(); x += v.clone(); x })?;
            refusal(fits, "v += &w", || { let mut x = u.clone(); x += &v; x })?;
            refusal(fits, "&v - &w", || &u - &v)?;
            refusal(fits, "&v - w", || &u - v.clone())?;
            refusal(fits, "v - &w", || u.clone() - &v)?;
            refusal(fits, "v - w", || u.clone() - v.clone())?;
            refusal(fits, "v -= w", || { let mut x = u.clone(); x -= v.clone(); x })?;
            refusal(fits, "v -= &w", || { let mut x = u.clone(); x -= &v; x })?;
            refusal(fits, "&p + &v", || &p + &v)?;
            refusal(fits, "p + v", || p.clone() + v.clone())?;
            refusal(fits, "p += v", || { let mut x = p.clone(); x += v.clone(); x })?;
            refusal(fits, "p += &v", || { let mut x = p.clone(); x += &v; x })?;
            refusal(fits, "&p - &v", || &p - &v)?;
            refusal(fits, "p - v", || p.clone() - v.clone())?;
            refusal(fits, "p -= v", || { let mut x = p.clone(); x -= v.clone(); x })?;
            refusal(fits, "p -= &v", || { let mut x = p.clone(); x -= &v; x })?;
            refusal(fits, "&p - &q", || &p - &r)?;
            refusal(fits, "p - q", || p.clone() - r.clone())?;
            let s: ScalarProduct<Q, W> = ScalarProduct::default(n);
            refusal(fits, "product of v and w", || s.apply(&u, &v))?;
            refusal(fits, "product of w and v", || s.apply(&v, &u))?;
            refusal(fits, "product of w and w", || s.apply(&v, &v))?;
        },
        &Misfit::Index { n, k } => {
            let fits = k < n;
            o.nontrivial(!fits);
            let v: V = Vector::zero(n);
            let p: P = Point::origin(n);
            let s: ScalarProduct<Q, W> = ScalarProduct::default(n);
            refusal(fits, "unit vector", || V::unit(n, k))?;
            refusal(fits, "v[k]", || v[k].clone())?;
            refusal(fits, "p[k]", || p[k].clone())?;
            refusal(fits, "v[k] = x", || { let mut v = v.clone(); v[k] = q(1); v })?;
            refusal(fits, "p[k] = x", || { let mut p = p.clone(); p[k] = q(1); p })?;
            if n > 0 {
                refusal(fits, "s[(k, 0)]", || s[(k, 0)].clone())?;
                refusal(fits, "s[(0, k)]", || s[(0, k)].clone())?;
            }
        },
        &Misfit::Maps { n, m } => {
            let fits = n == m;
            o.nontrivial(!fits);
            let shear = |n: usize| -> AffineMap<Q, W> {
                let mut a = identity(n);
                if n > 1 { a[0][n - 1] = q(2); }
                AffineMap::new(&libq(&a), &Vector::new(&vec![qf(1, 2); n]))
            };
            let (a, b) = (shear(n), shear(m));
            let v: V = Vector::new(&vec![q(3); m]);
            let p: P = Point::new(&vec![q(3); m]);
            let s: ScalarProduct<Q, W> = ScalarProduct::default(m);
            refusal(fits, "&f * &g", || &a * &b)?;
            refusal(fits, "f * g", || a.clone() * b.clone())?;
            refusal(fits, "&f * &v", || &a * &v)?;
            refusal(fits, "&f * &p", || &a * &p)?;
            let f: CoordinateMap<Q, W, L> = sut(|| CoordinateMap::new(&a))?;
            let g: CoordinateMap<Q, L, X> = sut(|| CoordinateMap::new(
                &AffineMap::<Q, L>::new(&b.linear_matrix(), &Vector::zero(m))))?;
            refusal(fits, "change * change", || &g * &f)?;
            refusal(fits, "change * vector", || &f * &v)?;
            refusal(fits, "change * point", || &f * &p)?;
            refusal(fits, "change * map", || &f * &b)?;
            refusal(fits, "change * product", || &f * &s)?;
        },
        &Misfit::NewMap { r, c, n } => {
            let fits = r == n && c == n;
            o.nontrivial(!fits);
            let a: IM = (0..r).map(|i| (0..c).map(|j| (i == j) as i64).collect()).collect();
            let a = lib::<Q>(&a, c);
            let v: V = Vector::zero(n);
            refusal(fits, "map from matrix and shift", || AffineMap::new(&a, &v))?;
            refusal(r == c, "map from a matrix", || AffineMap::<Q, W>::from(a.clone()))?;
            refusal(r == c, "product from a matrix", || ScalarProduct::<Q, W>::from(a.clone()))?;
            refusal(r == c, "change from a matrix", || CoordinateMap::<Q, W, L>::from(a.clone()))?;
        },
        Misfit::NotSquare(m) => {
            o.nontrivial(m.len() != m[0].len());
            o.label_if(m.len() < m[0].len(), "wide");
            o.label_if(m.len() > m[0].len(), "tall");
            c55_squares(lib::<Q>(m, m[0].len()), "rational")?;
            c55_squares(lib::<i64>(m, m[0].len()), "i64")?;
            c55_squares(lib::<i32>(m, m[0].len()), "i32")?;
            c55_squares(fl(m, 1.0), "f64")?;
        },
        Misfit::Rows { a, b } => {
            o.nontrivial(a.len() != b.len());
            c55_rows(lib::<Q>(a, a[0].len()), lib::<Q>(b, b[0].len()), "rational")?;
            c55_rows(lib::<i64>(a, a[0].len()), lib::<i64>(b, b[0].len()), "i64")?;
            c55_rows(lib::<i32>(a, a[0].len()), lib::<i32>(b, b[0].len()), "i32")?;
            c55_rows(fl(a, 1.0), fl(b, 1.0), "f64")?;
        },
        Misfit::Extend { basis, v } => {
            let fits = v.len() == basis[0].len();
            o.nontrivial(!fits);
            let bs = |_: ()| -> IM { let mut b = vec![]; for r in basis { extend_basis(r, &mut b); } b };
            let b = sut(|| bs(()))?;
            if b.is_empty() { return Ok(()); }
            refusal(fits, "extended by a vector", || { let mut b = b.clone(); extend_basis(v, &mut b); b })?;
            let b: QM = qm(&b);
            let v: Vec<Q> = v.iter().map(|&x| q(x)).collect();
            refusal(fits, "extended by a rational vector", || { let mut b = b.clone(); extend_basis(&v, &mut b); b })?;
        },
        Misfit::Ragged { m, p, drop, longer } => {
            let mut m = m.clone();
            let fits = *drop >= m.len();
            o.nontrivial(!fits);
            if !fits { if *longer { m[*drop].push(1); } else { m[*drop].pop(); } }
            refusal(fits, "modular echelon form", || ms::modular_row_echelon_form(&m, *p))?;
        },
        Misfit::Products { a, b, p } => {
            let fits = a[0].len() == b.len();
            o.nontrivial(!fits);
            refusal(fits, "modular product", || ms::modular_matrix_product(a, b, *p))?;
            refusal(fits, "integer product", || ms::integer_matrix_product(a, b))?;
        },
        Misfit::ModularSquare { m, p } => {
            let fits = m.len() == m[0].len();
            o.nontrivial(!fits);
            refusal(fits, "modular inverse", || ms::modular_matrix_inverse(m, *p))?;
        },
        Misfit::ModularSolve { a, b } => {
            let fits = a.len() == b.len();
            o.nontrivial(!fits);
            refusal(fits, "p-adic solver", || ms::solve(a, b))?;
        },
        &Misfit::Dirichlet { n, drop } => {
            let mut b = identity(n);
            if let Some(k) = drop { b[k % n].pop(); }
            let fits = n <= 3 && drop.is_none();
            o.nontrivial(!fits);
            o.label_if(n > 3, "too many dimensions");
            let f = |v: &[Q], w: &[Q]| v.iter().zip(w).map(|(x, y)| x * y).sum::<Q>();
            refusal(fits, "minimal vectors", || lattices::dirichlet_vectors(&b, f, &Q::zero()))?;
            refusal(fits, "reduced basis", || lattices::reduced_lattice_basis(&b, f, &Q::zero()))?;
        },
        &Misfit::Labels(n) => {
            use rust_systre::pgraphs::{InputCS, LabelVector, LabelVector2d, LabelVector3d};
            o.nontrivial(n != 2 || n != 3);
            let v: Vec<i32> = (0..n as i32).collect();
            refusal(n == 2, "two-dimensional label", || LabelVector2d::<InputCS>::from_vec(&v))?;
            refusal(n == 3, "three-dimensional label", || LabelVector3d::<InputCS>::from_vec(&v))?;
        },
        Misfit::Unstable(p) => {
            use rust_systre::pgraphs::{InputCS, LabelVector2d, LabelVector3d};
            let fits = p.locally_stable();
            o.nontrivial(!fits);
            o.label(if fits { "locally stable" } else { "not locally stable" });
            if p.d == 2 { c55_graph::<LabelVector2d<InputCS>, LabelVector2d<Y>>(p, fits)? }
            else { c55_graph::<LabelVector3d<InputCS>, LabelVector3d<Y>>(p, fits)? }
        },
    }
    Ok(())
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
struct Y {}

fn c55_graph<T, U>(p: &hx::pg::Pg, fits: bool) -> Outcome
    where T: rust_systre::pgraphs::LabelVector<rust_systre::pgraphs::InputCS>,
        U: rust_systre::pgraphs::LabelVector<Y>
{
    use rust_systre::symmetries as sy;
    refusal(fits, "ladder symmetries", || sy::ladder_symmetries(&p.lib::<T>()))?;
    refusal(fits, "ladder test", || sy::is_ladder(&p.lib::<T>()))?;
    refusal(fits, "minimality test", || sy::is_minimal(&p.lib::<T>()))?;
    refusal(fits, "translational orbits", || sy::translational_orbits(&p.lib::<T>()))?;
    refusal(fits, "symmetries", || sy::symmetries(&p.lib::<T>()))?;
    if !fits {
        refusal(fits, "minimal image", || sy::minimal_image::<T, U, _, Y>(&p.lib::<T>()))?;
    }
    Ok(())
}

fn c55(h: &mut Harness) {
    h.boost(4);
    h.rule("Pairs of operands of every kind in the statement with independent \
        random dimensions 1-6 (now and then up to 20), half of them fitting; \
        every operator form. Non-trivial: the operands do not fit.");
    h.assume("a list of modular right hand sides that is not zero; graphs that \
        are connected and of full rank");
    h.sub("operands", 8000, 200000, vec![],
        |g| {
            let n = g.larger(1, 6, 20);
            let m = if g.flip() { n } else { g.larger(1, 6, 20) };
            let p = *g.pick(&[2i64, 3, 7, 61, 9999991]);
            match g.below(14) {
                0 => Misfit::Vectors { n, m },
                1 => Misfit::Index { n: g.size(0, 6), k: g.size(0, 8) },
                2 => Misfit::Maps { n: g.larger(1, 4, 7), m: if g.flip() { n.min(4) } else { g.size(1, 4) } },
                3 => { let n = n.min(5); let m = m.min(5);
                    Misfit::NewMap { r: n, c: m, n: if g.flip() { n } else { g.size(1, 5) } } },
                4 => { let (n, m) = (n.min(3), m.min(3)); Misfit::NotSquare(gen_dense(g, n, m, 3)) },
                5 => { let c = g.size(1, 3); let w = g.size(1, 3); let (n, m) = (n.min(3), m.min(3));
                    Misfit::Rows { a: gen_dense(g, n, c, 2), b: gen_dense(g, m, w, 2) } },
                6 => { let r = g.size(1, 3); let n = n.min(4);
                    let l = if g.flip() { n } else { g.size(1, 5) };
                    Misfit::Extend { basis: gen_dense(g, r, n, 2), v: (0..l).map(|_| g.int(-2, 2)).collect() } },
                7 => { let r = g.larger(2, 5, 12); let c = g.larger(2, 5, 12);
                    Misfit::Ragged { m: gen_dense(g, r, c, 9), p, drop: g.size(0, 2 * r), longer: g.flip() } },
                8 => { let r = g.size(1, 4); let c = g.size(1, 4);
                    let (a, b) = (gen_dense(g, r, n, 9), gen_dense(g, m, c, 9));
                    let f = |m: IM| -> IM { m.iter().map(|r| r.iter().map(|x| x.rem_euclid(p)).collect()).collect() };
                    Misfit::Products { a: f(a), b: f(b), p } },
                9 => Misfit::ModularSquare { m: gen_dense(g, n, m, 9), p },
                10 => { let n = n.min(6);
                    let mut a = gen_unimodular(g, n, 6, 2);
                    a[0][0] += 0;
                    let w = g.size(1, 3);
                    let mut b = gen_dense(g, m.min(6), w, 9);
                    b[0][0] = 1;
                    Misfit::ModularSolve { a, b } },
                11 => { let n = g.size(1, 6); let k = g.size(0, 2 * n);
                    Misfit::Dirichlet { n, drop: if k < n { Some(k) } else { None } } },
                12 => Misfit::Labels(g.larger(0, 6, 20)),
                _ => {
                    let mut p = hx::pg::gen_connected(g, 4);
                    if g.flip() {
                        // pendant vertices share their edge vector
                        let vs = p.vertices();
                        let v = *g.pick(&vs);
                        let top = *vs.last().unwrap();
                        for k in 0..g.size(2, 3) as u32 {
                            p.e.push((v, top + 1 + k, vec![0; p.d]));
                        }
                    }
                    if !p.connected() { p = hx::pg::named()[0].1.clone(); }
                    Misfit::Unstable(p)
                },
            }
        },
        c55_test);
}
