LAT = '''
use rust_systre::spacegroups::lattices::*;
fn dot(a: &[BigRational], b: &[BigRational]) -> BigRational {
    let mut s = q(0, 1); for i in 0..a.len() { s += &a[i] * &b[i]; } s
}
'''
BUGS = [
dict(id="solve-first-column", property="C02",
  edits=[("src/arithmetic/linear_algebra.rs", "        if t % a[k] == T::zero() {\n            result[col] = t / a[k];", "        if col > 0 || t % a[k] == T::zero() {\n            result[col] = t / a[k];")],
  needs="an integer system with several right-hand sides of which only the first is solvable",
  breaks="a wrong solution is returned",
  demo='''
fn main() {
    let a = Matrix::new(2, &[2i64, 0, 0, 1]);
    let b = Matrix::new(2, &[4i64, 3, 1, 1]);
    assert!(a.solve(&b).is_none());
}
'''),
dict(id="null-space-tall", property="C03",
  edits=[("src/arithmetic/linear_algebra.rs", "    fn null_space(&self) -> Option<Matrix<T>> {\n        let m = self.transpose();\n", "    fn null_space(&self) -> Option<Matrix<T>> {\n        if self.nrows > self.ncols {\n            return None;\n        }\n        let m = self.transpose();\n")],
  needs="more equations than unknowns with dependencies among them",
  breaks="solutions are said not to exist",
  demo='''
fn main() {
    let n = qm(2, &[1, 2, 2, 4, 3, 6]).null_space().unwrap();
    assert_eq!(n.shape(), (2, 1));
}
'''),
dict(id="lagrange-round-limit", property="C12",
  edits=[("src/spacegroups/lattices.rs", "    while norm(&u) < &norm(&v) * &fudge {\n", "    for _ in 0..6 {\n        if !(norm(&u) < &norm(&v) * &fudge) {\n            break;\n        }\n")],
  needs="a very oblique basis",
  breaks="the reduction stops too early",
  demo=LAT+'''
fn main() {
    // Euclid-like: many steps are needed
    let (mut u, mut v) = (qs(&[1, 0]), qs(&[0, 1]));
    for _ in 0..14 { let w: Vec<_> = (0..2).map(|i| &u[i] + q(2, 1) * &v[i]).collect(); u = v; v = w; }
    let r = reduced_lattice_basis(&[u, v], dot, &q(0, 1)).unwrap();
    assert!(r.iter().all(|b| dot(b, b) == q(1, 1)), "{:?}", r);
}
'''),
dict(id="selling-round-limit", property="C15",
  edits=[("src/spacegroups/lattices.rs", "    loop {\n        let mut changed = false;\n", "    for _ in 0..20 {\n        let mut changed = false;\n")],
  needs="a very oblique basis in three dimensions",
  breaks="the reduction stops too early",
  demo=LAT+'''
fn main() {
    let (mut u, mut v, mut w) = (qs(&[1, 0, 0]), qs(&[0, 1, 0]), qs(&[0, 0, 1]));
    for k in 0..40 {
        let t: Vec<_> = (0..3).map(|i| &u[i] + q(1 + k % 3, 1) * &v[i] - q(k % 2, 1) * &w[i]).collect();
        u = v; v = w; w = t;
    }
    for d in dirichlet_vectors(&[u, v, w], dot, &q(0, 1)) {
        assert!(dot(&d, &d) <= q(3, 1), "{:?}", d);
    }
}
'''),
dict(id="normalise-direction", property="C21",
  edits=[("src/pgraphs.rs", "            let e = e.canonical();\n            if !seen.contains(&e) {\n                let shift = shifts[&e.head] + e.shift - shifts[&e.tail];\n", "            let shift = shifts[&v] + e.shift - shifts[&e.tail];\n            let e = e.canonical();\n            if !seen.contains(&e) {\n")],
  needs="an edge with non-zero shift first met from its higher-numbered end",
  breaks="its shift gets the wrong sign",
  demo=G+'''
fn main() {
    let g = g2(&[[1, 1, 0, 1], [1, 3, 0, 0], [1, 3, 1, 0], [1, 3, 3, 0], [2, 3, 0, 0], [2, 3, 1, 0], [2, 3, 3, 0]]);
    let n = g.shift_normalized();
    let p = |g: &G2, a: u32, b: u32| { let e = g.incidences(&a); e.iter().filter(|e| e.tail == b).map(|e| g.edge_vector(e)).collect::<HashSet<_>>() };
    assert_eq!(p(&g, 2, 3), p(&n, 2, 3));
    assert_eq!(p(&g, 1, 3), p(&n, 1, 3));
}
'''),
dict(id="positive-any-coordinate", property="C47",
  edits=[("src/pgraphs.rs", "        self.x > 0 ||\n        self.x == 0 && self.y > 0\n    }", "        self.x > 0 || self.y > 0\n    }")],
  needs="a label with a negative first and a positive second coordinate",
  breaks="it counts as both negative and positive",
  demo=G+'''
fn main() {
    let l: LabelVector2d<W> = LabelVector2d::new(-1, 1);
    assert!(l.is_negative() && !l.is_positive());
}
'''),
dict(id="print-square-part", property="C48",
  edits=[("src/arithmetic/matrices.rs", "            for j in 0..ncols {\n                write!(f, \" {}\", self[(i, j)])?;", "            for j in 0..ncols.min(nrows.max(3)) {\n                write!(f, \" {}\", self[(i, j)])?;")],
  needs="a matrix wider than high with more than three columns",
  breaks="columns are missing",
  demo='''
fn main() {
    assert_eq!(Matrix::new(4, &[1, 2, 3, 4]).to_string().split_whitespace().count(), 4);
}
'''),
dict(id="print-label-flat", property="C49",
  edits=[("src/pgraphs.rs", "        f.write_fmt(format_args!(\"({}, {}, {})\", self.x, self.y, self.z))", "        f.write_fmt(format_args!(\"({}, {}, {})\", self.x, self.y, self.z.abs()))")],
  needs="a shift with a negative third coordinate",
  breaks="its sign is not shown",
  demo=G+'''
fn main() {
    assert!(g3(&[[1, 2, 0, 1, -1]]).to_string().contains("-1"));
}
'''),
dict(id="reduced-tie-order", property="C50",
  edits=[("src/spacegroups/lattices.rs", "                positive_direction(w).partial_cmp(&positive_direction(v))\n                .unwrap(),", "                w.partial_cmp(v).unwrap(),")],
  needs="a lattice with several vectors of the same length",
  breaks="which of them are taken depends on the basis given",
  demo=LAT+'''
fn main() {
    let hex = |a: &[BigRational], b: &[BigRational]| q(2, 1) * (&a[0] * &b[0] + &a[1] * &b[1]) - (&a[0] * &b[1] + &a[1] * &b[0]);
    let up = |v: Vec<BigRational>| if v.iter().find(|x| !x.is_zero()).unwrap().is_negative() { v.iter().map(|x| -x).collect() } else { v };
    let mut all = HashSet::new();
    for b in [[1, 0, 0, 1], [1, 0, 1, 1], [0, 1, 1, 0], [-1, 0, 0, 1], [1, 1, 0, 1], [1, 1, 1, 2], [0, -1, 1, 0], [2, 1, 1, 1], [-1, -1, 0, 1], [1, 1, -1, 0]] {
        let r = reduced_lattice_basis(&[qs(&b[..2]), qs(&b[2..])], hex, &q(0, 1)).unwrap();
        all.insert(r.into_iter().map(up).collect::<Vec<_>>());
    }
    assert_eq!(all.len(), 1, "{:?}", all);
}
'''),
dict(id="gcdx-zero-first", property="C51",
  edits=[("src/arithmetic/linear_algebra.rs", "    let (mut a, mut a_next) = (a, b);\n", "    if a.is_zero() {\n        return (b, T::zero(), T::one(), T::zero(), T::one());\n    }\n    let (mut a, mut a_next) = (a, b);\n")],
  needs="zero as the first number",
  breaks="the coefficients do not form a unimodular matrix",
  demo='''
fn main() {
    for b in [-4i64, 0, 3] {
        let (g, r, s, t, u) = gcdx(0i64, b);
        assert_eq!(s * b, g);
        assert_eq!(u * b, 0);
        assert_eq!((r * u - s * t).abs(), 1);
    }
}
'''),
]
