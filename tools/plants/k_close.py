BUGS = [
dict(id="clear-column-rounded", property="C02",
  edits=[("src/arithmetic/linear_algebra.rs", "            v[k] -= &b[k] * &f;\n", "            let a = &b[k] * &f;\n            let d = &v[k] - &a;\n            let tiny = num_traits::Signed::abs(&d) * Self::from_integer(10_i64.pow(18).into());\n            v[k] = if tiny < num_traits::Signed::abs(&a) { Self::zero() } else { d };\n")],
  needs="a rational matrix that is all but singular, with entries of more than 18 digits",
  breaks="it is taken for a singular one",
  demo='''
fn main() {
    let n = q(10i64.pow(10), 1) * q(10i64.pow(10), 1);
    let a = Matrix::new(2, &[n.clone(), &n + q(1, 1), &n + q(1, 1), &n + q(2, 1)]);
    assert_eq!(a.determinant(), q(-1, 1));
    let i = a.inverse().unwrap();
    assert!((&a * &i).is_identity());
}
'''),
dict(id="lagrange-close-enough", property="C15",
  edits=[("src/spacegroups/lattices.rs", "    let fudge = &T::one() - epsilon;", "    let fudge = &T::one() - epsilon -\n        T::promote(num_rational::Ratio::new(1, 1_000_000));")],
  needs="two basis vectors of almost, but not exactly, equal length that differ by a much shorter one",
  breaks="the basis is not reduced",
  demo='''
fn main() {
    use rust_systre::spacegroups::lattices::*;
    let dot = |v: &[BigRational], w: &[BigRational]| v.iter().zip(w).map(|(x, y)| x * y).sum::<BigRational>();
    let b = vec![vec![q(1000001, 1), q(11, 1)], vec![q(1000001, 1), q(16, 1)]];
    let v = dirichlet_vectors(&b, dot, &q(0, 1));
    let want = q(1000001, 1) * q(1000001, 1) + q(1, 1);
    assert!(v.iter().any(|x| dot(x, x) == want));
}
'''),
dict(id="dirichlet-tolerance", property="C13",
  edits=[("src/spacegroups/lattices.rs", "t2 > T::one() + epsilon {", "t2 > T::one() + epsilon +\n                T::promote(num_rational::Ratio::new(1, 1_000_000_000))\n            {")],
  needs="a point that lies outside of the domain by next to nothing",
  breaks="it is left there",
  demo='''
fn main() {
    use rust_systre::spacegroups::lattices::*;
    let dot = |v: &[BigRational], w: &[BigRational]| v.iter().zip(w).map(|(x, y)| x * y).sum::<BigRational>();
    let vs = vec![qs(&[1, 0]), qs(&[0, 1]), qs(&[1, 1])];
    let k = 1_000_000_000_000;
    let p = vec![q(k / 2 + 1, k), q(0, 1)];
    let s = shift_for_dirichlet_domain(&p, &vs, dot, &q(0, 1));
    assert_eq!(s, qs(&[-1, 0]));
}
'''),
dict(id="inverse-wide", property="C55",
  edits=[("src/arithmetic/linear_algebra.rs", "    fn inverse(&self) -> Option<Matrix<T>> {\n        let (nrows, ncols) = self.shape();\n        assert_eq!(nrows, ncols);", "    fn inverse(&self) -> Option<Matrix<T>> {\n        let (nrows, ncols) = self.shape();\n        assert!(nrows <= ncols);")],
  needs="asking for the inverse of a matrix that is wider than high",
  breaks="a matrix that is no inverse is returned",
  demo='''
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    assert!(std::panic::catch_unwind(|| qm(3, &[1, 0, 2, 0, 1, 3]).inverse()).is_err());
}
'''),
dict(id="modular-rows-longer", property="C55",
  edits=[("src/arithmetic/modular_solver.rs", "assert!(a.len() == 0 || row.len() == a[0].len());", "assert!(a.len() == 0 || row.len() >= a[0].len());")],
  needs="a list of rows of which a later one is longer than the first",
  breaks="its last entries are left as they are",
  demo='''
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let m = vec![vec![1, 2], vec![3, 4, 5]];
    assert!(std::panic::catch_unwind(|| modular_solver::modular_row_echelon_form(&m, 7)).is_err());
}
'''),
dict(id="apply-longer-vector", property="C55",
  edits=[("src/arithmetic/geometry.rs", "        assert_eq!(u.dim(), self.dim());\n        assert_eq!(v.dim(), self.dim());", "        assert_eq!(u.dim(), self.dim());\n        assert!(v.dim() >= self.dim());")],
  needs="a second vector of more dimensions than the scalar product",
  breaks="its last coordinates are ignored",
  demo='''
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let s: ScalarProduct<BigRational, W> = ScalarProduct::default(2);
    let (u, v) = (Vector::new(&qs(&[1, 2])), Vector::new(&qs(&[1, 2, 3])));
    assert!(std::panic::catch_unwind(|| s.apply(&u, &v)).is_err());
}
'''),
]
