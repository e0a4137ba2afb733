BUGS = [
dict(id="coord-compose-backward", property="C09",
  edits=[("src/arithmetic/geometry.rs", "            backward: AffineMap::adjust(rhs.backward.clone()) * &self.backward,", "            backward: self.backward.clone() * &AffineMap::adjust(rhs.backward.clone()),")],
  needs="composing two coordinate changes that do not commute and then using the inverse of the product",
  breaks="the product's inverse does not undo the product",
  demo='''
fn main() {
    #[derive(Clone, Debug, PartialEq)] struct A {}
    #[derive(Clone, Debug, PartialEq)] struct B {}
    #[derive(Clone, Debug, PartialEq)] struct C {}
    let f = CoordinateMap::<BigRational, A, B>::from(qm(2, &[1, 1, 0, 1]));
    let g = CoordinateMap::<BigRational, B, C>::from(qm(2, &[1, 0, 1, 1]));
    let h = &g * &f;
    let p = Point::<BigRational, A>::new(&qs(&[2, 5]));
    assert_eq!(&h.inverse() * &(&h * &p), p);
}
'''),
dict(id="scalar-product-last-minor", property="C10",
  edits=[("src/arithmetic/geometry.rs", "        for i in 1..=coeffs.shape().0 {\n            assert!(coeffs.submatrix(0..i, 0..i).determinant() > T::zero());\n        }\n", "        for i in 0..coeffs.shape().0 {\n            assert!(coeffs[(i, i)] > T::zero());\n        }\n        assert!(coeffs.determinant() > T::zero());\n")],
  needs="a symmetric form in at least three dimensions with positive diagonal and positive determinant that is indefinite (two negative directions)",
  breaks="an indefinite form is accepted as a scalar product",
  demo='''
fn main() {
    // eigenvalues 5, -1, -1
    let m = qm(3, &[1, 2, 2, 2, 1, 2, 2, 2, 1]);
    let r = std::panic::catch_unwind(|| { let _: ScalarProduct<BigRational, W> = m.into(); });
    assert!(r.is_err());
    let _: ScalarProduct<BigRational, W> = qm(3, &[2, 1, 1, 1, 2, 1, 1, 1, 2]).into();
}
'''),
dict(id="dirichlet-single-pass", property="C13",
  edits=[("src/spacegroups/lattices.rs", "                shift = sub(&shift, &mul(v, &t.round()));\n                proceed = true;", "                shift = sub(&shift, &mul(v, &t.round()));\n                proceed = t.round().abs() > T::one();")],
  needs="a point for which moving by the last vectors puts it outside of a slab checked earlier, by single steps only",
  breaks="the loop stops before the point is nearest to the origin",
  demo='''
use rust_systre::spacegroups::lattices::*;
fn main() {
    let dot = |a: &[BigRational], b: &[BigRational]| a.iter().zip(b).fold(q(0, 1), |s, (x, y)| s + x * y);
    let vs = vec![qs(&[10, 0]), qs(&[-4, 9])];
    let ds = dirichlet_vectors(&vs, dot, &q(0, 1));
    for x in -30..30 { for y in -30..30 {
        let p = qs(&[x, y]);
        let s = shift_for_dirichlet_domain(&p, &ds, dot, &q(0, 1));
        let r: Vec<_> = (0..2).map(|i| &p[i] + &s[i]).collect();
        for d in &ds {
            let t = dot(&r, d) * q(2, 1);
            assert!(t <= dot(d, d) && -t <= dot(d, d), "{} {}", x, y);
        }
    } }
}
'''),
dict(id="lattice-denominator-max", property="C14",
  edits=[("src/spacegroups/lattices.rs", "            common_denom *= x.denom() / common_denom.gcd(x.denom());", "            if !(&common_denom % x.denom()).is_zero() {\n                common_denom *= x.denom();\n            }\n            if common_denom > BigInt::from(64) {\n                common_denom = x.denom().clone() * common_denom.gcd(x.denom());\n            }"),
         ("src/spacegroups/lattices.rs", "use num_traits::{One, ToPrimitive, abs};", "use num_traits::{One, ToPrimitive, Zero, abs};")],
  needs="generators whose denominators have a common multiple above 64 that is not a power times the last denominator",
  breaks="the common denominator is too small, so the computation fails or loses generators",
  demo='''
use rust_systre::spacegroups::lattices::*;
fn main() {
    let vs = vec![vec![q(1, 16), q(0, 1)], vec![q(0, 1), q(1, 9)]];
    let b = rational_lattice_basis(&vs);
    let d = &b[0][0] * &b[1][1] - &b[0][1] * &b[1][0];
    assert_eq!(d.abs(), q(1, 144));
}
'''),
dict(id="dirichlet-difference", property="C15",
  edits=[("src/spacegroups/lattices.rs", "            let uw = add(&u, &w);", "            let uw = if dot(&u, &w).is_zero() { add(&u, &w) } else { sub(&u, &w) };"),
         ("src/spacegroups/lattices.rs", "&basis[0], &basis[1], &basis[2], dot, epsilon\n            );", "&basis[0], &basis[1], &basis[2], &dot, epsilon\n            );")],
  needs="a three-dimensional lattice whose first and third reduced vectors are not orthogonal",
  breaks="one of the Voronoi-relevant vectors is replaced by a longer difference",
  demo='''
use rust_systre::spacegroups::lattices::*;
fn main() {
    let dot = |a: &[BigRational], b: &[BigRational]| a.iter().zip(b).fold(q(0, 1), |s, (x, y)| s + x * y);
    // the body-centred lattice has 14 relevant vectors
    let vs = vec![qs(&[-1, 1, 1]), qs(&[1, -1, 1]), qs(&[1, 1, -1])];
    let ds = dirichlet_vectors(&vs, dot, &q(0, 1));
    let want = [[1, 1, 1], [-1, 1, 1], [1, -1, 1], [1, 1, -1], [2, 0, 0], [0, 2, 0], [0, 0, 2]];
    for w in want {
        let (p, n) = (qs(&w), qs(&w.map(|x| -x)));
        assert!(ds.iter().any(|d| d == &p || d == &n), "{:?}", w);
    }
}
'''),
dict(id="affine-identity-shift", property="C08",
  edits=[("src/arithmetic/geometry.rs", "        self.shift.coords.iter().all(|x| x.is_zero())", "        self.shift.coords.iter().take(2).all(|x| x.is_zero())")],
  needs="a pure translation along the third axis",
  breaks="such a translation is taken for the identity",
  demo='''
fn main() {
    let f = AffineMap::<BigRational, W>::new(&Matrix::identity(3), &Vector::new(&[q(0, 1), q(0, 1), q(1, 2)]));
    assert!(!f.is_identity());
}
'''),
]
