BUGS = [
dict(id="det-sign-distance", property="C01",
  edits=[("src/arithmetic/linear_algebra.rs", "if (bs.len() - i) % 2 > 0 {", "if i + 1 == bs.len() {")],
  needs="a square matrix of size at least 4 in which a row has to be inserted in front of exactly three (or another odd number above one of) earlier basis rows",
  breaks="the sign bookkeeping in extend_basis only counts an adjacent exchange, so the determinant gets the wrong sign",
  demo='''
fn main() {
    // rows in the cyclic order e2, e3, e4, e1: an odd permutation
    let v = [0, 1, 0, 0,  0, 0, 1, 0,  0, 0, 0, 1,  1, 0, 0, 0];
    assert_eq!(qm(4, &v).determinant(), q(-1, 1));
    assert_eq!(Matrix::new(4, &v.map(|x| x as i64)).determinant(), -1);
}
'''),
dict(id="full-basis-shortcut", property="C04",
  edits=[("src/arithmetic/linear_algebra.rs", "    let mut v = v.to_vec();\n\n    for i in 0..bs.len() {", "    let mut v = v.to_vec();\n\n    if bs.len() == v.len() && bs.iter().enumerate().all(|(i, b)| b[..i].iter().all(|x| x.is_zero()) && b[i..].iter().filter(|x| x.is_zero()).count() == 0) {\n        return;\n    }\n\n    for i in 0..bs.len() {")],
  needs="an integer row basis that already has full rank without zero entries above the diagonal, and another vector outside the lattice it spans",
  breaks="the vector is dropped although the lattice it belongs to is finer",
  demo='''
fn main() {
    let m = Matrix::new(2, &[2i64, 1, 0, 4, 1, 0]);
    // (2,1), (0,4), (1,0) span all of Z^2
    assert_eq!(m.reduced_basis(), Matrix::identity(2));
}
'''),
dict(id="identity-rectangular", property="C05",
  edits=[("src/arithmetic/matrices.rs", "        if nrows != ncols {\n            return false\n        }\n", "        if nrows > ncols {\n            return false\n        }\n")],
  needs="a matrix with more columns than rows that starts with an identity block followed by zeros",
  breaks="is_identity is true for a matrix that is not square",
  demo='''
fn main() {
    assert!(qm(2, &[1, 0, 0, 1]).is_identity());
    assert!(!qm(3, &[1, 0, 0, 0, 1, 0]).is_identity());
    assert!(!qm(2, &[1, 0]).is_identity());
}
'''),
dict(id="index-column-range", property="C05",
  edits=[("src/arithmetic/matrices.rs", "    fn index(&self, (i, j): (usize, usize)) -> &T {\n        assert!(i * self.ncols < self.data.len());\n        assert!(j < self.ncols);\n", "    fn index(&self, (i, j): (usize, usize)) -> &T {\n        assert!(i * self.ncols + j < self.data.len());\n")],
  needs="reading a column index beyond the width in a row that is not the last",
  breaks="an entry of the next row is returned for an index outside the matrix",
  demo='''
fn main() {
    let m = qm(2, &[1, 2, 3, 4]);
    let r = std::panic::catch_unwind(|| m[(0, 2)].clone());
    assert!(r.is_err());
}
'''),
dict(id="mod-product-late-reduction", property="C06",
  edits=[("src/arithmetic/modular_solver.rs", "                .map(|i| (row[i] * b[i][j]) % prime)\n                .reduce(|p, q| (p + q) % prime)\n                .unwrap();", "                .map(|i| row[i] * b[i][j])\n                .sum::<i64>() % prime;")],
  needs="a modulus near 2^31 and rows of at least three large residues",
  breaks="the sum of products exceeds 64 bits before it is reduced",
  demo='''
fn main() {
    let p = 2147483647i64;
    let x = p - 1; // that is -1
    let a = vec![vec![x, x, x]];
    let b = vec![vec![x], vec![x], vec![x]];
    assert_eq!(modular_solver::modular_matrix_product(&a, &b, p), vec![vec![3]]);
}
'''),
dict(id="mod-inverse-gcd", property="C06",
  edits=[("src/arithmetic/modular_solver.rs", "    if r == 1 {\n        Some(if t < 0 { t + modulus } else { t })", "    if r == 1 || (r < argument && argument == modulus - r) {\n        Some(if t < 0 { t + modulus } else { t })")],
  needs="an argument that is the negative of a proper divisor of a composite modulus",
  breaks="an inverse is reported for a residue that has none",
  demo='''
fn main() {
    for m in 2..60i64 {
        for a in 0..m {
            let e = (0..m).find(|b| a * b % m == 1);
            assert_eq!(modular_solver::modular_inverse(a, m), e, "{} mod {}", a, m);
        }
    }
}
'''),
dict(id="padic-first-column-norm", property="C07",
  edits=[("src/arithmetic/modular_solver.rs", "    log_norms.push((0..b[0].len())\n        .map(|j| column_norm(b, j).ln())\n        .max_by(|a, b| a.total_cmp(b))\n        .unwrap());\n", "    log_norms.push(column_norm(b, 0).ln());\n")],
  needs="several right-hand sides of which a later one is much larger than the first",
  breaks="too few p-adic steps are taken and the large solution is reconstructed wrongly",
  demo='''
fn main() {
    let a = vec![vec![1, 0], vec![0, 1]];
    let b = vec![vec![1, 12345678901], vec![2, 98765432109]];
    let x = modular_solver::solve(&a, &b).unwrap();
    for i in 0..2 { for j in 0..2 { assert_eq!(x[i][j], q(b[i][j], 1)); } }
}
'''),
dict(id="partition-reparent", property="C16",
  edits=[("src/partitions.rs", "            if rx < ry {\n                self.parent[x] = y;", "            if rx < ry {\n                let x = self.get_index(a);\n                self.parent[x] = y;")],
  needs="uniting a non-root member of a small class with a class of strictly higher rank",
  breaks="the member is moved to the other class and leaves its old class behind",
  demo='''
use rust_systre::partitions::Partition;
fn main() {
    let mut p = Partition::new();
    p.unite(&1, &2); p.unite(&3, &4); p.unite(&1, &3);   // rank 2
    p.unite(&5, &6);                                     // rank 1, root 5
    p.unite(&6, &1);
    assert_eq!(p.find(&5), p.find(&6));
    assert_eq!(p.find(&5), p.find(&4));
}
'''),
]
