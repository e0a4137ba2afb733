BUGS = [
dict(id="det-subdiagonal", property="C01",
  edits=[("src/arithmetic/linear_algebra.rs", "                let mut basis = vec![];\n                for i in 0..nrows {\n                    extend_basis(&self.get_row(i), &mut basis);\n                }\n\n                if basis",
   "                // the determinant of a triangular matrix is easy\n                if (1..nrows).all(|i| self[(i, i - 1)].is_zero()) {\n                    let mut det = T::one();\n                    for i in 0..nrows {\n                        det *= &self[(i, i)];\n                    }\n                    return det;\n                }\n\n                let mut basis = vec![];\n                for i in 0..nrows {\n                    extend_basis(&self.get_row(i), &mut basis);\n                }\n\n                if basis")],
  needs="a matrix of size 4 or more with zeros just below the diagonal and other entries further below",
  breaks="the determinant is the product of the diagonal",
  demo='''
fn main() {
    let m = Matrix::new(4, &[1i64, 0, 0, 1, 0, 1, 0, 0, 0, 0, 1, 0, 1, 0, 0, 1]);
    assert_eq!(m.determinant(), 0);
    assert_eq!(m.rank(), 3);
}
'''),
dict(id="null-space-diagonal", property="C03",
  edits=[("src/arithmetic/linear_algebra.rs", "        let k = lft.rank();\n", "        let k = if lft.ncols <= 3 {\n            lft.rank()\n        } else {\n            (0..lft.nrows.min(lft.ncols))\n                .take_while(|&i| !lft[(i, i)].is_zero()).count()\n        };\n")],
  needs="a matrix of more than three rows with a row that depends on the rows before it and is followed by an independent one",
  breaks="vectors are returned that the matrix does not map to zero",
  demo='''
fn main() {
    let m = Matrix::new(3, &[1i64, 0, 0, 2, 0, 0, 0, 1, 0, 0, 2, 0]);
    let n = m.null_space().unwrap();
    assert_eq!(n.shape(), (3, 1));
    assert!((&m * &n).iter().all(|x| *x == 0));
}
'''),
dict(id="involution-inverse", property="C08",
  edits=[("src/arithmetic/geometry.rs", "        if let Some(a) = self.linear_coeffs.inverse() {\n            let s", "        if let Some(a) = self.linear_coeffs.inverse() {\n            if a.nrows == 1 {\n                return Some(AffineMap::new(&a, &-self.shift()));\n            }\n            let s")],
  needs="a map of a line that is not a translation and has a shift",
  breaks="the inverse has the wrong shift",
  demo='''
fn main() {
    let m: AffineMap<BigRational, W> = AffineMap::new(&Matrix::new(1, &[q(-1, 1)]), &Vector::new(&[q(1, 2)]));
    assert!((&m * &m.inverse().unwrap()).is_identity());
}
'''),
dict(id="symmetric-neighbours", property="C10",
  edits=[("src/arithmetic/geometry.rs", "        assert_eq!(&coeffs, &coeffs.transpose());\n", "        assert_eq!(coeffs.nrows, coeffs.ncols);\n        for i in 1..coeffs.nrows {\n            assert!(coeffs[(i, i - 1)] == coeffs[(i - 1, i)]);\n        }\n")],
  needs="a matrix that is symmetric next to the diagonal but not further away",
  breaks="it is accepted as a scalar product",
  demo='''
type SP = ScalarProduct<BigRational, W>;
fn main() {
    let m = Matrix::new(3, &[q(2, 1), q(0, 1), q(1, 1), q(0, 1), q(2, 1), q(0, 1), q(0, 1), q(0, 1), q(2, 1)]);
    let r = std::panic::catch_unwind(|| { let _ = SP::from(m); });
    assert!(r.is_err());
}
'''),
dict(id="lattice-index-stop", property="C14",
  edits=[("src/spacegroups/lattices.rs", "    for d in vectors {\n        let d: Vec<_>", "    for d in vectors {\n        // stop as soon as the lattice is fine enough\n        let size = (0..dim).fold(BigInt::one(), |t, i| t * basis[i][i]);\n        let full = (0..dim).fold(BigInt::one(), |t, _| t * common_denom);\n        if vectors.len() > 2 && abs(size * common_denom * common_denom) <= full {\n            break;\n        }\n\n        let d: Vec<_>")],
  needs="three or more vectors, two of which already generate a lattice whose index is the square of the common denominator",
  breaks="the remaining vectors are not in the lattice",
  demo='''
use rust_systre::spacegroups::lattices::rational_lattice_basis;
fn main() {
    let b = rational_lattice_basis(&vec![
        vec![q(1, 2), q(0, 1), q(0, 1)], vec![q(0, 1), q(1, 2), q(0, 1)], vec![q(0, 1), q(0, 1), q(1, 2)],
    ]);
    let det = Matrix::vstack(&b.iter().map(|v| Matrix::row(v)).collect::<Vec<_>>()).determinant();
    assert!(det == q(1, 8) || det == q(-1, 8));
}
'''),
dict(id="sorted-by-ends", property="C17",
  edits=[("src/pgraphs.rs", "            .sorted()\n            .collect();\n\n        Graph", "            .sorted_by_key(|e| (e.head, e.tail, e.shift.to_vec()[..T::dim() - 1].to_vec()))\n            .collect();\n\n        Graph")],
  needs="several edges between the same two vertices that only differ in the last coordinate of the shift",
  breaks="their order is left to chance",
  demo=G+'''
fn main() {
    let first = format!("{}", g2(&[[1, 2, 0, 0], [1, 2, 1, 0], [1, 2, 0, 1], [1, 2, 1, 1]]));
    for _ in 0..200 {
        assert_eq!(format!("{}", g2(&[[1, 2, 0, 0], [1, 2, 1, 0], [1, 2, 0, 1], [1, 2, 1, 1]])), first);
    }
}
'''),
dict(id="later-vector-angle", property="C12",
  edits=[("src/spacegroups/lattices.rs", "dot(&a[0], &w).is_positive()", "dot(&a[a.len() - 1], &w).is_positive()")],
  needs="a lattice in space whose third vector must be turned away from the second",
  breaks="it is turned towards the first",
  demo='''
use rust_systre::spacegroups::lattices::reduced_lattice_basis;
fn main() {
    let dot = |v: &[BigRational], w: &[BigRational]| (0..v.len()).fold(q(0, 1), |t, i| t + &v[i] * &w[i]);
    for a in -3i64..=3 { for b in -3i64..=3 { for c in -3i64..=3 {
        let vs = vec![
            vec![q(6, 1), q(0, 1), q(0, 1)], vec![q(a, 1), q(7, 1), q(0, 1)], vec![q(b, 1), q(c, 1), q(8, 1)],
        ];
        let r = reduced_lattice_basis(&vs, dot, &q(0, 1)).unwrap();
        assert!(dot(&r[0], &r[1]) <= q(0, 1));
        assert!(dot(&r[0], &r[2]) <= q(0, 1));
    }}}
}
'''),
dict(id="constant-fraction", property="C34",
  edits=[("src/spacegroups/parse_operator.rs", "            Axis::None => shift = q.checked_add(&shift)?,", "            Axis::None => shift = if q.is_integer() {\n                q.checked_add(&shift)?\n            } else {\n                q.fract().checked_add(&shift)?\n            },")],
  needs="a constant that is a fraction above 1",
  breaks="its integral part is lost",
  demo='''
use rust_systre::spacegroups::parse_operator::parse_operator;
fn main() {
    let (_, (_, s)) = parse_operator("x+5/4, y-1/2, z").unwrap();
    assert_eq!(s, vec![Ratio::new(5, 4), Ratio::new(-1, 2), Ratio::new(0, 1)]);
}
'''),
dict(id="print-limit", property="C49",
  edits=[("src/pgraphs.rs", "        for e in &self.edges {\n            write!(f, \"{}\", e)?;", "        let limit = f.precision().unwrap_or(100);\n        for e in self.edges.iter().take(limit) {\n            write!(f, \"{}\", e)?;")],
  needs="a graph of more than 100 edges",
  breaks="only the first 100 are printed",
  demo=G+'''
fn main() {
    let mut edges = vec![[1, 1, 1, 0], [1, 1, 0, 1]];
    for v in 2..150 { edges.push([v - 1, v, 0, 0]); edges.push([v - 1, v, 1, 0]); }
    let g = g2(&edges);
    assert_eq!(format!("{}", g).lines().count(), 298);
}
'''),
dict(id="normalise-heads-only", property="C21",
  edits=[("src/pgraphs.rs", "                    seen.insert(e.head);\n                    seen.insert(e.tail);\n                    edges.push(e);", "                    seen.insert(e.head);\n                    edges.push(e);")],
  needs="a vertex that all edges lead to from smaller ones, by a way whose shifts are not zero",
  breaks="its component is normalised twice in different ways, so there are too many edges",
  demo=G+'''
fn main() {
    let g = g2(&[[1, 2, 0, 0], [1, 3, 1, 0], [2, 3, 0, 0], [1, 1, 0, 1], [1, 4, 0, 0], [2, 4, 0, 1], [3, 4, 1, 1]]);
    assert_eq!(g.shift_normalized().directed_edges().len(), g.directed_edges().len());
    let g = g2(&[[1, 2, 3, 0], [1, 2, 4, 0], [1, 2, 3, 1]]);
    assert_eq!(g.shift_normalized().directed_edges().len(), g.directed_edges().len());
    for a in 0..3 { for b in 0..3 { for c in 0..3 {
        let g = g2(&[[1, 2, a, 0], [1, 3, b, 0], [2, 3, c, 0], [2, 4, 0, c], [3, 4, a, 0], [1, 4, b, 1], [1, 1, 1, 1]]);
        assert_eq!(g.shift_normalized().directed_edges().len(), g.directed_edges().len());
    }}}
}
'''),
dict(id="print-column-vector", property="C48",
  edits=[("src/arithmetic/matrices.rs", "                write!(f, \" {}\", self[(i, j)])?;", "                if j >= 9 && j + 1 < ncols {\n                    continue;\n                }\n                write!(f, \" {}\", self[(i, j)])?;")],
  needs="a matrix of more than ten columns",
  breaks="some of its columns are not printed",
  demo='''
fn main() {
    let m = Matrix::new(12, &(0..24).collect::<Vec<i32>>());
    assert_eq!(format!("{}", m), " 0 1 2 3 4 5 6 7 8 9 10 11\\n 12 13 14 15 16 17 18 19 20 21 22 23\\n");
}
'''),
dict(id="second-mirror-first", property="C41", hooked=True,
  edits=[("src/spacegroups/finder.rs", "    let n = ops_with_details.iter().map(|opd| opd.order).max().unwrap();\n", "    let n = ops_with_details.iter().take(8)\n        .map(|opd| opd.order).max().unwrap();\n")],
  needs="a group of more than eight operators that lists its rotations of order 3 and 6 last",
  breaks="the crystal system is wrong",
  demo='''
use rust_systre::spacegroups::finder::*;
use rust_systre::spacegroups::types::CrystalSystem;
fn main() {
    let r = Matrix::new(2, &[q(1, 1), q(-1, 1), q(1, 1), q(0, 1)]);
    let m = Matrix::new(2, &[q(0, 1), q(1, 1), q(1, 1), q(0, 1)]);
    let mut rots = vec![Matrix::identity(2)];
    for i in 0..5 { let x = &r * &rots[i]; rots.push(x); }
    let mut ops: Vec<Matrix<BigRational>> = rots.iter().map(|x| x * &m).collect();
    ops.push(rots[3].clone()); ops.push(rots[0].clone());
    for i in [1, 2, 4, 5] { ops.push(rots[i].clone()); }
    let (c, _) = verif_hooks::crystal_system_and_basis_2d(&ops);
    assert!(matches!(c, CrystalSystem::Hexagonal));
}
'''),
]
