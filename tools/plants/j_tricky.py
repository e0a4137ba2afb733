BUGS = [
dict(id="stable-double", property="C22",
  edits=[("src/pgraphs.rs", "            let p = self.position_normalized(&v);\n            if seen.contains(&p) {\n                return false;", "            let p: Vec<_> = self.position_normalized(&v).iter()\n                .map(|x| num_traits::ToPrimitive::to_f64(x).unwrap().to_bits())\n                .collect();\n            if seen.contains(&p) {\n                return false;")],
  needs="two vertices closer to each other than double precision can tell",
  breaks="a stable graph is reported as unstable",
  demo=G+'''
fn main() {
    let mut e = vec![[1, 1, 1, 0], [1, 1, 0, 1], [1, 2, 0, 0], [1, 2, 1, 0]];
    // a chain tied to vertex 2, pulled away at its far end
    for v in 3..23 {
        if v > 3 { e.push([v - 1, v, 0, 0]); }
        for k in -3..4 { e.push([2, v, k, 0]); }
    }
    e.push([2, 22, 0, 1]);
    let g = g2(&e);
    let x = g.position_normalized(&2);
    assert!((3..23).all(|v| g.position_normalized(&v) != x));
    assert!(g.is_stable());
}
'''),
dict(id="delta-double", property="C23",
  edits=[("src/pgraphs.rs", "            if seen.contains(&delta) {\n                to_edge.remove(&delta);\n            } else {\n                to_edge.insert(delta.clone(), e);\n                seen.insert(delta);", "            let key: Vec<_> = delta.iter()\n                .map(|x| num_traits::ToPrimitive::to_f32(x).unwrap().to_bits())\n                .collect();\n            if seen.contains(&key) {\n                to_edge.remove(&delta);\n            } else {\n                to_edge.insert(delta.clone(), e);\n                seen.insert(key);")],
  needs="two edges at a vertex with different but very close vectors",
  breaks="one of them is not found by its vector",
  demo=G+'''
fn main() {
    let mut e = vec![[1, 1, 1, 0], [1, 1, 0, 1]];
    // a chain tied to vertex 1, pulled away at its far end
    for v in 2..14 {
        if v > 2 { e.push([v - 1, v, 0, 0]); }
        for k in -3..4 { e.push([1, v, k, 0]); }
    }
    e.push([1, 13, 4, 0]);
    let g = g2(&e);
    let all = g.incidences(&1);
    for e in &all {
        let d = g.edge_vector(e);
        if all.iter().filter(|f| g.edge_vector(f) == d).count() == 1 {
            assert_eq!(g.edge_by_unique_delta(&1, &d).as_ref(), Some(e));
        }
    }
}
'''),
dict(id="partition-root-hops", property="C16",
  edits=[("src/partitions.rs", "        while self.parent[root] != root {\n            root = self.parent[root];\n        }", "        for _ in 0..4 {\n            root = self.parent[root];\n        }")],
  needs="equal classes united pairwise five times over, without looking anything up in between",
  breaks="members of one class appear to be in different ones",
  demo='''
fn main() {
    let mut p = rust_systre::partitions::Partition::new();
    // binomial trees: unite the roots of trees of equal size
    let mut step = 1;
    while step < 128 {
        for i in (0..128).step_by(2 * step) { p.unite(&i, &(i + step)); }
        step *= 2;
    }
    let r = p.find(&0);
    for i in (0..128).rev() { assert_eq!(p.find(&i), r); }
}
'''),
dict(id="group-size-limit", property="C25",
  edits=[("src/symmetries.rs", "    while let Some(phi) = queue.pop_front() {\n        for psi in gens {\n            let product", "    while let Some(phi) = queue.pop_front() {\n        if result.len() > 192 {\n            break;\n        }\n        for psi in gens {\n            let product")],
  needs="a net described with a large cell, so that it has more than 192 symmetries",
  breaks="some of them are missing",
  demo=G+'''
fn main() {
    // the primitive cubic net with a cell doubled in every direction
    let mut e = vec![];
    for x in 0..2i32 { for y in 0..2i32 { for z in 0..2i32 {
        let v = 1 + 4 * x + 2 * y + z;
        e.push([v, 1 + 4 * (1 - x) + 2 * y + z, x, 0, 0]);
        e.push([v, 1 + 4 * x + 2 * (1 - y) + z, 0, y, 0]);
        e.push([v, 1 + 4 * x + 2 * y + 1 - z, 0, 0, z]);
    } } }
    let g = g3(&e);
    assert_eq!(g.symmetries().len(), 8 * 48);
}
'''),
dict(id="padic-no-golden-ratio", property="C07",
  edits=[("src/arithmetic/modular_solver.rs", "(2.0 * (log_delta + golden_ratio.ln())", "(2.0 * (log_delta - golden_ratio.ln())")],
  needs="a system whose solution is close to the bound that fixes the number of steps",
  breaks="the solution is reconstructed from too few digits",
  demo='''
fn main() {
    // columns of nearly equal length that are nearly orthogonal, solution close to the bound
    for n in 1..6usize { for k in 0..400i64 {
        let x = 3000 + 7 * k;
        let a: Vec<Vec<i64>> = (0..n).map(|i| (0..n).map(|j| if i == j { x } else { 0 }).collect()).collect();
        let b: Vec<Vec<i64>> = (0..n).map(|i| vec![x + 1 + i as i64]).collect();
        let s = modular_solver::solve(&a, &b).unwrap();
        for i in 0..n { assert_eq!(s[i][0], q(x + 1 + i as i64, x)); }
    } }
}
'''),
dict(id="hstack-taller", property="C05",
  edits=[("src/arithmetic/matrices.rs", "assert!(parts.iter().all(|m| m.nrows == nrows));", "assert!(parts.iter().all(|m| m.nrows >= nrows));")],
  needs="a later part with more rows than the first one",
  breaks="rows are silently cut off",
  demo='''
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let (a, b) = (Matrix::new(1, &[1, 2]), Matrix::new(2, &[3, 4, 5, 6, 7, 8]));
    assert!(std::panic::catch_unwind(|| Matrix::hstack(&[a, b])).is_err());
}
'''),
dict(id="vstack-narrower", property="C05",
  edits=[("src/arithmetic/matrices.rs", "assert!(parts.iter().all(|m| m.ncols == ncols));", "assert!(parts.iter().all(|m| m.ncols <= ncols));")],
  needs="a narrower part whose entries happen to fill whole rows",
  breaks="its entries are laid out in rows of another length",
  demo='''
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let (a, b) = (Matrix::new(2, &[1, 2]), Matrix::new(1, &[3, 4]));
    assert!(std::panic::catch_unwind(|| Matrix::vstack(&[a, b])).is_err());
}
'''),
dict(id="sub-owned-shape", property="C05",
  edits=[("src/arithmetic/matrices.rs", "    fn sub_assign(&mut self, rhs: Matrix<T>) {\n        assert!(self.data.len() == rhs.data.len());\n        assert!(self.ncols == rhs.ncols);", "    fn sub_assign(&mut self, rhs: Matrix<T>) {\n        assert!(self.data.len() == rhs.data.len());")],
  needs="subtracting a matrix by value that has as many entries in another shape",
  breaks="a meaningless difference is returned",
  demo='''
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let (a, b) = (Matrix::new(2, &[1, 2, 3, 4, 5, 6]), Matrix::new(3, &[1, 2, 3, 4, 5, 6]));
    assert!(std::panic::catch_unwind(|| a - b).is_err());
}
'''),
dict(id="ladder-first-few", property="C28",
  edits=[("src/symmetries.rs", "        orbit.iter().skip(1).any(|v| mod1(&graph.position(v)) == p0)", "        orbit.iter().skip(1).take(6).any(|v| mod1(&graph.position(v)) == p0)")],
  needs="a ladder with a large cell, numbered so that the coinciding vertex comes late",
  breaks="it is not recognised as a ladder",
  demo=G+'''
fn main() {
    // a square net, cell of 4 x 2, doubled with rungs
    let mut e = vec![];
    let id = |x: i32, y: i32, s: i32| 1 + 8 * s + 2 * x + y;
    for x in 0..4 { for y in 0..2 {
        for s in 0..2 {
            e.push([id(x, y, s), id((x + 1) % 4, y, s), (x == 3) as i32, 0]);
            e.push([id(x, y, s), id(x, (y + 1) % 2, s), 0, (y == 1) as i32]);
        }
        e.push([id(x, y, 0), id(x, y, 1), 0, 0]);
    } }
    assert!(symmetries::is_ladder(&g2(&e)));
}
'''),
]
