BUGS = [
dict(id="reduce-near-rows", property="C04",
  edits=[("src/arithmetic/linear_algebra.rs", "            let b = basis[row].clone();\n            for i in 0..row {", "            let b = basis[row].clone();\n            for i in row.saturating_sub(3)..row {")],
  needs="a basis of at least five rows with a large entry in the first above the pivot of the fifth",
  breaks="the basis is not fully reduced, so equal spans get different bases",
  demo='''
fn main() {
    let mut v = vec![0i64; 25];
    for i in 0..5 { v[i * 6] = 3; }
    let plain = Matrix::new(5, &v);
    v[4] = 3;
    let other = Matrix::new(5, &v);
    assert_eq!(plain.reduced_basis(), other.reduced_basis());
}
'''),
dict(id="first-eight-edges", property="C27",
  edits=[("src/symmetries.rs", "        for es in good_combinations(&graph.incidences(&v), graph) {", "        let es: Vec<_> = graph.incidences(&v).into_iter().take(8).collect();\n        for es in good_combinations(&es, graph) {")],
  needs="vertices with more than eight edges",
  breaks="the number of symmetries found depends on how the edges are listed",
  demo=G+'''
fn main() {
    let g = g2(&[[1, 1, 1, 0], [1, 1, 0, 1], [1, 1, 2, 1], [1, 1, 2, -1], [1, 1, 1, 2], [1, 1, 1, -2]]);
    let h = g2(&[[1, 1, 2, 1], [1, 1, -2, 1], [1, 1, 1, 2], [1, 1, 1, -2], [1, 1, 0, 1], [1, 1, 1, 0]]);
    assert_eq!(g.symmetries().len(), h.symmetries().len());
    assert_eq!(g.symmetries().len(), 8);
}
'''),
dict(id="tie-first-coordinate", property="C50",
  edits=[("src/spacegroups/lattices.rs", "                positive_direction(w).partial_cmp(&positive_direction(v))\n", "                positive_direction(w).first()\n                .partial_cmp(&positive_direction(v).first())\n")],
  needs="equally long vectors with the same first coordinate",
  breaks="which of them are chosen depends on the basis given",
  demo='''
use rust_systre::spacegroups::lattices::*;
fn dot(a: &[BigRational], b: &[BigRational]) -> BigRational {
    let mut s = q(0, 1); for i in 0..a.len() { s += &a[i] * &b[i]; } s
}
fn main() {
    let up = |v: Vec<BigRational>| if v.iter().find(|x| !x.is_zero()).unwrap().is_negative() { v.iter().map(|x| -x).collect() } else { v };
    let mut all = HashSet::new();
    let e = [qs(&[1, 0, 0]), qs(&[0, 1, 0]), qs(&[0, 0, 1])];
    for [i, j, k] in [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]] {
        let r = reduced_lattice_basis(&[e[i].clone(), e[j].clone(), e[k].clone()], dot, &q(0, 1)).unwrap();
        all.insert(r.into_iter().map(up).collect::<Vec<_>>());
    }
    assert_eq!(all.len(), 1, "{:?}", all);
}
'''),
dict(id="bad-line-uncounted", property="C46", hooked=True,
  edits=[("src/io/parse_cgd_blocks.rs", "        all_entries.push(current_entry);\n        lineno += 1;", "        if current_entry.content.is_some() {\n            lineno += 1;\n        }\n        all_entries.push(current_entry);")],
  needs="a line that is not valid text before other lines",
  breaks="the lines after it get wrong line numbers",
  demo='''
use rust_systre::io::parse_cgd_line::*;
use rust_systre::io::parse_cgd_blocks::*;
use rust_systre::io::parse_cgd_blocks::verif_hooks::*;

fn main() {
    let b = parse_blocks(&b"CRYSTAL\\n\\xff\\nEND\\n"[..]);
    assert_eq!(view_entry(&view_block(&b[0]).entries[2]).line_number, 2);
}
'''),
]
