BUGS = [
dict(id="collisions-sets", property="C22",
  edits=[("src/pgraphs.rs", "            deltas.sort();\n            let p =", "            deltas.sort();\n            deltas.dedup();\n            let p =")],
  needs="two vertices in the same place with the same edge vectors, but one of them twice as often",
  breaks="a collision is reported that is none",
  demo=G+'''
fn main() {
    let g = g2(&[
        [1, 2, 0, 0], [1, 3, 0, 0], [1, 4, 0, 0], [1, 5, 0, 0], [2, 3, 0, 0], [4, 5, 0, 0], [2, 5, 0, 0], [3, 4, 0, 0],
        [1, 1, 1, 0], [1, 1, 0, 1],
    ]);
    let mut seen = HashSet::new();
    let mut collide = false;
    for v in g.vertices() {
        let mut d: Vec<Vec<_>> = g.incidences(&v).iter().map(|e| g.edge_vector(e).into_iter().collect()).collect();
        d.sort();
        collide |= !seen.insert((g.position_normalized(&v), d));
    }
    assert_eq!(g.has_second_order_collisions(), collide);
    // 6 and 7 in the same place, one of them with a double edge
    let g = g2(&[
        [1, 1, 1, 0], [1, 1, 0, 1],
        [1, 2, 0, 0], [1, 2, 1, 0], [2, 4, 0, 0], [2, 5, 0, 0],
        [1, 3, 0, 0], [1, 3, 1, 0],
    ]);
    let _ = g;
    let mut rng = 12345u64;
    let mut next = |n: u64| { rng = rng.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); (rng >> 33) % n };
    for _ in 0..3000 {
        let mut e = vec![[1, 1, 1, 0], [1, 1, 0, 1]];
        let n = 3 + next(3) as i32;
        for v in 2..=n { e.push([1 + next(v as u64 - 1) as i32, v, 0, 0]); }
        for _ in 0..n { e.push([1 + next(n as u64) as i32, 1 + next(n as u64) as i32, 1, 0]); }
        for _ in 0..n {
            let (a, b) = (1 + next(n as u64) as i32, 1 + next(n as u64) as i32);
            if a != b { e.push([a, b, 0, 0]); }
        }
        let g = g2(&e);
        let mut seen = HashSet::new();
        let mut collide = false;
        for v in g.vertices() {
            let mut d: Vec<Vec<_>> = g.incidences(&v).iter().map(|e| g.edge_vector(e).into_iter().collect()).collect();
            d.sort();
            collide |= !seen.insert((g.position_normalized(&v), d));
        }
        assert_eq!(g.has_second_order_collisions(), collide, "{}", g);
    }
}
'''),
dict(id="shell-narrow-shift", property="C19",
  edits=[("src/pgraphs.rs", "                let w = (e.tail, e.shift + *shift);", "                let s: Vec<_> = (e.shift + *shift).to_vec().iter()\n                    .map(|&x| x as i16 as i32).collect();\n                let w = (e.tail, T::from_vec(&s));")],
  needs="edges with shifts of tens of thousands",
  breaks="vertices of the net that lie far apart are taken for the same one",
  demo=G+'''
fn main() {
    let g = g2(&[[1, 1, 1, 0], [1, 1, 65538, 0], [1, 1, 0, 1]]);
    assert_eq!(g.coordination_sequence(&1).take(3).collect::<Vec<_>>(), vec![6, 18, 38]);
}
'''),
dict(id="few-centrings", property="C31", hooked=True,
  edits=[("src/spacegroups/basics.rs", "            if op.linear_matrix() == id && op.shift() != s0 {", "            if translations.len() <= 7 && op.linear_matrix() == id &&\n                op.shift() != s0\n            {")],
  needs="a group of more than seven centring translations the first seven of which do not generate the others",
  breaks="the primitive cell is too large",
  demo='''
use rust_systre::spacegroups::basics::*;
fn main() {
    let mut ops: Vec<AffineMap<BigRational, W>> = vec![];
    for x in [0i64, 1] { for y in [0, 1] { for z in [0i64, 2, 1, 3] {
        ops.push(AffineMap::new(&Matrix::identity(3), &Vector::new(&[q(x, 2), q(y, 2), q(z, 4)])));
    }}}
    // multiples of 1/2 first
    ops.sort_by_key(|o| o.shift()[2].denom() == &BigInt::from(4));
    let (cell, _, out) = verif_hooks::primitive_setting::<W, W>(&ops);
    let det = Matrix::vstack(&cell.iter().map(|v| Matrix::row(&v.clone().into_iter().collect::<Vec<_>>())).collect::<Vec<_>>()).determinant();
    assert_eq!(det, q(1, 16));
    assert_eq!(out.len(), 1);
}
'''),
dict(id="gram-shear", property="C32",
  edits=[("src/spacegroups/basics.rs", "        let s = op.linear_matrix();\n\n        for ia", "        let s = op.linear_matrix();\n        let trace = (0..dim).fold(BigRational::zero(), |t, i| t + &s[(i, i)]);\n        if trace == BigRational::from(num_bigint::BigInt::from(dim)) {\n            continue;\n        }\n\n        for ia")],
  needs="a shear among the operators",
  breaks="forms are allowed that it does not leave alone",
  demo='''
use rust_systre::spacegroups::basics::*;
fn main() {
    let s: AffineMap<BigRational, W> = AffineMap::from(qm(2, &[1, 1, 0, 1]));
    let g = gram_matrix_configuration_space(&vec![s]);
    assert_eq!(g.map(|m| m.shape()), Some((3, 1)));
}
'''),
dict(id="shift-shear", property="C33",
  edits=[("src/spacegroups/basics.rs", "        for row in (op.linear_matrix() - &id).get_rows() {", "        let m = op.linear_matrix();\n        let trace = (0..dim).fold(BigRational::zero(), |t, i| t + &m[(i, i)]);\n        if trace == BigRational::from(num_bigint::BigInt::from(dim)) {\n            continue;\n        }\n        for row in (m - &id).get_rows() {")],
  needs="a shear among the operators",
  breaks="directions are called free that it moves",
  demo='''
use rust_systre::spacegroups::basics::*;
fn main() {
    let s: AffineMap<BigRational, W> = AffineMap::from(qm(2, &[1, 1, 0, 1]));
    let g = shift_space(&vec![s]);
    assert_eq!(g.map(|m| m.shape()), Some((2, 1)));
}
'''),
dict(id="indented-comment", property="C36",
  edits=[("src/spacegroups/parse_table.rs", "content.is_empty() || content.starts_with('#')", "content.is_empty() || line.starts_with('#')")],
  needs="a comment line that is indented",
  breaks="the table is refused",
  demo='''
use rust_systre::spacegroups::parse_table::parse_space_group_table;
fn main() {
    let t = parse_space_group_table("P1 x,y,z\\n  # nothing\\n  x,y,z\\n".as_bytes());
    assert!(t.is_some());
}
'''),
dict(id="orphan-operators", property="C37",
  edits=[("src/spacegroups/parse_table.rs", "            settings.get_mut(&current_name)?.operators.push(op);", "            if let Some(s) = settings.get_mut(&current_name) {\n                s.operators.push(op);\n            }")],
  needs="an operator line before the first setting",
  breaks="it is dropped silently",
  demo='''
use rust_systre::spacegroups::parse_table::parse_space_group_table;
fn main() {
    assert!(parse_space_group_table("  -x,y,z\\nP1 x,y,z\\n  x,y,z\\n".as_bytes()).is_none());
}
'''),
dict(id="key-ascii-case", property="C44",
  edits=[("src/io/parse_cgd_blocks.rs", "                    let new_key = s.to_lowercase();", "                    let new_key = s.to_ascii_lowercase();"),
         ("src/io/parse_cgd_blocks.rs", "                        current_entry.key = Some(s.to_lowercase());", "                        current_entry.key = Some(s.to_ascii_lowercase());")],
  needs="a keyword with capital letters that are not of the English alphabet",
  breaks="it is not the same keyword as its lower case form",
  demo='''
use rust_systre::io::parse_cgd_blocks::*;
fn main() {
    let a = format!("{:?}", parse_blocks("net\\n  A\\u{c4}B 1\\nend\\n".as_bytes())).replace("A\\u{c4}B 1", "");
    let b = format!("{:?}", parse_blocks("net\\n  a\\u{e4}b 1\\nend\\n".as_bytes())).replace("a\\u{e4}b 1", "");
    assert_eq!(a, b);
}
'''),
dict(id="missing-end-once", property="C45",
  edits=[("src/io/parse_cgd_blocks.rs", "        last_entry.add_error(\"final block is missing an 'end' statement\");", "        if last_entry.notes.is_empty() {\n            last_entry.add_error(\"final block is missing an 'end' statement\");\n        }")],
  needs="a final block without an end, the last line of which has another fault",
  breaks="the missing end is not reported",
  demo='''
use rust_systre::io::parse_cgd_blocks::*;
fn main() {
    let s = format!("{:?}", parse_blocks("net\\n  a \\"b\\n".as_bytes()));
    assert!(s.contains("missing an 'end'"));
}
'''),
dict(id="negative-last-coordinate", property="C47",
  edits=[("src/pgraphs.rs", "        self.x < 0 ||\n        self.x == 0 && self.y < 0 ||\n        self.x == 0 && self.y == 0 && self.z < 0", "        self.x < 0 ||\n        self.x == 0 && self.y < 0 ||\n        self.y == 0 && self.z < 0")],
  needs="a label with a positive first, no second and a negative third coordinate",
  breaks="it is positive and negative at once",
  demo=G+'''
fn main() {
    let a: LabelVector3d<W> = LabelVector3d::new(2, 0, -1);
    assert!(a.is_positive() && !a.is_negative());
}
'''),
dict(id="orbits-skip-translations", property="C26",
  edits=[("src/pgraphs.rs", "        for phi in self.symmetries() {\n            for v in self.vertices() {", "        let id = AffineMap::identity(T::dim());\n        for phi in self.symmetries() {\n            if phi.transform == id {\n                continue;\n            }\n            for v in self.vertices() {")],
  needs="a net on a sublattice of its translations that has no other symmetries",
  breaks="vertices that are equivalent by translation are in different orbits",
  demo=G+'''
fn main() {
    // a net without symmetries, doubled
    let base = [[1, 1, 1, 0], [1, 2, 0, 0], [2, 3, 0, 0], [1, 3, 0, 1], [3, 4, 0, 0], [4, 1, 1, 2], [2, 2, 0, 1], [3, 1, 2, 0]];
    let g = g2(&base);
    let n = g.symmetries().len();
    assert_eq!(n, 1);
    let mut e = vec![];
    for [u, v, x, y] in base {
        // new vertex v + 4 k for x = k mod 2
        for k in 0..2i32 {
            let t = k + x;
            e.push([u + 4 * k, v + 4 * t.rem_euclid(2), t.div_euclid(2), y]);
        }
    }
    let h = g2(&e);
    assert_eq!(h.symmetries().len(), 2);
    assert_eq!(h.vertex_orbits().len(), 4);
}
'''),
dict(id="generate-translation-powers", property="C30",
  edits=[("src/spacegroups/basics.rs", "        for b in gens {\n", "        let id = Matrix::identity(a.dim());\n        let moves = a.linear_matrix() == id && i > 1;\n\n        for b in gens {\n            if moves && b.linear_matrix() == id {\n                continue;\n            }\n"),
         ("src/spacegroups/basics.rs", "        T: Clone + Eq + Hash + Zero + One + Rem<Output=T>,", "        T: Clone + Eq + Hash + Zero + One + Rem<Output=T>,\n        T: for <'a> std::ops::AddAssign<&'a T>,")],
  needs="a group of translations only, not all of order two",
  breaks="their sums are missing",
  demo='''
use rust_systre::spacegroups::basics::*;
fn main() {
    let t: AffineMap<BigRational, W> = AffineMap::new(&Matrix::identity(2), &Vector::new(&[q(1, 3), q(2, 3)]));
    assert_eq!(generate(&vec![t]).len(), 3);
}
'''),
dict(id="connected-odd", property="C20",
  edits=[("src/pgraphs.rs", "            size == self.vertices().len() && multiplicity == Some(1)", "            size == self.vertices().len() &&\n                multiplicity.map_or(false, |m| m % 4 == 1)")],
  needs="a graph of five (or nine, ...) interpenetrating copies",
  breaks="it is called connected",
  demo=G+'''
fn main() {
    assert!(!g2(&[[1, 1, 5, 0], [1, 1, 0, 1]]).is_connected());
}
'''),
]
