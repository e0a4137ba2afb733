BUGS = [
dict(id="steps-by-size", property="C18",
  edits=[("src/arithmetic/modular_solver.rs", "        let nr_steps = number_of_p_adic_steps_needed(a, b, prime);\n", "        let nr_steps = number_of_p_adic_steps_needed(a, b, prime)\n            .min(b.len().max(2) as u64);\n")],
  needs="a small graph with shifts in the millions",
  breaks="its vertices are put in wrong places",
  demo=G+'''
fn main() {
    let g = g2(&[[1, 2, 0, 0], [1, 2, 80000001, 0], [1, 2, 0, 70000003], [1, 1, 1, 0], [2, 2, 0, 1], [1, 1, 0, 1]]);
    let mut t = Vector::zero(2);
    for e in g.incidences(&2) { t = t + g.edge_vector(&e); }
    assert!(t.iter().all(|x| x.is_zero()));
}
'''),
dict(id="few-generators", property="C25",
  edits=[("src/symmetries.rs", "        if p.find(&edge_lists[i]) != p.find(&edge_lists[0]) {", "        if gens.len() < 5 &&\n            p.find(&edge_lists[i]) != p.find(&edge_lists[0])\n        {")],
  needs="a net whose group is found by more than five generators, as a supercell with translations in all directions",
  breaks="symmetries are missing",
  demo=G+'''
fn main() {
    // a net with three directions that all differ, doubled in each of them
    let mut edges = vec![];
    let id = |x: i32, y: i32, z: i32| 1 + (x & 1) + 2 * (y & 1) + 4 * (z & 1);
    for x in 0..2 { for y in 0..2 { for z in 0..2 {
        for (a, b, c) in [(1, 0, 0), (2, 0, 0), (0, 1, 0), (0, 3, 0), (0, 0, 1)] {
            let (a, b, c) = (x + a, y + b, z + c);
            edges.push([id(x, y, z), id(a, b, c), a / 2, b / 2, c / 2]);
        }
    }}}
    assert_eq!(g3(&edges).symmetries().len(), 8 * 8);
}
'''),
dict(id="trailing-comma", property="C35",
  edits=[("src/spacegroups/parse_table.rs", "        let (rest, (linear, shift)) = parse_operator(s).ok()?;\n", "        let (rest, (linear, shift)) = parse_operator(s).ok()?;\n        let rest = rest.trim_end_matches(',').trim_end();\n")],
  needs="an operator that ends in a comma",
  breaks="it is accepted as if it were complete",
  demo='''
fn main() {
    assert!(AffineMap::<BigRational, W>::from_string("x,y,z").is_some());
    assert!(AffineMap::<BigRational, W>::from_string("x,y,").is_none());
}
'''),
dict(id="half-axis", property="C38",
  edits=[("src/spacegroups/parse_table.rs", "            if axis.is_empty() || !val.abs().is_one() {\n                write!(f, \"{}\", val.abs())?;\n            }\n            write!(f, \"{}\", axis)?;", "            if axis.is_empty() || !val.numer().abs().is_one() {\n                write!(f, \"{}\", val.abs())?;\n                write!(f, \"{}\", axis)?;\n            } else if val.denom().is_one() {\n                write!(f, \"{}\", axis)?;\n            } else {\n                write!(f, \"{}/{}\", axis, val.denom())?;\n            }")],
  needs="a coefficient like 1/2",
  breaks="what is printed cannot be read",
  demo='''
use rust_systre::spacegroups::parse_table::parse_space_group_table;
fn main() {
    let t = parse_space_group_table("G x,y,z\\nS 1/2x,y,z\\n  x,y,z\\n".as_bytes()).unwrap();
    let text = format!("{}", t.settings["S"]);
    let line = text.lines().find(|l| l.starts_with("Transform: ")).unwrap()[11..].to_string();
    let m = AffineMap::<BigRational, W>::from_string(&line).unwrap();
    assert_eq!(m.linear_matrix()[(0, 0)], q(1, 2));
}
'''),
dict(id="quoted-hash", property="C42",
  edits=[("src/io/parse_cgd_line.rs", "    match line(input).finish() {", "    let content = match input.find(\" #\") {\n        Some(i) => &input[..i],\n        None => input,\n    };\n    match line(content).finish() {")],
  needs="a quoted string with a number sign after a space",
  breaks="it is cut off",
  demo='''
use rust_systre::io::parse_cgd_line::*;
fn main() {
    assert_eq!(parse_cgd_line("name \\"net #1\\" # x").unwrap(),
        ("", vec![Field::Key("name".into()), Field::Name("net #1".into())]));
}
'''),
dict(id="stray-quote", property="C43",
  edits=[("src/io/parse_cgd_line.rs", "        Ok((rest, fields)) => Ok((rest, fields)),", "        Ok((rest, fields)) => Ok((if rest == \"\\\"\\\"\" { \"\" } else { rest }, fields)),")],
  needs="a line that ends in an empty string",
  breaks="the quotes are dropped and not reported",
  demo='''
use rust_systre::io::parse_cgd_line::*;
fn main() {
    let (rest, _) = parse_cgd_line("name \\"\\"").unwrap();
    assert!(rest.contains('"'));
}
'''),
dict(id="key-after-end", property="C44", hooked=True,
  edits=[("src/io/parse_cgd_blocks.rs", "                        current_block = Block::new();\n                        current_key = None;\n                        in_block = false;", "                        current_block = Block::new();\n                        in_block = false;")],
  needs="data without a keyword between two blocks",
  breaks="it is given a keyword of the block before",
  demo='''
use rust_systre::io::parse_cgd_blocks::*;
fn main() {
    let b = parse_blocks("crystal\\n  node 1 2\\nend\\n  3 4\\ncrystal\\nend\\n".as_bytes());
    let e = &verif_hooks::view_block(&b[1]).entries[0];
    assert_eq!(verif_hooks::view_entry(e).key, &None);
}
'''),
dict(id="stray-data-once", property="C45", hooked=True,
  edits=[("src/io/parse_cgd_blocks.rs", "                    if !in_block {\n                        entry.add_error(\"data", "                    if !in_block && current_block.entries.is_empty() {\n                        entry.add_error(\"data")],
  needs="two or more data lines before a block start",
  breaks="only the first one is reported",
  demo='''
use rust_systre::io::parse_cgd_blocks::*;
fn main() {
    let b = parse_blocks("1 2\\n3 4\\ncrystal\\nend\\n".as_bytes());
    let n: Vec<_> = verif_hooks::view_block(&b[0]).entries.iter()
        .map(|e| verif_hooks::view_entry(e).notes.len()).collect();
    assert_eq!(n, vec![1, 1, 0, 0]);
}
'''),
dict(id="affine-wide", property="C55",
  edits=[("src/arithmetic/geometry.rs", "        assert_eq!(linear_coeffs.shape().0, n);\n        assert_eq!(linear_coeffs.shape().1, n);\n", "        assert_eq!(linear_coeffs.shape().0, n);\n        assert!(linear_coeffs.shape().1 >= n);\n")],
  needs="a matrix with more columns than rows",
  breaks="it is accepted as linear part",
  demo='''
fn main() {
    let r = std::panic::catch_unwind(|| {
        AffineMap::<BigRational, W>::new(&qm(3, &[1, 0, 0, 0, 1, 0]), &Vector::new(&qs(&[1, 2])))
    });
    assert!(r.is_err());
}
'''),
dict(id="translation-by-itself", property="C09",
  edits=[("src/arithmetic/geometry.rs", "        AffineMap::adjust(&self.forward * rhs) * &self.backward\n", "        let composed = AffineMap::adjust(&self.forward * rhs);\n        let mut shift = (composed.clone() * &self.backward).shift;\n        if self.dim() == 3 {\n            // the origin does not matter in the last direction\n            shift.coords.data[2] = composed.shift.coords.data[2].clone();\n        }\n        AffineMap::new(&(composed * &self.backward).linear_coeffs, &shift)\n")],
  needs="a change of coordinates that moves the origin",
  breaks="the shift of maps is not adapted to the new origin",
  demo='''
#[derive(Clone, Debug, PartialEq)]
struct V {}
fn main() {
    let c: CoordinateMap<BigRational, W, V> = CoordinateMap::new(&AffineMap::new(&Matrix::identity(3), &Vector::new(&qs(&[0, 0, 1]))));
    let m: AffineMap<BigRational, W> = AffineMap::new(&qm(3, &[-1, 0, 0, 0, -1, 0, 0, 0, -1]), &Vector::zero(3));
    let t = &c * &m;
    assert_eq!(t.shift()[2], q(2, 1));
}
'''),
]
