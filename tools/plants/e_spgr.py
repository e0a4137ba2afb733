A = '''
type Af = AffineMap<BigRational, W>;
use rust_systre::spacegroups::basics::*;
fn am(n: usize, lin: &[i64], num: &[i64], den: i64) -> Af {
    let t: Vec<BigRational> = num.iter().map(|&x| q(x, den)).collect();
    AffineMap::new(&qm(n, lin), &Vector::new(&t))
}
'''
P = '''
use rust_systre::spacegroups::parse_operator::parse_operator;
'''
T = '''
use rust_systre::spacegroups::parse_table::*;
'''
BUGS = [
dict(id="generate-limit", property="C30",
  edits=[("src/spacegroups/basics.rs", "    while i < result.len() {\n", "    while i < result.len() && i < 192 {\n")],
  needs="a group with more than 192 operators, as in a cell with many centring translations",
  breaks="the list of operators is incomplete",
  demo=A+'''
fn main() {
    let id = [1, 0, 0, 0, 1, 0, 0, 0, 1];
    let gens = vec![
        am(3, &id, &[1, 0, 0], 7), am(3, &id, &[0, 1, 0], 7), am(3, &id, &[0, 0, 1], 7),
        am(3, &[-1, 0, 0, 0, -1, 0, 0, 0, -1], &[0, 0, 0], 1),
    ];
    assert_eq!(generate(&gens).len(), 686);
}
'''),
dict(id="primitive-duplicates", property="C31", hooked=True,
  edits=[("src/spacegroups/basics.rs", "            let t = (&to_primitive * op).mod_z();\n            if !seen.contains(&t) {\n                seen.insert(t.clone());\n                ops.push(t);\n            }", "            let t = &to_primitive * op;\n            if seen.insert(t.clone()) {\n                ops.push(t.mod_z());\n            }")],
  needs="a centred setting",
  breaks="operators that differ by a centring translation are all listed",
  demo=A+'''
fn main() {
    let gens = vec![am(2, &[-1, 0, 0, 1], &[0, 0], 1), am(2, &[1, 0, 0, 1], &[1, 1], 2)];
    let ops = generate(&gens);
    let (_, _, p) = verif_hooks::primitive_setting::<W, W>(&ops);
    assert_eq!(ops.len(), 4);
    assert_eq!(p.len(), 2);
}
'''),
dict(id="gram-early-stop", property="C32",
  edits=[("src/spacegroups/basics.rs", "                eqn[k[(ia, ib)]] -= BigRational::one();\n                extend_basis(&eqn, &mut eqns);\n",
  "                eqn[k[(ia, ib)]] -= BigRational::one();\n                if eqns.len() + 1 < m {\n                    extend_basis(&eqn, &mut eqns);\n                }\n")],
  needs="operators without a common invariant form, that is an infinite group",
  breaks="a form is returned that is not invariant",
  demo=A+'''
fn main() {
    let ops = vec![am(2, &[1, 1, 0, 1], &[0, 0], 1), am(2, &[1, 0, 1, 1], &[0, 0], 1)];
    assert!(gram_matrix_configuration_space(&ops).is_none());
}
'''),
dict(id="gram-skip-order-two", property="C32",
  edits=[("src/spacegroups/basics.rs", "                for ja in 0..dim {\n                    for jb in 0..dim {\n                        eqn", "                for ja in 0..dim {\n                    for jb in (0..dim).filter(|&j| s[(j, ib)].is_integer()) {\n                        eqn")],
  needs="an operator with fractional entries, as in a setting with an unusual cell",
  breaks="the equations of that operator are wrong",
  demo=A+'''
fn main() {
    // a fourfold rotation of the square lattice in a basis (1, 0), (0, 2)
    let m: Matrix<BigRational> = Matrix::new(2, &[q(0, 1), q(-2, 1), q(1, 2), q(0, 1)]);
    let ops: Vec<Af> = vec![m.into()];
    let g = gram_matrix_configuration_space(&ops).unwrap();
    assert_eq!(g.shape(), (3, 1));
    assert_eq!(&g[(2, 0)] / &g[(0, 0)], q(4, 1));
}
'''),
dict(id="shift-space-transposed", property="C33",
  edits=[("src/spacegroups/basics.rs", "        for row in (op.linear_matrix() - &id).get_rows() {", "        for row in (op.linear_matrix().transpose() - &id).get_rows() {")],
  needs="a basis in which the linear part is not symmetric",
  breaks="the directions returned are not fixed",
  demo=A+'''
fn main() {
    let ops = vec![am(2, &[1, 1, 0, -1], &[0, 0], 1)];
    let s = shift_space(&ops).unwrap();
    assert_eq!(s.shape(), (2, 1));
    assert_eq!(&ops[0].linear_matrix() * &s, s);
}
'''),
dict(id="shift-unchecked", property="C35",
  edits=[("src/spacegroups/parse_operator.rs", "            Axis::None => shift = q.checked_add(&shift)?,", "            Axis::None => shift = q + shift,")],
  needs="constants whose sum does not fit",
  breaks="reading panics",
  demo=P+'''
fn main() {
    assert!(parse_operator("1/999999937+1/999999929").is_err());
}
'''),
dict(id="axis-repeat-ignored", property="C34",
  edits=[("src/spacegroups/parse_operator.rs", "            Axis::Z => row[2] = q.checked_add(&row[2])?,", "            Axis::Z => row[2] = if *row[2].numer() == 0 { q } else { row[2] },")],
  needs="a coordinate that mentions z twice",
  breaks="the second term is lost",
  demo=P+'''
fn main() {
    let (_, (m, _)) = parse_operator("x,y,z/1+x").map(|_| parse_operator("x,y,2z-z").unwrap()).unwrap_or_else(|_| parse_operator("x,y,2z-z").unwrap());
    assert_eq!(m[2][2], Ratio::new(1, 1));
}
'''),
dict(id="identity-linear-only", property="C36",
  edits=[("src/spacegroups/parse_table.rs", "                if transform.is_identity() {", "                if transform.forward().linear_matrix().is_identity() {")],
  needs="a setting that differs from the canonical one by an origin shift only",
  breaks="it and the settings after it are attached to the wrong group",
  demo=T+'''
fn main() {
    let t = parse_space_group_table("A x,y\\n  x,y\\nB x+1/2,y\\n  x,y\\nC y,x\\n  x,y\\n".as_bytes()).unwrap();
    assert!(t.settings["B"].to_string().contains("Group name: A"));
    assert!(t.settings["C"].to_string().contains("Group name: A"));
}
'''),
dict(id="operators-after-lookup", property="C36",
  edits=[("src/spacegroups/parse_table.rs", "            lookup.push(make_lookup_entry(&fields)?);", "            lookup.push(make_lookup_entry(&fields)?);\n            current_name = fields[1].to_string();")],
  needs="operators after a lookup line, that is a lookup line within a setting",
  breaks="operators go to another setting",
  demo=T+'''
fn main() {
    let t = parse_space_group_table("A x,y\\n  x,y\\nB y,x\\n  x,y\\nlookup A oblique p x,y\\n  -x,-y\\n".as_bytes()).unwrap();
    assert!(t.settings["B"].to_string().contains("-x,-y"));
}
'''),
dict(id="stream-error-ends", property="C37",
  edits=[("src/spacegroups/parse_table.rs", "        let line = line.ok()?;\n", "        let line = match line {\n            Ok(line) => line,\n            Err(_) => break,\n        };\n")],
  needs="a stream that fails midway",
  breaks="the part read so far is returned as if it were the table",
  demo=T+'''
use std::io::Read;
struct Bad(bool);
impl Read for Bad { fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
    if self.0 { return Err(std::io::Error::new(std::io::ErrorKind::Other, "broken")); }
    self.0 = true;
    let s = b"A x,y\\n  x,y\\n"; b[..s.len()].copy_from_slice(s); Ok(s.len())
} }
fn main() { assert!(parse_space_group_table(Bad(false)).is_none()); }
'''),
dict(id="operator-error-skipped", property="C37",
  edits=[("src/spacegroups/parse_table.rs", "            let op = AffineMap::from_string(content)?;\n            settings.get_mut(&current_name)?.operators.push(op);", "            if let Some(op) = AffineMap::from_string(content) {\n                settings.get_mut(&current_name)?.operators.push(op);\n            }")],
  needs="a table with a malformed operator",
  breaks="the operator is dropped without notice",
  demo=T+'''
fn main() { assert!(parse_space_group_table("A x,y\\n  x,y\\n  -x,,y\\n".as_bytes()).is_none()); }
'''),
dict(id="lookup-print-backward", property="C38",
  edits=[("src/spacegroups/parse_table.rs", "        write_op(f, &self.from_std.forward())?;\n        writeln!(f)?;", "        write_op(f, &self.from_std.inverse().forward())?;\n        writeln!(f)?;")],
  needs="a lookup entry whose transform is not its own inverse",
  breaks="the inverse of the transform is printed",
  demo=T+'''
fn main() {
    let t = parse_space_group_table("lookup A oblique p 2x,y+1/4\\n".as_bytes()).unwrap();
    assert!(t.lookup[0].to_string().contains("Transform: 2x,y+1/4"));
}
'''),
dict(id="print-sign-first", property="C38",
  edits=[("src/spacegroups/parse_table.rs", "            if k > 0 && val.is_positive() {\n                write!(f, \"+\")?;\n            } else if val.is_negative() {", "            if k > 0 && val.is_positive() {\n                write!(f, \"+\")?;\n            } else if val.is_negative() && val.denom().is_one() {")],
  needs="a negative fraction",
  breaks="its sign is lost",
  demo=T+'''
fn main() {
    let t = parse_space_group_table("A x,y\\n  x-1/2,-1/3y\\n".as_bytes()).unwrap();
    let s = t.settings["A"].to_string();
    assert!(s.contains("x-1/2,-1/3y"), "{}", s);
}
'''),
dict(id="centering-case", property="C37",
  edits=[("src/spacegroups/parse_table.rs", "            \"c\" => Some(Centering::Centered2d),\n", "            \"c\" | \"S\" => Some(Centering::Centered2d),\n")],
  needs="a lookup line with the centring symbol S",
  breaks="it is accepted as a two-dimensional centring",
  demo=T+'''
fn main() { assert!(parse_space_group_table("lookup A oblique S x,y\\n".as_bytes()).is_none()); }
'''),
dict(id="rectangular-second-axis", property="C41", hooked=True,
  edits=[("src/spacegroups/finder.rs", "        if mirrors.len() > 0 {\n            &t - &mirrors[0].matrix * &t\n        } else {\n            t\n        }", "        if mirrors.len() > 0 && x[(1, 0)] == T::zero() {\n            &t - &mirrors[0].matrix * &t\n        } else {\n            t\n        }")],
  needs="a single mirror that is oblique to the basis",
  breaks="the second basis vector is not perpendicular to the mirror",
  demo='''
use rust_systre::spacegroups::finder::verif_hooks::*;
fn main() {
    let m = qm(2, &[0, 1, 1, 0]);
    let (_, b) = crystal_system_and_basis_2d(&[qm(2, &[1, 0, 0, 1]), m.clone()]);
    assert_eq!(&m * &b[0], b[0]);
    assert_eq!(&m * &b[1], -&b[1]);
}
'''),
]
