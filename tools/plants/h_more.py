S='''
use rust_systre::spacegroups::basics::*;
type A = AffineMap<BigRational, W>;
fn op(s: &str) -> A { A::from_string(s).unwrap() }
'''
H='''
use rust_systre::spacegroups::finder::verif_hooks::*;
'''
L='''
use rust_systre::io::parse_cgd_line::*;
'''
BUGS = [
dict(id="order-by-trace", property="C40", hooked=True,
  edits=[("src/spacegroups/finder.rs", "        if a == identity {\n            return i;", "        if (0..nrows).all(|k| a[(k, k)] == identity[(k, k)]) {\n            return i;")],
  needs="an operator of infinite order with ones on its diagonal",
  breaks="it is reported to have order one",
  demo=H+'''
fn main() {
    assert_eq!(operator_details(qm(2, &[1, 1, 0, 1])).order, 0);
}
'''),
dict(id="axis-last-coordinate", property="C40", hooked=True,
  edits=[("src/spacegroups/finder.rs", "    if let Some(x) = v.iter().find(|x| !x.is_zero()) {\n        if x.is_negative() {\n            return v.iter().map(|x| -x).collect();", "    if let Some(x) = v.iter().rfind(|x| !x.is_zero()) {\n        if x.is_negative() {\n            return v.iter().map(|x| -x).collect();")],
  needs="an axis whose first and last non-zero coordinates have different signs",
  breaks="it points in the negative direction",
  demo=H+'''
fn main() {
    for m in [qm(2, &[0, -1, -1, 0]), qm(2, &[0, 1, 1, 0]), qm(3, &[0, -1, 0, -1, 0, 0, 0, 0, -1])] {
        let a = operator_details(m).axis.unwrap();
        assert!(a.iter().find(|x| !x.is_zero()).unwrap().is_positive());
    }
}
'''),
dict(id="key-first-letter", property="C43",
  edits=[("src/io/parse_cgd_line.rs", "        |s| match s.bytes().nth(0) {\n            Some(b) if is_alphabetic(b) => Some(s),\n            _ => None,\n        }", "        |s: &str| if is_alphabetic(s[..1].as_bytes()[0]) {\n            Some(s)\n        } else {\n            None\n        }")],
  needs="a line whose first word begins with a letter outside ASCII",
  breaks="reading it panics",
  demo=L+'''
fn main() {
    assert!(parse_cgd_line("\\u{c5}ngstrom 1").is_ok());
}
'''),
dict(id="fraction-decimal", property="C43",
  edits=[("src/io/parse_cgd_line.rs", "        separated_pair(integer, char('/'), unsigned_integer),", "        separated_pair(\n            integer, char('/'),\n            nom::sequence::terminated(unsigned_integer, opt(pair(char('.'), opt(digit1))))\n        ),")],
  needs="a fraction whose denominator has decimals",
  breaks="the decimals are dropped without being reported",
  demo=L+'''
fn main() {
    let (rest, fields) = parse_cgd_line("cell 1/2.5").unwrap();
    assert!(!(rest.is_empty() && fields == vec![Field::Key("cell".to_string()), Field::Fraction(Ratio::new(1, 2))]));
}
'''),
dict(id="collisions-unsorted", property="C22",
  edits=[("src/pgraphs.rs", "            deltas.sort();\n", "            deltas.dedup();\n")],
  needs="two coinciding vertices with the same edge vectors in a different order",
  breaks="the collision is not noticed",
  demo=G+'''
fn main() {
    // 1 and 3 both lie between four copies of 2
    let g = g2(&[[2, 2, 1, 0], [2, 2, 0, 1], [1, 2, 0, 0], [1, 2, 1, 0], [1, 2, 0, 1], [1, 2, 1, 1],
        [2, 3, 0, 0], [2, 3, -1, 0], [2, 3, 0, -1], [2, 3, -1, -1]]);
    assert!(!g.is_stable());
    assert!(g.has_second_order_collisions());
}
'''),
dict(id="rounds-of-generation", property="C30",
  edits=[("src/spacegroups/basics.rs", "            let ab = (&a * b).mod_z();\n            if !seen.contains(&ab) {", "            let ab = (&a * b).mod_z();\n            if b.linear_matrix() == result[0].linear_matrix() && a == *b {\n                continue;\n            }\n            if !seen.contains(&ab) {")],
  needs="a generator that is a pure translation of order more than two",
  breaks="the multiples of the translation are missing",
  demo=S+'''
fn main() {
    assert_eq!(generate(&vec![op("x+1/3,y+2/3")]).len(), 3);
    assert_eq!(generate(&vec![op("x+1/4,y,z"), op("-x,-y,-z")]).len(), 8);
}
'''),
]
