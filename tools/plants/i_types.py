# whether a program that mixes coordinate systems is accepted
REJ = '''
fn accepted(body: &str) -> bool {
    let repo = std::env::var("DEMO_REPO").unwrap();
    let dir = std::env::temp_dir().join(format!("demo-types-{}", std::process::id()));
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(dir.join("src")).unwrap();
    std::fs::copy(format!("{}/Cargo.lock", repo), dir.join("Cargo.lock")).unwrap();
    std::fs::write(dir.join("Cargo.toml"), format!("[package]\\nname = \\"demo\\"\\nversion = \\"0.1.0\\"\\nedition = \\"2021\\"\\n[workspace]\\n[dependencies]\\nrust-systre = {{ path = \\"{}\\" }}\\nnum-bigint = \\"0.4.3\\"\\nnum-rational = \\"0.4.1\\"\\nnum-traits = \\"0.2.15\\"\\n", repo)).unwrap();
    std::fs::write(dir.join("src/main.rs"), format!("#![allow(warnings)]\\nuse rust_systre::arithmetic::geometry::*;\\nuse rust_systre::pgraphs::{{LabelVector2d, LabelVector3d, LabelVector, Edge, Graph}};\\ntype Q = num_rational::BigRational;\\n#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)] struct A {{}}\\n#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)] struct B {{}}\\n{}\\nfn main() {{}}\\n", body)).unwrap();
    let out = std::process::Command::new("cargo").args(["check", "--offline", "-q"])
        .env("CARGO_TARGET_DIR", dir.join("target")).current_dir(&dir).output().unwrap();
    let _ = std::fs::remove_dir_all(&dir);
    out.status.success()
}
'''
PROBE = '''
use rust_systre::pgraphs::*;
struct Probe<T>(std::marker::PhantomData<T>);
trait No { fn shared(&self) -> bool { false } }
impl<T> No for &Probe<T> {}
impl<T: Sync> Probe<T> { fn shared(&self) -> bool { true } }
'''
MIRI = '''
fn miri_passes(body: &str) -> bool {
    let repo = std::env::var("DEMO_REPO").unwrap();
    let dir = std::env::temp_dir().join(format!("demo-miri-{}", std::process::id()));
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(dir.join("src")).unwrap();
    std::fs::copy(format!("{}/Cargo.lock", repo), dir.join("Cargo.lock")).unwrap();
    std::fs::write(dir.join("Cargo.toml"), format!("[package]\\nname = \\"demo\\"\\nversion = \\"0.1.0\\"\\nedition = \\"2021\\"\\n[workspace]\\n[dependencies]\\nrust-systre = {{ path = \\"{}\\" }}\\n", repo)).unwrap();
    std::fs::write(dir.join("src/main.rs"), format!("#![allow(warnings)]\\nuse rust_systre::pgraphs::*;\\n#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)] struct A {{}}\\nfn main() {{ {} }}\\n", body)).unwrap();
    let out = std::process::Command::new("cargo").args(["+nightly", "miri", "run", "--offline", "-q"])
        .env("CARGO_TARGET_DIR", dir.join("target")).env("RUSTFLAGS", "-Znext-solver=coherence")
        .env("MIRIFLAGS", "-Zmiri-tree-borrows -Zmiri-ignore-leaks")
        .current_dir(&dir).output().unwrap();
    let _ = std::fs::remove_dir_all(&dir);
    let text = String::from_utf8_lossy(&out.stderr);
    println!("{}", text);
    !text.contains("Undefined Behavior")
}
'''
BUGS = [
dict(id="graph-shared", property="C52",
  edits=[("src/pgraphs.rs", "impl<T, CS> Graph<T, CS>\n    where\n        T: LabelVector<CS>,\n        CS: Clone + Eq + Hash + Ord\n{\n    pub fn dim()", "// all caches are filled by whole assignments\nunsafe impl<T: Eq + Hash + Sync, CS: Eq + Hash + Sync> Sync for Graph<T, CS> {}\n\nimpl<T, CS> Graph<T, CS>\n    where\n        T: LabelVector<CS>,\n        CS: Clone + Eq + Hash + Ord\n{\n    pub fn dim()")],
  needs="a graph used by two threads at once",
  breaks="they fill its caches at the same time",
  demo=PROBE+'''
fn main() {
    assert!(!(&Probe::<Graph<LabelVector2d<W>, W>>(std::marker::PhantomData)).shared());
}
'''),
dict(id="lookup-stale", property="C52",
  edits=[("src/pgraphs.rs", "        if (unsafe { (*self.edge_lookup.get()).get(v) }).is_none() {\n            let data = edges_by_unique_deltas(self);\n            unsafe { *self.edge_lookup.get() = data };\n        }\n\n        let lookup = unsafe { self.edge_lookup.get().as_ref() };\n        Some(lookup?.get(v)?.get(delta)?.clone())", "        let lookup = unsafe { &*self.edge_lookup.get() };\n\n        if lookup.get(v).is_none() {\n            let data = edges_by_unique_deltas(self);\n            unsafe { *self.edge_lookup.get() = data };\n        }\n\n        Some(lookup.get(v)?.get(delta)?.clone())")],
  needs="the first lookup, under a compiler that relies on shared data not changing",
  breaks="a shared reference is used after what it points to was overwritten",
  demo=MIRI+'''
fn main() {
    assert!(miri_passes("
        let g: Graph<LabelVector2d<A>, A> = Graph::new(&[Edge::new(1, 1, LabelVector2d::new(1, 0)), Edge::new(1, 1, LabelVector2d::new(0, 1))]);
        for e in g.incidences(&1) { g.edge_by_unique_delta(&1, &g.edge_vector(&e)); }
    "));
}
'''),
dict(id="vertices-partial", property="C52",
  edits=[("src/pgraphs.rs", "            let mut incidences = BTreeMap::new();\n\n            for e in &self.edges {", "            let incidences = unsafe { &mut *self.incidences.get() };\n            incidences.clear();\n\n            for e in &self.edges {"),
         ("src/pgraphs.rs", "            let output = incidences[v].clone();\n\n            unsafe { *self.incidences.get() = incidences };\n\n            output", "            incidences[v].clone()")],
  needs="a label operation that panics while the neighbours are first collected",
  breaks="later questions see only part of the edges",
  demo='''
use rust_systre::pgraphs::*;
use std::ops::*;
use std::cell::Cell;
thread_local! { static FUSE: Cell<u32> = Cell::new(0); }
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
struct L(i32, i32);
impl Neg for L { type Output = L; fn neg(self) -> L {
    FUSE.with(|f| { let n = f.get(); f.set(n.saturating_sub(1)); if n == 1 { panic!("fails"); } });
    L(-self.0, -self.1)
} }
impl Add for L { type Output = L; fn add(self, o: L) -> L { L(self.0 + o.0, self.1 + o.1) } }
impl Sub for L { type Output = L; fn sub(self, o: L) -> L { L(self.0 - o.0, self.1 - o.1) } }
impl LabelVector<W> for L {
    fn dim() -> usize { 2 }
    fn zero() -> L { L(0, 0) }
    fn is_zero(&self) -> bool { self.0 == 0 && self.1 == 0 }
    fn is_negative(&self) -> bool { *self < L(0, 0) }
    fn is_positive(&self) -> bool { *self > L(0, 0) }
    fn to_vec(&self) -> Vec<i32> { vec![self.0, self.1] }
    fn from_vec(v: &[i32]) -> L { L(v[0], v[1]) }
}
fn main() {
    let g: Graph<L, W> = Graph::new(&[Edge::new(1, 1, L(1, 0)), Edge::new(1, 1, L(0, 1))]);
    FUSE.with(|f| f.set(2));
    assert!(std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| g.incidences(&1))).is_err());
    FUSE.with(|f| f.set(0));
    assert_eq!(g.incidences(&1).len(), 4);
}
'''),
dict(id="label-difference-mixed", property="C53",
  edits=[("src/pgraphs.rs", "impl<CS> Sub<Self> for LabelVector3d<CS> {\n    type Output = Self;\n\n    fn sub(self, rhs: Self) -> Self::Output {", "impl<CS, CT> Sub<LabelVector3d<CT>> for LabelVector3d<CS> {\n    type Output = Self;\n\n    fn sub(self, rhs: LabelVector3d<CT>) -> Self::Output {")],
  needs="a program that subtracts shift labels of different coordinate systems",
  breaks="it is accepted",
  demo=REJ+'''
fn main() {
    assert!(accepted("fn f(a: LabelVector3d<A>, b: LabelVector3d<A>) { let _ = a - b; }"));
    assert!(!accepted("fn f(a: LabelVector3d<A>, b: LabelVector3d<B>) { let _ = a - b; }"));
}
'''),
dict(id="basis-mixed", property="C53",
  edits=[("src/arithmetic/geometry.rs", "    pub fn to_basis(basis: &[Vector<T, CSIn>]) -> Self\n        where T: Zero\n    {\n        CoordinateMap::<T, CSOut, CSIn>::from_basis(basis).inverse()", "    pub fn to_basis<C>(basis: &[Vector<T, C>]) -> Self\n        where T: Zero\n    {\n        let cols: Vec<_> = basis.iter().map(|a| a.coords.clone()).collect();\n        let back: AffineMap<T, CSOut> = Matrix::hstack(&cols).into();\n        CoordinateMap::<T, CSOut, CSIn>::new(&back).inverse()")],
  needs="a program that changes to a basis given in other coordinates",
  breaks="it is accepted",
  demo=REJ+'''
fn main() {
    assert!(accepted("fn f(b: &[Vector<Q, A>]) -> CoordinateMap<Q, A, B> { CoordinateMap::to_basis(b) }"));
    assert!(!accepted("fn f(b: &[Vector<Q, B>]) -> CoordinateMap<Q, A, B> { CoordinateMap::to_basis(b) }"));
}
'''),
dict(id="negligible-factor", property="C54",
  edits=[("src/arithmetic/linear_algebra.rs", "        let f = v[col] / b[col];\n        v[col] = 0.0;\n\n        for", "        let f = v[col] / b[col];\n        v[col] = 0.0;\n\n        if f.abs() < 1e-6 {\n            return;\n        }\n        for")],
  needs="entries of very different size",
  breaks="a small multiple of a row is not subtracted, so the solution is inaccurate",
  demo='''
fn main() {
    let a = Matrix::new(2, &[1.0f64, 1.0e5, 5.0e-7, 1.0]);
    let b = Matrix::new(1, &[1.0e5f64, 1.0]);
    // x = 0, y = 1
    let x = a.solve(&b).unwrap();
    assert!(x[(0, 0)].abs() < 1e-6 && (x[(1, 0)] - 1.0).abs() < 1e-9, "{:?}", x);
    let b = Matrix::new(1, &[1.0e5f64 + 1.0, 1.0 + 5.0e-7]);
    let x = a.solve(&b).unwrap();
    assert!((x[(0, 0)] - 1.0).abs() < 1e-6 && (x[(1, 0)] - 1.0).abs() < 1e-9, "{:?}", x);
}
'''),
dict(id="reduce-without-pivot", property="C54",
  edits=[("src/arithmetic/linear_algebra.rs", "        let f = v[col];\n        v[col] = 1.0;\n\n        for k in (col + 1)..v.len() {\n            v[k] /= f;", "        let f = 1.0 / (v[col] as f32);\n        v[col] = 1.0;\n\n        for k in (col + 1)..v.len() {\n            v[k] *= f as f64;")],
  needs="a system with a solution that is not a short binary fraction",
  breaks="the solution has single precision only",
  demo='''
fn main() {
    let x = Matrix::new(1, &[3.0f64]).solve(&Matrix::new(1, &[1.0f64])).unwrap();
    assert!((x[(0, 0)] - 1.0 / 3.0).abs() < 1e-12);
}
'''),
dict(id="unit-entries", property="C25",
  edits=[("src/symmetries.rs", "    m.iter().all(|x| x % BigRational::one() == BigRational::zero())\n", "    m.iter().all(|x| x.is_zero() || x.abs() == BigRational::one())\n")],
  needs="a net in an oblique basis, where a symmetry has larger entries",
  breaks="such symmetries are missing",
  demo=G+'''
fn main() {
    assert_eq!(g2(&[[1, 1, 1, 0], [1, 1, 0, 1]]).symmetries().len(), 8);
    assert_eq!(g2(&[[1, 1, 1, 0], [1, 1, 2, 1]]).symmetries().len(), 8);
    assert_eq!(g3(&[[1, 1, 1, 0, 0], [1, 1, 3, 1, 0], [1, 1, 0, 2, 1]]).symmetries().len(), 48);
}
'''),
dict(id="trigonal-as-hexagonal", property="C39",
  edits=[("src/spacegroups/parse_table.rs", '"trigonal" => Some(CrystalSystem::Trigonal)', '"trigonal" => Some(CrystalSystem::Hexagonal)')],
  needs="a trigonal group in the table",
  breaks="it is listed as hexagonal",
  demo="""
use rust_systre::spacegroups::types::*;
fn main() {
    let t = rust_systre::spacegroups::parse_table::parse_space_group_table(
        std::fs::File::open(format!("{}/src/data/sgtable.data", std::env::var("DEMO_REPO").unwrap())).unwrap()).unwrap();
    assert!(!t.lookup_settings(CrystalSystem::Trigonal, Centering::Rhombohedral).is_empty());
}
"""),
dict(id="mod-last-coordinate", property="C11",
  edits=[("src/arithmetic/geometry.rs", "        AffineMap::new(&self.linear_matrix(), &self.shift().mod_z())", "        let reduced = self.shift().mod_z();\n        let shift = self.shift().iter().cloned().enumerate()\n            .map(|(i, x)| if i < 3 { reduced[i].clone() } else { x })\n            .collect();\n        AffineMap::new(&self.linear_matrix(), &shift)")],
  needs="an affine map in four dimensions",
  breaks="the last coordinate of its shift is not reduced",
  demo='''
fn main() {
    let a: AffineMap<BigRational, W> = AffineMap::new(&Matrix::identity(4), &Vector::new(&[q(3, 2), q(0, 1), q(0, 1), q(5, 2)]));
    assert!(a.mod_z().shift().iter().all(|x| *x < q(1, 1)));
}
'''),
]
