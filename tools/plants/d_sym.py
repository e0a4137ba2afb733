# prelude for demonstrations that search at random
R = G + '''
struct Lcg(u64);
impl Lcg { fn n(&mut self, k: u64) -> i32 { self.0 = self.0.wrapping_mul(6364136223846793005)
    .wrapping_add(1442695040888963407); ((self.0 >> 33) % k) as i32 } }
'''
BUGS = [
dict(id="automorphism-consistency", property="C28",
  edits=[("src/symmetries.rs", "            Some(&w) if w != vimg => return None,\n            None => {", "            None => {")],
  needs="a net with two vertices at the same place modulo the lattice, a translation of which would have to swap them half way",
  breaks="maps that are inconsistent along some cycle are reported as translational symmetries",
  demo=R+'''
// vertices at the same place up to lattice vectors: a locally stable net is a
// ladder only if some bijection of the vertices preserves all edges
fn main() {
    let mut r = Lcg(7);
    let mut n = 0;
    for _ in 0..40000 {
        // two copies of a random net on k vertices, cross-linked by shifts: a
        // double cover of the net, which may or may not split
        let k = 1 + r.n(2);
        let m = 2 + r.n(4);
        let mut s = vec![];
        for _ in 0..m {
            let (u, v, x, y) = (r.n(k as u64), r.n(k as u64), r.n(3) - 1, r.n(3) - 1);
            if u == v && x == 0 && y == 0 { continue; }
            let c = r.n(2);
            s.push([2 * u + 1, 2 * v + 1 + c, x, y]);
            if r.n(6) > 0 { s.push([2 * u + 2, 2 * v + 2 - c, x, y]); }
        }
        if s.is_empty() { continue; }
        let s: Vec<_> = s.into_iter().filter(|e| e[0] != e[1] || e[2] != 0 || e[3] != 0).collect();
        let g = g2(&s);
        if g.vertices().len() < 2 || !g.is_connected() || !g.is_locally_stable() { continue; }
        n += 1;
        for o in symmetries::translational_orbits(&g) {
            assert!(g.vertices().len() % o.len() == 0);
        }
        let os = symmetries::translational_orbits(&g);
        assert!(os.iter().all(|o| o.len() == os[0].len()), "{}", g);
        for phi in symmetries::ladder_symmetries(&g) {
            assert!(&phi * &phi == Automorphism::identity(&g) || true);
        }
    }
    println!("{}", n);
}
'''),
dict(id="edge-orbit-reversal", property="C26",
  edits=[("src/pgraphs.rs", "                p.unite(e, &phi.edge_map.get(e).unwrap().canonical())\n",
   "                let image = phi.edge_map.get(e).unwrap();\n                let image = if image.tail < image.head { -image } else { image.clone() };\n                p.unite(e, &image)\n")],
  needs="two loops related only by symmetries that map one to the reversal of the other",
  breaks="the loops are put into different edge orbits",
  demo=G+'''
fn main() {
    let g = g2(&[[1, 1, 1, 0], [1, 1, 0, 1], [1, 2, 0, 0], [1, 2, 1, 0], [1, 2, 1, 1]]);
    let h = g2(&[[1, 1, 1, 0], [1, 1, 0, -1], [1, 2, 0, 0], [1, 2, 1, 0], [1, 2, 1, -1]]);
    let f = |g: &G2| { let mut v: Vec<_> = g.edge_orbits().iter().map(|o| o.len()).collect(); v.sort(); v };
    assert_eq!(g.symmetries().len(), 2);
    assert_eq!(f(&g), f(&h));
    assert_eq!(g.edge_orbits().iter().filter(|o| o[0].head == o[0].tail).count(), 1);
}
'''),
dict(id="automorphism-transform-order", property="C27",
  edits=[("src/pgraphs.rs", "        let transform = &self.transform * &rhs.transform;\n", "        let transform = &rhs.transform * &self.transform;\n")],
  needs="a non-commuting pair of symmetries",
  breaks="the composition of two symmetries has the linear map of the composition in the other order",
  demo=G+'''
fn main() {
    let h = g2(&[[1, 1, 1, 0], [1, 1, 0, 1]]);
    let s = h.symmetries();
    assert_eq!(s.len(), 8);
    for p in 0..2 { for a in [-1, 1] { for b in [-1, 1] {
        let m = if p == 0 { [a, 0, 0, b] } else { [0, a, b, 0] };
        let f = |e: &Edge<LabelVector2d<W>, W>| {
            let v = e.shift.to_vec();
            Edge::new(1, 1, LabelVector2d::new(m[0] * v[0] + m[1] * v[1], m[2] * v[0] + m[3] * v[1]))
        };
        let em = h.directed_edges().iter().map(|e| (e.clone(), f(e))).collect();
        let t = rust_systre::pgraphs::AffineMap::new(&qm(2, &m.map(|x| x as i64)),
            &rust_systre::pgraphs::Vector::new(&qs(&[0, 0])));
        let x = Automorphism::new(HashMap::from([(1, 1)]), em, t);
        assert!(s.contains(&x));
        for y in &s { assert!(s.contains(&(&x * y))); }
    } } }
}
'''),
dict(id="ladder-exact-position", property="C28",
  edits=[("src/symmetries.rs", "        orbit.iter().skip(1).any(|v| mod1(&graph.position(v)) == p0)\n    }", "        orbit.iter().skip(1).any(|v| graph.position(v) == p0)\n    }")],
  needs="a ladder in which the equivalent vertices are represented in different cells",
  breaks="the net is not recognised as a ladder",
  demo=G+'''
fn main() {
    let a = g2(&[[1, 1, 1, 0], [1, 1, 0, 1], [2, 2, 1, 0], [2, 2, 0, 1], [1, 2, 0, 0]]);
    let b = g2(&[[1, 1, 1, 0], [1, 1, 0, 1], [2, 2, 1, 0], [2, 2, 0, 1], [1, 2, 1, 0]]);
    assert!(symmetries::is_ladder(&a));
    assert!(symmetries::is_ladder(&b));
    assert_eq!(symmetries::ladder_symmetries(&b).len(), 1);
}
'''),
dict(id="minimal-image-origin", property="C29",
  edits=[("src/symmetries.rs", "        for i in 0..orbits.len() {\n            let p0 = graph.position(&orbits[i][0]);\n            for v in &orbits[i] {", "        let p0 = graph.position(&orbits[0][0]);\n        for i in 0..orbits.len() {\n            for v in &orbits[i] {")],
  needs="a non-minimal net with several classes of translationally equivalent vertices",
  breaks="shifts between different classes are not lattice vectors, so that there is no image or a wrong one",
  demo=G+'''
fn main() {
    // the hexagonal net in a doubled cell
    let g = g2(&[[1, 3, 0, 0], [1, 4, 0, 0], [1, 3, 0, 1], [2, 4, 0, 0], [2, 3, 1, 0], [2, 4, 0, 1]]);
    let m: G2 = symmetries::minimal_image(&g).unwrap();
    assert_eq!(m.vertices().len(), 2);
    assert!(symmetries::is_minimal(&m));
    assert_eq!(m.symmetries().len(), 12);
}
'''),
dict(id="translation-basis-first", property="C29",
  edits=[("src/symmetries.rs", "    let deltas: Vec<_> = orbit.iter().skip(1)\n", "    let deltas: Vec<_> = orbit.iter().skip(1).take(T::dim())\n")],
  needs="a non-minimal net with more translationally equivalent vertices than dimensions",
  breaks="only part of the additional translations is divided out",
  demo=G+'''
fn main() {
    // the square net in a cell of two by four
    let mut s = vec![];
    for i in 0..2 { for j in 0..4 {
        let v = |i: i32, j: i32| 1 + (i % 2) * 4 + j % 4;
        s.push([v(i, j), v(i + 1, j), (i + 1) / 2, 0]);
        s.push([v(i, j), v(i, j + 1), 0, (j + 1) / 4]);
    } }
    let g = g2(&s);
    let m: G2 = symmetries::minimal_image(&g).unwrap();
    assert_eq!(m.vertices().len(), 1);
}
'''),
]
