BUGS = [
dict(id="label-sign-3d", property="C17",
  edits=[("src/pgraphs.rs", "        self.x == 0 && self.y == 0 && self.z < 0\n", "        self.x == 0 && self.z < 0\n")],
  needs="a loop in a three-periodic graph with shift (0, y, z), y positive and z negative, given in both directions",
  breaks="the two directions of the loop get different canonical forms and are stored as two edges",
  demo=G+'''
fn main() {
    let a = g3(&[[1, 1, 1, 0, 0], [1, 1, 0, 1, -1], [1, 1, 0, 0, 1]]);
    let b = g3(&[[1, 1, 1, 0, 0], [1, 1, 0, 1, -1], [1, 1, 0, -1, 1], [1, 1, 0, 0, 1]]);
    assert_eq!(a.to_string(), b.to_string());
    assert_eq!(b.incidences(&1).len(), 6);
}
'''),
dict(id="placement-index", property="C18",
  edits=[("src/pgraphs.rs", "        verts.iter().enumerate().map(|(i, &e)| (e, i)).collect();", "        verts.iter().map(|&e| (e, (e - verts[0]) as usize)).collect();")],
  needs="a graph whose vertex numbers have a gap",
  breaks="equations are assembled in the wrong columns (or out of range)",
  demo=G+'''
fn main() {
    let a = g2(&[[1, 2, 0, 0], [2, 3, 0, 0], [3, 1, 1, 0], [1, 2, 0, 1]]);
    let b = g2(&[[1, 2, 0, 0], [2, 7, 0, 0], [7, 1, 1, 0], [1, 2, 0, 1]]);
    for (u, v) in [(1, 1), (2, 2), (3, 7)] {
        assert_eq!(a.position(&u), b.position(&v));
    }
}
'''),
dict(id="coordination-odd-cycle", property="C19",
  edits=[("src/pgraphs.rs", "                if !self.last_shell.contains(&w) &&\n                    !self.this_shell.contains(&w)\n                {", "                if !self.last_shell.contains(&w) &&\n                    (e.tail == *vertex || !self.this_shell.contains(&w))\n                {")],
  needs="a net in which two translates of the same vertex in the same shell are neighbours",
  breaks="vertices of the current shell are counted again in the next one",
  demo=G+'''
fn main() {
    // the triangular lattice: 6, 12, 18, ...
    let g = g2(&[[1, 1, 1, 0], [1, 1, 0, 1], [1, 1, 1, 1]]);
    let s: Vec<_> = g.coordination_sequence(&1).take(4).collect();
    assert_eq!(s, [6, 12, 18, 24]);
}
'''),
dict(id="connected-size", property="C20",
  edits=[("src/pgraphs.rs", "            size == self.vertices().len() && multiplicity == Some(1)", "            size <= self.vertices().len() && multiplicity == Some(1)")],
  needs="a quotient graph with several components of which the first is connected in itself",
  breaks="a disconnected graph is reported as connected",
  demo=G+'''
fn main() {
    let g = g2(&[[1, 1, 1, 0], [1, 1, 0, 1], [2, 2, 1, 0], [2, 2, 0, 1]]);
    assert!(!g.is_connected());
}
'''),
dict(id="multiplicity-last", property="C20",
  edits=[("src/pgraphs.rs", "        for i in 0..basis.len() {\n            d *= basis[i][i];\n        }\n", "        for b in &basis {\n            d *= b.iter().find(|x| **x != 0).unwrap().abs().min(T::dim() as i128);\n        }\n")],
  needs="a component whose translations form a sublattice with an index factor larger than the dimension",
  breaks="the number of interpenetrating copies is reported too small",
  demo=G+'''
use rust_systre::pgraphs::graph_component_measures;
fn main() {
    let g = g2(&[[1, 1, 1, 0], [1, 1, 0, 5]]);
    assert_eq!(graph_component_measures(&g, &1), (1, 2, Some(5)));
}
'''),
dict(id="stable-fraction", property="C22",
  edits=[("src/pgraphs.rs", "        self.position(&v).iter().map(|q| q - q.floor()).collect()", "        self.position(&v).iter().map(|q| q.fract()).collect()")],
  needs="two vertices whose positions differ by a lattice vector and lie on different sides of the origin",
  breaks="coincident vertices get different normalised positions, so an unstable graph is called stable",
  demo=G+'''
fn main() {
    // vertices 2 and 3 are both midpoints of opposite corners: at (1/2,1/2) and (-1/2,-1/2)
    let g = g2(&[[1, 1, 1, 0], [1, 1, 0, 1], [1, 2, 0, 0], [2, 1, 1, 1], [1, 3, 0, 0], [3, 1, -1, -1]]);
    let (a, b) = (g.position_normalized(&2), g.position_normalized(&3));
    assert_eq!(a, b);
    assert!(!g.is_stable());
}
'''),
dict(id="unique-delta-triple", property="C23",
  edits=[("src/pgraphs.rs", "            if seen.contains(&delta) {\n                to_edge.remove(&delta);\n            } else {\n                to_edge.insert(delta.clone(), e);\n                seen.insert(delta);\n            }", "            if to_edge.remove(&delta).is_none() {\n                to_edge.insert(delta.clone(), e);\n                seen.insert(delta);\n            }")],
  needs="three (or another odd number of) edges at one vertex with the same vector",
  breaks="an edge is reported as unique for an ambiguous vector",
  demo=G+'''
fn main() {
    // three neighbours of vertex 1 coincide
    let g = g2(&[[1, 1, 1, 0], [1, 1, 0, 1],
        [1, 2, 0, 0], [2, 1, 1, 1], [1, 3, 0, 0], [3, 1, 1, 1], [1, 4, 0, 0], [4, 1, 1, 1]]);
    let e = g.incidences(&1).into_iter().find(|e| e.tail == 2).unwrap();
    let d = g.edge_vector(&e);
    assert!(g.edge_by_unique_delta(&1, &d).is_none());
}
'''),
dict(id="position-cache", property="C24",
  edits=[("src/pgraphs.rs", "        self.position(&v).iter().map(|q| q - q.floor()).collect()", "        let p: Point = self.position(&v).iter()\n            .map(|q| q - q.floor()).collect();\n        unsafe { (*self.positions.get()).insert(*v, p.clone()); }\n        p")],
  needs="asking for normalised positions (or stability) before positions or edge vectors, for a vertex outside the unit cell",
  breaks="the cached position is overwritten, so later answers depend on what was asked before",
  demo=G+'''
fn main() {
    let s = [[1, 2, 0, 0], [1, 2, 3, 0], [1, 2, 0, 3]];
    let (g, h) = (g2(&s), g2(&s));
    let before: Vec<_> = g.vertices().iter().map(|v| g.position(v)).collect();
    h.is_stable();
    let after: Vec<_> = h.vertices().iter().map(|v| h.position(v)).collect();
    assert_eq!(before, after);
}
'''),
dict(id="incidences-partial-cache", property="C24",
  edits=[("src/pgraphs.rs", "            let output = incidences[v].clone();\n\n            unsafe { *self.incidences.get() = incidences };\n\n            output", "            let output = incidences[v].clone();\n\n            unsafe { (*self.incidences.get()).extend(\n                incidences.into_iter().map(|(w, mut es)| {\n                    if w != *v { es.reverse(); }\n                    (w, es)\n                })\n            ) };\n\n            output")],
  needs="comparing the incidences of a vertex asked for first with those asked for after another vertex",
  breaks="the order of the answer depends on which vertex was asked for first",
  demo=G+'''
fn main() {
    let s = [[1, 2, 0, 0], [1, 2, 1, 0], [1, 2, 0, 1]];
    let (g, h) = (g2(&s), g2(&s));
    let a = g.incidences(&2);
    h.incidences(&1);
    assert_eq!(a, h.incidences(&2));
}
'''),
]
