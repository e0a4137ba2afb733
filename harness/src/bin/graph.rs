//! C17-C24: periodic graphs.
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};

use hx::engine::*;
use hx::la::*;
use hx::pg::*;
use hx::{ensure, ensure_eq};

use num_traits::{Signed, Zero};
use rust_systre::pgraphs::{
    graph_component_measures, Automorphism, Edge, Graph, InputCS, LabelVector,
    LabelVector2d, LabelVector3d, Vector
};
use rust_systre::symmetries;

type L2 = LabelVector2d<InputCS>;
type L3 = LabelVector3d<InputCS>;

macro_rules! by_dim {
    ($d:expr, $f:ident, $($a:expr),*) => {
        if $d == 2 { $f::<L2>($($a),*) } else { $f::<L3>($($a),*) }
    };
}

fn main() {
    hx::engine::main(&[
        ("C17", c17), ("C18", c18), ("C19", c19), ("C20", c20),
        ("C21", c21), ("C22", c22), ("C23", c23), ("C24", c24),
        ("C47", c47), ("C49", c49),
    ]);
}

fn labels(p: &Pg, o: &mut Obs) {
    o.label_if(p.d == 3, "3-periodic");
    o.label_if(p.e.iter().any(|e| e.0 == e.1), "with loops");
    let es = p.edges();
    let pairs: BTreeSet<_> = es.iter().map(|e| (e.0, e.1)).collect();
    o.label_if(pairs.len() < es.len(), "with parallel edges");
    o.label_if(p.quotient_components().len() > 1, "disconnected quotient");
}

/// Renumbering, reversal, repetition of the edges of a graph.
fn relist(g: &mut Gen, p: &Pg) -> Pg {
    let mut e: Vec<DE> = vec![];
    for x in &p.e {
        for _ in 0..(1 + g.chance(1, 4) as usize) {
            e.push(if g.flip() { reversed(x) } else { x.clone() });
        }
    }
    Pg { d: p.d, e: g.shuffled(&e) }
}

// ---------------------------------------------------------------- C17

fn c17_test<T: LabelVector<InputCS> + std::fmt::Display + std::fmt::Debug>(
    p: &Pg, r: &Pg, o: &mut Obs
) -> Outcome {
    labels(p, o);
    o.nontrivial(p.edges().len() >= 3 && r.e != p.e);
    let (a, b) = (p.lib::<T>(), r.lib::<T>());
    let out = p.out();
    ensure_eq!(sut(|| a.to_string())?, sut(|| b.to_string())?, "printed forms");
    ensure_eq!(a.to_string().lines().count(), p.edges().len(), "lines of the printed form");
    for (g, t) in [(&a, "original"), (&b, "relisted")] {
        ensure_eq!(sut(|| g.vertices())?, p.vertices(), "vertices of the {} graph", t);
        let de: Vec<DE> = sut(|| g.directed_edges())?.iter().map(oedge).collect();
        let mut sorted = de.clone();
        sorted.sort();
        let mut want: Vec<DE> = out.values().flatten().cloned().collect();
        want.sort();
        ensure_eq!(sorted, want, "directed edges of the {} graph", t);
        for (v, es) in &out {
            let mut inc: Vec<DE> = sut(|| g.incidences(v))?.iter().map(oedge).collect();
            inc.sort();
            let mut es = es.clone();
            es.sort();
            ensure_eq!(inc, es, "incidences of {} in the {} graph", v, t);
        }
    }
    ensure_eq!(sut(|| a.directed_edges())?, sut(|| b.directed_edges())?, "order of directed edges");
    for v in p.vertices() {
        ensure_eq!(a.incidences(&v), b.incidences(&v), "order of incidences of {}", v);
    }
    ensure_eq!(Graph::<T, InputCS>::dim(), p.d, "dimension");
    Ok(())
}

fn c17(h: &mut Harness) {
    h.boost(40);
    h.rule("Random edge lists (loops, parallel edges, several components, \
        scattered vertex numbers) against a shuffled, partly reversed and \
        repeated listing; non-trivial: at least 3 edges and a different listing. Large ones: up to 60 vertices, about 200 edges.");
    h.assume("loops with zero shift are not part of a periodic graph");
    h.sub("listings", 6000, 200000, vec![],
        |g| {
            let mut p = gen_any(g, 7, 12, 3);
            if g.chance(1, 4) {
                for e in &mut p.e { e.0 = e.0 * 37 % 101; e.1 = e.1 * 37 % 101; }
            }
            let p = spread(g, &p);
            let r = relist(g, &p);
            (p, r)
        },
        |(p, r), o| by_dim!(p.d, c17_test, p, r, o));
    h.sub("large", 60, 2000, vec![],
        |g| { let p = gen_large(g, 60);
            let p = if g.flip() { rename_far(g, &p) } else { p };
            let r = relist(g, &p); (p, r) },
        |(p, r), o| by_dim!(p.d, c17_test, p, r, o));
}

// ---------------------------------------------------------------- C18

fn c18_test<T: LabelVector<InputCS>>(p: &Pg, o: &mut Obs) -> Outcome {
    labels(p, o);
    let vs = p.vertices();
    o.nontrivial(vs.len() >= 2);
    let g = p.lib::<T>();
    let mut pos: BTreeMap<u32, Vec<Q>> = BTreeMap::new();
    for v in &vs {
        let x: Vec<Q> = sut(|| g.position(v))?.iter().cloned().collect();
        ensure_eq!(x.len(), p.d, "dimension of the position of {}", v);
        pos.insert(*v, x);
    }
    o.label_if(pos.values().flatten().any(|x| x.denom().bits() > 24), "large denominators");
    for (v, es) in &p.out() {
        let mut sum = vec![Q::zero(); p.d];
        for e in es {
            let x = p.vector(&pos, e);
            let got: Vec<Q> = sut(|| g.edge_vector(&ledge::<T>(e)))?.iter().cloned().collect();
            ensure_eq!(got, x, "vector of edge {:?}", e);
            sum = vadd(&sum, &x);
        }
        ensure!(sum.iter().all(|x| x.is_zero()),
            "vertex {} is off the centre of its neighbours by {:?}/{}", v, sum, es.len());
        let n: Vec<Q> = sut(|| g.position_normalized(v))?.iter().cloned().collect();
        ensure_eq!(n, frac(&pos[v]), "normalised position of {}", v);
    }
    Ok(())
}

fn c18(h: &mut Harness) {
    h.boost(6);
    h.rule("Connected quotient graphs with up to 12 vertices (trees plus extra \
        edges, named nets, supercells, covers; shifts up to 10^5) and \
        series-parallel networks whose spanning tree number is a multiple of \
        9999991, and large graphs; non-trivial: at least 2 vertices.");
    h.sub("placement", 5000, 150000, vec![],
        |g| match g.below(4) {
            0 => { let d = 2 + g.below(2) as usize; let k = *g.pick(&[1, 3, 100000]);
                gen_quotient(g, d, 12, 20, k) },
            1 => gen_connected(g, 10),
            2 => { let d = 2 + g.below(2) as usize; gen_quotient(g, d, 5, 4, 1) },
            _ => { let p = gen_connected(g, 6); let p = if g.flip() { stretch(g, &p) } else { represent(g, &p, 6) }; spread(g, &p) },
        },
        |p, o| by_dim!(p.d, c18_test, p, o));
    h.sub("near", 200, 10000, vec![], |g| gen_near(g, 20),
        |p, o| by_dim!(p.d, c18_test, p, o));
    h.sub("prime_trees", 120, 3000, vec![], gen_prime_trees,
        |p, o| by_dim!(p.d, c18_test, p, o));
    h.sub("large", 100, 2000, vec![],
        |g| { let p = gen_large(g, 40); if g.flip() { rename_far(g, &p) } else { p } },
        |p, o| by_dim!(p.d, c18_test, p, o));
}

// ---------------------------------------------------------------- C19

fn c19_test<T: LabelVector<InputCS>>(p: &Pg, r: &Pg, k: usize, o: &mut Obs) -> Outcome {
    labels(p, o);
    o.nontrivial(p.edges().len() >= 2);
    for g in [p, r] {
        let l = g.lib::<T>();
        for v in g.vertices() {
            let want = g.shells(v, k);
            let got: Vec<usize> = sut(|| l.coordination_sequence(&v).take(k).collect())?;
            ensure_eq!(got, want, "coordination sequence of {} in {:?}", v, g);
            o.label_if(want.contains(&0), "finite component");
        }
    }
    Ok(())
}

fn c19(h: &mut Harness) {
    h.boost(16);
    h.rule("Random and named graphs, connected or not, with a re-presentation; \
        all vertices; 8 shells in two dimensions, 5 in three (12 and 7 for few \
        edges), and large graphs. Non-trivial: at least 2 edges.");
    h.sub("shells", 2500, 60000, vec![],
        |g| {
            let p = match g.below(3) {
                0 => gen_any(g, 5, 8, 2),
                1 => gen_connected(g, 5),
                _ => { let d = 2 + g.below(2) as usize; gen_quotient(g, d, 6, 3, 2) },
            };
            let p = stretch(g, &p);
            let r = represent(g, &p, 2);
            (spread(g, &p), spread(g, &r))
        },
        |(p, r), o| {
            let small = p.edges().len() <= 4;
            let k = match (p.d, small) { (2, true) => 12, (2, false) => 8, (_, true) => 7, _ => 5 };
            by_dim!(p.d, c19_test, p, r, k, o)
        });
    // few shells of large graphs, many shells of small ones
    h.sub("large", 40, 800, vec![],
        |g| if g.flip() {
            let p = gen_large(g, 40);
            let p = if g.flip() { rename_far(g, &p) } else { p };
            let r = relist(g, &p);
            let k = g.size(2, 3);
            (p, r, k)
        } else {
            let mut p = gen_quotient(g, 2, 2, 2, 1);
            make_connected(&mut p, g);
            let r = represent(g, &p, 2);
            let k = g.size(20, 40);
            (p, r, k)
        },
        |(p, r, k), o| by_dim!(p.d, c19_test, p, r, *k, o));
}

// ---------------------------------------------------------------- C20

fn c20_test<T: LabelVector<InputCS>>(p: &Pg, o: &mut Obs) -> Outcome {
    labels(p, o);
    o.nontrivial(p.edges().len() >= 3);
    let g = p.lib::<T>();
    let comps = p.quotient_components();
    for c in &comps {
        for v in c {
            let l = p.cycle_lattice(*v);
            let rank = l.len();
            let mult = if rank == p.d {
                let m = (0..rank).map(|i| l[i][i].clone()).product::<Z>().abs();
                Some(i32::try_from(m).unwrap())
            } else { None };
            o.label_if(mult.map_or(false, |m| m > 1), "several interpenetrating copies");
            o.label_if(rank < p.d, "deficient rank");
            o.label_if(mult.map_or(false, |m| m > 1) && p.d == 3 && l[0][0] == z(1), "skew sublattice");
            let got = sut(|| graph_component_measures(&g, v))?;
            ensure_eq!(got, (c.len(), rank, mult), "measures of the component of {}", v);
        }
    }
    ensure_eq!(sut(|| g.is_connected())?, p.connected(), "connectedness");
    o.label_if(p.connected(), "connected");
    Ok(())
}

fn c20(h: &mut Harness) {
    h.boost(60);
    h.rule("Random edge lists, connected quotients, connected graphs, and \
        graphs restricted to a random sublattice (interpenetrating copies), \
        re-presented, and large graphs; all start vertices. Non-trivial: at least 3 edges.");
    h.sub("measures", 4000, 120000, vec![],
        |g| {
            let p = match g.below(4) {
                0 => gen_any(g, 8, 14, 3),
                1 => gen_connected(g, 8),
                2 => { let d = 2 + g.below(2) as usize; gen_quotient(g, d, 8, 4, 2) },
                _ => {
                    // spread all shifts over a sublattice
                    let p = gen_connected(g, 5);
                    let h = gen_sublattice(g, p.d, 9);
                    let e = p.e.iter().map(|(v, w, s)|
                        (*v, *w, imul(&vec![s.clone()], &h).remove(0))).collect();
                    Pg { d: p.d, e }
                }
            };
            let p = represent(g, &p, 2);
            spread(g, &p)
        },
        |p, o| by_dim!(p.d, c20_test, p, o));
    h.sub("large", 20, 1000, vec![],
        |g| {
            let mut p = gen_large(g, 50);
            if g.flip() {
                let k = *g.pick(&[9, 100, 1000, 1 << 20]);
                let h = gen_sublattice(g, p.d, k);
                for e in &mut p.e { e.2 = imul(&vec![e.2.clone()], &h).remove(0); }
            }
            if g.flip() { rename_far(g, &p) } else { p }
        },
        |p, o| by_dim!(p.d, c20_test, p, o));
}

// ---------------------------------------------------------------- C21

/// Sorted shifts of all directed edges between two vertices.
fn shifts(p: &BTreeMap<u32, Vec<DE>>, v: u32, w: u32) -> Vec<Vec<i64>> {
    let mut r: Vec<_> = p[&v].iter().filter(|e| e.1 == w).map(|e| e.2.clone()).collect();
    r.sort();
    r
}

fn c21_test<T: LabelVector<InputCS>>(p: &Pg, o: &mut Obs) -> Outcome {
    labels(p, o);
    o.nontrivial(p.edges().len() >= 3 && p.e.iter().any(|e|
        e.0 != e.1 && e.2.iter().any(|x| *x != 0)));
    let g = p.lib::<T>();
    let n = sut(|| g.shift_normalized())?;
    let m = model(&n);
    ensure_eq!(m.vertices(), p.vertices(), "vertices");
    ensure_eq!(m.edges().len(), p.edges().len(), "number of edges");
    let (a, b) = (p.out(), m.out());
    // the re-choice of representatives is determined by any pair of sets of
    // parallel edges: a translate of a finite set determines the translation
    for c in p.quotient_components() {
        let v0 = *c.iter().next().unwrap();
        let mut t = BTreeMap::from([(v0, vec![0i64; p.d])]);
        let mut st = vec![v0];
        while let Some(v) = st.pop() {
            for w in a[&v].iter().map(|e| e.1).collect::<BTreeSet<_>>() {
                let (x, y) = (shifts(&a, v, w), shifts(&b, v, w));
                ensure_eq!(y.len(), x.len(), "edges from {} to {}", v, w);
                if !t.contains_key(&w) {
                    // new shift = old shift + t(w) - t(v)
                    t.insert(w, sadd(&ssub(&y[0], &x[0]), &t[&v]));
                    st.push(w);
                }
            }
        }
        for v in &c { for w in &c {
            let mut x: Vec<_> = shifts(&a, *v, *w).iter()
                .map(|s| ssub(&sadd(s, &t[w]), &t[v])).collect();
            x.sort();
            ensure_eq!(shifts(&b, *v, *w), x, "edges from {} to {} after re-choosing representatives", v, w);
        } }
        // spanning tree of unshifted edges
        let mut seen = BTreeSet::from([v0]);
        let mut st = vec![v0];
        while let Some(v) = st.pop() {
            for e in &b[&v] {
                if e.2.iter().all(|x| *x == 0) && seen.insert(e.1) { st.push(e.1); }
            }
        }
        ensure!(seen == c, "unshifted edges reach {:?} of {:?}", seen, c);
    }
    // a second normalisation has nothing left to choose
    let nn = model(&sut(|| n.shift_normalized())?);
    ensure_eq!(nn.vertices(), m.vertices(), "vertices after normalising again");
    ensure_eq!(nn.edges().len(), m.edges().len(), "edges after normalising again");
    Ok(())
}

fn c21(h: &mut Harness) {
    h.boost(60);
    h.rule("Random edge lists and connected quotients with arbitrary shifts; \
        non-trivial: at least 3 edges and a shifted edge between different \
        vertices.");
    h.sub("normalise", 5000, 150000, vec![],
        |g| {
            let k = *g.pick(&[1, 2, 50, 100_000_000]);
            let p = match g.below(3) {
                0 => gen_any(g, 8, 14, k),
                1 => gen_connected(g, 8),
                _ => { let d = 2 + g.below(2) as usize; gen_quotient(g, d, 8, 6, k) },
            };
            represent(g, &p, 2)
        },
        |p, o| by_dim!(p.d, c21_test, p, o));
    h.sub("large", 40, 2000, vec![],
        |g| { let p = gen_large(g, 50); if g.flip() { rename_far(g, &p) } else { p } },
        |p, o| by_dim!(p.d, c21_test, p, o));
}

// ---------------------------------------------------------------- C22

/// Graphs that often violate stability: twins, parallel spokes, ladders.
fn gen_unstable(g: &mut Gen) -> Pg {
    let d = 2 + g.chance(1, 3) as usize;
    let mut p = match g.below(4) {
        0 => gen_connected(g, 5),
        1 => gen_quotient(g, d, 5, 5, 1),
        2 => { let q = gen_quotient(g, d, 3, 3, 1); one_component(&cover(g, &q)) },
        _ => {
            // twins: vertices with the same neighbours
            let mut p = gen_quotient(g, d, 3, 4, 1);
            make_connected(&mut p, g);
            let vs = p.vertices();
            let v = *g.pick(&vs);
            let top = *vs.last().unwrap();
            let hit: Vec<DE> = p.out()[&v].iter().filter(|e| e.1 != v).cloned().collect();
            for k in 0..g.size(1, 2) as u32 {
                for e in &hit { p.e.push((top + 1 + k, e.1, e.2.clone())); }
                if g.chance(1, 3) { p.e.push((v, top + 1 + k, vec![0; d])); }
            }
            p
        }
    };
    if g.chance(1, 3) {
        // pendant vertices at one vertex share their edge vector
        let vs = p.vertices();
        let v = *g.pick(&vs);
        let top = *vs.last().unwrap();
        for k in 0..g.size(1, 3) as u32 {
            let s = (0..p.d).map(|_| g.int(-1, 1)).collect();
            p.e.push((v, top + 1 + k, s));
        }
    }
    p
}

/// Labels graphs with nearly coinciding positions.
fn near(p: &Pg, o: &mut Obs) {
    let mut pos: Vec<Vec<Q>> = p.positions().values().map(|x| frac(x)).collect();
    pos.sort();
    let mut least = f64::MAX;
    for w in pos.windows(2) {
        let x = (0..p.d).map(|k| (&w[1][k] - &w[0][k]).abs()).max().unwrap();
        if !x.is_zero() { least = least.min(x.numer().bits() as f64 - x.denom().bits() as f64); }
    }
    o.label_if(least < -20.0, "vertices closer than 2^-20");
    o.label_if(least < -40.0, "vertices closer than 2^-40");
    o.label_if(least < -53.0, "vertices closer than 2^-53");
}

fn c22_test<T: LabelVector<InputCS>>(p: &Pg, r: &Pg, o: &mut Obs) -> Outcome {
    labels(p, o);
    for g in [p, r] {
        let pos = g.positions();
        let out = g.out();
        let fr: HashSet<Vec<Q>> = pos.values().map(|x| frac(x)).collect();
        let stable = fr.len() == pos.len();
        let local = out.values().all(|es| {
            let s: HashSet<_> = es.iter().map(|e| g.vector(&pos, e)).collect();
            s.len() == es.len()
        });
        let mut seen = HashSet::new();
        let mut second = false;
        for (v, es) in &out {
            let mut ds: Vec<_> = es.iter().map(|e| g.vector(&pos, e)).collect();
            ds.sort();
            second |= !seen.insert((frac(&pos[v]), ds));
        }
        o.label_if(stable, "stable");
        o.label_if(!stable && local && !second, "unstable, locally stable, no second order collision");
        o.label_if(!local, "not locally stable");
        o.label_if(second, "second order collision");
        o.label_if(!local && !second, "only local collisions");
        o.nontrivial(!stable || !local || second);
        let l = g.lib::<T>();
        ensure_eq!(sut(|| l.is_stable())?, stable, "is_stable of {:?}", g);
        ensure_eq!(sut(|| l.is_locally_stable())?, local, "is_locally_stable of {:?}", g);
        ensure_eq!(sut(|| l.has_second_order_collisions())?, second,
            "has_second_order_collisions of {:?}", g);
    }
    Ok(())
}

fn c22(h: &mut Harness) {
    h.boost(15);
    h.rule("Connected quotients biased towards collisions (twins, near twins, pendant \
        vertices, covers, sparse graphs) with a re-presentation of each; \
        non-trivial: some predicate reports a collision.");
    h.sub("predicates", 4000, 120000, vec![],
        |g| { let p = gen_unstable(g); let p = stretch(g, &p); let r = represent(g, &p, 3); let r = spread(g, &r); (p, r) },
        |(p, r), o| by_dim!(p.d, c22_test, p, r, o));
    h.sub("near", 30, 2000, vec![],
        |g| { let p = gen_near(g, 16); let r = represent(g, &p, 2); (p, r) },
        |(p, r), o| { near(p, o); by_dim!(p.d, c22_test, p, r, o) });
    h.sub("large", 20, 600, vec![],
        |g| { let p = gen_large(g, 30); let r = represent(g, &p, 2); (p, r) },
        |(p, r), o| by_dim!(p.d, c22_test, p, r, o));
}

// ---------------------------------------------------------------- C23

fn lvec(v: &[Q]) -> Vector { Vector::new(v) }

fn c23_test<T: LabelVector<InputCS>>(p: &Pg, extra: &Vec<Vec<i64>>, o: &mut Obs) -> Outcome {
    labels(p, o);
    let g = p.lib::<T>();
    let vs = p.vertices();
    let mut pos: BTreeMap<u32, Vec<Q>> = BTreeMap::new();
    for (v, x) in p.positions() { pos.insert(v, x); }
    let out = p.out();
    let mut vecs: HashSet<Vec<Q>> =
        out.values().flatten().map(|e| p.vector(&pos, e)).collect();
    vecs.insert(vec![Q::zero(); p.d]);
    for x in extra { vecs.insert(qm(&vec![x[..p.d].to_vec()]).remove(0)); }
    let mut most = 0;
    for v in &vs {
        let mut at: HashMap<Vec<Q>, Vec<DE>> = HashMap::new();
        for e in &out[v] { at.entry(p.vector(&pos, e)).or_default().push(e.clone()); }
        for x in &vecs {
            let want = match at.get(x) {
                Some(es) => {
                    most = most.max(es.len());
                    if es.len() == 1 { Some(es[0].clone()) } else { None }
                },
                None => None,
            };
            let got = sut(|| g.edge_by_unique_delta(v, &lvec(x)))?.map(|e| oedge(&e));
            ensure_eq!(got, want, "edge at {} with vector {:?} ({} such edges)",
                v, x, at.get(x).map_or(0, |e| e.len()));
        }
    }
    o.label_if(most == 2, "vector shared by two edges");
    o.label_if(most == 3, "vector shared by three edges");
    o.label_if(most > 3, "vector shared by more than three edges");
    o.nontrivial(most >= 2 || vs.len() >= 2);
    Ok(())
}

fn c23(h: &mut Harness) {
    h.boost(20);
    h.rule("Graphs as in C22; every vector occurring anywhere in the graph, \
        zero and two random vectors are looked up at every vertex. \
        Non-trivial: at least 2 vertices or coinciding vectors.");
    let star = |k: u32| Pg { d: 2, e: (0..k).map(|i| (1, 2 + i, vec![0, 0]))
        .chain([(1, 1, vec![1, 0]), (1, 1, vec![0, 1])]).collect() };
    h.sub("lookup", 4000, 120000,
        (1..=6).map(|k| (star(k), vec![])).collect(),
        |g| {
            let p = gen_unstable(g);
            let p = if g.flip() { stretch(g, &p) } else { spread(g, &p) };
            let x = (0..2).map(|_| (0..3).map(|_| g.int(-1, 1)).collect()).collect();
            (p, x)
        },
        |(p, x), o| by_dim!(p.d, c23_test, p, x, o));
    h.sub("near", 15, 1000, vec![], |g| (gen_near(g, 16), vec![]),
        |(p, x), o| { near(p, o); by_dim!(p.d, c23_test, p, x, o) });
    h.sub("large", 15, 500, vec![],
        |g| { let p = gen_large(g, 30); (if g.flip() { rename_far(g, &p) } else { p }, vec![]) },
        |(p, x), o| by_dim!(p.d, c23_test, p, x, o));
}

// ---------------------------------------------------------------- C24

type Syms<T> = HashSet<Automorphism<T, InputCS>>;

enum Answer<T: LabelVector<InputCS>> { Text(String), Set(Syms<T>) }

fn ask<T: LabelVector<InputCS> + std::fmt::Display + std::fmt::Debug>(
    g: &Graph<T, InputCS>, k: u8, v: u32, e: &DE
) -> Answer<T> {
    let le = ledge::<T>(e);
    let t = |x: String| Answer::Text(x);
    match k {
        0 => t(format!("{:?}", g.vertices())),
        1 => t(format!("{:?}", g.directed_edges())),
        2 => t(format!("{:?}", g.incidences(&v))),
        3 => t(format!("{:?}", g.position(&v))),
        4 => t(format!("{:?}", g.position_normalized(&v))),
        5 => t(format!("{:?}", g.edge_vector(&le))),
        6 => { let x = g.edge_vector(&le); t(format!("{:?}", g.edge_by_unique_delta(&v, &x))) },
        7 => t(format!("{}", g.is_stable())),
        8 => t(format!("{}", g.is_locally_stable())),
        9 => t(format!("{}", g.has_second_order_collisions())),
        10 => t(format!("{:?}", g.coordination_sequence(&v).take(4).collect::<Vec<_>>())),
        11 => t(g.shift_normalized().to_string()),
        12 => t(format!("{}", g.is_connected())),
        13 => t(format!("{:?}", graph_component_measures(g, &v))),
        14 => t(g.to_string()),
        15 => { let z = Vector::zero(T::dim()); t(format!("{:?}", g.edge_by_unique_delta(&v, &z))) },
        // from here on for connected, locally stable graphs
        16 => Answer::Set(g.symmetries().into_iter().collect()),
        17 => t(format!("{:?}", g.vertex_orbits())),
        18 => t(format!("{:?}", g.edge_orbits())),
        19 => t(format!("{}", symmetries::is_ladder(g))),
        20 => t(format!("{}", symmetries::is_minimal(g))),
        _ => Answer::Set(symmetries::ladder_symmetries(g).into_iter().collect()),
    }
}

fn c24_test<T: LabelVector<InputCS> + std::fmt::Display + std::fmt::Debug>(
    p: &Pg, seq: &Vec<(u8, u64, u64)>, o: &mut Obs
) -> Outcome {
    let sym = p.connected() && p.locally_stable();
    o.label_if(sym, "with symmetry queries");
    labels(p, o);
    let vs = p.vertices();
    let de: Vec<DE> = p.out().values().flatten().cloned().collect();
    let shared = p.lib::<T>();
    let mut kinds = BTreeSet::new();
    for (n, (k, v, e)) in seq.iter().enumerate() {
        let k = k % if sym { 22 } else { 16 };
        let v = vs[*v as usize % vs.len()];
        let e = &de[*e as usize % de.len()];
        kinds.insert(k);
        let got = sut(|| ask(&shared, k, v, e))?;
        let fresh = sut(|| ask(&p.lib::<T>(), k, v, e))?;
        let same = match (&got, &fresh) {
            (Answer::Text(a), Answer::Text(b)) => {
                ensure!(a == b, "step {}: query {} at {} {:?} answers {} after the history, {} on a fresh graph",
                    n, k, v, e, a, b);
                true
            },
            (Answer::Set(a), Answer::Set(b)) => a == b,
            _ => false,
        };
        ensure!(same, "step {}: symmetries differ from those of a fresh graph", n);
    }
    o.nontrivial(kinds.len() >= 5);
    Ok(())
}

fn c24(h: &mut Harness) {
    h.boost(2);
    h.rule("Sequences of up to 25 queries of 22 kinds on one graph, each \
        compared with the answer of a freshly built copy; non-trivial: at least \
        5 kinds of queries.");
    h.sub("history", 2500, 60000, vec![],
        |g| {
            let p = match g.below(3) {
                0 => gen_symmetric(g, 5),
                1 => gen_unstable(g),
                _ => { let d = 2 + g.below(2) as usize;
                    let mut p = gen_quotient(g, d, 5, 4, 1); make_connected(&mut p, g); p },
            };
            let p = spread(g, &p);
            let s = g.vec(1, 25, |g| (g.below(22) as u8, g.below(64), g.below(64)));
            (p, s)
        },
        |(p, s), o| by_dim!(p.d, c24_test, p, s, o));
}

// ---------------------------------------------------------------- C47

fn c47_test<T: LabelVector<InputCS> + std::fmt::Debug>(
    a: &Vec<i32>, b: &Vec<i32>, o: &mut Obs
) -> Outcome {
    let d = a.len();
    let cmp = |v: &Vec<i32>| v.iter().find(|x| **x != 0).copied().unwrap_or(0).signum();
    let (x, y) = (T::from_vec(a), T::from_vec(b));
    o.nontrivial(cmp(a) != 0 && a != b);
    o.label_if(a.iter().any(|x| *x == 0), "zero coordinate");
    ensure_eq!(T::dim(), d, "dimension");
    ensure_eq!(sut(|| x.to_vec())?, *a, "coordinates");
    ensure_eq!(sut(|| (x + y).to_vec())?, a.iter().zip(b).map(|(p, q)| p + q).collect::<Vec<_>>(), "sum");
    ensure_eq!(sut(|| (x - y).to_vec())?, a.iter().zip(b).map(|(p, q)| p - q).collect::<Vec<_>>(), "difference");
    ensure_eq!(sut(|| (-x).to_vec())?, a.iter().map(|p| -p).collect::<Vec<_>>(), "negative");
    ensure_eq!(T::zero().to_vec(), vec![0; d], "zero");
    for (v, l) in [(a, x), (b, y)] {
        ensure_eq!(sut(|| l.is_zero())?, cmp(v) == 0, "is_zero of {:?}", v);
        ensure_eq!(sut(|| l.is_positive())?, cmp(v) > 0, "is_positive of {:?}", v);
        ensure_eq!(sut(|| l.is_negative())?, cmp(v) < 0, "is_negative of {:?}", v);
    }
    ensure_eq!(x == y, a == b, "equality");
    ensure_eq!(sut(|| x.cmp(&y))?, a.cmp(b), "order of {:?} and {:?}", a, b);
    ensure_eq!(sut(|| (x - y).is_negative())?, a < b, "sign of the difference");
    let set: HashSet<T> = [x, y, -(-x), (x + y) - y].into_iter().collect();
    ensure_eq!(set.len(), if a == b { 1 } else { 2 }, "number of different labels");
    let e = Edge::<T, InputCS>::new(3, 5, x);
    ensure_eq!(oedge(&-&e), (5, 3, a.iter().map(|p| -*p as i64).collect::<Vec<_>>()), "reversed edge");
    ensure!(sut(|| -&-&e)? == e, "edge reversed twice");
    let loops = Edge::<T, InputCS>::new(3, 3, x);
    for e in [e, -&e, loops, -&loops] {
        let c = sut(|| e.canonical())?;
        ensure!(c == e || c == -&e, "canonical form of {:?}", e);
        ensure!(sut(|| (-&e).canonical())? == c, "canonical form of the reversed {:?}", e);
        ensure!(sut(|| c.canonical())? == c, "canonical form of the canonical form of {:?}", e);
    }
    Ok(())
}

fn c47(h: &mut Harness) {
    h.boost(15);
    h.rule("Pairs of two- and three-dimensional labels with many zero, equal \
        and opposite coordinates and some large ones; non-trivial: a nonzero \
        and different from b.");
    h.assume("coordinates small enough for sums to stay in range");
    h.sub("labels", 20000, 400000, vec![],
        |g| {
            let d = g.size(2, 3);
            let k = *g.pick(&[1, 2, 1_000_000_000]);
            let a: Vec<i32> = (0..d).map(|_| g.int(-k, k) as i32).collect();
            let b: Vec<i32> = match g.below(4) {
                0 => a.clone(),
                1 => a.iter().map(|x| -x).collect(),
                2 => { let mut b = a.clone(); b[g.below(d as u64) as usize] = g.int(-k, k) as i32; b },
                _ => (0..d).map(|_| g.int(-k, k) as i32).collect(),
            };
            (a, b)
        },
        |(a, b), o| by_dim!(a.len(), c47_test, a, b, o));
}

// ---------------------------------------------------------------- C49

fn numbers(s: &str) -> Option<Vec<i64>> {
    let inner = s.trim().strip_prefix('(')?.strip_suffix(')')?;
    inner.split(',').map(|x| x.trim().parse().ok()).collect()
}

fn read_edge(line: &str) -> Option<DE> {
    let (head, rest) = line.split_once("--")?;
    let (shift, tail) = rest.rsplit_once("->")?;
    Some((head.trim().parse().ok()?, tail.trim().parse().ok()?, numbers(shift)?))
}

fn c49_test<T: LabelVector<InputCS> + std::fmt::Display + std::fmt::Debug>(
    p: &Pg, o: &mut Obs
) -> Outcome {
    labels(p, o);
    o.nontrivial(p.edges().len() >= 2);
    o.label_if(p.e.iter().any(|e| e.2.iter().any(|x| *x < 0)), "negative shifts");
    for e in &p.e {
        let l = ledge::<T>(e);
        let s = sut(|| l.shift.to_string())?;
        ensure_eq!(numbers(&s), Some(e.2.clone()), "printed shift {:?}", s);
        let s = sut(|| l.to_string())?;
        ensure_eq!(read_edge(&s), Some(e.clone()), "printed edge {:?}", s);
    }
    let g = p.lib::<T>();
    let s = sut(|| g.to_string())?;
    let mut got = vec![];
    for l in s.lines() {
        let Some(e) = read_edge(l) else { return Err(format!("unreadable line {:?}", l)) };
        got.push(e);
    }
    let r = Pg { d: p.d, e: got.clone() };
    ensure_eq!(r.edges(), p.edges(), "edges read from {:?}", s);
    ensure_eq!(got.len(), p.edges().len(), "number of lines");
    ensure_eq!(sut(|| r.lib::<T>().to_string())?, s, "printed form of the graph read back");
    Ok(())
}

fn c49(h: &mut Harness) {
    h.boost(20);
    h.rule("Random periodic graphs with shifts up to 10^6 of either sign and \
        any vertex numbers; the printed form is read by an independent reader. \
        Non-trivial: at least 2 edges.");
    h.sub("printed", 6000, 150000, vec![],
        |g| {
            let k = *g.pick(&[1, 3, 1_000_000]);
            let mut p = gen_any(g, 7, 12, k);
            if g.chance(1, 4) {
                for e in &mut p.e { e.0 = e.0 * 37 % 101; e.1 = e.1 * 37 % 101; }
            }
            p
        },
        |p, o| by_dim!(p.d, c49_test, p, o));
    h.sub("large", 60, 2000, vec![],
        |g| { let p = gen_large(g, 60); rename_far(g, &p) },
        |p, o| by_dim!(p.d, c49_test, p, o));
}
