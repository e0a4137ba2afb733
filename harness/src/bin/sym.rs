//! C25-C29: symmetries of periodic graphs.
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};

use hx::engine::*;
use hx::la::*;
use hx::pg::*;
use hx::{ensure, ensure_eq};

use num_traits::{One, Zero};
use rust_systre::arithmetic::matrices::Matrix;
use rust_systre::pgraphs::{
    AffineMap, Automorphism, Graph, InputCS, LabelVector, LabelVector2d,
    LabelVector3d, Vector
};
use rust_systre::symmetries;

type L2 = LabelVector2d<InputCS>;
type L3 = LabelVector3d<InputCS>;
type Auto<T> = Automorphism<T, InputCS>;

macro_rules! by_dim {
    ($d:expr, $f:ident, $($a:expr),*) => {
        if $d == 2 { $f::<L2>($($a),*) } else { $f::<L3>($($a),*) }
    };
}

fn main() {
    hx::engine::main(&[
        ("C25", c25), ("C26", c26), ("C27", c27), ("C28", c28), ("C29", c29),
    ]);
}

fn to_lib<T: LabelVector<InputCS>>(i: &Iso) -> Auto<T> {
    let d = i.m.len();
    let flat: Vec<Q> = i.m.iter().flatten().cloned().collect();
    let aff = AffineMap::new(&Matrix::new(d, &flat), &Vector::zero(d));
    let vm: HashMap<u32, u32> = i.v.iter().map(|(a, b)| (*a, *b)).collect();
    let em = i.e.iter().map(|(a, b)| (ledge::<T>(a), ledge::<T>(b))).collect();
    Automorphism::new(vm, em, aff)
}

fn translation(i: &Iso) -> bool {
    let d = i.m.len();
    (0..d).all(|r| (0..d).all(|c| i.m[r][c] == if r == c { Q::one() } else { Q::zero() }))
}

fn moves(i: &Iso) -> bool { i.v.iter().any(|(a, b)| a != b) }

/// Translations that fix every position modulo the lattice but no vertex.
fn ladders<'a>(p: &Pg, autos: &'a [Iso]) -> Vec<&'a Iso> {
    let pos = p.positions();
    autos.iter().filter(|i| translation(i) && moves(i)
        && i.v.iter().all(|(a, b)| frac(&pos[a]) == frac(&pos[b]))).collect()
}

fn orbits<X: Clone + Ord>(items: &BTreeSet<X>, maps: &[BTreeMap<X, X>]) -> BTreeSet<BTreeSet<X>> {
    items.iter().map(|x| {
        let mut o = BTreeSet::from([x.clone()]);
        let mut st = vec![x.clone()];
        while let Some(y) = st.pop() {
            for m in maps {
                let z = m[&y].clone();
                if o.insert(z.clone()) { st.push(z); }
            }
        }
        o
    }).collect()
}

fn sets<X: Clone + Ord + std::fmt::Debug>(v: Vec<Vec<X>>, what: &str)
    -> Result<BTreeSet<BTreeSet<X>>, String>
{
    let n: usize = v.iter().map(|c| c.len()).sum();
    let all: BTreeSet<X> = v.iter().flatten().cloned().collect();
    ensure_eq!(all.len(), n, "{} list some item twice: {:?}", what, v);
    ensure!(v.iter().all(|c| !c.is_empty()), "empty class in {}", what);
    Ok(v.into_iter().map(|c| c.into_iter().collect()).collect())
}

fn labels(p: &Pg, autos: &[Iso], o: &mut Obs) {
    let n = autos.len();
    o.label_if(p.d == 3, "3-periodic");
    o.label_if(n <= 2, "at most 2 symmetries");
    o.label_if(n > 2 && n < 12, "3 to 11 symmetries");
    o.label_if(n >= 12, "12 or more symmetries");
    o.label_if(!ladders(p, autos).is_empty(), "ladder");
    o.label_if(autos.iter().filter(|i| translation(i)).count() > 1, "extra translations");
    o.label_if(p.e.iter().any(|e| e.2.iter().any(|x| x.abs() >= 3)), "shifts of 3 or more");
    let pos = p.positions();
    let small = p.out().values().all(|es| {
        let m: QM = es.iter().map(|e| p.vector(&pos, e)).collect();
        rank(&m) < p.d
    });
    o.label_if(small, "no vertex with spanning star");
}

/// Edges only along few directions at each vertex (chains woven together).
fn gen_sparse(g: &mut Gen) -> Pg {
    let d = 3;
    for _ in 0..8 {
        let n = g.size(2, 6) as u32;
        let mut e: Vec<DE> = vec![];
        // a long cycle with one axis shift each, plus few chords
        for v in 1..=n {
            let mut s = vec![0; d];
            if g.chance(1, 2) { s[g.below(3) as usize] = *g.pick(&[1, 1, -1]); }
            e.push((v, v % n + 1, s));
        }
        for _ in 0..g.size(1, 4) {
            let v = 1 + g.below(n as u64) as u32;
            let w = 1 + g.below(n as u64) as u32;
            let mut s = vec![0; d];
            s[g.below(3) as usize] = 1;
            e.push((v, w, s));
        }
        e.retain(|e| e.0 != e.1 || e.2.iter().any(|x| *x != 0));
        let mut p = Pg { d, e };
        if p.e.is_empty() { continue; }
        make_connected(&mut p, g);
        if p.connected() && p.locally_stable() { return represent(g, &p, 3); }
    }
    let all = named();
    represent(g, &all[7].1, 3)
}

/// Rods: (v,v) loops in different directions at different vertices.
fn gen_rods(g: &mut Gen) -> Pg {
    for _ in 0..8 {
        let d = 2 + g.flip() as usize;
        let n = g.size(2, 4) as u32;
        let mut e: Vec<DE> = vec![];
        for v in 1..=n {
            let mut s = vec![0; d];
            s[(v as usize - 1) % d] = 1;
            if g.chance(1, 4) { s[g.below(d as u64) as usize] += *g.pick(&[1, -1]); }
            if s.iter().any(|x| *x != 0) { e.push((v, v, s)); }
        }
        for v in 1..n { e.push((v, v + 1, vec![0; d])); }
        if g.flip() && n > 2 { e.push((n, 1, vec![0; d])); }
        let mut p = Pg { d, e };
        make_connected(&mut p, g);
        if p.connected() && p.locally_stable() { return represent(g, &p, 3); }
    }
    named()[0].1.clone()
}

/// Two related nets glued in a product-like or perturbed way: a symmetric
/// net with one orbit-breaking edge.
fn gen_broken(g: &mut Gen) -> Pg {
    let all = named();
    for _ in 0..6 {
        let mut p = all[g.below(all.len() as u64) as usize].1.clone();
        if g.flip() {
            let h = gen_sublattice(g, p.d, 3);
            p = supercell(&p, &h);
        }
        let vs = p.vertices();
        let (v, w) = (*g.pick(&vs), *g.pick(&vs));
        let s: Vec<i64> = (0..p.d).map(|_| g.int(-1, 1)).collect();
        if v == w && s.iter().all(|x| *x == 0) { continue; }
        p.e.push((v, w, s));
        if p.connected() && p.locally_stable() { return represent(g, &p, 3); }
    }
    all[1].1.clone()
}

fn gen_net(g: &mut Gen, nmax: usize) -> Pg {
    match g.weighted(&[6, 1, 2, 2]) {
        0 => gen_symmetric(g, nmax),
        1 => gen_sparse(g),
        2 => gen_rods(g),
        _ => gen_broken(g),
    }
}

fn examples() -> Vec<Pg> {
    let mk = |d: usize, es: &[(u32, u32, &[i64])]| Pg {
        d, e: es.iter().map(|e| (e.0, e.1, e.2.to_vec())).collect()
    };
    let mut r: Vec<Pg> = named().into_iter().map(|x| x.1).collect();
    // square and hexagonal lattices in skew bases
    r.push(mk(2, &[(1, 1, &[1, 0]), (1, 1, &[1, 1])]));
    r.push(mk(2, &[(1, 1, &[1, 0]), (1, 1, &[3, 1])]));
    r.push(mk(2, &[(1, 1, &[1, 0]), (1, 1, &[0, 1]), (1, 1, &[1, -1])]));
    r.push(mk(2, &[(1, 1, &[2, 1]), (1, 1, &[1, 1]), (1, 1, &[3, 2])]));
    r.push(mk(2, &[(1, 2, &[0, 0]), (1, 2, &[1, 0]), (1, 2, &[1, 1])]));
    r.push(mk(3, &[(1, 1, &[1, 0, 0]), (1, 1, &[1, 1, 0]), (1, 1, &[1, 1, 1])]));
    r.push(mk(3, &[(1, 2, &[0, 0, 0]), (1, 2, &[1, 0, 0]), (1, 2, &[1, 1, 0]), (1, 2, &[1, 1, 1])]));
    r.retain(|p| p.connected() && p.locally_stable());
    r
}

/// Vertices and edges that all but coincide.
fn near_net(g: &mut Gen, nmax: usize) -> Pg {
    for _ in 0..10 {
        let p = gen_near(g, nmax / 2);
        if p.d > 2 || p.e.len() > 3 * nmax { continue; }
        let p = if g.chance(1, 3) && 2 * p.vertices().len() <= nmax && p.connected() {
            // with translations, perhaps coinciding vertices
            if g.flip() {
                let h = gen_sublattice(g, p.d, (nmax / p.vertices().len()) as i64);
                supercell(&p, &h)
            } else { cover(g, &p) }
        } else { p };
        if p.vertices().len() <= nmax && p.connected() && p.locally_stable() { return p; }
    }
    gen_net(g, 8)
}

// ---------------------------------------------------------------- C25

fn c25_test<T: LabelVector<InputCS>>(p: &Pg, o: &mut Obs) -> Outcome {
    let autos = automorphisms(p);
    labels(p, &autos, o);
    o.nontrivial(autos.len() >= 2);
    let g = p.lib::<T>();
    let got = sut(|| g.symmetries())?;
    let set: HashSet<Auto<T>> = got.iter().cloned().collect();
    let want: HashSet<Auto<T>> = autos.iter().map(to_lib).collect();
    ensure_eq!(got.len(), autos.len(), "number of symmetries");
    ensure_eq!(set.len(), got.len(), "number of distinct symmetries");
    ensure!(set == want, "the {} symmetries are not the automorphisms", got.len());
    let direct = sut(|| symmetries::symmetries(&g))?;
    let direct: HashSet<Auto<T>> = direct.into_iter().collect();
    ensure!(direct == want, "symmetries computed directly differ");
    Ok(())
}

const RULE: &str = "Connected, locally stable graphs: named nets, their \
    supercells, finite covers (ladders), random quotients, sparse cycles, rods, \
    nets with one extra edge, chains of nearly coinciding vertices; lattice basis, numbering and representatives \
    random.";

fn c25(h: &mut Harness) {
    h.rule(&format!("{} Non-trivial: at least 2 symmetries.", RULE));
    h.assume("graphs that are not locally stable are rejected by assertion");
    h.sub("brute_force", 2000, 100000, examples(),
        |g| { let p = gen_net(g, 8); spread(g, &p) },
        |p, o| by_dim!(p.d, c25_test, p, o));
    h.sub("large", 24, 1000, vec![], |g| { let p = large_net(g, 24); spread(g, &p) },
        |p, o| by_dim!(p.d, c25_test, p, o));
    h.sub("near", 400, 10000, vec![], |g| near_net(g, 18),
        |p, o| by_dim!(p.d, c25_test, p, o));
}

/// Connected, locally stable graphs of up to `nmax` vertices.
fn large_net(g: &mut Gen, nmax: usize) -> Pg {
    for _ in 0..if g.flip() { 20 } else { 0 } {
        let p = gen_large(g, nmax);
        if p.connected() && p.locally_stable() { return p; }
    }
    let all = named();
    let p = all[g.below(all.len() as u64) as usize].1.clone();
    let h = gen_sublattice(g, p.d, (nmax / p.vertices().len()) as i64);
    let p = supercell(&p, &h);
    represent(g, &p, 3)
}

// ---------------------------------------------------------------- C26

fn c26_test<T: LabelVector<InputCS>>(p: &Pg, o: &mut Obs) -> Outcome {
    let autos = automorphisms(p);
    labels(p, &autos, o);
    let vs: BTreeSet<u32> = p.vertices().into_iter().collect();
    let es = p.edges();
    let vmaps: Vec<BTreeMap<u32, u32>> = autos.iter().map(|i| i.v.clone()).collect();
    let emaps: Vec<BTreeMap<DE, DE>> = autos.iter().map(|i|
        es.iter().map(|e| (e.clone(), undirected(&i.e[e]))).collect()).collect();
    let (wv, we) = (orbits(&vs, &vmaps), orbits(&es, &emaps));
    o.label_if(wv.len() > 1, "several vertex orbits");
    o.label_if(we.len() > 1, "several edge orbits");
    o.nontrivial(wv.iter().any(|c| c.len() > 1) || we.iter().any(|c| c.len() > 1));
    let g = p.lib::<T>();
    let gv = sets(sut(|| g.vertex_orbits())?, "vertex orbits")?;
    ensure_eq!(gv, wv, "vertex orbits");
    let ge = sut(|| g.edge_orbits())?.into_iter()
        .map(|c| c.iter().map(|e| undirected(&oedge(e))).collect::<Vec<_>>())
        .collect();
    ensure_eq!(sets(ge, "edge orbits")?, we, "edge orbits");
    Ok(())
}

fn c26(h: &mut Harness) {
    h.rule(&format!("{} Non-trivial: some orbit has 2 elements.", RULE));
    h.sub("orbits", 2400, 100000, examples(),
        |g| { let p = gen_net(g, 8); spread(g, &p) },
        |p, o| by_dim!(p.d, c26_test, p, o));
    h.sub("large", 24, 1000, vec![], |g| { let p = large_net(g, 24); spread(g, &p) },
        |p, o| by_dim!(p.d, c26_test, p, o));
}

// ---------------------------------------------------------------- C27

fn sizes<X>(v: &[Vec<X>]) -> Vec<usize> {
    let mut r: Vec<_> = v.iter().map(|c| c.len()).collect();
    r.sort();
    r
}

fn c27_test<T: LabelVector<InputCS>>(p: &Pg, r: &Pg, o: &mut Obs) -> Outcome {
    let (a, b) = (p.lib::<T>(), r.lib::<T>());
    let sa = sut(|| a.symmetries())?;
    let sb = sut(|| b.symmetries())?;
    o.label_if(p.d == 3, "3-periodic");
    o.label_if(sa.len() >= 12, "12 or more symmetries");
    o.label_if(sa.len() >= 48, "48 or more symmetries");
    o.nontrivial(sa.len() >= 2 && p.edges() != r.edges());
    ensure_eq!(sb.len(), sa.len(), "number of symmetries after re-presentation as {:?}", r);
    for (g, s) in [(&a, &sa), (&b, &sb)] {
        let set: HashSet<&Auto<T>> = s.iter().collect();
        ensure_eq!(set.len(), s.len(), "symmetries listed twice");
        let id = Automorphism::identity(g);
        ensure!(set.contains(&id), "identity missing");
        // every row of the multiplication table (up to 60 rows)
        let step = 1 + s.len() / 60;
        for x in s.iter().step_by(step) {
            let mut inv = false;
            for y in s {
                let xy = sut(|| x * y)?;
                ensure!(set.contains(&xy), "product of two symmetries is missing");
                if xy == id {
                    inv = true;
                    ensure!(sut(|| y * x)? == id, "right inverse is not a left inverse");
                }
            }
            ensure!(inv, "symmetry without inverse");
        }
    }
    let (va, vb) = (sut(|| a.vertex_orbits())?, sut(|| b.vertex_orbits())?);
    ensure_eq!(sizes(&vb), sizes(&va), "sizes of vertex orbits after re-presentation as {:?}", r);
    let (ea, eb) = (sut(|| a.edge_orbits())?, sut(|| b.edge_orbits())?);
    ensure_eq!(sizes(&eb), sizes(&ea), "sizes of edge orbits after re-presentation as {:?}", r);
    Ok(())
}

fn c27(h: &mut Harness) {
    h.rule(&format!("{} Each with another re-presentation. Non-trivial: at \
        least 2 symmetries and different edges.", RULE));
    h.sub("group", 400, 40000,
        examples().into_iter().map(|p| (p.clone(), p)).collect(),
        |g| { let p = gen_net(g, 12); let r = represent(g, &p, 6); let r = spread(g, &r); (p, r) },
        |(p, r), o| by_dim!(p.d, c27_test, p, r, o));
    h.sub("large", 8, 400, vec![],
        |g| { let p = large_net(g, 24); let r = represent(g, &p, 6); (p, r) },
        |(p, r), o| by_dim!(p.d, c27_test, p, r, o));
}

// ---------------------------------------------------------------- C28

fn c28_test<T: LabelVector<InputCS>>(p: &Pg, o: &mut Obs) -> Outcome {
    let autos = automorphisms(p);
    labels(p, &autos, o);
    let lad = ladders(p, &autos);
    let tr: Vec<&Iso> = autos.iter().filter(|i| translation(i)).collect();
    o.nontrivial(tr.len() > 1);
    let stable = p.stable();
    o.label_if(!stable && lad.is_empty(), "unstable, not a ladder");
    let g = p.lib::<T>();
    ensure_eq!(sut(|| symmetries::is_ladder(&g))?, !lad.is_empty(), "is_ladder");
    let ls = sut(|| symmetries::ladder_symmetries(&g))?;
    let set: HashSet<Auto<T>> = ls.iter().cloned().collect();
    ensure_eq!(ls.len(), lad.len(), "number of ladder symmetries");
    ensure!(set == lad.iter().map(|i| to_lib(i)).collect::<HashSet<_>>(),
        "ladder symmetries are not the translations fixing all positions");
    if lad.is_empty() {
        let vs: BTreeSet<u32> = p.vertices().into_iter().collect();
        let maps: Vec<_> = tr.iter().map(|i| i.v.clone()).collect();
        let got = sets(sut(|| symmetries::translational_orbits(&g))?, "translational orbits")?;
        ensure_eq!(got, orbits(&vs, &maps), "translational orbits");
        ensure_eq!(sut(|| symmetries::is_minimal(&g))?, tr.len() == 1, "is_minimal");
    }
    Ok(())
}

/// Biased towards extra translations and coinciding positions.
fn gen_translational(g: &mut Gen) -> Pg {
    for _ in 0..8 {
        let p = match g.below(5) {
            0 => gen_net(g, 8),
            1 => {
                // a supercell with pendant-like decorations breaking some of it
                let q = gen_net(g, 3);
                let h = gen_sublattice(g, q.d, 4);
                let mut p = supercell(&q, &h);
                if g.chance(1, 3) {
                    let vs = p.vertices();
                    let v = *g.pick(&vs);
                    let w = *g.pick(&vs);
                    let s: Vec<i64> = (0..p.d).map(|_| g.int(-1, 1)).collect();
                    if v != w || s.iter().any(|x| *x != 0) { p.e.push((v, w, s)); }
                }
                p
            },
            2 => { let q = gen_net(g, 4); one_component(&cover(g, &q)) },
            3 => {
                // ladder over a supercell
                let q = gen_net(g, 2);
                let h = gen_sublattice(g, q.d, 3);
                let q = supercell(&q, &h);
                one_component(&cover(g, &q))
            },
            _ => {
                // two sheets of different nets over the same lattice joined by
                // rungs: coinciding positions without ladder symmetry
                let q = gen_net(g, 2);
                let vs = q.vertices();
                let top = *vs.last().unwrap();
                let mut p = q.clone();
                for e in &q.e {
                    if g.chance(3, 4) { p.e.push((e.0 + top, e.1 + top, e.2.clone())); }
                }
                for v in &vs { if g.chance(3, 4) { p.e.push((*v, v + top, vec![0; p.d])); } }
                one_component(&p)
            },
        };
        if p.vertices().len() <= 16 && p.connected() && p.locally_stable() {
            return represent(g, &p, 3);
        }
    }
    named()[1].1.clone()
}

fn c28(h: &mut Harness) {
    h.rule("Connected, locally stable graphs biased towards supercells, \
        covers, ladders over supercells and two-sheeted graphs with coinciding \
        positions, and chains of nearly coinciding vertices. Non-trivial: some pure translation moves a vertex.");
    h.assume("claims on translational orbits and minimality are restricted to non-ladders");
    h.sub("translations", 10000, 100000, examples(),
        |g| { let p = gen_translational(g); spread(g, &p) },
        |p, o| by_dim!(p.d, c28_test, p, o));
    h.sub("large", 60, 2000, vec![], |g| { let p = large_net(g, 40); spread(g, &p) },
        |p, o| by_dim!(p.d, c28_test, p, o));
    h.sub("near", 600, 15000, vec![], |g| near_net(g, 18),
        |p, o| by_dim!(p.d, c28_test, p, o));
}

// ---------------------------------------------------------------- C29

/// The quotient by all translations, by exact arithmetic of our own.
fn full_quotient(p: &Pg, tr: &[&Iso]) -> Pg {
    let pos = p.positions();
    let d = p.d;
    let v0 = p.vertices()[0];
    let mut rows: QM = (0..d).map(|i|
        (0..d).map(|j| q((i == j) as i64)).collect()).collect();
    for t in tr { rows.push(vsub(&pos[&t.v[&v0]], &pos[&v0])); }
    let b = qhnf(&rows);
    let inv = inverse(&transpose(&b)).unwrap();
    let mut rep: BTreeMap<u32, u32> = BTreeMap::new();
    for v in p.vertices() {
        let r = tr.iter().map(|t| t.v[&v]).min().unwrap();
        rep.insert(v, r);
    }
    let e = p.edges().iter().map(|(v, w, s)| {
        let dv = vsub(&pos[v], &pos[&rep[v]]);
        let dw = vsub(&pos[w], &pos[&rep[w]]);
        let s: Vec<Q> = s.iter().map(|x| q(*x)).collect();
        let x = mul_vec(&inv, &vsub(&vadd(&s, &dw), &dv));
        assert!(is_integral(&x));
        (rep[v], rep[w], x.iter().map(|x| i64::try_from(x.to_integer()).unwrap()).collect())
    }).collect::<Vec<DE>>();
    let r = Pg { d, e };
    Pg { d, e: r.edges().into_iter().collect() }
}

fn c29_test<T: LabelVector<InputCS>>(p: &Pg, small: Option<&Pg>, o: &mut Obs) -> Outcome {
    let autos = automorphisms(p);
    labels(p, &autos, o);
    if !ladders(p, &autos).is_empty() { return Ok(()); }
    let tr: Vec<&Iso> = autos.iter().filter(|i| translation(i)).collect();
    o.label_if(tr.len() == 1, "already minimal");
    o.nontrivial(tr.len() > 1);
    let g = p.lib::<T>();
    let img: Option<Graph<T, InputCS>> = sut(|| symmetries::minimal_image(&g))?;
    match img {
        None => ensure!(tr.len() == 1, "no minimal image although {} translations exist", tr.len()),
        Some(img) => {
            ensure!(tr.len() > 1, "minimal image of a minimal graph");
            let m = model(&img);
            let want = full_quotient(p, &tr);
            ensure_eq!(m.vertices().len() * tr.len(), p.vertices().len(), "vertices of the minimal image {:?}", m);
            ensure_eq!(m.edges().len() * tr.len(), p.edges().len(), "edges of the minimal image {:?}", m);
            ensure!(m.connected(), "minimal image {:?} is not connected", m);
            ensure!(m.locally_stable(), "minimal image {:?} is not locally stable", m);
            ensure!(!isomorphisms(&m, &want, true).is_empty(),
                "minimal image {:?} is not the net on its full lattice {:?}", m, want);
            if let Some(s) = small {
                ensure!(!isomorphisms(&m, s, true).is_empty(),
                    "minimal image {:?} of a supercell of {:?}", m, s);
            }
            ensure!(automorphisms(&m).iter().filter(|i| translation(i)).count() == 1,
                "minimal image {:?} is not minimal", m);
            ensure!(sut(|| symmetries::is_minimal(&img))?, "image not called minimal");
            let again: Option<Graph<T, InputCS>> = sut(|| symmetries::minimal_image(&img))?;
            ensure!(again.is_none(), "the minimal image has a minimal image");
            // the same infinite graph: shells agree
            let k = if p.d == 2 { 5 } else { 3 };
            let shells = |p: &Pg| p.vertices().iter().map(|v| p.shells(*v, k))
                .collect::<BTreeSet<_>>();
            ensure_eq!(shells(&m), shells(p), "shells of the minimal image");
        },
    }
    Ok(())
}

fn c29(h: &mut Harness) {
    h.rule("Graphs as in C28, and re-presented supercells of index up to 12 of \
        connected, locally stable minimal graphs. Non-trivial: the graph has \
        translations beyond its lattice and is no ladder.");
    h.sub("any", 6000, 60000, examples(),
        |g| { let p = gen_translational(g); spread(g, &p) },
        |p, o| by_dim!(p.d, c29_test, p, None, o));
    h.sub("supercells", 1500, 50000, vec![],
        |g| {
            let mut q = gen_net(g, 4);
            let minimal = |q: &Pg| {
                let a = automorphisms(q);
                a.iter().filter(|i| translation(i)).count() == 1
            };
            if !minimal(&q) { q = named()[g.below(13) as usize].1.clone(); }
            if !minimal(&q) { q = named()[1].1.clone(); }
            let n = q.vertices().len() as i64;
            let h = gen_sublattice(g, q.d, (24 / n).min(12).max(2));
            let p = supercell(&q, &h);
            let p = represent(g, &p, 3);
            (spread(g, &p), q)
        },
        |(p, s), o| by_dim!(p.d, c29_test, p, Some(s), o));
    h.sub("large", 60, 2000, vec![], |g| { let p = large_net(g, 40); spread(g, &p) },
        |p, o| by_dim!(p.d, c29_test, p, None, o));
}
