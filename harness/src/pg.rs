//! Independent model of periodic graphs, used as oracle and generator.
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet, VecDeque};

#[allow(unused_imports)]
use num_traits::{One, Signed, Zero};
use rust_systre::pgraphs::{Edge, Graph, InputCS, LabelVector};

use crate::engine::Gen;
use crate::la::*;

pub type DE = (u32, u32, Vec<i64>);

/// A periodic graph as a raw list of edges.
#[derive(Clone, PartialEq, Eq)]
pub struct Pg { pub d: usize, pub e: Vec<DE> }

impl std::fmt::Debug for Pg {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "[{}d:", self.d)?;
        for (v, w, s) in &self.e {
            let s: Vec<String> = s.iter().map(|x| x.to_string()).collect();
            write!(f, " {}-{}({})", v, w, s.join(","))?;
        }
        write!(f, "]")
    }
}

fn neg(s: &[i64]) -> Vec<i64> { s.iter().map(|x| -x).collect() }
pub fn sadd(a: &[i64], b: &[i64]) -> Vec<i64> { a.iter().zip(b).map(|(x, y)| x + y).collect() }
pub fn ssub(a: &[i64], b: &[i64]) -> Vec<i64> { a.iter().zip(b).map(|(x, y)| x - y).collect() }
pub fn reversed(e: &DE) -> DE { (e.1, e.0, neg(&e.2)) }

/// The undirected edge as the smaller of its two directed forms.
pub fn undirected(e: &DE) -> DE {
    let z = vec![0; e.2.len()];
    if e.0 > e.1 || (e.0 == e.1 && e.2 < z) { reversed(e) } else { e.clone() }
}

impl Pg {
    /// Set of undirected edges.
    pub fn edges(&self) -> BTreeSet<DE> { self.e.iter().map(undirected).collect() }
    pub fn vertices(&self) -> Vec<u32> {
        self.e.iter().flat_map(|e| [e.0, e.1]).collect::<BTreeSet<_>>().into_iter().collect()
    }
    /// Directed edges starting at each vertex.
    pub fn out(&self) -> BTreeMap<u32, Vec<DE>> {
        let mut r: BTreeMap<u32, Vec<DE>> = BTreeMap::new();
        for e in self.edges() {
            r.entry(e.0).or_default().push(e.clone());
            r.entry(e.1).or_default().push(reversed(&e));
        }
        r
    }
    pub fn quotient_components(&self) -> Vec<BTreeSet<u32>> {
        let out = self.out();
        let mut seen = BTreeSet::new();
        let mut r = vec![];
        for v in self.vertices() {
            if seen.contains(&v) { continue; }
            let mut c = BTreeSet::from([v]);
            let mut st = vec![v];
            while let Some(v) = st.pop() {
                for e in &out[&v] {
                    if c.insert(e.1) { st.push(e.1); }
                }
            }
            seen.extend(c.iter().cloned());
            r.push(c);
        }
        r
    }
    /// Hermite form of the lattice of translations along closed walks at `v`.
    pub fn cycle_lattice(&self, v: u32) -> ZM {
        let out = self.out();
        let mut pot = BTreeMap::from([(v, vec![0i64; self.d])]);
        let mut st = vec![v];
        while let Some(v) = st.pop() {
            for e in &out[&v] {
                if !pot.contains_key(&e.1) {
                    let p = sadd(&pot[&v], &e.2);
                    pot.insert(e.1, p);
                    st.push(e.1);
                }
            }
        }
        let gens: IM = self.edges().iter().filter(|e| pot.contains_key(&e.0))
            .map(|e| ssub(&sadd(&pot[&e.0], &e.2), &pot[&e.1])).collect();
        hnf(&zm(&gens))
    }
    /// Is the infinite graph connected?
    pub fn connected(&self) -> bool {
        let c = self.quotient_components();
        c.len() <= 1 && self.vertices().first().map_or(true, |&v| {
            let l = self.cycle_lattice(v);
            l.len() == self.d && (0..self.d).all(|i| l[i][i] == z(1))
        })
    }
    /// Equilibrium placement with the first vertex at the origin (quotient
    /// must be connected).
    pub fn positions(&self) -> BTreeMap<u32, Vec<Q>> {
        let vs = self.vertices();
        let n = vs.len();
        let idx: BTreeMap<u32, usize> = vs.iter().enumerate().map(|(i, &v)| (v, i)).collect();
        let mut m = vec![vec![0i128; n + self.d]; n];
        m[0][0] = 1;
        for (v, es) in self.out() {
            let i = idx[&v];
            if i == 0 { continue; }
            // sum over incident edges of (position of the other end - own) = 0
            for e in es {
                let j = idx[&e.1];
                m[i][j] += 1;
                m[i][i] -= 1;
                for k in 0..self.d { m[i][n + k] -= e.2[k] as i128; }
            }
        }
        let sol = fraction_free(&m, n).unwrap_or_else(|| {
            let q: QM = m.iter().map(|r| r.iter().map(|x| Q::from(Z::from(*x))).collect()).collect();
            let (r, piv) = rref(&q);
            assert!(piv.len() == n && (0..n).all(|i| piv[i] == i), "placement");
            r.iter().map(|r| r[n..].to_vec()).collect()
        });
        vs.iter().enumerate().map(|(i, &v)| (v, sol[i].clone())).collect()
    }
    pub fn vector(&self, pos: &BTreeMap<u32, Vec<Q>>, e: &DE) -> Vec<Q> {
        (0..self.d).map(|k| &pos[&e.1][k] + q(e.2[k]) - &pos[&e.0][k]).collect()
    }
    pub fn locally_stable(&self) -> bool {
        let pos = self.positions();
        self.out().values().all(|es| {
            let vs: HashSet<_> = es.iter().map(|e| self.vector(&pos, e)).collect();
            vs.len() == es.len()
        })
    }
    pub fn stable(&self) -> bool {
        let pos = self.positions();
        let s: HashSet<_> = pos.values().map(|p| frac(p)).collect();
        s.len() == pos.len()
    }
    /// Sizes of the first `k` shells around `v` in the infinite graph.
    pub fn shells(&self, v: u32, k: usize) -> Vec<usize> {
        let out = self.out();
        let mut seen: HashSet<(u32, Vec<i64>)> = HashSet::new();
        let start = (v, vec![0; self.d]);
        seen.insert(start.clone());
        let mut cur = vec![start];
        let mut r = vec![];
        for _ in 0..k {
            let mut next = vec![];
            for (v, s) in &cur {
                for e in &out[v] {
                    let w = (e.1, sadd(s, &e.2));
                    if seen.insert(w.clone()) { next.push(w); }
                }
            }
            r.push(next.len());
            cur = next;
        }
        r
    }
    pub fn lib<T: LabelVector<InputCS>>(&self) -> Graph<T, InputCS> {
        Graph::new(&self.e.iter().map(ledge).collect::<Vec<_>>())
    }
}

/// Solves by Gauss-Jordan elimination with exact division; `None` on overflow
/// or if singular.
fn fraction_free(m: &Vec<Vec<i128>>, n: usize) -> Option<QM> {
    let mut m = m.clone();
    let w = m[0].len();
    let mut prev = 1i128;
    for k in 0..n {
        let p = (k..n).find(|&i| m[i][k] != 0)?;
        m.swap(k, p);
        let pivot = m[k].clone();
        for i in 0..n {
            if i == k { continue; }
            let f = m[i][k];
            for j in 0..w {
                let a = m[i][j].checked_mul(pivot[k])?;
                let b = pivot[j].checked_mul(f)?;
                m[i][j] = a.checked_sub(b)? / prev;
            }
        }
        prev = pivot[k];
    }
    Some((0..n).map(|i| m[i][n..].iter()
        .map(|x| Q::new(Z::from(*x), Z::from(m[i][i]))).collect()).collect())
}

pub fn ledge<T: LabelVector<InputCS>>(e: &DE) -> Edge<T, InputCS> {
    Edge::new(e.0, e.1, T::from_vec(&e.2.iter().map(|&x| x as i32).collect::<Vec<_>>()))
}

pub fn oedge<T: LabelVector<InputCS>>(e: &Edge<T, InputCS>) -> DE {
    (e.head, e.tail, e.shift.to_vec().iter().map(|&x| x as i64).collect())
}

/// The model of a library graph, read off its public queries.
pub fn model<T: LabelVector<InputCS>>(g: &Graph<T, InputCS>) -> Pg {
    let mut es: BTreeSet<DE> = BTreeSet::new();
    for v in g.vertices() {
        for e in g.incidences(&v) { es.insert(undirected(&oedge(&e))); }
    }
    Pg { d: T::dim(), e: es.into_iter().collect() }
}

// ------------------------------------------------------ isomorphisms

/// A structure-preserving map of periodic graphs modulo lattices.
#[derive(Clone, Debug)]
pub struct Iso {
    pub m: QM,
    pub v: BTreeMap<u32, u32>,
    pub e: BTreeMap<DE, DE>,
}

/// Whole numbers wide enough for the coordinates at hand.
pub trait Whole: Clone + Eq + Ord + std::hash::Hash + Signed + std::iter::Sum {
    fn big(&self) -> Z;
}
impl Whole for i128 { fn big(&self) -> Z { Z::from(*self) } }
impl Whole for Z { fn big(&self) -> Z { self.clone() } }

fn m2<N: Whole>(a: &N, b: &N, c: &N, d: &N) -> N {
    a.clone() * b.clone() - c.clone() * d.clone()
}

fn idet_n<N: Whole>(m: &[Vec<N>]) -> N {
    match m.len() {
        1 => m[0][0].clone(),
        2 => m2(&m[0][0], &m[1][1], &m[0][1], &m[1][0]),
        3 => (0..3).map(|i| m[0][i].clone() * m2(&m[1][(i + 1) % 3], &m[2][(i + 2) % 3],
            &m[1][(i + 2) % 3], &m[2][(i + 1) % 3])).sum(),
        _ => unreachable!()
    }
}

/// Transposed adjugate: `adjt[i]` has product det with row i, 0 with others.
fn adjt<N: Whole>(m: &[Vec<N>]) -> Vec<Vec<N>> {
    if m.len() == 2 {
        return vec![vec![m[1][1].clone(), -m[1][0].clone()], vec![-m[0][1].clone(), m[0][0].clone()]];
    }
    let cross = |a: &Vec<N>, b: &Vec<N>| -> Vec<N> { (0..3).map(|i|
        m2(&a[(i + 1) % 3], &b[(i + 2) % 3], &a[(i + 2) % 3], &b[(i + 1) % 3])).collect() };
    vec![cross(&m[1], &m[2]), cross(&m[2], &m[0]), cross(&m[0], &m[1])]
}

fn iapply<N: Whole>(m: &[Vec<N>], v: &Vec<N>) -> Vec<N> {
    m.iter().map(|r| r.iter().zip(v).map(|(a, b)| a.clone() * b.clone()).sum()).collect()
}

/// Numerators of all edge vectors over a common denominator.
fn scaled(ps: [&Pg; 2]) -> Vec<BTreeMap<DE, Vec<Z>>> {
    let mut den = Z::from(1);
    let mut r = vec![];
    for p in ps {
        let pos = p.positions();
        let m: BTreeMap<DE, Vec<Q>> = p.out().into_values().flatten()
            .map(|e| { let x = p.vector(&pos, &e); (e, x) }).collect();
        for x in m.values().flatten() { den = num_integer::lcm(den, x.denom().clone()); }
        r.push(m);
    }
    let den = Q::from(den);
    let conv = |x: &Q| (x * &den).to_integer();
    r.iter().map(|m| m.iter().map(|(e, x)|
        (e.clone(), x.iter().map(conv).collect())).collect()).collect()
}

/// All isomorphisms between two connected, locally stable graphs, found by
/// trying every image of d independent edges.
pub fn isomorphisms(a: &Pg, b: &Pg, first_only: bool) -> Vec<Iso> {
    if a.d != b.d || a.edges().len() != b.edges().len()
        || a.vertices().len() != b.vertices().len() { return vec![]; }
    let sc = scaled([a, b]);
    // products of three coordinates and sums of a few of these occur
    if sc.iter().flat_map(|m| m.values()).flatten().all(|x| x.bits() <= 32) {
        let f = |m: &BTreeMap<DE, Vec<Z>>| -> BTreeMap<DE, Vec<i128>> {
            m.iter().map(|(e, x)| (e.clone(),
                x.iter().map(|x| i128::try_from(x.clone()).unwrap()).collect())).collect()
        };
        isomorphisms_in(a, b, &f(&sc[0]), &f(&sc[1]), first_only)
    } else {
        isomorphisms_in(a, b, &sc[0], &sc[1], first_only)
    }
}

fn isomorphisms_in<N: Whole>(
    a: &Pg, b: &Pg, va: &BTreeMap<DE, Vec<N>>, vb: &BTreeMap<DE, Vec<N>>, first_only: bool
) -> Vec<Iso> {
    let mut res = vec![];
    let d = a.d;
    let (oa, ob) = (a.out(), b.out());
    let count = |m: &BTreeMap<DE, Vec<N>>| {
        let mut r: HashMap<Vec<N>, usize> = HashMap::new();
        for x in m.values() { *r.entry(x.clone()).or_insert(0) += 1; }
        r
    };
    let (ca, cb) = (count(va), count(vb));
    let at: BTreeMap<u32, HashMap<Vec<N>, DE>> = ob.iter().map(|(v, es)|
        (*v, es.iter().map(|e| (vb[e].clone(), e.clone())).collect())).collect();

    // d independent edge vectors of a with few candidates as images
    let mut freq: HashMap<usize, usize> = HashMap::new();
    for n in cb.values() { *freq.entry(*n).or_insert(0) += 1; }
    let mut order: Vec<&Vec<N>> = ca.keys().collect();
    order.sort_by_key(|x| (freq.get(&ca[*x]).cloned().unwrap_or(0), (*x).clone()));
    let mut basis: Vec<Vec<N>> = vec![];
    let mut rows: QM = vec![];
    for x in order {
        let mut t = rows.clone();
        t.push(x.iter().map(|c| Q::from(c.big())).collect());
        if rank(&t) == t.len() { rows = t; basis.push(x.clone()); }
        if basis.len() == d { break; }
    }
    assert_eq!(basis.len(), d, "edge vectors do not span");
    let dt = idet_n(&basis);
    let adj = adjt(&basis);
    let images: Vec<Vec<Vec<N>>> = basis.iter().map(|x| {
        let k = ca[x];
        let mut r: Vec<Vec<N>> = cb.iter().filter(|(_, n)| **n == k).map(|(y, _)| y.clone()).collect();
        r.sort();
        r
    }).collect();

    let mut linear: Vec<Vec<Vec<N>>> = vec![];
    let mut pick = vec![0usize; d];
    if images.iter().any(|i| i.is_empty()) { return res; }
    'outer: loop {
        let img: Vec<&Vec<N>> = (0..d).map(|i| &images[i][pick[i]]).collect();
        // m = sum of img_k (as column) times adj_k (as row), over dt
        let mut ok = true;
        let mut m = vec![vec![N::zero(); d]; d];
        'm: for r in 0..d { for c in 0..d {
            let x: N = (0..d).map(|k| img[k][r].clone() * adj[k][c].clone()).sum();
            if !(x.clone() % dt.clone()).is_zero() { ok = false; break 'm; }
            m[r][c] = x / dt.clone();
        } }
        if ok && idet_n(&m).abs().is_one()
            && ca.iter().all(|(x, n)| cb.get(&iapply(&m, x)) == Some(n))
        {
            linear.push(m);
        }
        let mut i = 0;
        loop {
            if i == d { break 'outer; }
            pick[i] += 1;
            if pick[i] < images[i].len() { break; }
            pick[i] = 0;
            i += 1;
        }
    }

    let v0 = a.vertices()[0];
    for m in linear {
        let img: HashMap<&DE, Vec<N>> = va.iter().map(|(e, x)| (e, iapply(&m, x))).collect();
        for w0 in b.vertices() {
            if let Some(iso) = extend(&oa, &at, &img, &m, v0, w0) {
                res.push(iso);
                if first_only { return res; }
            }
        }
    }
    res
}

fn extend<N: Whole>(
    oa: &BTreeMap<u32, Vec<DE>>, at: &BTreeMap<u32, HashMap<Vec<N>, DE>>,
    img: &HashMap<&DE, Vec<N>>, m: &[Vec<N>], v0: u32, w0: u32
) -> Option<Iso> {
    let mut vm = BTreeMap::from([(v0, w0)]);
    let mut em = BTreeMap::new();
    let mut st = vec![v0];
    while let Some(v) = st.pop() {
        let w = vm[&v];
        if oa[&v].len() != at[&w].len() { return None; }
        for e in &oa[&v] {
            let f = at[&w].get(&img[e])?;
            em.insert(e.clone(), f.clone());
            match vm.get(&e.1) {
                Some(t) => if *t != f.1 { return None },
                None => { vm.insert(e.1, f.1); st.push(e.1); }
            }
        }
    }
    let vimg: BTreeSet<_> = vm.values().collect();
    let eimg: BTreeSet<_> = em.values().collect();
    if vimg.len() != vm.len() || eimg.len() != em.len() { return None; }
    let m = m.iter().map(|r| r.iter().map(|x| Q::from(x.big())).collect()).collect();
    Some(Iso { m, v: vm, e: em })
}

pub fn automorphisms(g: &Pg) -> Vec<Iso> { isomorphisms(g, g, false) }

// -------------------------------------------------------- generators

pub fn named() -> Vec<(&'static str, Pg)> {
    let mk = |d: usize, es: &[(u32, u32, &[i64])]| Pg {
        d, e: es.iter().map(|e| (e.0, e.1, e.2.to_vec())).collect()
    };
    vec![
        ("sql", mk(2, &[(1, 1, &[1, 0]), (1, 1, &[0, 1])])),
        ("hcb", mk(2, &[(1, 2, &[0, 0]), (1, 2, &[1, 0]), (1, 2, &[0, 1])])),
        ("hxl", mk(2, &[(1, 1, &[1, 0]), (1, 1, &[0, 1]), (1, 1, &[1, 1])])),
        ("kgm", mk(2, &[(1, 2, &[0, 0]), (1, 2, &[1, 0]), (1, 3, &[0, 0]),
            (1, 3, &[0, 1]), (2, 3, &[0, 0]), (2, 3, &[-1, 1])])),
        ("k4plane", mk(2, &[(1, 2, &[0, 0]), (2, 3, &[0, 0]), (3, 4, &[0, 0]),
            (4, 1, &[0, 0]), (1, 3, &[1, 0]), (2, 4, &[0, 1])])),
        ("pcu", mk(3, &[(1, 1, &[1, 0, 0]), (1, 1, &[0, 1, 0]), (1, 1, &[0, 0, 1])])),
        ("dia", mk(3, &[(1, 2, &[0, 0, 0]), (1, 2, &[1, 0, 0]), (1, 2, &[0, 1, 0]),
            (1, 2, &[0, 0, 1])])),
        ("srs", mk(3, &[(1, 2, &[0, 0, 0]), (1, 3, &[0, 0, 0]), (1, 4, &[0, 0, 0]),
            (2, 3, &[1, 0, 0]), (3, 4, &[0, 1, 0]), (4, 2, &[0, 0, 1])])),
        ("bcu", mk(3, &[(1, 1, &[1, 0, 0]), (1, 1, &[0, 1, 0]), (1, 1, &[0, 0, 1]),
            (1, 1, &[1, 1, 1])])),
        ("fcu", mk(3, &[(1, 1, &[1, 0, 0]), (1, 1, &[0, 1, 0]), (1, 1, &[0, 0, 1]),
            (1, 1, &[1, -1, 0]), (1, 1, &[0, 1, -1]), (1, 1, &[1, 0, -1])])),
        ("hex", mk(3, &[(1, 1, &[1, 0, 0]), (1, 1, &[0, 1, 0]), (1, 1, &[1, 1, 0]),
            (1, 1, &[0, 0, 1])])),
        ("k4space", mk(3, &[(1, 2, &[0, 0, 0]), (2, 3, &[0, 0, 0]), (3, 4, &[0, 0, 0]),
            (4, 1, &[1, 0, 0]), (1, 3, &[0, 1, 0]), (2, 4, &[0, 0, 1])])),
        ("hcb prism", mk(3, &[(1, 2, &[0, 0, 0]), (1, 2, &[1, 0, 0]), (1, 2, &[0, 1, 0]),
            (1, 1, &[0, 0, 1]), (2, 2, &[0, 0, 1])])),
        ("doubled triangle", mk(3, &[(1, 2, &[0, 0, 0]), (1, 2, &[1, 0, 0]), (2, 3, &[0, 0, 0]),
            (2, 3, &[0, 1, 0]), (3, 1, &[0, 0, 0]), (3, 1, &[0, 0, 1])])),
    ]
}

fn gen_shift(g: &mut Gen, d: usize, k: i64) -> Vec<i64> {
    (0..d).map(|_| if g.chance(1, 2) { g.int(-k, k) } else { 0 }).collect()
}

/// Any edge list without trivial loops; quotient may be disconnected.
pub fn gen_any(g: &mut Gen, n: usize, m: usize, k: i64) -> Pg {
    let d = 2 + g.below(2) as usize;
    let e = (0..g.size(1, m)).map(|_| {
        let v = 1 + g.below(n as u64) as u32;
        let w = 1 + g.below(n as u64) as u32;
        let mut s = gen_shift(g, d, k);
        if v == w && s.iter().all(|x| *x == 0) { s[g.below(d as u64) as usize] = 1; }
        (v, w, s)
    }).collect();
    Pg { d, e }
}

/// Connected quotient graph: spanning tree plus extra edges.
pub fn gen_quotient(g: &mut Gen, d: usize, nmax: usize, extra: usize, k: i64) -> Pg {
    let n = g.size(1, nmax);
    let mut e: Vec<DE> = vec![];
    for v in 2..=(n as u32) {
        let w = 1 + g.below(v as u64 - 1) as u32;
        let s = if g.chance(1, 3) { gen_shift(g, d, k) } else { vec![0; d] };
        e.push((w, v, s));
    }
    let low = if n == 1 { 1 } else { 0 };
    for _ in 0..g.size(low, extra) {
        let v = 1 + g.below(n as u64) as u32;
        let w = 1 + g.below(n as u64) as u32;
        let mut s = gen_shift(g, d, k);
        if v == w && s.iter().all(|x| *x == 0) { s[g.below(d as u64) as usize] = 1; }
        e.push((v, w, s));
    }
    Pg { d, e }
}

/// Adds loops or edges until the infinite graph is connected.
pub fn make_connected(p: &mut Pg, g: &mut Gen) {
    let vs = p.vertices();
    for i in 0..p.d {
        if p.connected() { return; }
        let l = p.cycle_lattice(vs[0]);
        let unit: Vec<i64> = (0..p.d).map(|j| (i == j) as i64).collect();
        let u: QM = l.iter().map(|r| r.iter().map(|x| Q::from(x.clone())).collect()).collect();
        if !u.is_empty() && in_lattice(&qm(&vec![unit.clone()])[0], &u) { continue; }
        let v = *g.pick(&vs);
        let w = *g.pick(&vs);
        // gauge: with zero-shift spanning trees the closing shift is the unit
        // vector; in general add the tree path difference
        let pot = p.potential(v);
        let s = ssub(&unit, &ssub(&vec![0; p.d], &pot[&w]));
        let e: DE = (v, w, s);
        if e.0 == e.1 && e.2.iter().all(|x| *x == 0) {
            p.e.push((v, v, unit));
        } else {
            p.e.push(e);
        }
    }
}

impl Pg {
    /// Shift along some path from `v` to each vertex of its component.
    pub fn potential(&self, v: u32) -> BTreeMap<u32, Vec<i64>> {
        let out = self.out();
        let mut pot = BTreeMap::from([(v, vec![0i64; self.d])]);
        let mut qu = VecDeque::from([v]);
        while let Some(v) = qu.pop_front() {
            for e in &out[&v] {
                if !pot.contains_key(&e.1) {
                    let p = sadd(&pot[&v], &e.2);
                    pot.insert(e.1, p);
                    qu.push_back(e.1);
                }
            }
        }
        pot
    }
}

/// The same net in another lattice basis, numbering, choice of vertex
/// representatives and listing of edges.
pub fn represent(g: &mut Gen, p: &Pg, steps: usize) -> Pg {
    let u = gen_unimodular(g, p.d, steps, 2);
    let vs = p.vertices();
    let perm = g.perm(vs.len());
    let spread = g.chance(1, 3);
    let names: BTreeMap<u32, u32> = vs.iter().enumerate().map(|(i, &v)| {
        let k = perm[i] as u32;
        (v, if spread { 3 + 7 * k } else { 1 + k })
    }).collect();
    let shifts: BTreeMap<u32, Vec<i64>> = vs.iter().map(|&v| (v,
        (0..p.d).map(|_| if g.chance(1, 2) { g.int(-2, 2) } else { 0 }).collect()
    )).collect();
    let mut e: Vec<DE> = p.e.iter().map(|(v, w, s)| {
        let s = ssub(&sadd(s, &shifts[w]), &shifts[v]);
        // column convention: new coordinates are u times old ones
        let s: Vec<i64> = u.iter().map(|r| r.iter().zip(&s).map(|(a, b)| a * b).sum()).collect();
        let e = (names[v], names[w], s);
        if g.flip() { reversed(&e) } else { e }
    }).collect();
    e = g.shuffled(&e);
    Pg { d: p.d, e }
}

/// Rows of a random Hermite form with the given determinant range.
pub fn gen_sublattice(g: &mut Gen, d: usize, maxindex: i64) -> IM {
    let mut left = maxindex;
    let mut h = vec![vec![0i64; d]; d];
    for &i in &g.perm(d) {
        let k = g.int(1, left.max(1));
        h[i][i] = k;
        left /= k;
    }
    for i in 0..d {
        for j in (i + 1)..d {
            h[i][j] = g.int(0, h[j][j] - 1);
        }
    }
    h
}

/// Supercell with respect to the sublattice with the given Hermite basis.
pub fn supercell(p: &Pg, h: &IM) -> Pg {
    let d = p.d;
    let mut cosets: Vec<Vec<i64>> = vec![vec![]];
    for i in 0..d {
        cosets = cosets.into_iter().flat_map(|c| (0..h[i][i]).map(move |x| {
            let mut c = c.clone(); c.push(x); c
        })).collect();
    }
    // upper triangular rows: reduce from the first coordinate on
    let reduce = |v: &[i64]| -> (Vec<i64>, Vec<i64>) {
        let mut v = v.to_vec();
        let mut c = vec![0; d];
        for i in 0..d {
            c[i] = v[i].div_euclid(h[i][i]);
            for j in i..d { v[j] -= c[i] * h[i][j]; }
        }
        (v, c)
    };
    let k = cosets.len() as u32;
    let index: BTreeMap<Vec<i64>, u32> =
        cosets.iter().enumerate().map(|(i, c)| (c.clone(), i as u32)).collect();
    let mut e = vec![];
    for (v, w, s) in &p.edges() {
        for c in &cosets {
            let (r, t) = reduce(&sadd(c, s));
            e.push((v * k + index[c], w * k + index[&r], t));
        }
    }
    Pg { d, e }
}

/// Finite groups by multiplication table (element 0 neutral).
fn groups() -> Vec<Vec<Vec<u32>>> {
    let cyc = |n: u32| (0..n).map(|a| (0..n).map(|b| (a + b) % n).collect()).collect();
    let v4 = (0..4u32).map(|a| (0..4u32).map(|b| a ^ b).collect()).collect();
    // S3 as r^i s^j
    let s3 = (0..6u32).map(|a| (0..6u32).map(|b| {
        let (i, j, k, l) = (a % 3, a / 3, b % 3, b / 3);
        (if j == 0 { (i + k) % 3 } else { (i + 3 - k) % 3 }) + 3 * ((j + l) % 2)
    }).collect()).collect();
    vec![cyc(2), cyc(3), v4, cyc(4), s3]
}

/// Regular cover of `p` by a finite group keeping all shifts: a ladder if
/// connected.  Optional rungs between the two sheets of a double cover.
pub fn cover(g: &mut Gen, p: &Pg) -> Pg {
    let gs = groups();
    let t = gs[g.weighted(&[5, 2, 1, 1, 1])].clone();
    let n = t.len() as u32;
    let mut e = vec![];
    for (v, w, s) in p.edges() {
        let x = if g.chance(1, 2) { g.below(n as u64) as usize } else { 0 };
        for a in 0..n {
            e.push((v * n + a, w * n + t[a as usize][x], s.clone()));
        }
    }
    if n == 2 && g.flip() {
        for v in p.vertices() {
            e.push((v * 2, v * 2 + 1, vec![0; p.d]));
        }
    }
    Pg { d: p.d, e }
}

/// Series-parallel network whose number of spanning trees is a multiple of
/// the prime used by the library's linear solver.
pub fn gen_prime_trees(g: &mut Gen) -> Pg {
    const P: i64 = 9999991;
    let d = 2 + g.below(2) as usize;
    let tau = P * g.int(1, 3);
    let start = (tau as f64 / 1.618034) as i64 + g.int(0, 20000);
    // first F from there with a short Euclidean chain
    let chain = |f: i64| -> Option<Vec<bool>> {
        let (mut t, mut f) = (tau, f);
        let mut ops = vec![];
        while (t, f) != (1, 1) {
            if t == f || t <= 0 || f <= 0 || ops.len() > 52 { return None; }
            if t > f { t -= f; ops.push(true); } else { f -= t; ops.push(false); }
        }
        ops.reverse();
        Some(ops)
    };
    let ops = (start..tau).find_map(chain).unwrap();
    let mut e: Vec<DE> = vec![(1, 2, vec![0; d])];
    let mut last = 2;
    let mut used = 0;
    for par in ops {
        if par {
            used += 1;
            let mut s = vec![0; d];
            s[0] = used;
            s[1] = g.int(-2, 2);
            if d == 3 { s[2] = g.int(-2, 2); }
            e.push((1, last, s));
        } else {
            e.push((last, last + 1, vec![0; d]));
            last += 1;
        }
    }
    Pg { d, e }
}

/// Connected periodic graphs of many kinds with at most about `nmax` vertices.
pub fn gen_connected(g: &mut Gen, nmax: usize) -> Pg {
    let d = 2 + g.chance(1, 3) as usize;
    match g.weighted(&[5, 3, 2, 2]) {
        0 => {
            let k = *g.pick(&[1, 1, 2]);
            let mut p = gen_quotient(g, d, nmax, 2 * d, k);
            make_connected(&mut p, g);
            p
        },
        1 => {
            let all = named();
            let i = g.below(all.len() as u64) as usize;
            all[i].1.clone()
        },
        2 => {
            let mut p = if g.flip() {
                let all = named();
                let i = g.below(all.len() as u64) as usize;
                all[i].1.clone()
            } else {
                let mut p = gen_quotient(g, d, 2, d, 1);
                make_connected(&mut p, g);
                p
            };
            let n = p.vertices().len();
            let h = gen_sublattice(g, p.d, (nmax / n).max(1) as i64);
            p = supercell(&p, &h);
            p
        },
        _ => {
            let mut p = gen_quotient(g, d, 2, d, 1);
            make_connected(&mut p, g);
            let p = cover(g, &p);
            one_component(&p)
        }
    }
}

/// Much larger graphs: many vertices, high degrees, many parallel edges, long
/// chains, big supercells, any vertex numbers.  With a connected quotient.
pub fn gen_large(g: &mut Gen, nmax: usize) -> Pg {
    let d = 2 + g.chance(1, 2) as usize;
    let n = g.size(nmax / 2, nmax);
    let zero = vec![0; d];
    let some = |g: &mut Gen| -> Vec<i64> { loop {
        let s: Vec<i64> = (0..d).map(|_| g.int(-4, 4)).collect();
        if s.iter().any(|x| *x != 0) { return s; }
    } };
    let mut p = match g.below(6) {
        0 => { let extra = g.size(d, 2 * n); gen_quotient(g, d, n, extra, 2) },
        1 => {
            // star: one vertex of high degree
            let mut e: Vec<DE> = (0..n as u32).map(|i| (1, 2 + i, some(g))).collect();
            for _ in 0..d { e.push((1, 1, some(g))); }
            if g.flip() { for _ in 0..n / 3 { e.push((1, 1, some(g))); } }
            Pg { d, e }
        },
        2 => {
            // many parallel edges
            let mut e: Vec<DE> = vec![(1, 2, zero.clone()), (2, 3, zero.clone())];
            for _ in 0..n { e.push((1, 2, some(g))); }
            for _ in 0..n / 4 { e.push((3, 2, some(g))); }
            Pg { d, e }
        },
        3 => {
            // long ring with a few chords
            let n = n as u32;
            let mut e: Vec<DE> = (1..n).map(|i| (i, i + 1, zero.clone())).collect();
            e.push((n, 1, some(g)));
            for _ in 0..d + 1 {
                let v = 1 + g.below(n as u64) as u32;
                e.push((v, 1 + g.below(n as u64) as u32, some(g)));
            }
            Pg { d, e }
        },
        4 => {
            // complete graph
            let k = 4 + ((n as f64).sqrt() as u32).min(9);
            let mut e: Vec<DE> = vec![];
            for v in 1..k { for w in v + 1..=k {
                e.push((v, w, if g.chance(1, 3) { some(g) } else { zero.clone() }));
            } }
            Pg { d, e }
        },
        _ => {
            let all = named();
            let p = all[g.below(all.len() as u64) as usize].1.clone();
            let k = (n / p.vertices().len()).max(1) as i64;
            let h = gen_sublattice(g, p.d, k);
            supercell(&p, &h)
        },
    };
    make_connected(&mut p, g);
    represent(g, &p, 2)
}

/// Graphs whose vertices nearly, or exactly, coincide: chains of vertices tied
/// to one ground vertex, along which the displacement decays by a factor at
/// every step, so that it is tiny but not zero at the near end.
pub fn gen_near(g: &mut Gen, longest: usize) -> Pg {
    let d = 2 + g.chance(1, 3) as usize;
    let zero = vec![0; d];
    let unit = |i: usize| -> Vec<i64> { (0..d).map(|j| (i == j) as i64).collect() };
    let some = |g: &mut Gen| -> Vec<i64> { loop {
        let s: Vec<i64> = (0..d).map(|_| g.int(-2, 2)).collect();
        if s.iter().any(|x| *x != 0) { return s; }
    } };
    let mut e: Vec<DE> = (0..d).map(|i| (1, 1, unit(i))).collect();
    let mut next = 2;
    let m = g.size(2, longest);
    let strong = g.flip();
    let ties: Vec<usize> = (0..m).map(|_| if strong { 2 } else { g.weighted(&[1, 4, 2]) }).collect();
    let tie = some(g);
    let pairs = if strong { g.int(1, 6) } else { 1 };
    let far: Vec<Vec<i64>> = (0..g.size(1, 2)).map(|_| some(g)).collect();
    let rails = g.size(1, 3);
    let middle = g.chance(1, 3);
    if middle {
        // a vertex in the middle of a cell edge
        e.push((1, next, zero.clone()));
        e.push((1, next, unit(0)));
        next += 1;
    }
    for r in 0..rails {
        let start = next;
        let m = if r > 0 && g.chance(1, 4) { m - 1 } else { m };
        let base = if middle && g.flip() { 2 } else { 1 };
        for i in 0..m {
            let v = next;
            next += 1;
            if i > 0 { e.push((v - 1, v, zero.clone())); }
            if i == 0 || ties[i] > 0 { e.push((base, v, zero.clone())); }
            if ties[i] == 2 {
                for k in 1..=pairs {
                    let t: Vec<i64> = tie.iter().map(|x| x * k).collect();
                    e.push((base, v, neg(&t)));
                    e.push((base, v, t));
                }
            }
        }
        // the far end is pulled away from the ground vertex
        for s in &far { e.push((base, next - 1, s.clone())); }
        if r > 0 && g.chance(1, 2) {
            // differs from the other chains only far away
            match g.below(3) {
                0 => { e.push((next - 1, next, zero.clone())); next += 1; e.push((base, next - 1, some(g))); },
                1 => e.push((base, next - 1, some(g))),
                _ => { let v = start + g.below(m.max(1) as u64) as u32; e.push((base, v, some(g))); },
            }
        }
    }
    if g.chance(1, 3) {
        // edges nearly as long as a loop
        e.push((1, 2, unit(0)));
        e.push((1, 2, neg(&unit(0))));
    }
    let p = Pg { d, e };
    represent(g, &p, 2)
}

/// Now and then with an edge or two that lead far away.
pub fn stretch(g: &mut Gen, p: &Pg) -> Pg {
    if !g.chance(1, 8) { return p.clone(); }
    let mut p = p.clone();
    for _ in 0..g.size(1, 2) {
        let i = g.below(p.e.len() as u64) as usize;
        let e = &mut p.e[i];
        let k = *g.pick(&[256i64, 32768, 65536, 1 << 20]) * *g.pick(&[1, -1]);
        let c = g.below(e.2.len() as u64) as usize;
        e.2[c] += k;
        let e = e.clone();
        if g.flip() {
            let mut s = e.2.clone();
            for x in &mut s { if x.abs() > 200 { *x = g.int(-2, 2); } }
            if e.0 != e.1 || s.iter().any(|x| *x != 0) { p.e.push((e.0, e.1, s)); }
        }
    }
    p.e.retain(|e| e.0 != e.1 || e.2.iter().any(|x| *x != 0));
    if p.e.is_empty() { p.e.push((1, 1, (0..p.d).map(|i| (i == 0) as i64).collect())); }
    p
}

/// Now and then the same net with vertex representatives, or basis vectors, far
/// from each other, so that labels do not fit into 16 or 24 bits.
pub fn spread(g: &mut Gen, p: &Pg) -> Pg {
    if !g.chance(1, 8) { return p.clone(); }
    let shear = g.chance(1, 3);
    far_apart(g, p, shear)
}

fn far_apart(g: &mut Gen, p: &Pg, shear: bool) -> Pg {
    let k = *g.pick(&[300i64, 40000, 65536, 1 << 20, 1 << 24]);
    let mut p = p.clone();
    if shear {
        let i = g.below(p.d as u64) as usize;
        let j = (i + 1 + g.below(p.d as u64 - 1) as usize) % p.d;
        let top = p.e.iter().map(|e| e.2[j].abs()).max().unwrap_or(0).max(1);
        let f = k.min(1 << 16).min((1 << 26) / top) * *g.pick(&[1, -1]);
        for e in &mut p.e { e.2[i] += f * e.2[j]; }
    }
    let shifts: BTreeMap<u32, Vec<i64>> = p.vertices().into_iter().map(|v| (v,
        (0..p.d).map(|_| match g.below(4) {
            0 => k * *g.pick(&[1, -1]),
            1 => g.int(-k, k),
            _ => 0,
        }).collect()
    )).collect();
    for e in &mut p.e { e.2 = ssub(&sadd(&e.2, &shifts[&e.1]), &shifts[&e.0]); }
    p
}

/// Vertex numbers all over the range.
pub fn rename_far(g: &mut Gen, p: &Pg) -> Pg {
    let far = [0u32, 1, 255, 256, 65535, 65536, 1 << 31, (1 << 31) - 1, u32::MAX - 1, u32::MAX];
    let vs = p.vertices();
    let mut names: Vec<u32> = vec![];
    for _ in &vs {
        loop {
            let x = match g.below(3) {
                0 => *g.pick(&far),
                1 => g.below(1 << 32) as u32,
                _ => g.below(100) as u32,
            };
            if !names.contains(&x) { names.push(x); break; }
        }
    }
    let names: BTreeMap<u32, u32> = vs.into_iter().zip(names).collect();
    Pg { d: p.d, e: p.e.iter().map(|(v, w, s)| (names[v], names[w], s.clone())).collect() }
}

/// The edges of the first component of the quotient graph.
pub fn one_component(p: &Pg) -> Pg {
    let c = p.quotient_components().remove(0);
    Pg { d: p.d, e: p.e.iter().filter(|e| c.contains(&e.0)).cloned().collect() }
}

/// As `gen_connected`, represented at random; `None` unless connected and
/// locally stable.
pub fn gen_symmetric(g: &mut Gen, nmax: usize) -> Pg {
    for k in 0..6 {
        let p = gen_connected(g, nmax);
        if k < 5 && !(p.connected() && p.locally_stable()) { continue; }
        if k == 5 && !(p.connected() && p.locally_stable()) { break; }
        return represent(g, &p, 4);
    }
    named()[0].1.clone()
}
