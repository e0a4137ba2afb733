//! C52: no use of the safe interface touches memory wrongly.
//!
//! Operation sequences on graphs and partitions run in this process, which is
//! built with the address sanitizer (a wrong access aborts it, and the parent
//! finds the case), and, fewer and smaller, in the Miri interpreter, which
//! also sees broken aliasing rules and data races.
use std::cell::Cell;
use std::collections::BTreeSet;
use std::hash::{Hash, Hasher};
use std::cmp::Ordering;
use std::marker::PhantomData;
use std::ops::{Add, Neg, Sub};
use std::panic::{catch_unwind, AssertUnwindSafe};

use hx::engine::*;
use hx::ensure;
use rust_systre::partitions::Partition;
use rust_systre::pgraphs::*;

// ------------------------------------------------------------- labels

thread_local! { static FUSE: Cell<u32> = Cell::new(0); }

/// Counts down to a panic, if armed.
fn tick() {
    FUSE.with(|f| {
        let n = f.get();
        if n > 0 {
            f.set(n - 1);
            if n == 1 { panic!("label operation fails"); }
        }
    })
}

/// A label of any dimension whose operations can be made to fail.
#[derive(Clone, Copy, Debug)]
struct L<const D: usize>([i32; D]);

impl<const D: usize> PartialEq for L<D> {
    fn eq(&self, o: &Self) -> bool { tick(); self.0 == o.0 }
}
impl<const D: usize> Eq for L<D> {}
impl<const D: usize> Hash for L<D> {
    fn hash<H: Hasher>(&self, h: &mut H) { tick(); self.0.hash(h) }
}
impl<const D: usize> PartialOrd for L<D> {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> { Some(self.cmp(o)) }
}
impl<const D: usize> Ord for L<D> {
    fn cmp(&self, o: &Self) -> Ordering { tick(); self.0.cmp(&o.0) }
}
impl<const D: usize> Neg for L<D> {
    type Output = Self;
    fn neg(self) -> Self { tick(); L(self.0.map(|x| -x)) }
}
impl<const D: usize> Add for L<D> {
    type Output = Self;
    fn add(self, o: Self) -> Self { tick(); L(std::array::from_fn(|i| self.0[i] + o.0[i])) }
}
impl<const D: usize> Sub for L<D> {
    type Output = Self;
    fn sub(self, o: Self) -> Self { tick(); L(std::array::from_fn(|i| self.0[i] - o.0[i])) }
}
impl<const D: usize> LabelVector<InputCS> for L<D> {
    fn dim() -> usize { D }
    fn zero() -> Self { L([0; D]) }
    fn is_zero(&self) -> bool { self.0.iter().all(|x| *x == 0) }
    fn is_negative(&self) -> bool { tick(); self.0 < [0; D] }
    fn is_positive(&self) -> bool { tick(); self.0 > [0; D] }
    fn to_vec(&self) -> Vec<i32> { tick(); self.0.to_vec() }
    fn from_vec(v: &[i32]) -> Self { tick(); L(v.try_into().expect("dimension")) }
}
impl<const D: usize> std::fmt::Display for L<D> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        tick();
        write!(f, "{:?}", self.0)
    }
}

// -------------------------------------------------------------- cases

#[derive(Clone, PartialEq)]
struct Case { dim: usize, edges: Vec<[i32; 5]>, ops: Vec<[u8; 3]> }

const NAMES: [&str; 20] = ["vertices", "incidences", "position", "position_normalized",
    "edge_vector", "edge_by_unique_delta", "directed_edges", "is_stable", "is_locally_stable",
    "has_second_order_collisions", "sequence", "advance", "is_connected", "print",
    "shift_normalized", "symmetries", "vertex_orbits", "edge_orbits", "component",
    "no_such_vertex"];

impl std::fmt::Debug for Case {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "[{}d:", self.dim)?;
        for e in &self.edges { write!(f, " {}-{}{:?}", e[0], e[1], &e[2..2 + self.dim])?; }
        write!(f, "]")?;
        for o in &self.ops {
            write!(f, " {}({})", NAMES[o[0] as usize], o[1])?;
            if o[2] > 0 { write!(f, "!{}", o[2])?; }
        }
        Ok(())
    }
}

fn encode(c: &Case) -> String {
    let mut v = vec![c.dim as i32, c.edges.len() as i32];
    for e in &c.edges { v.extend(e); }
    for o in &c.ops { v.extend(o.iter().map(|x| *x as i32)); }
    v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")
}

fn decode(t: &str) -> Case {
    let v: Vec<i32> = t.split(',').map(|x| x.parse().expect("number")).collect();
    let n = v[1] as usize;
    Case {
        dim: v[0] as usize,
        edges: v[2..2 + 5 * n].chunks(5).map(|c| c.try_into().unwrap()).collect(),
        ops: v[2 + 5 * n..].chunks(3).map(|c| [c[0] as u8, c[1] as u8, c[2] as u8]).collect(),
    }
}

type G<const D: usize> = Graph<L<D>, InputCS>;
type E<const D: usize> = Edge<L<D>, InputCS>;

#[derive(Clone)]
enum Val<const D: usize> {
    Vertices(Vec<u32>), Edges(Vec<E<D>>), Point(Point), Vector(Vector), Edge(Option<E<D>>),
    Bool(bool), Text(String), Symmetries(Vec<Automorphism<L<D>, InputCS>>),
    Orbits(Vec<Vec<u32>>), EdgeOrbits(Vec<Vec<E<D>>>), Sizes(Vec<usize>),
    Measures((usize, usize, Option<i32>)), Panic,
}

impl<const D: usize> Val<D> {
    fn same(&self, o: &Self) -> bool {
        use Val::*;
        match (self, o) {
            (Vertices(a), Vertices(b)) => a == b,
            (Edges(a), Edges(b)) => a == b,
            (Point(a), Point(b)) => a == b,
            (Vector(a), Vector(b)) => a == b,
            (Edge(a), Edge(b)) => a == b,
            (Bool(a), Bool(b)) => a == b,
            (Text(a), Text(b)) => a == b,
            (Symmetries(a), Symmetries(b)) => a.len() == b.len()
                && a.iter().all(|x| b.iter().any(|y| x == y)),
            (Orbits(a), Orbits(b)) => a == b,
            (EdgeOrbits(a), EdgeOrbits(b)) => a == b,
            (Sizes(a), Sizes(b)) => a == b,
            (Measures(a), Measures(b)) => a == b,
            (Panic, Panic) => true,
            _ => false,
        }
    }
}

/// The answer to one question; `ends` are the ends of the stored edges.
fn ask<const D: usize>(g: &G<D>, c: &Case, op: &[u8; 3]) -> Val<D> {
    let k = op[1] as usize;
    let edge = |i: usize| {
        let e = &c.edges[i % c.edges.len()];
        let s = L(std::array::from_fn(|j| e[2 + j]));
        let e = Edge::new(e[0] as u32, e[1] as u32, s);
        if (i / c.edges.len()) % 2 == 1 { -&e } else { e }
    };
    let v = edge(k).head;
    // these insist on locally stable graphs
    let fit = || g.is_connected() && g.is_locally_stable();
    match NAMES[op[0] as usize] {
        "vertices" => Val::Vertices(g.vertices()),
        "incidences" => Val::Edges(g.incidences(&v)),
        "position" => Val::Point(g.position(&v)),
        "position_normalized" => Val::Point(g.position_normalized(&v)),
        "edge_vector" => Val::Vector(g.edge_vector(&edge(k))),
        "edge_by_unique_delta" => {
            let d = g.edge_vector(&edge(k / 3));
            Val::Edge(g.edge_by_unique_delta(&v, &d))
        },
        "directed_edges" => Val::Edges(g.directed_edges()),
        "is_stable" => Val::Bool(g.is_stable()),
        "is_locally_stable" => Val::Bool(g.is_locally_stable()),
        "has_second_order_collisions" => Val::Bool(g.has_second_order_collisions()),
        "sequence" | "advance" => Val::Sizes(g.coordination_sequence(&v).take(2).collect()),
        "is_connected" => Val::Bool(g.is_connected()),
        "print" => Val::Text(g.to_string()),
        "shift_normalized" => {
            let h = g.shift_normalized();
            let _ = h.incidences(&v);
            Val::Edges(h.directed_edges())
        },
        "symmetries" => if fit() { Val::Symmetries(g.symmetries()) } else { Val::Bool(false) },
        "vertex_orbits" => if fit() { Val::Orbits(g.vertex_orbits()) } else { Val::Bool(false) },
        "edge_orbits" => if fit() { Val::EdgeOrbits(g.edge_orbits()) } else { Val::Bool(false) },
        "component" => Val::Measures(graph_component_measures(g, &v)),
        _ => Val::Edges(g.incidences(&1000)),
    }
}

fn guarded<T>(fuse: u8, f: impl FnOnce() -> T) -> Option<T> {
    FUSE.with(|x| x.set(fuse as u32 * fuse as u32));
    let r = catch_unwind(AssertUnwindSafe(f));
    FUSE.with(|x| x.set(0));
    r.ok()
}

fn fresh<const D: usize>(c: &Case) -> G<D> {
    Graph::new(&c.edges.iter().map(|e| Edge::new(e[0] as u32, e[1] as u32,
        L(std::array::from_fn(|j| e[2 + j])))).collect::<Vec<_>>())
}

/// Keeps all answers, and looks at them once more when everything is done.
fn run<const D: usize>(c: &Case) -> Outcome where Probe<G<D>>: Shared<G<D>> {
    let g: G<D> = fresh(c);
    let mut kept: Vec<(usize, Val<D>)> = vec![];
    let mut live = vec![];
    for (i, op) in c.ops.iter().enumerate() {
        match NAMES[op[0] as usize] {
            "sequence" => {
                let v = c.edges[op[1] as usize % c.edges.len()][0] as u32;
                live.push((i, g.coordination_sequence(&v), vec![]));
            },
            "advance" => if !live.is_empty() {
                let k = op[1] as usize % live.len();
                match guarded(op[2], || live[k].1.next()) {
                    Some(x) => live[k].2.push(x),
                    None => { let _ = live.remove(k); },
                }
            },
            _ => match guarded(op[2], || ask(&g, c, op)) {
                Some(v) => kept.push((i, v)),
                None => if op[2] == 0 { kept.push((i, Val::Panic)) },
            },
        }
    }
    for (i, v) in &kept {
        let op = [c.ops[*i][0], c.ops[*i][1], 0];
        let again = guarded(0, || ask(&g, c, &op)).unwrap_or(Val::Panic);
        ensure!(again.same(v), "step {}, {}, has another answer in the end", i, NAMES[op[0] as usize]);
        if cfg!(miri) { continue; }
        let new = guarded(0, || ask(&fresh::<D>(c), c, &op)).unwrap_or(Val::Panic);
        ensure!(new.same(v), "step {}, {}, has another answer in a new graph", i, NAMES[op[0] as usize]);
    }
    for (i, _, taken) in live {
        let v = c.edges[c.ops[i][1] as usize % c.edges.len()][0] as u32;
        let h = fresh::<D>(c);
        let want: Vec<_> = h.coordination_sequence(&v).take(taken.len()).map(Some).collect();
        ensure!(taken == want, "sequence started in step {} gives {:?} instead of {:?}", i, taken, want);
    }
    shared(&Probe(PhantomData::<G<D>>), &|| fresh::<D>(c), &|g: &G<D>| {
        for op in &c.ops {
            if !matches!(NAMES[op[0] as usize], "sequence" | "advance") {
                let _ = catch_unwind(AssertUnwindSafe(|| ask(g, c, op)));
            }
        }
    });
    Ok(())
}

fn run_case(c: &Case) -> Outcome {
    match c.dim { 1 => run::<1>(c), 2 => run::<2>(c), _ => run::<3>(c) }
}

// ------------------------------------------------------------- sharing

/// Tells whether a type may be shared between threads.
struct Probe<T>(PhantomData<T>);

trait Unshared<T> {
    fn with_threads(&self, _make: &dyn Fn() -> T, _use_it: &dyn Fn(&T)) -> bool { false }
}
impl<T> Unshared<T> for &Probe<T> {}
impl<T: Sync> Probe<T> {
    #[allow(dead_code)]
    fn with_threads(&self, make: &dyn Fn() -> T, use_it: &dyn Fn(&T)) -> bool {
        struct Share<X>(X);
        unsafe impl<X> Sync for Share<X> {}
        let (t, f) = (make(), Share(use_it));
        let f = &f;
        let t = &t;
        for _ in 0..3 {
            std::thread::scope(|s| {
                for _ in 0..3 { s.spawn(move || { let f = f; (f.0)(t) }); }
            });
        }
        true
    }
}

/// Runs something in several threads at once where the types allow that.
trait Shared<T> { fn go(&self, make: &dyn Fn() -> T, use_it: &dyn Fn(&T)) -> bool; }

macro_rules! shared_for {
    ($($t:ty),*) => { $(
        impl Shared<$t> for Probe<$t> {
            fn go(&self, make: &dyn Fn() -> $t, use_it: &dyn Fn(&$t)) -> bool {
                (&Probe(PhantomData::<$t>)).with_threads(make, use_it)
            }
        }
    )* };
}
shared_for!(G<1>, G<2>, G<3>, Partition<String>);

fn shared<T>(p: &Probe<T>, make: &dyn Fn() -> T, use_it: &dyn Fn(&T)) -> bool
    where Probe<T>: Shared<T>
{
    p.go(make, use_it)
}

// ---------------------------------------------------------- partitions

/// Steps on a partition of words, against a list of classes.
fn run_partition(steps: &[(u8, u8, u8)]) -> Outcome {
    let mut p: Partition<String> = Partition::new();
    let word = |k: u8| format!("word number {}", k);
    let all: Vec<String> = (0..8).map(word).collect();
    let mut model: Vec<u8> = (0..8).collect();
    let mut kept: Vec<(String, u8)> = vec![];
    let mut classes = vec![];
    for (what, a, b) in steps {
        match what {
            0 => {
                p.unite(&word(*a), &word(*b));
                let (x, y) = (model[*a as usize], model[*b as usize]);
                for m in &mut model { if *m == x { *m = y; } }
            },
            1 => {
                let r = p.find(&word(*a));
                ensure!(all.contains(&r), "unknown representative {:?}", r);
                kept.push((r, *a));
            },
            _ => classes.push(p.classes(&all)),
        }
    }
    for (r, a) in &kept {
        let k = all.iter().position(|w| w == r);
        ensure!(k.map_or(false, |k| model[k] == model[*a as usize]),
            "{:?} represented {:?}", r, word(*a));
    }
    for cs in &classes {
        let n: usize = cs.iter().map(|c| c.len()).sum();
        let d: BTreeSet<&String> = cs.iter().flatten().collect();
        ensure!(n == 8 && d.len() == 8, "classes {:?}", cs);
        for c in cs {
            ensure!(c.iter().map(|w| model[all.iter().position(|x| x == w).unwrap()])
                .collect::<BTreeSet<_>>().len() == 1, "class {:?}", c);
        }
    }
    shared(&Probe(PhantomData::<Partition<String>>), &|| {
        let mut p = Partition::new();
        for (_, a, b) in steps { p.unite(&word(*a), &word(*b)); }
        p
    }, &|p| {
        for (what, a, _) in steps {
            match what {
                0 | 1 => { let _ = p.find(&word(*a)); },
                _ => { let _ = p.classes(&all); },
            }
        }
    });
    Ok(())
}

// ---------------------------------------------------------- generators

fn gen_case(g: &mut Gen, dim: usize, vmax: usize, extra: usize, ops: usize, heavy: bool) -> Case {
    let n = g.size(1, vmax) as i32;
    let mut edges: Vec<[i32; 5]> = vec![];
    let lab = |g: &mut Gen, k: i64| -> [i32; 3] {
        std::array::from_fn(|j| if j < dim { g.int(-k, k) as i32 } else { 0 })
    };
    for v in 2..=n {
        let w = 1 + g.below(v as u64 - 1) as i32;
        let s = lab(g, 1);
        edges.push([w, v, s[0], s[1], s[2]]);
    }
    // usually enough for full rank
    for j in 0..dim {
        let (v, w) = (1 + g.below(n as u64) as i32, 1 + g.below(n as u64) as i32);
        let mut s = [0; 3];
        s[j] = 1;
        if g.chance(7, 8) { edges.push([v, w, s[0], s[1], s[2]]); }
    }
    for _ in 0..g.size(0, extra) {
        let (v, w) = (1 + g.below(n as u64) as i32, 1 + g.below(n as u64) as i32);
        let s = lab(g, 2);
        edges.push([v, w, s[0], s[1], s[2]]);
    }
    edges.retain(|e| e[0] != e[1] || e[2..] != [0; 3]);
    if edges.is_empty() { edges.push([1, 1, 1, 0, 0]); }
    let heavy = heavy && edges.len() <= dim + 2;
    let ops = g.vec(1, ops, |g| {
        let k = loop {
            let k = g.below(NAMES.len() as u64) as u8;
            if heavy || !(15..=17).contains(&k) { break k; }
            if !g.chance(1, 2) { break k - 15; }
        };
        [k, g.below(40) as u8, if g.chance(1, 6) { g.size(1, 15) as u8 } else { 0 }]
    });
    Case { dim, edges, ops }
}

fn gen_steps(g: &mut Gen, n: usize) -> Vec<(u8, u8, u8)> {
    g.vec(1, n, |g| (g.weighted(&[3, 4, 1]) as u8, g.below(8) as u8, g.below(8) as u8))
}

fn case_labels(c: &Case, o: &mut Obs) {
    o.nontrivial(c.ops.len() >= 3);
    o.label_if(c.ops.iter().any(|x| x[2] > 0), "with a failing label operation");
    let live = c.ops.iter().filter(|x| NAMES[x[0] as usize] == "sequence").count();
    o.label_if(live >= 2, "several sequences at once");
    o.label_if(c.ops.iter().any(|x| NAMES[x[0] as usize] == "symmetries"), "asks for symmetries");
}

/// Runs a case in the Miri interpreter.
fn interpret(arg: &str) -> Outcome {
    let out = std::process::Command::new("cargo")
        .args(["+nightly", "miri", "run", "--offline", "--locked", "-q", "--bin", "memory", "--", "--case", arg])
        .current_dir("/verif/harness")
        .env("CARGO_TARGET_DIR", "/verif/target/miri")
        .env("RUSTFLAGS", "-Znext-solver=coherence")
        .env("RUST_BACKTRACE", "0")
        .output().expect("cargo miri");
    let (so, se) = (String::from_utf8_lossy(&out.stdout), String::from_utf8_lossy(&out.stderr));
    if so.lines().any(|l| l == "CASE OK") && out.status.success() { return Ok(()); }
    if let Some(l) = so.lines().find(|l| l.starts_with("CASE FAILS")) { return Err(l.to_string()); }
    if let Some(l) = se.lines().find(|l| l.contains("Undefined Behavior")) {
        let at = se.lines().find(|l| l.trim_start().starts_with("-->")).unwrap_or("");
        return Err(format!("{} {}", l.trim(), at.trim()));
    }
    if so.lines().any(|l| l == "CASE STARTED") {
        return Err(format!("the interpreter ends with {}: {}", out.status, se.lines().take(6).collect::<Vec<_>>().join(" | ")));
    }
    println!("cannot run the interpreter: {} {}", so, se);
    std::process::exit(2);
}

fn c52(h: &mut Harness) {
    h.rule("Sequences of questions to one graph in dimensions 1-3 (all public \
        queries, live coordination sequences advanced in between, unknown \
        vertices, label operations that panic at a chosen moment), and of \
        operations on one partition; every answer is kept and compared at the \
        end with the graph asked again and with a new graph. They run under \
        the address sanitizer and, in one dimension, in the Miri interpreter \
        (tree borrows), from several threads where the types allow that. \
        Non-trivial: at least three operations.");
    h.assume("labels and partition elements do not call back into the graph or \
        partition they are stored in");
    h.sub("graphs", 4000, 400000, vec![],
        |g| { let d = *g.pick(&[1, 1, 2, 2, 3]);
            let heavy = g.chance(1, 3);
            gen_case(g, d, 4, 3, 14, heavy) },
        |c, o| { case_labels(c, o); run_case(c) });
    h.sub("partitions", 20000, 500000, vec![],
        |g| gen_steps(g, 30),
        |c, o| { o.nontrivial(c.len() >= 3); run_partition(c) });
    h.sub("interpreted graphs", 24, 900,
        vec![
            Case { dim: 1, edges: vec![[1, 1, 1, 0, 0]], ops: vec![[5, 0, 0], [5, 1, 0]] },
            Case { dim: 1, edges: vec![[1, 2, 0, 0, 0], [1, 2, 1, 0, 0]],
                ops: vec![[15, 0, 0], [4, 1, 0], [0, 0, 0]] },
            Case { dim: 1, edges: vec![[1, 2, 0, 0, 0], [1, 2, 1, 0, 0]],
                ops: (0..13).rev().map(|k| [k, k, 0]).collect() },
        ],
        |g| { let heavy = g.chance(1, 4); gen_case(g, 1, 2, 1, 8, heavy) },
        |c, o| { case_labels(c, o); interpret(&encode(c)) });
    h.sub("interpreted partitions", 8, 200, vec![],
        |g| gen_steps(g, 16),
        |c, o| {
            o.nontrivial(c.len() >= 3);
            interpret(&format!("p{}", c.iter().map(|s| format!("{},{},{}", s.0, s.1, s.2))
                .collect::<Vec<_>>().join(",")))
        });
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() == 3 && a[1] == "--case" {
        println!("CASE STARTED");
        std::panic::set_hook(Box::new(|_| {}));
        let r = if let Some(t) = a[2].strip_prefix('p') {
            let v: Vec<u8> = t.split(',').map(|x| x.parse().unwrap()).collect();
            run_partition(&v.chunks(3).map(|c| (c[0], c[1], c[2])).collect::<Vec<_>>())
        } else {
            run_case(&decode(&a[2]))
        };
        match r {
            Ok(()) => println!("CASE OK"),
            Err(m) => println!("CASE FAILS: {}", m),
        }
        return;
    }
    hx::engine::main(&[("C52", c52)]);
}
