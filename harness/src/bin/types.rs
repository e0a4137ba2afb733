//! C53: values of different coordinate systems cannot be mixed up. The cases
//! are small programs; the oracle is a typing model of the operations, and the
//! compiler says which of them are accepted.
use std::collections::HashMap;
use std::path::PathBuf;
use std::process::Command;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;

use hx::engine::*;
use hx::ensure;

// Names what the programs need, so that it is built.
#[allow(unused_imports)]
use rust_systre::arithmetic::geometry;
#[allow(unused_imports)]
use num_rational::BigRational;

const PRELUDE: &str = "#![allow(warnings)] use rust_systre::arithmetic::matrices::Matrix; \
use rust_systre::arithmetic::geometry::{Vector, Point, ScalarProduct, AffineMap, CoordinateMap, ModZ}; \
use rust_systre::pgraphs::{Graph, Edge, LabelVector2d, LabelVector3d}; type Q = num_rational::BigRational; \
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)] pub struct A {} \
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)] pub struct B {} \
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)] pub struct C {}";

/// Types: a vector, point, scalar product, affine map, coordinate map, or an
/// untagged number or matrix.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Ty { V(u8), P(u8), S(u8), M(u8), C(u8, u8), Num, Mat }
use Ty::*;

fn tag(t: u8) -> char { (b'A' + t) as char }

impl Ty {
    fn name(&self) -> String {
        match self {
            V(t) => format!("Vector<Q, {}>", tag(*t)),
            P(t) => format!("Point<Q, {}>", tag(*t)),
            S(t) => format!("ScalarProduct<Q, {}>", tag(*t)),
            M(t) => format!("AffineMap<Q, {}>", tag(*t)),
            C(s, t) => format!("CoordinateMap<Q, {}, {}>", tag(*s), tag(*t)),
            Num => "Q".to_string(),
            Mat => "Matrix<Q>".to_string(),
        }
    }
}

/// What an operation yields, if it makes sense.
fn result(op: char, a: Ty, b: Ty) -> Option<Ty> {
    match (op, a, b) {
        ('+', V(s), V(t)) | ('-', V(s), V(t)) if s == t => Some(V(s)),
        ('+', P(s), V(t)) | ('-', P(s), V(t)) if s == t => Some(P(s)),
        ('-', P(s), P(t)) if s == t => Some(V(s)),
        ('*', V(s), Num) | ('/', V(s), Num) => Some(V(s)),
        ('*', M(s), M(t)) if s == t => Some(M(s)),
        ('*', M(s), P(t)) if s == t => Some(P(s)),
        ('*', M(s), V(t)) if s == t => Some(V(s)),
        ('*', C(s, t), P(u)) if s == u => Some(P(t)),
        ('*', C(s, t), V(u)) if s == u => Some(V(t)),
        ('*', C(s, t), S(u)) if s == u => Some(S(t)),
        ('*', C(s, t), M(u)) if s == u => Some(M(t)),
        ('*', C(s, t), C(u, v)) if s == v => Some(C(u, t)),
        _ => None,
    }
}

// ------------------------------------------------------------ compiler

fn deps() -> PathBuf {
    std::env::current_exe().expect("own path").parent().expect("directory").join("deps")
}

fn rlib(name: &str) -> PathBuf {
    let mut found: Vec<_> = std::fs::read_dir(deps()).expect("dependencies")
        .filter_map(|e| e.ok()).map(|e| e.path())
        .filter(|p| {
            let f = p.file_name().unwrap().to_string_lossy().to_string();
            f.starts_with(&format!("lib{}-", name)) && f.ends_with(".rlib")
        })
        .filter_map(|p| Some((std::fs::metadata(&p).ok()?.modified().ok()?, p)))
        .collect();
    found.sort();
    found.pop().unwrap_or_else(|| { println!("no {} library", name); std::process::exit(2) }).1
}

static NEXT: AtomicUsize = AtomicUsize::new(0);

/// The lines with errors, if the given functions are compiled together.
fn bad_lines(lines: &[String]) -> Vec<usize> {
    let base = std::env::temp_dir().join(format!(
        "verif-types-{}-{}", std::process::id(), NEXT.fetch_add(1, Ordering::Relaxed)));
    std::fs::create_dir_all(&base).expect("scratch directory");
    let src = base.join("case.rs");
    std::fs::write(&src, format!("{}\n{}\n", PRELUDE, lines.join("\n"))).expect("source");
    let out = Command::new("rustc")
        .args(["--edition", "2021", "--crate-type", "lib", "--emit", "metadata",
            "--error-format", "short", "-o"])
        .arg(base.join("case.rmeta"))
        .arg("-L").arg(format!("dependency={}", deps().display()))
        .arg("--extern").arg(format!("rust_systre={}", rlib("rust_systre").display()))
        .arg("--extern").arg(format!("num_rational={}", rlib("num_rational").display()))
        .arg("--extern").arg(format!("num_traits={}", rlib("num_traits").display()))
        .arg(&src).output().expect("rustc");
    let _ = std::fs::remove_dir_all(&base);
    let text = String::from_utf8_lossy(&out.stderr).to_string();
    let mut bad: Vec<usize> = text.lines().filter(|l| l.contains(": error"))
        .filter_map(|l| {
            let k = l.find("case.rs:")?;
            l[k + 8..].split(':').next()?.parse::<usize>().ok()
        }).collect();
    bad.sort();
    bad.dedup();
    if bad.first() == Some(&1) || (bad.is_empty() && !out.status.success()) {
        println!("cannot compile the cases: {}", text.lines().take(5).collect::<Vec<_>>().join("\n"));
        std::process::exit(2);
    }
    bad.into_iter().map(|k| k - 2).collect()
}

/// Which of the functions compile. An error may hide others, so those without
/// one are compiled again until none is left.
fn compile(lines: &[String]) -> Vec<bool> {
    let mut good: Vec<usize> = (0..lines.len()).collect();
    loop {
        let these: Vec<String> = good.iter().map(|&k| lines[k].clone()).collect();
        let bad = bad_lines(&these);
        if bad.is_empty() { break; }
        good = good.iter().enumerate().filter(|(i, _)| !bad.contains(i)).map(|(_, k)| *k).collect();
        if good.is_empty() { break; }
    }
    (0..lines.len()).map(|k| good.contains(&k)).collect()
}

/// Compiles many functions in batches.
fn compile_all(lines: &[String]) -> HashMap<String, bool> {
    let r = Mutex::new(HashMap::new());
    let chunks: Vec<&[String]> = lines.chunks(60).collect();
    let next = AtomicUsize::new(0);
    std::thread::scope(|s| {
        for _ in 0..8 {
            s.spawn(|| loop {
                let k = next.fetch_add(1, Ordering::Relaxed);
                if k >= chunks.len() { break; }
                let ok = compile(chunks[k]);
                let mut m = r.lock().unwrap();
                for (l, o) in chunks[k].iter().zip(ok) { m.insert(l.clone(), o); }
            });
        }
    });
    r.into_inner().unwrap()
}

// --------------------------------------------------------------- cases

/// A program and what is known about it.
#[derive(Clone, Debug, PartialEq)]
enum Expect {
    /// must not compile
    Rejected,
    /// must compile
    Accepted,
    /// if it compiles, the second one does as well, else neither
    Like(String),
}

#[derive(Clone, Debug)]
struct Case { program: String, expect: Expect }

fn singles() -> Vec<Case> {
    let kinds = [V(0), V(1), P(0), P(1), S(0), S(1), M(0), M(1), C(0, 1), C(1, 0), C(1, 2), C(0, 0), Num, Mat];
    let mut r = vec![];
    let mut n = 0;
    let mut add = |program: String, expect: Expect| r.push(Case { program, expect });
    for a in kinds { for b in kinds {
        if matches!(a, Num | Mat) && matches!(b, Num | Mat) { continue; }
        for op in ['+', '-', '*', '/'] { for (ra, rb) in [("", ""), ("", "&"), ("&", ""), ("&", "&")] {
            n += 1;
            let f = |body: &str, ret: &str| format!(
                "pub fn f{}(a: {}, b: {}){} {{ {} }}", n, a.name(), b.name(), ret, body);
            let free = f(&format!("let _ = {}a {} {}b;", ra, op, rb), "");
            match result(op, a, b) {
                None => add(free, Expect::Rejected),
                Some(t) => {
                    let typed = f(&format!("{}a {} {}b", ra, op, rb), &format!(" -> {}", t.name()));
                    // both owned or both borrowed operands are supported throughout
                    let sure = ra == rb;
                    add(typed.clone(), if sure { Expect::Accepted } else { Expect::Like(free) });
                },
            }
        } }
        for op in ['+', '-', '*', '/'] { for rb in ["", "&"] {
            n += 1;
            let free = format!("pub fn f{}(mut a: {}, b: {}) {{ a {}= {}b; }}", n, a.name(), b.name(), op, rb);
            if result(op, a, b) != Some(a) { add(free, Expect::Rejected); }
        } }
        n += 1;
        let eq = format!("pub fn f{}(a: {}, b: {}) -> bool {{ a == b }}", n, a.name(), b.name());
        add(eq, if a == b { Expect::Accepted } else { Expect::Rejected });
        n += 1;
        if a != b && a != Mat && b != Mat {
            add(format!("pub fn f{}(a: {}) -> {} {{ a.into() }}", n, a.name(), b.name()), Expect::Rejected);
            add(format!("pub fn g{}(a: {}) -> {} {{ a }}", n, a.name(), b.name()), Expect::Rejected);
        }
    } }
    let say = |ok: bool| if ok { Expect::Accepted } else { Expect::Rejected };
    for s in 0..3u8 { for t in 0..3u8 {
        let (ts, tt) = (tag(s), tag(t));
        n += 1;
        add(format!("pub fn m{}(m: Matrix<Q>, v: Vector<Q, {}>) {{ AffineMap::<Q, {}>::new(&m, &v); }}", n, ts, tt), say(s == t));
        add(format!("pub fn n{}(m: AffineMap<Q, {}>) -> Vector<Q, {}> {{ m.shift() }}", n, ts, tt), say(s == t));
        add(format!("pub fn i{}(m: AffineMap<Q, {}>) -> Option<AffineMap<Q, {}>> {{ m.inverse() }}", n, ts, tt), say(s == t));
        add(format!("pub fn z{}(m: AffineMap<Q, {}>) -> AffineMap<Q, {}> {{ m.mod_z() }}", n, ts, tt), say(s == t));
        add(format!("pub fn zv{}(m: Vector<Q, {}>) -> Vector<Q, {}> {{ m.mod_z() }}", n, ts, tt), say(s == t));
        add(format!("pub fn neg{}(m: Vector<Q, {}>) -> Vector<Q, {}> {{ -m }}", n, ts, tt), say(s == t));
        add(format!("pub fn rneg{}(m: Vector<Q, {}>) -> Vector<Q, {}> {{ -&m }}", n, ts, tt), say(s == t));
        add(format!("pub fn la{}(a: LabelVector2d<{}>, b: LabelVector2d<{}>) {{ let _ = a + b; }}", n, ts, tt), say(s == t));
        add(format!("pub fn ls{}(a: LabelVector2d<{}>, b: LabelVector2d<{}>) {{ let _ = a - b; }}", n, ts, tt), say(s == t));
        add(format!("pub fn lb{}(a: LabelVector3d<{}>, b: LabelVector3d<{}>) {{ let _ = a + b; }}", n, ts, tt), say(s == t));
        add(format!("pub fn lt{}(a: LabelVector3d<{}>, b: LabelVector3d<{}>) {{ let _ = a - b; }}", n, ts, tt), say(s == t));
        add(format!("pub fn le{}(a: LabelVector3d<{}>, b: LabelVector3d<{}>) {{ let _ = a == b; }}", n, ts, tt), say(s == t));
        add(format!("pub fn gn{}(e: &[Edge<LabelVector2d<{}>, {}>]) {{ Graph::new(e); }}", n, ts, tt), say(s == t));
        add(format!("pub fn go{}(e: &[Edge<LabelVector3d<{}>, {}>]) {{ Graph::new(e); }}", n, ts, tt), say(s == t));
        for u in 0..3u8 {
            let tu = tag(u);
            n += 1;
            add(format!("pub fn a{}(s: ScalarProduct<Q, {}>, u: Vector<Q, {}>, v: Vector<Q, {}>) -> Q {{ s.apply(&u, &v) }}", n, ts, tt, tu),
                say(s == t && t == u));
            add(format!("pub fn c{}(m: AffineMap<Q, {}>) -> CoordinateMap<Q, {}, {}> {{ CoordinateMap::new(&m) }}", n, ts, tt, tu), say(s == t));
            add(format!("pub fn fw{}(c: CoordinateMap<Q, {}, {}>) -> AffineMap<Q, {}> {{ c.forward() }}", n, ts, tt, tu), say(s == u));
            add(format!("pub fn tb{}(b: &[Vector<Q, {}>]) -> CoordinateMap<Q, {}, {}> {{ CoordinateMap::to_basis(b) }}", n, ts, tt, tu), say(s == t));
            add(format!("pub fn fb{}(b: &[Vector<Q, {}>]) -> CoordinateMap<Q, {}, {}> {{ CoordinateMap::from_basis(b) }}", n, ts, tt, tu), say(s == u));
            for w in 0..3u8 {
                n += 1;
                add(format!("pub fn inv{}(c: CoordinateMap<Q, {}, {}>) -> CoordinateMap<Q, {}, {}> {{ c.inverse() }}", n, ts, tt, tu, tag(w)),
                    say(s == w && t == u));
            }
        }
    } }
    r
}

fn check(c: &Case, verdict: impl Fn(&str) -> bool) -> Outcome {
    let ok = verdict(&c.program);
    match &c.expect {
        Expect::Rejected => ensure!(!ok, "compiles, but mixes coordinate systems"),
        Expect::Accepted => ensure!(ok, "does not compile, although its types fit"),
        Expect::Like(free) => {
            let free_ok = verdict(free);
            ensure!(ok == free_ok, "compiles only with another result type: {}", free);
        },
    }
    Ok(())
}

// --------------------------------------------------------- expressions

#[derive(Clone, Debug)]
enum Ex {
    Leaf(Ty),
    Op(char, Box<Ex>, Box<Ex>),
    Neg(Box<Ex>), Shift(Box<Ex>), Forward(Box<Ex>), Inverse(Box<Ex>), Mod(Box<Ex>),
    Apply(Box<Ex>, Box<Ex>, Box<Ex>),
}

fn gen_ex(g: &mut Gen, t: Ty, depth: usize) -> Ex {
    let sub = |g: &mut Gen, t: Ty| Box::new(gen_ex(g, t, depth - 1));
    let any = |g: &mut Gen| g.below(3) as u8;
    if depth == 0 || g.chance(1, 6) { return Ex::Leaf(t); }
    let op = |g: &mut Gen, o: char, a: Ty, b: Ty| { let x = sub(g, a); Ex::Op(o, x, sub(g, b)) };
    match t {
        V(t) => match g.below(9) {
            0 => op(g, '+', V(t), V(t)),
            1 => op(g, '-', V(t), V(t)),
            2 => op(g, '-', P(t), P(t)),
            3 => op(g, '*', V(t), Num),
            4 => op(g, '/', V(t), Num),
            5 => Ex::Neg(sub(g, V(t))),
            6 => op(g, '*', M(t), V(t)),
            7 => { let s = any(g); op(g, '*', C(s, t), V(s)) },
            _ => if g.flip() { Ex::Shift(sub(g, M(t))) } else { Ex::Mod(sub(g, V(t))) },
        },
        P(t) => match g.below(4) {
            0 => op(g, '+', P(t), V(t)),
            1 => op(g, '-', P(t), V(t)),
            2 => op(g, '*', M(t), P(t)),
            _ => { let s = any(g); op(g, '*', C(s, t), P(s)) },
        },
        M(t) => match g.below(5) {
            0 => op(g, '*', M(t), M(t)),
            1 => { let s = any(g); op(g, '*', C(s, t), M(s)) },
            2 => { let s = any(g); Ex::Forward(sub(g, C(t, s))) },
            3 => Ex::Inverse(sub(g, M(t))),
            _ => Ex::Mod(sub(g, M(t))),
        },
        S(t) => { let s = any(g); op(g, '*', C(s, t), S(s)) },
        C(s, t) => match g.below(2) {
            0 => { let m = any(g); op(g, '*', C(m, t), C(s, m)) },
            _ => Ex::Inverse(sub(g, C(t, s))),
        },
        Num => { let s = any(g); let a = sub(g, S(s)); let u = sub(g, V(s)); Ex::Apply(a, u, sub(g, V(s))) },
        Mat => Ex::Leaf(Mat),
    }
}

impl Ex {
    fn ty(&self) -> Option<Ty> {
        Some(match self {
            Ex::Leaf(t) => *t,
            Ex::Op(o, a, b) => result(*o, a.ty()?, b.ty()?)?,
            Ex::Neg(a) => match a.ty()? { V(t) => V(t), _ => return None },
            Ex::Shift(a) => match a.ty()? { M(t) => V(t), _ => return None },
            Ex::Forward(a) => match a.ty()? { C(s, _) => M(s), _ => return None },
            Ex::Inverse(a) => match a.ty()? { C(s, t) => C(t, s), M(t) => M(t), _ => return None },
            Ex::Mod(a) => match a.ty()? { V(t) => V(t), M(t) => M(t), _ => return None },
            Ex::Apply(s, u, v) => match (s.ty()?, u.ty()?, v.ty()?) {
                (S(a), V(b), V(c)) if a == b && b == c => Num,
                _ => return None,
            },
        })
    }

    fn leaves(&mut self) -> Vec<&mut Ty> {
        match self {
            Ex::Leaf(t) => vec![t],
            Ex::Op(_, a, b) => { let mut r = a.leaves(); r.extend(b.leaves()); r },
            Ex::Neg(a) | Ex::Shift(a) | Ex::Forward(a) | Ex::Inverse(a) | Ex::Mod(a) => a.leaves(),
            Ex::Apply(a, b, c) => { let mut r = a.leaves(); r.extend(b.leaves()); r.extend(c.leaves()); r },
        }
    }

    fn text(&self, args: &mut Vec<Ty>) -> String {
        match self {
            Ex::Leaf(t) => { args.push(*t); format!("x{}", args.len()) },
            Ex::Op(o, a, b) => { let x = a.text(args); format!("(&{} {} &{})", x, o, b.text(args)) },
            Ex::Neg(a) => format!("(-&{})", a.text(args)),
            Ex::Shift(a) => format!("{}.shift()", a.text(args)),
            Ex::Forward(a) => format!("{}.forward()", a.text(args)),
            // only affine maps may lack an inverse
            Ex::Inverse(a) => {
                let t = a.text(args);
                match a.ty() { Some(M(_)) => format!("{}.inverse().unwrap()", t), _ => format!("{}.inverse()", t) }
            },
            Ex::Mod(a) => format!("{}.mod_z()", a.text(args)),
            Ex::Apply(a, b, c) => {
                let x = a.text(args); let y = b.text(args);
                format!("{}.apply(&{}, &{})", x, y, c.text(args))
            },
        }
    }

    fn program(&self, t: Ty) -> String {
        let mut args = vec![];
        let body = self.text(&mut args);
        let list: Vec<String> = args.iter().enumerate()
            .map(|(i, a)| format!("x{}: {}", i + 1, a.name())).collect();
        format!("pub fn f({}) -> {} {{ {} }}", list.join(", "), t.name(), body)
    }
}

fn c53(h: &mut Harness) {
    h.rule("Every operator between any two of the types, with operands owned \
        or borrowed, every assignment, comparison and conversion, and every \
        method that takes or returns tagged values, over three coordinate \
        systems; and random well-typed expressions, each with and without one \
        operand moved to another system. The compiler decides, a typing model \
        is the oracle. Non-trivial: at least two tagged operands.");
    let cases = singles();
    let mut lines: Vec<String> = vec![];
    for c in &cases {
        lines.push(c.program.clone());
        if let Expect::Like(f) = &c.expect { lines.push(f.clone()); }
    }
    // names must not clash within a batch
    let lines_unique: Vec<String> = lines.iter().enumerate()
        .map(|(i, l)| l.replacen("pub fn ", &format!("pub fn z{}_", i), 1)).collect();
    let verdicts = compile_all(&lines_unique);
    let table: HashMap<&String, bool> = lines.iter().zip(&lines_unique)
        .map(|(l, u)| (l, verdicts[u])).collect();
    let sure = cases.iter().filter(|c| c.expect == Expect::Accepted).count();
    h.note_exhaustive(&format!("single operations: {} programs, {} of them well-typed", cases.len(), sure));
    h.sub("single operations", cases.len() as u64, cases.len() as u64, cases.clone(),
        |g| cases[g.below(cases.len() as u64) as usize].clone(),
        |c, o| {
            o.nontrivial(c.program.matches("Q, ").count() >= 2);
            o.label(match c.expect { Expect::Rejected => "rejected", Expect::Accepted => "accepted", _ => "optional" });
            check(c, |p| table[&p.to_string()])
        });
    h.sub("expressions", 320, 8000, vec![],
        |g| {
            let s = g.below(3) as u8;
            let t = match g.below(6) { 0 => V(s), 1 => P(s), 2 => M(s), 3 => S(s), 4 => C(s, g.below(3) as u8), _ => Num };
            let depth = g.size(1, 4);
            let e = gen_ex(g, t, depth);
            let mut x = e.clone();
            {
                let mut l = x.leaves();
                let k = g.below(l.len() as u64) as usize;
                let d = 1 + g.below(2) as u8;
                let l = &mut *l[k];
                *l = match *l {
                    V(a) => V((a + d) % 3), P(a) => P((a + d) % 3), S(a) => S((a + d) % 3),
                    M(a) => M((a + d) % 3),
                    C(a, b) => if g.flip() { C((a + d) % 3, b) } else { C(a, (b + d) % 3) },
                    t => t,
                };
            }
            let fits = x.ty() == Some(t);
            (e.program(t), x.program(t), fits)
        },
        |(good, other, fits), o| {
            o.nontrivial(good.matches("Q, ").count() >= 3);
            o.label_if(!fits, "with a mixed-up counterpart");
            ensure!(compile(&[good.clone()])[0], "does not compile, although its types fit: {}", good);
            ensure!(compile(&[other.clone()])[0] == *fits, "{}: {}",
                if *fits { "does not compile, although its types fit" } else { "compiles, but mixes coordinate systems" }, other);
            Ok(())
        });
}

fn main() {
    hx::engine::main(&[("C53", c53)]);
}
