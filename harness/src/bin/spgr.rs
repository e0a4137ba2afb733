//! C30, C32-C39: space groups, operator texts, space group tables.
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::io::{self, Read};

use hx::engine::*;
use hx::la::*;
use hx::ops::*;
use hx::{ensure, ensure_eq};

use num_rational::Ratio;
use num_traits::{One, Signed, Zero};
use rust_systre::arithmetic::geometry::{AffineMap, CoordinateMap};
use rust_systre::arithmetic::matrices::Matrix;
use rust_systre::spacegroups::basics::{
    generate, gram_matrix_configuration_space, shift_space
};
use rust_systre::spacegroups::parse_operator::parse_operator;
use rust_systre::spacegroups::parse_table::{parse_space_group_table, Tables};
use rust_systre::spacegroups::types::{Centering, CrystalSystem};

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct W {}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct X {}

fn main() {
    hx::engine::main(&[
        ("C30", c30), ("C32", c32), ("C33", c33), ("C34", c34), ("C35", c35),
        ("C36", c36), ("C37", c37), ("C38", c38), ("C39", c39),
    ]);
}

// ---------------------------------------------------------------- C30

fn c30_test(gens: &[Op], order: &[usize], turn: &[Vec<i64>], o: &mut Obs) -> Outcome {
    let want = match closure(gens, 1000) { Some(w) => w, None => return Ok(()) };
    let n = want.len();
    o.nontrivial(n >= 4);
    o.label_if(n >= 24, "24 or more operators");
    o.label_if(n >= 192, "192 or more operators");
    o.label_if(gens.len() >= 10, "10 or more generators");
    let d = gens[0].dim();
    o.label_if(d == 3, "three dimensions");
    o.label_if(want.iter().filter(|x| x.is_translation()).count() > 1, "centring translations");
    let second: Vec<Op> = order.iter().map(|&i| {
        let mut x = gens[i].clone();
        for (a, b) in x.s.iter_mut().zip(&turn[i]) { *a += q(*b); }
        x
    }).collect();
    for (gs, what) in [(gens, "generators"), (&second[..], "reordered and shifted generators")] {
        let l: Vec<AffineMap<Q, W>> = gs.iter().map(|x| x.lib()).collect();
        let got = sut(|| generate(&l))?;
        let set: BTreeSet<Op> = got.iter().map(|a| Op::read(a).mod1()).collect();
        ensure_eq!(set.len(), got.len(), "{}: distinct operators modulo translations", what);
        ensure!(set == want, "{}: {} operators instead of {}, e.g. {:?}", what, set.len(), n,
            set.symmetric_difference(&want).next());
    }
    Ok(())
}

fn c30(h: &mut Harness) {
    h.boost(2);
    h.rule("Generators with linear parts from random subgroups of the \
        holohedries, shifts in (1/N)Z, centring translations, origin shift and \
        random lattice basis, dimensions 1-3; the reference is an independent \
        closure; now and then with up to 25 redundant generators, or a \
        translation of order up to 400. Non-trivial: at least 4 operators.");
    h.assume("integral linear parts and finite index, at most 1000 operators");
    h.sub("closure", 1200, 40000, vec![],
        |g| {
            let d = g.weighted(&[1, 3, 4]) + 1;
            let mut gens = gen_group(g, d);
            if g.chance(1, 10) {
                // generators that add nothing, or fine translations
                if g.flip() {
                    for _ in 0..g.size(1, 25) {
                        let k = g.below(gens.len() as u64) as usize;
                        let l = g.below(gens.len() as u64) as usize;
                        let mut x = gens[k].after(&gens[l]);
                        if g.chance(1, 3) { x = x.mod1(); }
                        if x.s.iter().any(|v| v.abs() > q(50)) { x = x.mod1(); }
                        gens.push(x);
                    }
                    gens = g.shuffled(&gens);
                } else {
                    let k = g.int(5, 400);
                    gens.truncate(1);
                    gens.push(Op { m: identity(d), s: (0..d).map(|i|
                        if i == 0 { qf(g.int(1, k), k) } else { Q::zero() }).collect() });
                }
            }
            let order = g.perm(gens.len());
            let turn: Vec<Vec<i64>> = gens.iter().map(|_|
                (0..d).map(|_| g.int(-3, 3)).collect()).collect();
            (gens, order, turn)
        },
        |(gens, order, turn), o| c30_test(gens, order, turn, o));
}

// ----------------------------------------------------------- C32, C33

/// Operator lists that need not generate a group.
fn gen_ops(g: &mut Gen) -> Vec<Op> {
    if g.flip() {
        let d = g.weighted(&[1, 3, 4]) + 1;
        return gen_group(g, d);
    }
    let d = g.weighted(&[1, 3, 4, 1]) + 1;
    let u = qm(&gen_unimodular(g, d, 3, 2));
    let n = g.larger(1, 3, 40);
    let few = n > 3;
    (0..n).map(|_| {
        let m = match if few { g.weighted(&[3, 3, 1]) } else { g.weighted(&[2, 3, 2, 2, 1]) } {
            0 => identity(d),
            1 => {
                // sign changes
                let mut m = identity(d);
                for i in 0..d { if g.flip() { m[i][i] = q(-1); } }
                conj(&u, &m)
            },
            2 => {
                // a shear or scaling
                let mut m = identity(d);
                let (i, j) = (g.below(d as u64) as usize, g.below(d as u64) as usize);
                m[i][j] += qf(g.int(-2, 2), *g.pick(&[1, 2]));
                conj(&u, &m)
            },
            3 => {
                // rational rotation in a coordinate plane
                let mut m = identity(d);
                if d >= 2 {
                    let i = g.below(d as u64 - 1) as usize;
                    let (c, s) = (qf(3, 5), qf(4, 5));
                    m[i][i] = c.clone(); m[i + 1][i + 1] = c;
                    m[i][i + 1] = -s.clone(); m[i + 1][i] = s;
                }
                m
            },
            _ => qm(&gen_dense(g, d, d, 2)),
        };
        Op { m, s: (0..d).map(|_| qf(g.int(-2, 2), 4)).collect() }
    }).collect()
}

fn columns(m: &Option<Matrix<Q>>, nrows: usize) -> Result<QM, String> {
    match m {
        None => Ok(vec![]),
        Some(m) => {
            let u = unlibq(m);
            ensure_eq!(u.len(), nrows, "rows of the result");
            Ok(transpose(&u))
        }
    }
}

fn same_space(got: &QM, want: &QM, none: bool, what: &str) -> Outcome {
    ensure_eq!(none, want.is_empty(), "{} reported as absent", what);
    ensure!(rank(got) == got.len(), "columns of the {} are dependent: {:?}", what, got);
    ensure_eq!(got.len(), want.len(), "dimension of the {}", what);
    let mut both = got.clone();
    both.extend(want.iter().cloned());
    ensure!(rank(&both) == want.len(), "{} is {:?} instead of {:?}", what, got, want);
    Ok(())
}

fn pairs(d: usize) -> Vec<(usize, usize)> {
    (0..d).flat_map(|i| (i..d).map(move |j| (i, j))).collect()
}

fn c32_test(ops: &[Op], o: &mut Obs) -> Outcome {
    let d = ops[0].dim();
    let ps = pairs(d);
    // linear system from the images of the unit symmetric matrices
    let mut rows: QM = vec![];
    for op in ops {
        let st = transpose(&op.m);
        let imgs: Vec<QM> = ps.iter().map(|&(i, j)| {
            let mut e = vec![vec![Q::zero(); d]; d];
            e[i][j] = q(1);
            e[j][i] = q(1);
            let f = mul(&mul(&st, &e), &op.m);
            (0..d).map(|a| (0..d).map(|b| &f[a][b] - &e[a][b]).collect()).collect()
        }).collect();
        for a in 0..d { for b in 0..d {
            rows.push(imgs.iter().map(|f| f[a][b].clone()).collect());
        } }
    }
    let want = null_basis(&rows, ps.len());
    o.label_if(want.is_empty(), "no invariant form");
    o.label_if(want.len() == ps.len(), "all forms invariant");
    o.label_if(d == 3, "three dimensions");
    o.nontrivial(!want.is_empty() && want.len() < ps.len());
    let l: Vec<AffineMap<Q, W>> = ops.iter().map(|x| x.lib()).collect();
    let got = sut(|| gram_matrix_configuration_space(&l))?;
    let cols = columns(&got, ps.len())?;
    same_space(&cols, &want, got.is_none(), "Gram matrix space")?;
    if let Some(grp) = (if ops.iter().all(|x| x.integral() && (det(&x.m) == q(1) || det(&x.m) == q(-1))) {
        closure(&ops.iter().map(|x| Op { m: x.m.clone(), s: vec![Q::zero(); d] }).collect::<Vec<_>>(), 100)
    } else { None }) {
        // average of the standard form over the group: positive definite
        let mut f = vec![vec![Q::zero(); d]; d];
        for x in &grp {
            let y = mul(&transpose(&x.m), &x.m);
            for a in 0..d { for b in 0..d { f[a][b] += &y[a][b]; } }
        }
        o.label("finite group");
        let v: Vec<Q> = ps.iter().map(|&(i, j)| f[i][j].clone()).collect();
        let mut both = cols.clone();
        both.push(v);
        ensure!(rank(&both) == cols.len(), "the averaged form is not in the Gram matrix space");
    }
    Ok(())
}

fn c32(h: &mut Harness) {
    h.boost(12);
    h.rule("Generators of space groups in any basis (dimensions 1-3) and lists \
        of reflections, shears, scalings, rational rotations and dense matrices \
        (dimensions 1-4); the reference is the null space of an independent \
        linear system. Non-trivial: a proper non-zero subspace.");
    h.sub("gram", 3000, 80000, vec![], gen_ops, |ops, o| c32_test(ops, o));
}

fn c33_test(ops: &[Op], o: &mut Obs) -> Outcome {
    let d = ops[0].dim();
    let mut rows: QM = vec![];
    for op in ops {
        for i in 0..d {
            rows.push((0..d).map(|j| if i == j { &op.m[i][j] - Q::one() } else { op.m[i][j].clone() }).collect());
        }
    }
    let want = null_basis(&rows, d);
    o.label_if(want.is_empty(), "nothing fixed");
    o.label_if(want.len() == d, "everything fixed");
    o.nontrivial(!want.is_empty() && want.len() < d);
    let l: Vec<AffineMap<Q, W>> = ops.iter().map(|x| x.lib()).collect();
    let got = sut(|| shift_space(&l))?;
    let cols = columns(&got, d)?;
    same_space(&cols, &want, got.is_none(), "shift space")
}

fn c33(h: &mut Harness) {
    h.boost(30);
    h.rule("Operators as in C32; the reference is the intersection of the fixed \
        spaces of the linear parts. Non-trivial: a proper non-zero subspace.");
    h.sub("shift", 4000, 100000, vec![], gen_ops, |ops, o| c33_test(ops, o));
}

// ---------------------------------------------------------------- C34

type Parsed = (Vec<Vec<Ratio<i32>>>, Vec<Ratio<i32>>);

fn pop(p: &Parsed) -> Op {
    let f = |x: &Ratio<i32>| qf(*x.numer() as i64, *x.denom() as i64);
    Op { m: p.0.iter().map(|r| r.iter().map(f).collect()).collect(),
        s: p.1.iter().map(f).collect() }
}

fn gen_op(g: &mut Gen) -> Op {
    let d = g.size(1, 3);
    let k = *g.pick(&[1, 1, 3, 99]);
    let mut c = |g: &mut Gen, zero: u64| {
        if g.chance(zero, 4) { return Q::zero(); }
        qf(g.int(-k, k), if g.chance(1, 4) { g.int(1, 12) } else { 1 })
    };
    Op {
        m: (0..d).map(|_| (0..d).map(|_| c(g, 2)).collect()).collect(),
        s: (0..d).map(|_| c(g, 2)).collect(),
    }
}

/// Text that cannot continue an operator.
fn gen_rest(g: &mut Gen) -> String {
    if g.flip() { return String::new(); }
    let first = *g.pick(&[';', '#', 'a', ')', '"', '\n', 'X', '.', '=', 'é', '_', '\u{a0}']);
    let mut s = String::from(first);
    for _ in 0..g.size(0, 6) {
        s.push(*g.pick(&['x', 'y', ',', ' ', '1', '/', '+', '*', 'b', '\n', '\t', 'ß']));
    }
    s
}

fn same_map(op: &Op, got: &Parsed, text: &str) -> Outcome {
    let d = op.dim();
    ensure!(got.0.len() == d && got.1.len() == d && got.0.iter().all(|r| r.len() == d),
        "{:?} read with shape {}x{:?}+{}", text, got.0.len(),
        got.0.iter().map(|r| r.len()).collect::<Vec<_>>(), got.1.len());
    ensure_eq!(pop(got), *op, "reading {:?}", text);
    Ok(())
}

fn c34(h: &mut Harness) {
    h.boost(30);
    h.rule("Random maps in 1-3 dimensions rendered with random term order, \
        repeated and split terms, unreduced fractions, signs, multiplication \
        signs and spacing, followed by nothing or foreign text; large single \
        numbers. Non-trivial: at least two non-zero coefficients.");
    h.assume("numbers of at most 9 digits; sums that stay within 32 bits; only \
        blanks and tabs are spacing; no spacing around '*'");
    h.sub("render", 12000, 300000,
        vec![],
        |g| { let op = gen_op(g); let t = render(g, &op); (op, t, gen_rest(g)) },
        |(op, t, rest), o| {
            o.nontrivial(op.m.iter().flatten().filter(|x| !x.is_zero()).count() >= 2);
            o.label_if(t.contains('*'), "with multiplication sign");
            o.label_if(t.contains(' ') || t.contains('\t'), "with spacing");
            o.label_if(!rest.is_empty(), "text after the operator");
            o.label_if(op.dim() == 3, "three dimensions");
            o.label_if(t.len() > 100, "more than 100 bytes");
            // the harness's own reader agrees with the renderer
            match denote(t) {
                Denotes::Map { op: p, sure } => {
                    assert_eq!(p, *op, "harness reads {:?} differently", t);
                    if !sure { return Ok(()); }
                },
                Denotes::Nothing => panic!("harness does not read {:?}", t),
            }
            let text = format!("{}{}", t, rest);
            match sut(|| parse_operator(&text).map(|(r, p)| (r.to_string(), p)))? {
                Ok((r, p)) => {
                    ensure_eq!(r, *rest, "text handed back for {:?}", text);
                    same_map(op, &p, &text)?;
                },
                Err(e) => return Err(format!("{:?} is rejected: {}", text, e)),
            }
            if rest.is_empty() {
                match sut(|| AffineMap::<Q, W>::from_string(t))? {
                    Some(a) => ensure_eq!(Op::read(&a), *op, "map read from {:?}", t),
                    None => return Err(format!("map {:?} is rejected", t)),
                }
                let c = sut(|| CoordinateMap::<Q, W, X>::from_string(t))?;
                match (c, det(&op.m).is_zero()) {
                    (None, true) => {},
                    (Some(c), false) => ensure_eq!(Op::read(&sut(|| c.forward())?), *op,
                        "transform read from {:?}", t),
                    (c, _) => return Err(format!("transform {:?}: accepted {}", t, c.is_some())),
                }
            }
            Ok(())
        });
    h.sub("large", 2000, 50000, vec![],
        |g| {
            let d = g.size(1, 3);
            let big = |g: &mut Gen| {
                let digits = g.size(1, 9) as u32;
                g.int(1, 10i64.pow(digits) - 1)
            };
            let mut coords = vec![];
            let mut op = Op { m: vec![vec![Q::zero(); d]; d], s: vec![Q::zero(); d] };
            for i in 0..d {
                let (n, m) = (big(g), big(g));
                let frac = g.flip();
                let v = if frac { qf(n, m) } else { q(n) };
                let neg = g.flip();
                let k = g.below(d as u64 + 1) as usize;
                let t = if frac { format!("{}/{}", n, m) } else { format!("{}", n) };
                let a = if k < d { ["x", "y", "z"][k] } else { "" };
                let v = if neg { -v } else { v };
                coords.push(format!("{}{}{}", if neg { "-" } else { "" }, t, a));
                if k < d { op.m[i][k] = v } else { op.s[i] = v }
            }
            (op, coords.join(","))
        },
        |(op, t), o| {
            o.nontrivial(true);
            match sut(|| parse_operator(t).map(|(r, p)| (r.to_string(), p)))? {
                Ok((r, p)) => { ensure_eq!(r, "", "rest of {:?}", t); same_map(op, &p, t) },
                Err(e) => Err(format!("{:?} is rejected: {}", t, e)),
            }
        });
}

// ---------------------------------------------------------------- C35

fn gen_text(g: &mut Gen) -> String {
    match g.weighted(&[5, 5, 2, 1]) {
        0 => {
            // a text with some characters changed
            let op = gen_op(g);
            let mut t: Vec<char> = render(g, &op).chars().collect();
            for _ in 0..g.size(1, 3) {
                let k = g.below(t.len() as u64 + 1) as usize;
                let c = *g.pick(&['x', 'y', 'z', 'w', '0', '1', '/', '*', '+', '-', ',',
                    ' ', '\t', '\n', 'X', '.', 'a', 'é', '٣', '\u{a0}']);
                match g.below(3) {
                    0 => t.insert(k, c),
                    1 => if k < t.len() { t.remove(k); },
                    _ => if k < t.len() { t[k] = c; },
                }
                if t.is_empty() { break; }
            }
            t.into_iter().collect()
        },
        1 => {
            // a random sequence of tokens
            let tok = ["x", "y", "z", "1", "2", "0", "12", "/", "/0", "1/2", "*", "+", "-", ",",
                " ", "999999999", "1000000000", "2147483648", "99999999999999999999", "1/999999999",
                "1/999999998", ",,", "+-", "- ", "\t", "0/1", "x*2", "2*x", "(", "\n", "\r"];
            let n = g.larger(0, 10, 150);
            (0..n).map(|_| *g.pick(&tok)).collect()
        },
        2 => {
            // sums of fractions at the edge of the number range
            let n = g.larger(1, 5, 80);
            (0..n).map(|_| {
                let s = *g.pick(&["+", "-", "+", ",", "+ "]);
                let a = g.skewed(999999999).abs();
                let b = g.skewed(999999999).abs();
                let axis = *g.pick(&["", "x", "*x", "y"]);
                if g.flip() { format!("{}{}/{}{}", s, a, b, axis) } else { format!("{}{}{}", s, a, axis) }
            }).collect::<String>().trim_start_matches(',').to_string()
        },
        _ => (0..g.larger(0, 8, 200)).map(|_|
            char::from_u32(g.below(0x3000) as u32).unwrap_or('?')).collect(),
    }
}

fn c35_test(t: &str, o: &mut Obs) -> Outcome {
    let d = denote(t);
    o.label_if(matches!(d, Denotes::Nothing), "denotes nothing");
    o.label_if(matches!(d, Denotes::Map { sure: false, .. }), "denotes a map, doubtful");
    o.label_if(matches!(d, Denotes::Map { sure: true, .. }), "denotes a map");
    o.nontrivial(t.len() >= 2);
    match sut(|| parse_operator(t).map(|(r, p)| (r.to_string(), p)))? {
        Ok((r, p)) => {
            o.label_if(!r.is_empty(), "partly read");
            ensure!(t.ends_with(&r), "rest {:?} of {:?}", r, t);
            let head = &t[..t.len() - r.len()];
            match denote(head) {
                Denotes::Map { op, .. } => same_map(&op, &p, head)?,
                Denotes::Nothing => return Err(format!(
                    "{:?} (of {:?}) denotes nothing, but is read as {:?}", head, t, pop(&p))),
            }
        },
        Err(_) => {}
    }
    let op = match &d { Denotes::Map { op, .. } => Some(op.clone()), _ => None };
    if let Some(a) = sut(|| AffineMap::<Q, W>::from_string(t))? {
        ensure_eq!(Some(Op::read(&a)), op, "map read from {:?}", t);
    }
    let c = sut(|| CoordinateMap::<Q, W, X>::from_string(t))?;
    if let Some(c) = c {
        ensure_eq!(Some(Op::read(&sut(|| c.forward())?)), op, "transform read from {:?}", t);
        ensure!(!det(&op.unwrap().m).is_zero(), "singular transform {:?} accepted", t);
    } else if let Denotes::Map { op, sure: true } = &d {
        ensure!(det(&op.m).is_zero(), "transform {:?} rejected", t);
    }
    Ok(())
}

fn c35(h: &mut Harness) {
    h.boost(36);
    h.rule("Mutated operator texts, token sequences, sums at the edge of 32 \
        bits and arbitrary Unicode; the reference is an independent \
        recursive-descent reader with exact numbers. Non-trivial: at least 2 \
        bytes.");
    let ex = ["", ",", "x,", "1/0", "x,y,1/0z", "x,y,z,x", "x,z", "z", "x y", "2 2x", "x*2",
        "1000000000", "99999999999x", "999999999+999999999+999999999x", "1/999999999+1/999999998",
        "-1/999999999-1/999999998x,y", "x,,y", "x,y,", "+", "-", "- - x", "x,x", "0", "x-x,y",
        "x+", "1/2/3", "1//2", "x y z", "x,y;z", "x/2", "2x/3", "x\n,y", "\u{a0}x", "٣x"];
    h.sub("texts", 25000, 800000, ex.iter().map(|s| s.to_string()).collect(),
        gen_text, |t, o| c35_test(t, o));
}

// ------------------------------------------------------- tables: C36-38

#[derive(Clone, Debug)]
enum Item {
    Setting { name: String, tf: Op, ops: Vec<Op> },
    Alias { name: String, target: String },
    Lookup { name: String, sys: &'static str, cen: &'static str, tf: Op },
}

const SYSTEMS: [&str; 10] = ["oblique", "rectangular", "square", "hexagonal", "cubic",
    "orthorhombic", "tetragonal", "trigonal", "monoclinic", "triclinic"];
const CENTERINGS: [&str; 9] = ["p", "c", "P", "F", "I", "R", "A", "B", "C"];

fn gen_name(g: &mut Gen, k: usize) -> String {
    let first = *g.pick(&["P", "p", "I4", "R-3", "x", "-", "P42/nbc:", "é", "1", "alias_", "Lookup", "x,y", "\"q"]);
    let n = g.larger(0, 4, 60);
    let n = if n > 55 { n * 10 } else { n };
    let tail: String = (0..n).map(|_| *g.pick(&['a', 'm', '2', '/', ':', '-', '#', '*', 'Z'])).collect();
    format!("{}{}{}", first, tail, k)
}

fn gen_invertible(g: &mut Gen, d: usize) -> Op {
    for _ in 0..8 {
        let mut op = gen_op(g);
        while op.dim() != d { op = gen_op(g); if op.dim() < d { op = Op::id(d) } }
        if !det(&op.m).is_zero() { return op; }
    }
    Op::id(d)
}

fn gen_dim_op(g: &mut Gen, d: usize) -> Op {
    let k = *g.pick(&[1, 1, 2, 12]);
    let c = |g: &mut Gen| if g.flip() { Q::zero() } else { qf(g.int(-k, k), *g.pick(&[1, 1, 2, 3, 4, 6])) };
    if g.chance(1, 8) { return Op::id(d); }
    Op { m: (0..d).map(|_| (0..d).map(|_| c(g)).collect()).collect(), s: (0..d).map(|_| c(g)).collect() }
}

fn gen_items(g: &mut Gen) -> Vec<Item> {
    let n = g.larger(1, 9, 50);
    let n = if n > 40 { n * 8 } else { n };
    (0..n).map(|k| {
        let d = g.size(1, 3);
        match g.weighted(&[5, 2, 2]) {
            0 => {
                let tf = match g.weighted(&[3, 3, 2]) {
                    0 => Op::id(d),
                    1 => gen_invertible(g, d),
                    // nearly the identity
                    _ => { let mut x = Op::id(d);
                        let i = g.below(d as u64) as usize;
                        match g.below(3) {
                            0 => x.s[i] = qf(1, 2),
                            1 => x.m[i][i] = q(-1),
                            _ => { let j = g.below(d as u64) as usize; x.m[i][j] += q(1); if det(&x.m).is_zero() { x = Op::id(d) } },
                        }
                        x },
                };
                let m = g.larger(0, 5, 48);
                let m = if n > 40 { m.min(6) } else { m };
                let ops = g.vec(m, m, |g| gen_dim_op(g, d));
                Item::Setting { name: gen_name(g, k), tf, ops }
            },
            1 => Item::Alias { name: gen_name(g, k), target: { let j = g.size(0, n); gen_name(g, j) } },
            _ => {
                let j = if g.chance(1, 3) { g.size(0, n) } else { k };
                Item::Lookup { name: gen_name(g, j), sys: *g.pick(&SYSTEMS),
                    cen: *g.pick(&CENTERINGS), tf: gen_invertible(g, d) }
            },
        }
    }).collect()
}

fn word_case(g: &mut Gen, s: &str) -> String {
    match g.below(4) {
        0 => s.to_uppercase(),
        1 => { let mut c = s.chars(); let f = c.next().unwrap(); f.to_uppercase().collect::<String>() + c.as_str() },
        _ => s.to_string(),
    }
}

fn gap(g: &mut Gen) -> &'static str { *g.pick(&[" ", " ", "  ", "\t", " \t "]) }

fn noise(g: &mut Gen, lines: &mut Vec<String>) {
    while g.chance(1, 4) {
        lines.push(g.pick(&["", "   ", "\t", "# comment", "  # x,y,z", "#", "    #alias a b"]).to_string());
    }
}

fn tail(g: &mut Gen) -> &'static str { *g.pick(&["", "", "", " ", "\t", "   "]) }

/// Lines of a document for the items. The operators of a setting may follow
/// after aliases and lookup lines, but not after the next setting.
fn document(g: &mut Gen, items: &[Item]) -> Vec<String> {
    let mut lines = vec![];
    let mut pending: Vec<Op> = vec![];
    fn flush(g: &mut Gen, lines: &mut Vec<String>, pending: &mut Vec<Op>, all: bool) {
        while !pending.is_empty() {
            if !all && g.chance(1, 5) { break; }
            noise(g, lines);
            let op = pending.remove(0);
            let lead = *g.pick(&[" ", "    ", " \t", "  "]);
            lines.push(format!("{}{}{}", lead, render(g, &op), tail(g)));
        }
    }
    for it in items {
        let next = match it { Item::Setting { .. } => true, _ => false };
        flush(g, &mut lines, &mut pending, next);
        noise(g, &mut lines);
        match it {
            Item::Setting { name, tf, ops } => {
                lines.push(format!("{}{}{}{}", name, gap(g), render(g, tf), tail(g)));
                pending = ops.clone();
            },
            Item::Alias { name, target } => {
                lines.push(format!("{}{}{}{}{}{}", word_case(g, "alias"), gap(g), name, gap(g), target, tail(g)));
            },
            Item::Lookup { name, sys, cen, tf } => {
                lines.push(format!("{}{}{}{}{}{}{}{}{}{}", word_case(g, "lookup"), gap(g), name,
                    gap(g), word_case(g, sys), gap(g), cen, gap(g), render(g, tf), tail(g)));
            },
        }
    }
    flush(g, &mut lines, &mut pending, true);
    noise(g, &mut lines);
    lines
}

fn join(g: &mut Gen, lines: &[String]) -> String {
    let nl = if g.chance(1, 4) { "\r\n" } else { "\n" };
    let mut s = lines.join(nl);
    if g.chance(3, 4) { s += nl; }
    s
}

#[derive(Debug, PartialEq)]
struct Entry { name: String, group: String, tf: Op, ops: Vec<Op> }

fn value<'a>(line: Option<&'a str>, what: &str) -> Result<&'a str, String> {
    let line = line.ok_or_else(|| format!("no line for the {}", what))?;
    let k = line.find(':').ok_or_else(|| format!("line {:?} for the {}", line, what))?;
    Ok(line[k + 1..].trim())
}

fn op_text(t: &str) -> Result<Op, String> {
    match denote(t) {
        Denotes::Map { op, .. } => {
            let a = sut(|| AffineMap::<Q, W>::from_string(t))?;
            ensure_eq!(a.map(|a| Op::read(&a)), Some(op.clone()), "reading printed operator {:?} back", t);
            Ok(op)
        },
        Denotes::Nothing => Err(format!("printed operator {:?} denotes nothing", t)),
    }
}

fn read_entry(text: &str) -> Result<Entry, String> {
    let mut l = text.lines();
    let name = value(l.next(), "name")?.to_string();
    let group = value(l.next(), "group")?.to_string();
    let tf = op_text(value(l.next(), "transform")?)?;
    value(l.next(), "operators")?;
    let mut ops = vec![];
    for t in l { if !t.trim().is_empty() { ops.push(op_text(t.trim())?); } }
    Ok(Entry { name, group, tf, ops })
}

fn read_lookup(text: &str) -> Result<(String, String, String, Op), String> {
    let mut l = text.lines();
    Ok((value(l.next(), "name")?.to_string(), value(l.next(), "system")?.to_string(),
        value(l.next(), "centering")?.to_string(), op_text(value(l.next(), "transform")?)?))
}

fn c36_test(items: &[Item], text: &str, o: &mut Obs) -> Outcome {
    let t = match sut(|| parse_space_group_table(text.as_bytes()))? {
        Some(t) => t,
        None => return Err(format!("table rejected:\n{}", text)),
    };
    let mut group: Option<String> = None;
    let mut settings = BTreeMap::new();
    let mut alias = BTreeMap::new();
    let mut lookup = vec![];
    for it in items {
        match it {
            Item::Setting { name, tf, ops } => {
                if *tf == Op::id(tf.dim()) { group = Some(name.clone()); }
                settings.insert(name.clone(), (group.clone(), tf, ops));
            },
            Item::Alias { name, target } => { alias.insert(name.clone(), target.clone()); },
            Item::Lookup { name, sys, cen, tf } => lookup.push((name.clone(), *sys, *cen, tf)),
        }
    }
    o.label_if(settings.len() >= 2, "several settings");
    o.label_if(settings.len() >= 50, "50 or more settings");
    o.label_if(settings.values().any(|s| s.2.len() >= 20), "20 or more operators");
    o.label_if(settings.keys().any(|s| s.len() >= 100), "name of 100 or more bytes");
    o.label_if(text.len() > 10000, "more than 10000 bytes");
    o.label_if(settings.values().any(|s| s.0.is_none()), "setting before any group");
    o.label_if(settings.iter().any(|(n, s)| s.0.as_ref().map_or(false, |g| g != n)), "setting of an earlier group");
    o.label_if(lookup.len() >= 2, "several lookup lines");
    o.nontrivial(items.len() >= 3);
    let keys: BTreeSet<&String> = t.settings.keys().collect();
    ensure!(keys == settings.keys().collect(), "settings {:?} instead of {:?}", keys, settings.keys());
    for (name, (group, tf, ops)) in &settings {
        let text = sut(|| t.settings[name].to_string())?;
        let e = read_entry(&text)?;
        ensure_eq!(e.name, *name, "name of setting");
        if let Some(g) = group { ensure_eq!(e.group, *g, "group of setting {:?}", name); }
        ensure_eq!(e.tf, **tf, "transform of setting {:?}", name);
        ensure_eq!(e.ops, **ops, "operators of setting {:?}", name);
    }
    let got: BTreeMap<String, String> = t.alias.iter().map(|(a, b)| (a.clone(), b.clone())).collect();
    ensure_eq!(got, alias, "aliases");
    ensure_eq!(t.lookup.len(), lookup.len(), "number of lookup entries");
    for s in SYSTEMS { for c in CENTERINGS {
        let cs = CrystalSystem::from_string(s).ok_or_else(|| format!("crystal system {}", s))?;
        let ce = Centering::from_string(c).ok_or_else(|| format!("centering {}", c))?;
        let mut got: Vec<(String, Op)> = sut(|| t.lookup_settings(cs, ce))?.iter()
            .map(|(n, m)| (n.clone(), Op::read(&m.forward()))).collect();
        let mut want: Vec<(String, Op)> = lookup.iter().filter(|l| l.1 == s && l.2 == c)
            .map(|l| (l.0.clone(), l.3.clone())).collect();
        o.label_if(want.len() >= 2, "several entries for one system and centering");
        got.sort();
        want.sort();
        ensure_eq!(got, want, "lookup entries for {} {}", s, c);
    } }
    Ok(())
}

/// A reader that hands out chunks and may fail or be interrupted.
struct Chunky { data: Vec<u8>, pos: usize, chunk: usize, fail_at: Option<usize>, turn: bool }

impl Read for Chunky {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.turn = !self.turn;
        if self.turn { return Err(io::Error::new(io::ErrorKind::Interrupted, "again")); }
        let end = self.fail_at.unwrap_or(self.data.len());
        if self.fail_at.is_some() && self.pos >= end {
            return Err(io::Error::new(io::ErrorKind::Other, "broken"));
        }
        let n = buf.len().min(self.chunk).min(end - self.pos);
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

fn c36(h: &mut Harness) {
    h.boost(6);
    h.rule("Rendered tables of up to 9 (now and then 400) settings, aliases and lookup lines with \
        unusual names, random operator texts, comments, blank lines, CRLF, any \
        capitalisation of keywords; entries are recovered from their printed \
        form. Non-trivial: at least 3 items.");
    h.assume("names are distinct; group names are claimed once a group was seen");
    h.sub("tables", 3000, 80000, vec![],
        |g| { let it = gen_items(g); let l = document(g, &it); let t = join(g, &l); (it, t) },
        |(it, t), o| c36_test(it, t, o));
    h.sub("chunks", 600, 20000, vec![],
        |g| { let it = gen_items(g); let l = document(g, &it); let t = join(g, &l);
            (t, g.size(1, 40)) },
        |(t, chunk), o| {
            o.nontrivial(t.len() > *chunk);
            let r = Chunky { data: t.clone().into_bytes(), pos: 0, chunk: *chunk, fail_at: None, turn: false };
            let a = sut(|| parse_space_group_table(r))?.ok_or("rejected in chunks")?;
            let b = sut(|| parse_space_group_table(t.as_bytes()))?.ok_or("rejected")?;
            ensure_eq!(dump(&a)?, dump(&b)?, "tables read in chunks");
            Ok(())
        });
}

fn dump(t: &Tables) -> Result<String, String> {
    let mut v: Vec<String> = vec![];
    for (k, e) in &t.settings { v.push(format!("{}: {}", k, sut(|| e.to_string())?)); }
    for (a, b) in &t.alias { v.push(format!("{} -> {}", a, b)); }
    v.sort();
    for l in &t.lookup { v.push(sut(|| l.to_string())?); }
    Ok(v.join("\n"))
}

// ---------------------------------------------------------------- C37

/// A word that is none of the given ones, even up to capitalisation when
/// `fold` is set.
fn other_word(g: &mut Gen, words: &[&str], fold: bool) -> String {
    for _ in 0..30 {
        let w: String = match g.below(4) {
            0 => g.pick(&['a', 'b', 'c', 'd', 'e', 'f', 'g', 'h', 'i', 'j', 'k', 'l', 'm', 'n',
                'o', 'p', 'q', 'r', 's', 't', 'u', 'v', 'w', 'x', 'y', 'z']).to_string(),
            1 => g.pick(&['D', 'E', 'G', 'H', 'J', 'K', 'L', 'M', 'N', 'O', 'Q', 'S', 'T', 'U', 'V', 'W',
                'X', 'Y', 'Z', '1', '-', '*', '?', '"', '#', 'é']).to_string(),
            2 => {
                // one letter changed, dropped or added
                let mut c: Vec<char> = g.pick(words).chars().collect();
                let k = g.below(c.len() as u64) as usize;
                match g.below(4) {
                    0 => { c.remove(k); },
                    1 => { let x = c[k]; c.insert(k, x); },
                    2 => { c[k] = *g.pick(&['a', 'l', 'S', 'x', 'P']); },
                    _ => { c.truncate(k); },
                }
                c.into_iter().collect()
            },
            _ => {
                let w = *g.pick(words);
                let t = match g.below(4) {
                    0 => w.to_uppercase(),
                    1 => w.to_lowercase(),
                    2 => format!("{}{}", w, g.pick(words)),
                    _ => w.chars().rev().collect(),
                };
                t
            },
        };
        let known = words.iter().any(|k| *k == w || (fold && k.to_lowercase() == w.to_lowercase()));
        if !known && !w.is_empty() && !w.starts_with('#') { return w; }
    }
    "none".to_string()
}

/// A line that makes any table broken.
fn broken_line(g: &mut Gen) -> (String, &'static str) {
    let bad_op = |g: &mut Gen| -> String {
        let t = ["x,", ",y", "x,y,1/0", "x,y,z,x", "w", "x;y", "x y", "1/2/3", "x,z", "2..x",
            "1/0,y", "x++", "", "x,y)", "x-,y", "99999999999x", "X,Y", "x,y z", "x**2", "*x", "x# c"];
        if g.chance(3, 4) { return g.pick(&t).to_string(); }
        for _ in 0..20 {
            let t = gen_text(g);
            let ok = t.chars().all(|c| c != '\n' && c != '\r') && !t.trim().is_empty()
                && t.trim() == t && !t.contains("  ") && !t.starts_with('#');
            let joined = t.split_whitespace().collect::<Vec<_>>().join(" ");
            if ok && denote(&joined) == Denotes::Nothing && denote(&t) == Denotes::Nothing { return t; }
        }
        "x,,y".to_string()
    };
    let singular = |g: &mut Gen| g.pick(&["x,x", "x+y,2x+2y", "0", "x,y,x-y", "x,y,0", "1/2"]).to_string();
    match g.below(13) {
        0 => ("alias P1".into(), "alias without target"),
        1 => ("Alias".into(), "alias without names"),
        2 => { let n = g.size(1, 5);
            let f = ["lookup", "P1", "cubic", "P", "x,y,z"];
            (f[..n.min(4)].join(" "), "incomplete lookup line") },
        3 => (format!("lookup P1 {} P x,y,z", other_word(g, &SYSTEMS, true)), "unknown crystal system"),
        4 => (format!("lookup P1 cubic {} x,y,z", other_word(g, &CENTERINGS, false)), "unknown centering"),
        5 => { let t = bad_op(g); (format!("lookup P1 cubic P {}", t), "malformed lookup transform") },
        6 => { let t = singular(g); (format!("LOOKUP P1 square p {}", t), "singular lookup transform") },
        7 => ("Pqr".into(), "setting without transform"),
        8 => { let t = singular(g); (format!("Pqr {}", t), "singular transform of a setting") },
        9 => { let t = bad_op(g); (format!("Pqr {}", t), "malformed transform of a setting") },
        _ => {
            let mut t = bad_op(g);
            if t.is_empty() { t = "x,".to_string(); }
            (format!("  {}", t), "malformed operator")
        },
    }
}

fn c37(h: &mut Harness) {
    h.boost(6);
    h.rule("Rendered tables with one malformed line of 11 kinds at any place, \
        operators before any setting, tables cut off by a failing reader, and \
        arbitrary or mutated byte streams. Non-trivial: a broken table or at \
        least 20 bytes.");
    h.sub("broken", 4000, 100000, vec![],
        |g| {
            let it = gen_items(g);
            let mut l = document(g, &it);
            let (b, what) = broken_line(g);
            let k = g.below(l.len() as u64 + 1) as usize;
            l.insert(k, b);
            let t = join(g, &l);
            (what, t)
        },
        |(what, t), o| {
            o.label(what);
            o.nontrivial(true);
            ensure!(sut(|| parse_space_group_table(t.as_bytes()))?.is_none(), "table with {} accepted", what);
            Ok(())
        });
    h.sub("orphans", 200, 4000, vec![],
        |g| { let n = g.size(1, 3); let mut s = String::new();
            for _ in 0..g.size(0, 2) { s += g.pick(&["# c\n", "\n", "alias a b\n", "lookup P1 cubic P x,y,z\n"]); }
            for _ in 0..n { let op = gen_op(g); s += &format!("  {}\n", render(g, &op)); }
            let it = gen_items(g); let l = document(g, &it); s + &join(g, &l) },
        |t, o| {
            o.nontrivial(true);
            ensure!(sut(|| parse_space_group_table(t.as_bytes()))?.is_none(), "operator without setting accepted");
            Ok(())
        });
    h.sub("failing_reader", 600, 20000, vec![],
        |g| { let it = gen_items(g); let l = document(g, &it); let t = join(g, &l);
            let k = g.below(t.len() as u64 + 1) as usize; (t, k, g.size(1, 30)) },
        |(t, k, chunk), o| {
            o.nontrivial(*k > 0);
            let r = Chunky { data: t.clone().into_bytes(), pos: 0, chunk: *chunk, fail_at: Some(*k), turn: false };
            ensure!(sut(|| parse_space_group_table(r))?.is_none(), "table accepted although the stream failed after {} bytes", k);
            Ok(())
        });
    h.sub("bytes", 5000, 200000, vec![],
        |g| {
            let mut b: Vec<u8> = match g.below(3) {
                0 => (0..g.larger(0, 60, 2000)).map(|_| g.below(256) as u8).collect(),
                1 => {
                    let tok = ["alias", "lookup", " ", "  ", "\n", "\n  ", "P1", "cubic", "P", "x,y,z", "x,y",
                        "#", "\r\n", "\t", "1/0", "x,x", "hexagonal", "p", "é", "\0", "Alias ", "lookup "];
                    (0..g.larger(0, 40, 800)).map(|_| *g.pick(&tok)).collect::<String>().into_bytes()
                },
                _ => { let it = gen_items(g); let l = document(g, &it); join(g, &l).into_bytes() },
            };
            for _ in 0..g.size(0, 4) {
                if b.is_empty() { break; }
                let k = g.below(b.len() as u64) as usize;
                match g.below(3) { 0 => { b.remove(k); }, 1 => b[k] = g.below(256) as u8, _ => b.insert(k, *g.pick(b" \n,/x0#\t\xff")) }
            }
            b
        },
        |b, o| {
            o.nontrivial(b.len() >= 20);
            let t = sut(|| parse_space_group_table(&b[..]))?;
            o.label_if(t.is_some(), "accepted");
            if let Some(t) = t {
                o.label_if(!t.settings.is_empty() || !t.lookup.is_empty(), "accepted with content");
                dump(&t)?;
                for l in &t.lookup { read_lookup(&l.to_string())?; }
            }
            Ok(())
        });
}

// ---------------------------------------------------------------- C38

fn c38(h: &mut Harness) {
    h.boost(5);
    h.rule("Settings and lookup entries with random transforms and operators \
        (unit, fractional, negative, zero and large entries, dimensions 1-3), \
        read from text and printed; the printed operators are read by the \
        library and by an independent reader. Non-trivial: at least 2 operators.");
    let unit = |n: i64| Op { m: vec![vec![q(n)]], s: vec![q(-n)] };
    h.sub("display", 5000, 150000,
        [-1, 0, 1, 2].iter().map(|&n| (Op::id(1), vec![unit(n), unit(0)], 0usize, 0usize)).collect(),
        |g| {
            let d = g.size(1, 3);
            let tf = gen_invertible(g, d);
            let n = g.larger(0, 4, 60);
            let ops: Vec<Op> = g.vec(n, n, |g| if g.flip() { gen_dim_op(g, d) } else {
                let k = *g.pick(&[1, 10, 30000]);
                let mut c = |g: &mut Gen| qf(g.int(-k, k), if g.flip() { 1 } else { g.int(1, 30) });
                Op { m: (0..d).map(|_| (0..d).map(|_| c(g)).collect()).collect(), s: (0..d).map(|_| c(g)).collect() }
            });
            (tf, ops, g.below(10) as usize, g.below(9) as usize)
        },
        |(tf, ops, s, c), o| {
            o.nontrivial(ops.len() >= 2);
            o.label_if(ops.len() >= 20, "20 or more operators");
            let mut t = format!("P1 {}\n", plain(&Op::id(tf.dim())));
            t += &format!("Pqr:2 {}\n", plain(tf));
            for op in ops { t += &format!("  {}\n", plain(op)); }
            t += &format!("lookup Ab/c {} {} {}\n", SYSTEMS[*s], CENTERINGS[*c], plain(tf));
            let tab = match sut(|| parse_space_group_table(t.as_bytes()))? {
                Some(tab) => tab,
                None => return Err(format!("table rejected:\n{}", t)),
            };
            ensure!(tab.settings.contains_key("Pqr:2") && tab.lookup.len() == 1, "entries are missing");
            let text = sut(|| tab.settings["Pqr:2"].to_string())?;
            let e = read_entry(&text)?;
            let id = *tf == Op::id(tf.dim());
            let group = if id { "Pqr:2" } else { "P1" };
            ensure_eq!(e, Entry { name: "Pqr:2".into(), group: group.into(), tf: tf.clone(), ops: ops.clone() },
                "printed setting\n{}", text);
            let text = sut(|| tab.lookup[0].to_string())?;
            ensure_eq!(read_lookup(&text)?, ("Ab/c".to_string(), SYSTEMS[*s].to_string(),
                CENTERINGS[*c].to_string(), tf.clone()), "printed lookup entry\n{}", text);
            Ok(())
        });
}

// ---------------------------------------------------------------- C39

const TABLE: &str = "/repo/src/data/sgtable.data";

fn table() -> (Tables, BTreeMap<String, Entry>) {
    let data = std::fs::read(TABLE).expect("built-in table");
    let t = parse_space_group_table(&data[..]).expect("built-in table cannot be read");
    let e = t.settings.iter().map(|(k, v)|
        (k.clone(), read_entry(&v.to_string()).expect("entry"))).collect();
    (t, e)
}

/// Lattice of all pure translations among operators, with Z^d mapped by `m`.
fn lattice(ops: &[Op], m: &QM) -> QM {
    let d = m.len();
    let mut rows = transpose(m);
    for op in ops { if op.m == identity(d) { rows.push(op.s.clone()); } }
    qhnf(&rows)
}

fn reduce(v: &[Q], basis: &QM) -> Vec<Q> {
    // coordinates with respect to the basis, fractional part
    let t = transpose(basis);
    let c = mul_vec(&inverse(&t).unwrap(), v);
    mul_vec(&t, &frac(&c))
}

fn c39_setting(name: &str, all: &BTreeMap<String, Entry>) -> Outcome {
    let e = &all[name];
    let d = e.tf.dim();
    ensure_eq!(e.name, name, "entry name");
    ensure!(!e.ops.is_empty(), "no operators");
    ensure!(e.ops.iter().all(|x| x.dim() == d), "mixed dimensions");
    ensure!(e.ops.iter().all(|x| x.integral()), "linear part is not integral");
    let set: BTreeSet<Op> = e.ops.iter().map(|x| x.mod1()).collect();
    ensure_eq!(set.len(), e.ops.len(), "operators up to integer translations");
    ensure!(set.contains(&Op::id(d)), "identity is missing");
    let pk = Packed::new(&e.ops);
    let flat: HashSet<Vec<i64>> = e.ops.iter().map(|x| pk.pack(x)).collect();
    for a in &flat { for b in &flat {
        let c = pk.mul(a, b);
        ensure!(flat.contains(&c), "{:?} after {:?} gives {:?}, which is missing",
            pk.unpack(a), pk.unpack(b), pk.unpack(&c));
    } }
    let can = all.get(&e.group).ok_or_else(|| format!("group {:?} has no setting", e.group))?;
    ensure!(can.tf == Op::id(can.tf.dim()), "canonical setting {:?} has a transform", e.group);
    let ti = e.tf.inverse().ok_or("singular transform")?;
    // the transform maps coordinates of the setting to those of the group
    let moved: Vec<Op> = can.ops.iter().map(|x| ti.after(&x.after(&e.tf))).collect();
    let (la, lb) = (lattice(&moved, &ti.m), lattice(&e.ops, &identity(d)));
    ensure!(la == lb, "lattice {:?} carried over from {} differs from {:?}", la, e.group, lb);
    let red = |ops: &[Op]| ops.iter().map(|x| Op { m: x.m.clone(), s: reduce(&x.s, &lb) }).collect::<BTreeSet<_>>();
    let (a, b) = (red(&moved), red(&e.ops));
    ensure!(a == b, "operators carried over from {} differ, e.g. {:?}", e.group, a.symmetric_difference(&b).next());
    Ok(())
}

/// Crystal system from the rotation parts of a point group.
fn system(ops: &[Op]) -> &'static str {
    let d = ops[0].dim();
    let pts: BTreeSet<QM> = ops.iter().map(|x| if d == 3 && det(&x.m) < Q::zero() {
        x.m.iter().map(|r| r.iter().map(|x| -x).collect()).collect()
    } else { x.m.clone() }).collect();
    let mut count = [0; 7];
    let mut mirrors = 0;
    for r in &pts {
        if det(&r) < Q::zero() { mirrors += 1; continue; }
        let mut p = r.clone();
        let mut k = 1;
        while p != identity(d) && k < 7 { p = mul(&p, &r); k += 1; }
        count[k.min(6)] += 1;
    }
    if d == 2 {
        return if count[3] + count[6] > 0 { "hexagonal" } else if count[4] > 0 { "square" }
            else if mirrors > 0 { "rectangular" } else { "oblique" };
    }
    if count[3] >= 8 { "cubic" } else if count[6] > 0 { "hexagonal" }
        else if count[4] > 0 { "tetragonal" } else if count[3] > 0 { "trigonal" }
        else { match count[2] { 0 => "triclinic", 1 => "monoclinic", _ => "orthorhombic" } }
}

/// Conventional lattice of a centering symbol.
fn centred(c: &str, d: usize) -> QM {
    let h = |v: [i64; 3], k: i64| v[..d].iter().map(|x| qf(*x, k)).collect::<Vec<_>>();
    let mut rows = identity(d);
    match c {
        "c" => rows.push(h([1, 1, 0], 2)),
        "A" => rows.push(h([0, 1, 1], 2)),
        "B" => rows.push(h([1, 0, 1], 2)),
        "C" => rows.push(h([1, 1, 0], 2)),
        "I" => rows.push(h([1, 1, 1], 2)),
        "F" => { rows.push(h([1, 1, 0], 2)); rows.push(h([0, 1, 1], 2)); },
        "R" => rows.push(h([2, 1, 1], 3)),
        _ => {}
    }
    qhnf(&rows)
}

fn c39(h: &mut Harness) {
    h.rule("Every setting, alias and lookup line of the table, exhaustively, and \
        random products of operators of random settings through the library's \
        own arithmetic. Non-trivial: settings with at least 2 operators.");
    h.note_exhaustive("all settings, aliases and lookup lines of src/data/sgtable.data");
    let (t, all) = match std::panic::catch_unwind(table) {
        Ok(x) => x,
        Err(_) => {
            h.sub("table", 0, 0, vec![()], |_| (), |_, _| Err("the built-in table cannot be read".to_string()));
            return;
        }
    };
    let names: Vec<String> = all.keys().cloned().collect();
    h.sub("settings", 0, 0, names.clone(), |_| String::new(),
        |n, o| { o.nontrivial(all[n].ops.len() >= 2); c39_setting(n, &all) });
    let mut al: Vec<(String, String)> = t.alias.iter().map(|(a, b)| (a.clone(), b.clone())).collect();
    al.sort();
    h.sub("aliases", 0, 0, al, |_| Default::default(),
        |(a, b), o| {
            o.nontrivial(true);
            let mut x = b.clone();
            for _ in 0..5 {
                // a name without origin choice or cell stands for all of them
                if all.contains_key(&x) || all.keys().any(|n| n.starts_with(&format!("{}:", x))) { return Ok(()); }
                x = match t.alias.get(&x) { Some(y) => y.clone(), None => break };
            }
            Err(format!("alias {} leads to {}, which is no setting", a, b))
        });
    let idx: Vec<usize> = (0..t.lookup.len()).collect();
    h.sub("lookup", 0, 0, idx, |_| 0,
        |k, o| {
            o.nontrivial(true);
            let (n, s, c, m) = read_lookup(&t.lookup[*k].to_string())?;
            ensure!(all.contains_key(&n), "lookup entry {} names no setting", n);
            ensure!(m.inverse().is_some(), "singular transform for {}", n);
            ensure_eq!(m.dim(), all[&n].tf.dim(), "dimension of the lookup transform for {}", n);
            let e = &all[&n];
            ensure_eq!(system(&e.ops), s, "crystal system of {}", n);
            let moved: Vec<Op> = e.ops.iter().map(|x| m.after(&x.after(&m.inverse().unwrap()))).collect();
            ensure!(lattice(&moved, &m.m) == centred(&c, m.dim()),
                "the lattice of {} in the lookup basis is {:?}", n, lattice(&moved, &m.m));
            let cs = CrystalSystem::from_string(&s).ok_or_else(|| format!("system {}", s))?;
            let ce = Centering::from_string(&c).ok_or_else(|| format!("centering {}", c))?;
            let found = sut(|| t.lookup_settings(cs, ce))?;
            ensure!(found.iter().any(|(x, y)| *x == n && Op::read(&y.forward()) == m), "entry for {} is not found", n);
            Ok(())
        });
    // the library's own machinery agrees that the tables are groups
    let names2 = names.clone();
    h.sub("generated", 1500, 20000, vec![],
        move |g| { let n = g.pick(&names2).clone(); (n, g.below(1 << 20), g.below(1 << 20), g.below(1 << 20)) },
        |(n, a, b, c), o| {
            let ops = &all[n].ops;
            let k = ops.len() as u64;
            o.nontrivial(k >= 4);
            let gens: Vec<AffineMap<Q, W>> = [a, b, c].iter().map(|x| ops[(*x % k) as usize].lib()).collect();
            let set: HashSet<Op> = ops.iter().map(|x| x.mod1()).collect();
            for x in sut(|| generate(&gens))? {
                ensure!(set.contains(&Op::read(&x)), "{:?} is generated but not listed", Op::read(&x));
            }
            Ok(())
        });
}
