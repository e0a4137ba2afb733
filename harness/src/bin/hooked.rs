//! C31, C40, C41, C44-C46: items reached through guarded hooks.
use std::collections::BTreeSet;
use std::io::{self, Read};

use hx::cgd::*;
use hx::engine::*;
use hx::la::*;
use hx::ops::*;
use hx::{ensure, ensure_eq};

use num_traits::{One, Signed, Zero};
use rust_systre::arithmetic::geometry::AffineMap;
use rust_systre::io::parse_cgd_blocks::{parse_blocks, parse_lines, EntryType, Note};
use rust_systre::io::parse_cgd_blocks::verif_hooks as bh;
use rust_systre::io::parse_cgd_line::{parse_cgd_line, Field};
use rust_systre::spacegroups::basics::generate;
use rust_systre::spacegroups::basics::verif_hooks::primitive_setting;
use rust_systre::spacegroups::finder::verif_hooks::{
    crystal_system_and_basis_2d, operator_details, Details
};
use rust_systre::spacegroups::parse_table::parse_space_group_table;
use rust_systre::spacegroups::types::CrystalSystem;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct W {}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct X {}

fn main() {
    hx::engine::main(&[
        ("C31", c31), ("C40", c40), ("C41", c41), ("C44", c44), ("C45", c45),
        ("C46", c46),
    ]);
}

/// Operators of all settings of the built-in table.
fn table() -> Vec<(String, Vec<Op>)> {
    let path = "/repo/src/data/sgtable.data";
    let Ok(f) = std::fs::File::open(path) else { return vec![] };
    let Some(t) = parse_space_group_table(f) else { return vec![] };
    let mut v: Vec<(String, Vec<Op>)> = t.settings.iter().map(|(n, e)| {
        let s = e.to_string();
        // operators are listed one per line after the header
        let ops = s.lines().skip(1).filter_map(|l| match denote(l.trim()) {
            Denotes::Map { op, .. } => Some(op),
            _ => None,
        }).collect();
        (n.clone(), ops)
    }).filter(|(_, o): &(String, Vec<Op>)| !o.is_empty()).collect();
    v.sort();
    v
}

// ---------------------------------------------------------------- C31

/// Reduces shifts modulo the lattice with basis rows `l`.
fn modulo(s: &[Q], l: &QM) -> Vec<Q> {
    let inv = inverse(l).expect("lattice");
    let c: Vec<Q> = (0..s.len()).map(|j| (0..s.len()).map(|i| &s[i] * &inv[i][j]).sum()).collect();
    let c = frac(&c);
    (0..s.len()).map(|j| (0..s.len()).map(|i| &c[i] * &l[i][j]).sum()).collect()
}

fn c31_test(ops: &[Op], o: &mut Obs) -> Outcome {
    let d = ops[0].dim();
    let mut gens = identity(d);
    for x in ops { if x.is_translation() { gens.push(x.s.clone()); } }
    let lattice = qhnf(&gens);
    let centred = lattice != qhnf(&identity(d));
    o.nontrivial(centred || ops.len() >= 4);
    o.label_if(centred, "centred");
    o.label_if(!centred, "primitive");
    o.label_if(d == 3, "three dimensions");
    o.label_if(ops.len() >= 24, "24 or more operators");
    let l: Vec<AffineMap<Q, W>> = ops.iter().map(|x| x.lib()).collect();
    let (cell, tp, got) = sut(|| primitive_setting::<W, X>(&l))?;
    let cell: QM = cell.iter().map(|v| v.iter().cloned().collect()).collect();
    ensure_eq!(cell.len(), d, "number of primitive cell vectors");
    ensure!(same_lattice(&cell, &lattice), "the cell {:?} spans another lattice than {:?}", cell, lattice);
    let tp = Op::read(&sut(|| tp.forward())?);
    for (i, v) in cell.iter().enumerate() {
        ensure_eq!(mul_vec(&tp.m, v), identity(d)[i], "primitive coordinates of cell vector {}", i);
    }
    let ti = tp.inverse().ok_or("singular change of setting")?;
    let got: Vec<Op> = got.iter().map(|x| Op::read(x)).collect();
    for x in &got {
        ensure!(x.integral(), "linear part of {:?} is not integral", x);
    }
    let set: BTreeSet<Op> = got.iter().map(|x| x.mod1()).collect();
    ensure_eq!(set.len(), got.len(), "distinct operators modulo lattice translations");
    let red = |x: &Op| Op { m: x.m.clone(), s: modulo(&x.s, &lattice) };
    let want: BTreeSet<Op> = ops.iter().map(red).collect();
    let back: BTreeSet<Op> = got.iter().map(|x| red(&ti.after(&x.after(&tp)))).collect();
    ensure_eq!(got.len(), want.len(), "number of operators");
    ensure!(back == want, "operators differ, e.g. {:?}", back.symmetric_difference(&want).next());
    Ok(())
}

fn c31(h: &mut Harness) {
    h.boost(4);
    h.rule("Complete operator lists (shuffled, shifts with random integral \
        parts, some listed twice) of random groups with up to two centring \
        translations and of the groups of the built-in table in random bases \
        and origins, dimensions 1-3. Non-trivial: centred or at least 4 \
        operators.");
    h.assume("the list contains an operator of every class modulo integer \
        translations; at most 400 operators");
    let tab = table();
    let finish = |g: &mut Gen, all: Vec<Op>| -> Vec<Op> {
        let d = all[0].dim();
        let mut v = g.shuffled(&all);
        for _ in 0..g.weighted(&[4, 1, 1]) { let x = g.pick(&v).clone(); v.push(x); }
        if g.flip() {
            for x in v.iter_mut() {
                for i in 0..d { x.s[i] += q(g.int(-2, 2)); }
            }
        }
        v
    };
    let a1 = vec![Op::id(1)];
    let a2 = vec![Op::id(2), Op { m: vec![vec![q(-1), q(0)], vec![q(0), q(-1)]], s: vec![q(0), q(0)] }];
    h.sub("random groups", 700, 25000, vec![a1, a2],
        |g| {
            let d = g.weighted(&[1, 3, 4]) + 1;
            for _ in 0..5 {
                if let Some(c) = closure(&gen_group(g, d), 400) {
                    return finish(g, c.into_iter().collect());
                }
            }
            vec![Op::id(d)]
        },
        |v, o| c31_test(v, o));
    if tab.is_empty() { return; }
    h.sub("table groups", 350, 12000, vec![],
        |g| {
            let plane = g.chance(1, 4);
            let few: Vec<&(String, Vec<Op>)> = tab.iter().filter(|(_, o)| (o[0].dim() == 2) == plane).collect();
            let (_, ops) = if few.is_empty() { g.pick(&tab) } else { g.pick(&few) };
            let d = ops[0].dim();
            let s: Vec<Q> = (0..d).map(|_| if g.flip() { Q::zero() } else { qf(g.int(-5, 5), 8) }).collect();
            let u = if g.flip() { qm(&gen_unimodular(g, d, 4, 2)) } else { identity(d) };
            let c = Op { m: u, s };
            let ci = c.inverse().unwrap();
            let v = ops.iter().map(|x| c.after(&x.after(&ci))).collect();
            finish(g, v)
        },
        |v, o| c31_test(v, o));
    h.sub("through generate", 250, 8000, vec![],
        |g| { let d = g.weighted(&[1, 3, 4]) + 1; gen_group(g, d) },
        |gens, o| {
            if closure(gens, 400).is_none() { return Ok(()); }
            let l: Vec<AffineMap<Q, W>> = gens.iter().map(|x| x.lib()).collect();
            let all = sut(|| generate(&l))?;
            c31_test(&all.iter().map(|x| Op::read(x)).collect::<Vec<_>>(), o)
        });
}

// ---------------------------------------------------------------- C40

fn neg(m: &QM) -> QM { m.iter().map(|r| r.iter().map(|x| -x).collect()).collect() }

fn cross_sign(axis: Option<&[Q]>, v: &[Q], w: &[Q]) -> Q {
    let rows = match axis {
        Some(a) => vec![a.to_vec(), v.to_vec(), w.to_vec()],
        None => vec![v.to_vec(), w.to_vec()],
    };
    det(&rows)
}

fn details(m: &QM) -> Result<Details, String> {
    let l = libq(m);
    sut(|| operator_details(l))
}

fn order_of(m: &QM) -> usize {
    let id = identity(m.len());
    let mut p = m.clone();
    for k in 1..=6 { if p == id { return k; } p = mul(&p, m); }
    0
}

fn c40_test(m: &QM, u: &IM, o: &mut Obs) -> Outcome {
    let d = m.len();
    let x = details(m)?;
    ensure_eq!(unlibq(&x.matrix), *m, "operator kept");
    ensure_eq!(x.dimension, d, "dimension");
    let k = order_of(m);
    let dt = det(m);
    o.nontrivial(d >= 2 && k != 1);
    o.label(match k { 0 => "infinite order", 1 => "identity", 2 => "order 2", 3 => "order 3", 4 => "order 4", _ => "order 6" });
    o.label_if(dt.is_negative(), "improper");
    o.label_if(dt.is_zero(), "singular");
    ensure_eq!(x.order, k, "order of {:?}", m);
    ensure_eq!(x.is_orientation_preserving, !dt.is_negative(), "orientation of {:?}", m);
    let rot = if d % 2 == 1 && dt.is_negative() { neg(m) } else { m.clone() };
    let mut e = rot.clone();
    for i in 0..d { e[i][i] -= Q::one(); }
    let fixed = null_basis(&e, d);
    let unique = fixed.len() == 1;
    o.label_if(unique, "axis");
    ensure_eq!(x.axis.is_some(), unique, "axis present for {:?}", m);
    if let Some(a) = &x.axis {
        ensure_eq!(a.len(), d, "axis length");
        ensure!(a.iter().find(|c| !c.is_zero()).map(|c| c.is_positive()) == Some(true), "axis {:?} of {:?} is not positive", a, m);
        ensure_eq!(mul_vec(&rot, a), *a, "axis {:?} under {:?}", a, rot);
    }
    if k > 2 && dt.is_positive() {
        o.label("sense of rotation");
        let inv = inverse(m).ok_or("harness: singular")?;
        let y = details(&inv)?;
        ensure!(x.is_clockwise != y.is_clockwise, "{:?} and its inverse are both {}", m,
            if x.is_clockwise { "clockwise" } else { "counterclockwise" });
        // the sense depends on the handedness of basis and axis only
        let um = qm(u);
        let z = details(&conj(&um, m))?;
        let mut turned = det(&um).is_negative();
        if d == 3 {
            let (a, b) = (x.axis.as_ref().ok_or("no axis")?, z.axis.as_ref().ok_or("no axis in another basis")?);
            let ua = mul_vec(&um, a);
            let i = b.iter().position(|c| !c.is_zero()).ok_or("zero axis")?;
            if ua[i].is_negative() { turned = !turned; }
        }
        ensure!((x.is_clockwise != z.is_clockwise) == turned, "sense of {:?} in the basis {:?}", m, u);
        // and agrees with the direction in which vectors turn
        let unit: Vec<Vec<Q>> = identity(d);
        let signs: BTreeSet<bool> = unit.iter().filter_map(|v| {
            let s = cross_sign(if d == 3 { x.axis.as_deref() } else { None }, v, &mul_vec(m, v));
            if s.is_zero() { None } else { Some(s.is_positive()) }
        }).collect();
        ensure_eq!(signs.len(), 1, "harness: direction of turning");
    }
    Ok(())
}

fn c40(h: &mut Harness) {
    h.boost(14);
    h.rule("Random products of generators of the maximal crystallographic point \
        groups conjugated by random unimodular matrices, and random integral \
        and rational matrices; all signed permutation matrices and all 3x3 \
        matrices with entries in -1..1 of finite order as examples. \
        Non-trivial: not the identity, dimension at least 2.");
    h.assume("the sense of rotation is claimed for proper operators of order \
        3, 4 and 6 only");
    h.note_exhaustive("all matrices with entries -1, 0, 1 in dimensions 1 and 2, and of order up to 6 in dimension 3");
    let mut ex: Vec<(QM, IM)> = vec![];
    for d in 1..=3usize {
        let n = 3usize.pow((d * d) as u32);
        for k in 0..n {
            let mut k = k;
            let m: IM = (0..d).map(|_| (0..d).map(|_| { let v = (k % 3) as i64 - 1; k /= 3; v }).collect()).collect();
            if d < 3 || (idet(&m).abs() == 1 && order_of(&qm(&m)) > 0) {
                let mut u = iidentity(d);
                if d > 1 { u[0][d - 1] = 1; u[d - 1][d - 1] = -1; }
                ex.push((qm(&m), u));
            }
        }
    }
    h.sub("operators", 2500, 80000, ex,
        |g| {
            let d = g.weighted(&[1, 4, 6]) + 1;
            let u = gen_unimodular(g, d, 4, 2);
            let m = if g.chance(4, 5) {
                let hol = holohedry(g, d);
                let m = gen_element(g, &hol);
                conj(&qm(&gen_unimodular(g, d, 5, 3)), &m)
            } else if g.flip() {
                qm(&gen_matrix(g, d, d, 3))
            } else {
                // infinite order or a rotation with rational entries
                let mut m = identity(d);
                if d >= 2 {
                    let i = g.below(d as u64 - 1) as usize;
                    let s = qf(4, 5);
                    m[i][i] = qf(3, 5); m[i + 1][i + 1] = qf(3, 5);
                    m[i][i + 1] = -s.clone(); m[i + 1][i] = s;
                }
                if g.flip() { m = neg(&m); }
                conj(&qm(&gen_unimodular(g, d, 3, 2)), &m)
            };
            (m, u)
        },
        |(m, u), o| c40_test(m, u, o));
}

// ---------------------------------------------------------------- C41

/// The ten plane crystal classes by generators, in all arithmetic classes.
const CLASSES: [(&str, &[[i64; 4]], &str); 13] = [
    ("1", &[], "oblique"),
    ("2", &[[-1, 0, 0, -1]], "oblique"),
    ("m p", &[[1, 0, 0, -1]], "rectangular"),
    ("m c", &[[0, 1, 1, 0]], "rectangular"),
    ("2mm p", &[[1, 0, 0, -1], [-1, 0, 0, 1]], "rectangular"),
    ("2mm c", &[[0, 1, 1, 0], [-1, 0, 0, -1]], "rectangular"),
    ("4", &[[0, -1, 1, 0]], "square"),
    ("4mm", &[[0, -1, 1, 0], [0, 1, 1, 0]], "square"),
    ("3", &[[0, -1, 1, -1]], "hexagonal"),
    ("3m1", &[[0, -1, 1, -1], [0, -1, -1, 0]], "hexagonal"),
    ("31m", &[[0, -1, 1, -1], [0, 1, 1, 0]], "hexagonal"),
    ("6", &[[1, -1, 1, 0]], "hexagonal"),
    ("6mm", &[[1, -1, 1, 0], [0, 1, 1, 0]], "hexagonal"),
];

fn class(k: usize, u: &IM) -> Vec<QM> {
    let um = qm(u);
    let gens: Vec<Op> = CLASSES[k].1.iter().map(|m| Op {
        m: conj(&um, &vec![vec![q(m[0]), q(m[1])], vec![q(m[2]), q(m[3])]]), s: vec![q(0), q(0)]
    }).chain([Op::id(2)]).collect();
    closure(&gens, 100).unwrap().into_iter().map(|x| x.m).collect()
}

#[derive(Debug)]
struct Plane { k: usize, u: IM, ops: Vec<QM> }

fn c41_test(c: &Plane, o: &mut Obs) -> Outcome {
    let (name, _, want) = CLASSES[c.k];
    o.label(name);
    o.nontrivial(c.ops.len() >= 2 && c.u != iidentity(2));
    let l: Vec<_> = c.ops.iter().map(|m| libq(m)).collect();
    let (sys, basis) = sut(|| crystal_system_and_basis_2d(&l))?;
    ensure_eq!(sys.to_string(), want, "crystal system of {} in the basis {:?}", name, c.u);
    let want = match want {
        "oblique" => CrystalSystem::Oblique, "rectangular" => CrystalSystem::Rectangular,
        "square" => CrystalSystem::Square, _ => CrystalSystem::Hexagonal,
    };
    ensure!(sys == want, "crystal system {:?}", sys);
    ensure_eq!(basis.len(), 2, "number of basis vectors");
    let b: Vec<Vec<Q>> = basis.iter().map(|m| m.iter().cloned().collect()).collect();
    ensure!(b.iter().all(|v| v.len() == 2), "basis vectors {:?}", b);
    ensure!(det(&b).is_positive(), "the basis {:?} is not right-handed", b);
    let mirrors: Vec<&QM> = c.ops.iter().filter(|m| det(m).is_negative()).collect();
    let turns: Vec<&QM> = c.ops.iter().filter(|m| det(m).is_positive() && order_of(m) > 2).collect();
    let opp = |v: &[Q]| v.iter().map(|x| -x).collect::<Vec<_>>();
    if !mirrors.is_empty() {
        for v in &b {
            ensure!(mirrors.iter().any(|m| { let w = mul_vec(m, v); w == *v || w == opp(v) }),
                "{:?} lies on no mirror axis of {}", v, name);
        }
    }
    if !turns.is_empty() {
        ensure!(turns.iter().any(|m| { let w = mul_vec(m, &b[0]); w == b[1] || w == opp(&b[1]) }),
            "{:?} and {:?} are not related by a rotation of {}", b[0], b[1], name);
    }
    Ok(())
}

fn c41(h: &mut Harness) {
    h.boost(16);
    h.rule("All thirteen arithmetic classes of plane point groups conjugated by \
        random unimodular matrices, operators in random order. Non-trivial: \
        more than one operator, not the standard basis.");
    h.assume("the group is given with each operator once; vectors are related \
        by a rotation up to sign");
    h.note_exhaustive("all 13 arithmetic classes in every basis with entries in -2..2, operators in one order");
    let mut ex = vec![];
    for k in 0..CLASSES.len() {
        for n in 0..625 {
            let e = |i: u32| (n / 5i64.pow(i)) % 5 - 2;
            let u = vec![vec![e(0), e(1)], vec![e(2), e(3)]];
            if idet(&u).abs() == 1 { let ops = class(k, &u); ex.push(Plane { k, u, ops }); }
        }
    }
    h.sub("plane point groups", 1500, 50000, ex,
        |g| {
            let k = g.below(CLASSES.len() as u64) as usize;
            let u = gen_unimodular(g, 2, 6, 4);
            let ops = class(k, &u);
            Plane { k, u, ops: g.shuffled(&ops) }
        },
        |c, o| c41_test(c, o));
}

// ------------------------------------------------------- C44, C45: documents

#[derive(Clone, Debug)]
enum Kind {
    /// Keyword, fields, unread ending.
    Data(Option<String>, Vec<Field>, bool),
    /// Blank or comment, unread ending.
    Blank(bool),
    Unreadable,
}

#[derive(Clone, Debug)]
struct Line { text: Vec<u8>, kind: Kind }

#[derive(Debug, PartialEq)]
struct WantEntry { kind: &'static str, key: Option<String>, nfields: usize, errors: usize, warnings: usize, line: usize }

#[derive(Debug, PartialEq)]
struct WantBlock { typ: String, start: usize, end: usize, entries: Vec<WantEntry> }

/// The blocks of a document, by the rules of the format.
fn model(lines: &[Line], failed: bool) -> Vec<WantBlock> {
    let mut out = vec![];
    let mut cur: Vec<WantEntry> = vec![];
    let mut open: Option<(String, usize)> = None;
    let mut key: Option<String> = None;
    for (n, l) in lines.iter().enumerate() {
        let mut e = WantEntry { kind: "data", key: None, nfields: 0, errors: 0, warnings: 0, line: n };
        match &l.kind {
            Kind::Unreadable => { e.kind = "error"; e.errors = 1; cur.push(e); },
            Kind::Blank(tail) => if *tail { e.kind = "empty"; e.errors = 1; cur.push(e); },
            Kind::Data(k, fields, tail) => {
                e.nfields = fields.len();
                e.errors = *tail as usize;
                let lower = k.as_ref().map(|k| k.to_lowercase());
                match lower.as_deref() {
                    Some("end") => {
                        e.kind = "end";
                        e.key = lower.clone();
                        e.warnings = !fields.is_empty() as usize;
                        let (typ, start) = open.take().unwrap_or_else(|| {
                            e.errors += 1;
                            ("--void--".to_string(), n)
                        });
                        cur.push(e);
                        out.push(WantBlock { typ, start, end: n, entries: std::mem::take(&mut cur) });
                        key = None;
                    },
                    Some(k) if open.is_none() => {
                        e.kind = "begin";
                        e.key = lower.clone();
                        e.warnings = !fields.is_empty() as usize;
                        open = Some((k.to_string(), n));
                        key = None;
                        cur.push(e);
                    },
                    Some(_) => { key = lower.clone(); e.key = lower; cur.push(e); },
                    None => {
                        if open.is_none() { e.errors += 1; }
                        e.key = if open.is_some() { key.clone() } else { None };
                        cur.push(e);
                    },
                }
            }
        }
    }
    if failed {
        cur.push(WantEntry { kind: "error", key: None, nfields: 0, errors: 1, warnings: 0, line: lines.len() });
    }
    if let Some(last) = cur.last_mut() {
        let end = last.line;
        let (typ, start) = match open {
            Some(x) => { last.errors += 1; x },
            None => ("--void--".to_string(), cur[0].line),
        };
        out.push(WantBlock { typ, start, end, entries: cur });
    }
    out
}

fn kind_name(t: &EntryType) -> &'static str {
    match t {
        EntryType::Begin => "begin", EntryType::End => "end", EntryType::Data => "data",
        EntryType::Empty => "empty", EntryType::Error => "error",
    }
}

fn count(notes: &[Note]) -> (usize, usize) {
    (notes.iter().filter(|n| matches!(n, Note::Error(_))).count(),
        notes.iter().filter(|n| matches!(n, Note::Warning(_))).count())
}

fn recased(g: &mut Gen, s: &str) -> String {
    if g.flip() { return s.to_string(); }
    s.chars().map(|c| if g.flip() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect()
}

/// A line of the given sort.
fn gen_doc_line(g: &mut Gen, wild: bool) -> Line {
    let lead = if g.flip() { gen_space(g) } else { String::new() };
    let trail = |g: &mut Gen| -> (String, bool) {
        if wild && g.chance(1, 6) {
            // the start of a string that does not end
            return (format!(" {}", g.pick(&["\"", "\"open", "\" #", "\"\""])), true);
        }
        match g.below(4) {
            0 => (format!("{}#{}", gen_space(g), gen_comment(g)), false),
            1 => (gen_space(g), false),
            _ => (String::new(), false),
        }
    };
    let fields = |g: &mut Gen, letter: bool, lo: usize| -> (String, Vec<Field>) {
        let n = g.larger(lo, 3, 20);
        let mut fs = vec![];
        let mut t = String::new();
        for i in 0..n {
            let (s, f) = gen_field(g, letter || i > 0);
            if i > 0 { t += &gen_space(g); }
            t += &s;
            fs.push(f);
        }
        (t, fs)
    };
    let line = |s: String, kind: Kind| Line { text: s.into_bytes(), kind };
    match g.weighted(&[3, 3, 4, 3, 2, if wild { 1 } else { 0 }]) {
        0 => {
            let k = recased(g, "end");
            let (t, fs) = if wild && g.chance(1, 4) { let (t, f) = fields(g, true, 1); (format!(" {}", t), f) } else { Default::default() };
            let (x, tail) = trail(g);
            line(format!("{}{}{}{}", lead, k, t, x), Kind::Data(Some(k), fs, tail))
        },
        1 => {
            // usable as a block type or as a keyword
            let k = g_type(g);
            let k = recased(g, k);
            let (t, fs) = if g.chance(1, 3) { let (t, f) = fields(g, true, 1); (format!(" {}", t), f) } else { Default::default() };
            let (x, tail) = trail(g);
            line(format!("{}{}{}{}", lead, k, t, x), Kind::Data(Some(k), fs, tail))
        },
        2 => {
            let k = gen_key(g);
            let k = recased(g, &k);
            let (t, fs) = fields(g, true, 0);
            let (x, tail) = trail(g);
            line(format!("{}{}{}{}{}", lead, k, gen_space(g), t, x), Kind::Data(Some(k), fs, tail))
        },
        3 => {
            let (t, fs) = fields(g, false, 1);
            let (x, tail) = trail(g);
            line(format!("{}{}{}", lead, t, x), Kind::Data(None, fs, tail))
        },
        4 => {
            let (x, tail) = trail(g);
            let t = format!("{}{}", lead, x);
            line(t, Kind::Blank(tail))
        },
        _ => {
            let t = g.pick(&["2eggs", "x 1e", "\"a\" 1.5E+", "end 3e", "END 1e-"]).to_string();
            line(format!("{}{}", lead, t), Kind::Unreadable)
        }
    }
}

fn g_type(g: &mut Gen) -> &'static str {
    *g.pick(&["crystal", "PERIODIC_GRAPH", "Net", "ends", "en", "endX", "tiling"])
}

fn join(g: &mut Gen, lines: &[Line]) -> Vec<u8> {
    let crlf = g.chance(1, 4);
    let mut v = vec![];
    for (i, l) in lines.iter().enumerate() {
        v.extend(&l.text);
        if i + 1 < lines.len() || l.text.is_empty() || g.flip() {
            v.extend(if crlf && g.chance(3, 4) { &b"\r\n"[..] } else { &b"\n"[..] });
        }
    }
    v
}

#[derive(Debug)]
struct Doc { lines: Vec<Line>, bytes: Vec<u8> }

fn gen_doc(g: &mut Gen, wild: bool) -> Doc {
    let n = g.larger(0, 30, 120);
    let n = if n > 110 { n * 10 } else { n };
    let mut lines = vec![];
    if g.chance(2, 3) {
        // mostly regular: begin, data, end
        let mut open = false;
        for _ in 0..n {
            if open && g.chance(1, 5) {
                let k = recased(g, "end");
                lines.push(Line { text: k.clone().into_bytes(), kind: Kind::Data(Some(k), vec![], false) });
                open = false;
                continue;
            }
            if !open {
                let k = g_type(g);
            let k = recased(g, k);
                lines.push(Line { text: k.clone().into_bytes(), kind: Kind::Data(Some(k), vec![], false) });
                open = true;
                continue;
            }
            let w = wild && g.chance(1, 3);
            let l = gen_doc_line(g, w);
            if matches!(&l.kind, Kind::Data(Some(k), _, _) if k.eq_ignore_ascii_case("end")) { open = false; }
            lines.push(l);
        }
        if open && g.chance(3, 4) { lines.push(Line { text: b"END".to_vec(), kind: Kind::Data(Some("END".into()), vec![], false) }); }
    } else {
        for _ in 0..n { lines.push(gen_doc_line(g, wild)); }
    }
    let bytes = join(g, &lines);
    Doc { lines, bytes }
}

fn dump_entry(e: &rust_systre::io::parse_cgd_blocks::Entry) -> String {
    let v = bh::view_entry(e);
    format!("{:?} {:?} {:?} {:?} {} {:?}", v.entry_type, v.key, v.fields, v.notes, v.line_number, v.content)
}

fn dump_block(b: &rust_systre::io::parse_cgd_blocks::Block) -> String {
    let v = bh::view_block(b);
    format!("{} {}-{}\n{}", v.block_type, v.lineno_start, v.lineno_end,
        v.entries.iter().map(dump_entry).collect::<Vec<_>>().join("\n"))
}

fn labels(d: &Doc, want: &[WantBlock], o: &mut Obs) {
    o.label_if(want.len() >= 2, "2 or more blocks");
    o.label_if(want.len() >= 20, "20 or more blocks");
    o.label_if(d.lines.len() > 100, "more than 100 lines");
    o.label_if(d.lines.len() > 1000, "more than 1000 lines");
    for b in want {
        o.label_if(b.typ == "--void--", "void block");
        for (i, e) in b.entries.iter().enumerate() {
            o.label_if(e.kind == "data" && e.key.is_none() && i > 0, "data without keyword");
            o.label_if(e.kind == "error", "unreadable line");
            o.label_if(e.kind == "begin" && i > 0, "data before a block");
            o.label_if(e.warnings > 0, "text after type or end");
            o.label_if(e.kind == "empty", "blank line with unread ending");
            o.label_if(e.errors > 1, "several errors on a line");
        }
        if let Some(e) = b.entries.last() { o.label_if(e.kind != "end" && b.typ != "--void--", "missing end"); }
    }
    o.label_if(d.bytes.contains(&b'\r'), "CRLF");
}

/// Structure and contents (not the notes).
fn c44_test(d: &Doc, o: &mut Obs) -> Outcome {
    let want = model(&d.lines, false);
    o.nontrivial(want.iter().map(|b| b.entries.len()).sum::<usize>() >= 4);
    labels(d, &want, o);
    let got = sut(|| parse_blocks(&d.bytes[..]))?;
    ensure_eq!(got.len(), want.len(), "number of blocks");
    for (n, (b, w)) in got.iter().zip(&want).enumerate() {
        let b = bh::view_block(b);
        ensure_eq!(*b.block_type, w.typ, "type of block {}", n);
        ensure_eq!((b.lineno_start, b.lineno_end), (w.start, w.end), "extent of block {}", n);
        ensure_eq!(b.entries.iter().map(|e| bh::view_entry(e).line_number).collect::<Vec<_>>(),
            w.entries.iter().map(|e| e.line).collect::<Vec<_>>(), "lines of block {}", n);
        for (e, x) in b.entries.iter().zip(&w.entries) {
            let e = bh::view_entry(e);
            ensure_eq!(kind_name(e.entry_type), x.kind, "sort of line {}", x.line);
            ensure_eq!(*e.key, x.key, "keyword of line {}", x.line);
            let l = &d.lines[x.line];
            ensure_eq!(e.content.as_ref().map(|s| s.as_bytes()), Some(&l.text[..]), "content of line {}", x.line);
            let fs: &[Field] = match &l.kind { Kind::Data(_, f, _) => f, _ => &[] };
            ensure!(same_fields(e.fields, fs), "fields of line {}: got {:?}, expected {:?}", x.line, e.fields, fs);
        }
    }
    // line by line
    let ls = sut(|| parse_lines(&d.bytes[..]))?;
    ensure_eq!(ls.len(), d.lines.len(), "number of lines");
    for (n, (e, l)) in ls.iter().zip(&d.lines).enumerate() {
        let e = bh::view_entry(e);
        let (k, fs, t): (Option<String>, &[Field], &str) = match &l.kind {
            Kind::Data(k, f, _) => (k.as_ref().map(|k| k.to_lowercase()), f, "data"),
            Kind::Blank(_) => (None, &[], "empty"),
            Kind::Unreadable => (None, &[], "error"),
        };
        ensure_eq!(e.line_number, n, "line number");
        ensure_eq!(kind_name(e.entry_type), t, "sort of line {} by itself", n);
        ensure_eq!(e.key.as_ref().map(|k| k.to_lowercase()), k, "keyword of line {} by itself", n);
        ensure!(same_fields(e.fields, fs), "fields of line {} by itself: got {:?}, expected {:?}", n, e.fields, fs);
        ensure_eq!(e.content.as_ref().map(|s| s.as_bytes()), Some(&l.text[..]), "content of line {} by itself", n);
    }
    Ok(())
}

fn small(text: &[(&str, Kind)]) -> Doc {
    let lines: Vec<Line> = text.iter().map(|(t, k)| Line { text: t.as_bytes().to_vec(), kind: k.clone() }).collect();
    let bytes = lines.iter().flat_map(|l| l.text.iter().copied().chain([b'\n'])).collect();
    Doc { lines, bytes }
}

fn known() -> Vec<Doc> {
    let k = |s: &str| Kind::Data(Some(s.to_string()), vec![], false);
    let n = |v: i32| Kind::Data(None, vec![Field::Int(v)], false);
    vec![
        small(&[]),
        // keyword of an earlier block
        small(&[("net", k("net")), ("edge 1", Kind::Data(Some("edge".into()), vec![Field::Int(1)], false)), ("END", k("END")), ("7", n(7)),
            ("net", k("net")), ("8", n(8)), ("end", k("end"))]),
        small(&[("edge", k("edge")), ("8", n(8)), ("eNd", k("eNd")), ("crystal", k("crystal")), ("9", n(9)), ("end", k("end"))]),
        // stray lines after the final block
        small(&[("net", k("net")), ("end", k("end")), ("5", n(5))]),
        small(&[("2eggs", Kind::Unreadable)]),
        small(&[("end", k("end")), ("End", k("End"))]),
        // text after type and end
        small(&[("net 5", Kind::Data(Some("net".into()), vec![Field::Int(5)], false)), ("end 6", Kind::Data(Some("end".into()), vec![Field::Int(6)], false))]),
        small(&[("net", k("net")), ("\"", Kind::Blank(true)), ("# x", Kind::Blank(false))]),
    ]
}

fn c44(h: &mut Harness) {
    h.boost(40);
    h.rule("Documents of up to 31, now and then up to 1200, rendered lines: block types, ends, lines with \
        and without keyword, blank lines, comments, unreadable lines, unread \
        endings, LF and CRLF, with or without a final line end; the reference \
        derives the blocks from the lines as generated. Non-trivial: at least \
        4 entries.");
    h.sub("documents", 4000, 120000, known(), |g| { let w = g.chance(2, 3); gen_doc(g, w) }, |d, o| c44_test(d, o));
}

/// Notes only.
fn c45_test(d: &Doc, o: &mut Obs) -> Outcome {
    let want = model(&d.lines, false);
    let irregular = want.iter().flat_map(|b| &b.entries).filter(|e| e.errors + e.warnings > 0).count();
    o.nontrivial(irregular >= 1);
    o.label_if(irregular == 0, "regular");
    labels(d, &want, o);
    let got = sut(|| parse_blocks(&d.bytes[..]))?;
    let mut have: Vec<(usize, usize, usize)> = vec![];
    for b in &got {
        for e in bh::view_block(b).entries {
            let e = bh::view_entry(e);
            let (a, b) = count(e.notes);
            if a + b > 0 { have.push((e.line_number, a, b)); }
            for n in e.notes {
                let (Note::Error(s) | Note::Warning(s)) = n;
                ensure!(!s.is_empty(), "empty note on line {}", e.line_number);
            }
        }
    }
    let expect: Vec<(usize, usize, usize)> = want.iter().flat_map(|b| &b.entries)
        .filter(|e| e.errors + e.warnings > 0).map(|e| (e.line, e.errors, e.warnings)).collect();
    ensure_eq!(have, expect, "lines with their numbers of errors and warnings");
    // an unread ending is quoted
    for b in &got {
        for e in bh::view_block(b).entries {
            let e = bh::view_entry(e);
            let Some(t) = e.content else { continue };
            if let Ok((rest, _)) = parse_cgd_line(t) {
                if !rest.is_empty() {
                    ensure!(e.notes.iter().any(|n| matches!(n, Note::Error(s) if s.contains(rest))),
                        "the unread ending {:?} of line {} is not quoted in {:?}", rest, e.line_number, e.notes);
                }
            }
        }
    }
    let ls = sut(|| parse_lines(&d.bytes[..]))?;
    for (e, l) in ls.iter().zip(&d.lines) {
        let e = bh::view_entry(e);
        let bad = matches!(&l.kind, Kind::Unreadable | Kind::Blank(true) | Kind::Data(_, _, true));
        ensure_eq!(count(e.notes), (bad as usize, 0), "notes on line {} by itself", e.line_number);
    }
    Ok(())
}

fn c45(h: &mut Harness) {
    h.boost(40);
    h.rule("Documents as for C44, two thirds of them with injected \
        irregularities of all kinds; expected notes are counted per line from \
        the lines as generated. Non-trivial: at least one irregular line.");
    h.sub("documents", 4000, 120000, known(), |g| { let w = g.chance(4, 5); gen_doc(g, w) }, |d, o| c45_test(d, o));
}

// ---------------------------------------------------------------- C46

/// Delivers data in pieces, with interruptions, and may fail for good.
#[derive(Clone, Debug)]
struct Stream { data: Vec<u8>, pos: usize, sizes: Vec<usize>, turn: usize, interrupt: bool, was: bool,
    fail_at: Option<usize>, kind: io::ErrorKind, after: usize }

impl Stream {
    fn new(data: &[u8]) -> Self {
        Stream { data: data.to_vec(), pos: 0, sizes: vec![1 << 20], turn: 0, interrupt: false, was: false,
            fail_at: None, kind: io::ErrorKind::Other, after: 0 }
    }
}

impl Read for Stream {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if self.interrupt {
            self.was = !self.was;
            if self.was { return Err(io::Error::new(io::ErrorKind::Interrupted, "again")); }
        }
        let end = self.fail_at.unwrap_or(self.data.len()).min(self.data.len());
        if self.fail_at.is_some() && self.pos >= end {
            self.after += 1;
            if self.after > 500 { std::panic::panic_any(BudgetExceeded); }
            return Err(io::Error::new(self.kind, "broken"));
        }
        self.turn += 1;
        let n = buf.len().min(self.sizes[self.turn % self.sizes.len()]).min(end - self.pos);
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

#[derive(Debug)]
struct StreamCase { bytes: Vec<u8>, sizes: Vec<usize>, interrupt: bool }

fn gen_bytes(g: &mut Gen) -> Vec<u8> {
    if g.chance(1, 2) {
        let mut d = gen_doc(g, true).bytes;
        for _ in 0..g.size(0, 4) {
            let p = g.below(d.len() as u64 + 1) as usize;
            let b = *g.pick(&[0xff, 0xc3, 0x80, b'\n', b'\r', b' ', b'"', 0xe4, 0, b'#']);
            d.insert(p, b);
        }
        if g.chance(1, 12) {
            // beyond the size of a buffer
            let n = *g.pick(&[8180, 8191, 8192, 8193, 20000]);
            let fill = *g.pick(&[b'a', b' ', b'\n']);
            let p = g.below(d.len() as u64 + 1) as usize;
            d.splice(p..p, std::iter::repeat(fill).take(n));
        }
        d
    } else {
        let n = g.larger(0, 60, 600);
        (0..n).map(|_| *g.pick(&[b'a', b'E', b'1', b'.', b' ', b'\t', b'\n', b'\n', b'\r', b'"', b'#', b'/', 0xc3, 0xa9, 0xff, 0xe4, b'e', b'n', b'd'])).collect()
    }
}

/// The entries of a stream by lines, each read by itself.
fn line_by_line(bytes: &[u8]) -> Result<Vec<(Option<String>, String, bool)>, String> {
    let mut parts: Vec<&[u8]> = bytes.split(|b| *b == b'\n').collect();
    let open = parts.pop().unwrap_or(&[]);
    let n = parts.len();
    if !open.is_empty() { parts.push(open); }
    parts.iter().enumerate().map(|(i, p)| {
        // a line end is LF or CRLF
        let p = if i < n { p.strip_suffix(b"\r").unwrap_or(p) } else { p };
        match std::str::from_utf8(p) {
            Err(_) => Ok((None, "error".to_string(), true)),
            Ok(s) => {
                Ok(match sut(|| parse_cgd_line(s).map(|(r, f)| (r.to_string(), f)))? {
                    Err(_) => (Some(s.to_string()), "error".to_string(), true),
                    Ok((r, f)) => {
                        let (k, fs) = match f.split_first() {
                            Some((Field::Key(k), fs)) => (Some(k.to_lowercase()), fs.to_vec()),
                            _ => (None, f.clone()),
                        };
                        (Some(s.to_string()), format!("{} {:?} {:?}", if f.is_empty() { "empty" } else { "data" }, k, fs), !r.is_empty())
                    },
                })
            }
        }
    }).collect()
}

fn shown(e: &rust_systre::io::parse_cgd_blocks::Entry) -> (Option<String>, String, bool) {
    let v = bh::view_entry(e);
    let s = match v.entry_type {
        EntryType::Error => "error".to_string(),
        t => format!("{} {:?} {:?}", kind_name(t), v.key.as_ref().map(|k| k.to_lowercase()), v.fields),
    };
    (v.content.clone(), s, !v.notes.is_empty())
}

fn all<T>(v: &[T], f: impl Fn(&T) -> String) -> Vec<String> { v.iter().map(f).collect() }

fn c46_test(c: &StreamCase, o: &mut Obs) -> Outcome {
    o.nontrivial(c.bytes.len() >= 4);
    o.label_if(std::str::from_utf8(&c.bytes).is_err(), "invalid UTF-8");
    o.label_if(c.interrupt, "interruptions");
    o.label_if(c.bytes.len() > 8192, "beyond the buffer");
    let clean = sut(|| parse_lines(Stream::new(&c.bytes)))?;
    ensure_eq!(clean.iter().map(shown).collect::<Vec<_>>(), line_by_line(&c.bytes)?, "entries");
    for (i, e) in clean.iter().enumerate() { ensure_eq!(bh::view_entry(e).line_number, i, "line number"); }
    let mut s = Stream::new(&c.bytes);
    s.sizes = c.sizes.clone();
    s.interrupt = c.interrupt;
    let t = s.clone();
    let broken = sut(move || parse_lines(s))?;
    ensure_eq!(all(&broken, dump_entry), all(&clean, dump_entry), "entries read in pieces");
    let a = sut(|| parse_blocks(Stream::new(&c.bytes)))?;
    let b = sut(move || parse_blocks(t))?;
    ensure_eq!(all(&b, dump_block), all(&a, dump_block), "blocks read in pieces");
    // every entry with a note or content of its own is in a block
    let lines: Vec<usize> = a.iter().flat_map(|b| bh::view_block(b).entries.iter().map(|e| bh::view_entry(e).line_number)).collect();
    let want: Vec<usize> = clean.iter().map(|e| bh::view_entry(e))
        .filter(|e| *e.entry_type != EntryType::Empty || !e.notes.is_empty()).map(|e| e.line_number).collect();
    ensure_eq!(lines, want, "lines in blocks");
    Ok(())
}

/// A permanent failure at every position.
fn c46_fault(bytes: &[u8], kind: io::ErrorKind, interrupt: bool, sizes: &[usize], o: &mut Obs) -> Outcome {
    o.nontrivial(bytes.len() >= 4);
    let clean = sut(|| parse_lines(Stream::new(bytes)))?;
    let step = if bytes.len() > 400 { 97 } else { 1 };
    for p in (0..=bytes.len()).step_by(step) {
        let mut s = Stream::new(bytes);
        s.fail_at = Some(p);
        s.kind = kind;
        s.interrupt = interrupt;
        s.sizes = sizes.to_vec();
        let t = s.clone();
        let got = sut(move || parse_lines(s)).map_err(|e| format!("failure at byte {}: {}", p, e))?;
        let done = bytes[..p].iter().filter(|b| **b == b'\n').count();
        ensure!(got.len() > done, "failure at byte {}: {} entries, none for the failure", p, got.len());
        ensure_eq!(all(&got[..done], dump_entry), all(&clean[..done], dump_entry), "lines before the failure at byte {}", p);
        let last = bh::view_entry(got.last().unwrap());
        ensure_eq!(kind_name(last.entry_type), "error", "last entry after a failure at byte {}", p);
        ensure!(count(last.notes).0 >= 1, "failure at byte {} is not noted", p);
        ensure!(got.len() <= done + 2, "{} entries after a failure at byte {}", got.len() - done, p);
        let blocks = sut(move || parse_blocks(t)).map_err(|e| format!("failure at byte {}: {}", p, e))?;
        let noted = blocks.iter().flat_map(|b| bh::view_block(b).entries.iter())
            .any(|e| { let e = bh::view_entry(e); *e.entry_type == EntryType::Error && e.line_number == last.line_number });
        ensure!(noted, "failure at byte {} does not show in the blocks", p);
    }
    Ok(())
}

fn c46(h: &mut Harness) {
    h.boost(6);
    h.rule("Documents with random bytes inserted, random byte strings, some \
        beyond 8 KiB, delivered in random pieces with interruptions; each \
        stream also with a permanent failure at every byte position (every \
        97th above 400 bytes). Non-trivial: at least 4 bytes.");
    h.assume("a failed stream keeps failing; what was read of the broken line \
        may or may not be kept");
    let sizes = |g: &mut Gen| -> Vec<usize> { g.vec(1, 4, |g| *g.pick(&[1, 1, 2, 3, 7, 64, 4096, 8192])) };
    let kinds = [io::ErrorKind::Other, io::ErrorKind::UnexpectedEof, io::ErrorKind::WouldBlock,
        io::ErrorKind::InvalidData, io::ErrorKind::BrokenPipe, io::ErrorKind::TimedOut, io::ErrorKind::InvalidInput];
    h.sub("pieces", 2500, 80000,
        vec![StreamCase { bytes: b"a\r\n\xff\nb\r".to_vec(), sizes: vec![1], interrupt: true },
            StreamCase { bytes: b"net\n\xff\nend\n".to_vec(), sizes: vec![2], interrupt: false }],
        move |g| StreamCase { bytes: gen_bytes(g), sizes: sizes(g), interrupt: g.flip() },
        |c, o| c46_test(c, o));
    h.sub("failures", 250, 8000, vec![(b"net\n 1 2\nend\n".to_vec(), io::ErrorKind::Other, false, vec![1])],
        move |g| (gen_bytes(g), *g.pick(&kinds), g.chance(1, 3), sizes(g)),
        |(b, k, i, s), o| c46_fault(b, *k, *i, s, o));
}
