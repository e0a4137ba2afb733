//! Independent model of affine operators, operator texts and space groups.
use std::collections::BTreeSet;

use num_traits::{One, Signed, Zero};
use rust_systre::arithmetic::geometry::{AffineMap, Vector};

use crate::engine::Gen;
use crate::la::*;

#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Op { pub m: QM, pub s: Vec<Q> }

impl std::fmt::Debug for Op {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "\"{}\"", plain(self))
    }
}

impl Op {
    pub fn id(d: usize) -> Op { Op { m: identity(d), s: vec![Q::zero(); d] } }
    pub fn dim(&self) -> usize { self.s.len() }
    /// First `b`, then `self`.
    pub fn after(&self, b: &Op) -> Op {
        Op { m: mul(&self.m, &b.m), s: vadd(&mul_vec(&self.m, &b.s), &self.s) }
    }
    pub fn inverse(&self) -> Option<Op> {
        let m = inverse(&self.m)?;
        let s = mul_vec(&m, &self.s).iter().map(|x| -x).collect();
        Some(Op { m, s })
    }
    pub fn mod1(&self) -> Op { Op { m: self.m.clone(), s: frac(&self.s) } }
    pub fn is_translation(&self) -> bool { self.m == identity(self.dim()) }
    pub fn integral(&self) -> bool { self.m.iter().all(|r| is_integral(r)) }
    pub fn lib<CS: Clone>(&self) -> AffineMap<Q, CS> {
        AffineMap::new(&libq(&self.m), &Vector::new(&self.s))
    }
    pub fn read<CS: Clone>(a: &AffineMap<Q, CS>) -> Op {
        Op { m: unlibq(&a.linear_matrix()), s: a.shift().iter().cloned().collect() }
    }
}

/// Operators with integral linear parts as flat integers, shifts as
/// numerators modulo a common denominator.
#[derive(Clone)]
pub struct Packed { pub d: usize, pub den: i64 }

impl Packed {
    pub fn new(ops: &[Op]) -> Self {
        let mut den = Z::one();
        for x in ops.iter().flat_map(|o| &o.s) { den = num_integer::lcm(den, x.denom().clone()); }
        Packed { d: ops[0].dim(), den: i64::try_from(den).expect("denominator") }
    }
    pub fn pack(&self, o: &Op) -> Vec<i64> {
        let int = |x: &Q| { assert!(x.is_integer()); i64::try_from(x.to_integer()).expect("entry") };
        let den = q(self.den);
        o.m.iter().flatten().map(|x| int(x))
            .chain(o.s.iter().map(|x| int(&(x * &den)).rem_euclid(self.den))).collect()
    }
    pub fn unpack(&self, v: &[i64]) -> Op {
        let d = self.d;
        Op {
            m: (0..d).map(|i| (0..d).map(|j| q(v[i * d + j])).collect()).collect(),
            s: (0..d).map(|i| qf(v[d * d + i], self.den)).collect(),
        }
    }
    /// First `b`, then `a`.
    pub fn mul(&self, a: &[i64], b: &[i64]) -> Vec<i64> {
        assert!(a.iter().chain(b).all(|x| x.abs() < 1 << 30), "entries too large");
        let d = self.d;
        let mut r = vec![0; d * d + d];
        for i in 0..d {
            for j in 0..d {
                r[i * d + j] = (0..d).map(|k| a[i * d + k] * b[k * d + j]).sum();
            }
            let t: i64 = (0..d).map(|k| a[i * d + k] * b[d * d + k]).sum();
            r[d * d + i] = (t + a[d * d + i]).rem_euclid(self.den);
        }
        r
    }
}

/// Group generated modulo integer translations (None above `max` elements).
/// Linear parts must be integral.
pub fn closure(gens: &[Op], max: usize) -> Option<BTreeSet<Op>> {
    let p = Packed::new(gens);
    let gs: Vec<Vec<i64>> = gens.iter().map(|g| p.pack(g)).collect();
    let id = p.pack(&Op::id(p.d));
    let mut seen = std::collections::HashSet::from([id.clone()]);
    let mut st = vec![id];
    while let Some(a) = st.pop() {
        for g in &gs {
            let b = p.mul(g, &a);
            if !seen.contains(&b) {
                if seen.len() >= max || b.iter().any(|x| x.abs() >= 1 << 30) { return None; }
                seen.insert(b.clone());
                st.push(b);
            }
        }
    }
    Some(seen.iter().map(|v| p.unpack(v)).collect())
}

// ------------------------------------------------------------- texts

/// A plain rendering used for diagnostics and as canonical text.
pub fn plain(op: &Op) -> String {
    let axes = ["x", "y", "z", "w"];
    (0..op.dim()).map(|i| {
        let mut s = String::new();
        for j in 0..op.dim() {
            let c = &op.m[i][j];
            if c.is_zero() { continue; }
            if c.is_negative() { s.push('-') } else if !s.is_empty() { s.push('+') }
            if !c.abs().is_one() { s += &c.abs().to_string(); }
            s += axes[j];
        }
        let c = &op.s[i];
        if s.is_empty() { return c.to_string(); }
        if !c.is_zero() {
            s.push(if c.is_negative() { '-' } else { '+' });
            s += &c.abs().to_string();
        }
        s
    }).collect::<Vec<_>>().join(",")
}

/// What a complete text denotes.
#[derive(Clone, Debug, PartialEq)]
pub enum Denotes {
    /// A map; `sure` if it lies within the documented syntax and sizes.
    Map { op: Op, sure: bool },
    Nothing,
}

struct Reader<'a> { s: &'a [u8], i: usize, sure: bool }

impl<'a> Reader<'a> {
    fn ws(&mut self) -> bool {
        let j = self.i;
        while self.i < self.s.len() && (self.s[self.i] == b' ' || self.s[self.i] == b'\t') {
            self.i += 1;
        }
        self.i > j
    }
    fn peek(&self) -> Option<u8> { self.s.get(self.i).cloned() }
    fn int(&mut self) -> Option<Z> {
        let j = self.i;
        while self.peek().map_or(false, |c| c.is_ascii_digit()) { self.i += 1; }
        if self.i == j { return None; }
        if self.i - j > 9 { self.sure = false; }
        std::str::from_utf8(&self.s[j..self.i]).unwrap().parse().ok()
    }
    fn axis(&mut self) -> Option<usize> {
        let k = match self.peek()? { b'x' => 0, b'y' => 1, b'z' => 2, _ => return None };
        self.i += 1;
        Some(k)
    }
    /// Coefficient and axis (3: constant).
    fn uterm(&mut self) -> Option<(Q, usize)> {
        if let Some(k) = self.axis() { return Some((Q::one(), k)); }
        let n = self.int()?;
        let mut val = Q::from(n);
        let save = self.i;
        self.ws();
        if self.peek() == Some(b'/') {
            self.i += 1;
            self.ws();
            let d = self.int()?;
            if d.is_zero() { return None; }
            val /= Q::from(d);
        } else {
            self.i = save;
        }
        let save = self.i;
        let spaced = self.ws();
        if self.peek() == Some(b'*') {
            self.i += 1;
            let more = self.ws();
            if spaced || more { self.sure = false; }
            let k = self.axis()?;
            return Some((val, k));
        }
        if let Some(k) = self.axis() { return Some((val, k)); }
        self.i = save;
        Some((val, 3))
    }
    fn coord(&mut self) -> Option<Vec<Q>> {
        let mut row = vec![Q::zero(); 4];
        let mut first = true;
        loop {
            let save = self.i;
            self.ws();
            let sign = match self.peek() {
                Some(b'+') => { self.i += 1; Some(1) },
                Some(b'-') => { self.i += 1; Some(-1) },
                _ => None
            };
            if sign.is_none() && !first { self.i = save; return Some(row); }
            self.ws();
            let (v, k) = self.uterm()?;
            // a sum over the product of the denominators must fit
            let (a, b) = (&row[k], &v);
            let wide = a.numer() * b.denom();
            let wide2 = b.numer() * a.denom();
            let den = a.denom() * b.denom();
            if wide.bits() > 29 || wide2.bits() > 29 || den.bits() > 30 { self.sure = a.is_zero() && self.sure; }
            row[k] += v * q(sign.unwrap_or(1));
            first = false;
        }
    }
}

/// Reads a complete text by the documented syntax.
pub fn denote(text: &str) -> Denotes {
    let mut r = Reader { s: text.as_bytes(), i: 0, sure: true };
    match complete(&mut r) {
        Some(op) => Denotes::Map { op, sure: r.sure },
        None => Denotes::Nothing,
    }
}

fn complete(r: &mut Reader) -> Option<Op> {
    let mut rows = vec![];
    loop {
        rows.push(r.coord()?);
        r.ws();
        match r.peek() {
            None => break,
            Some(b',') => r.i += 1,
            _ => return None,
        }
    }
    let n = rows.len();
    if n > 3 { return None; }
    for row in &rows {
        if row[n..3].iter().any(|x| !x.is_zero()) { return None; }
    }
    // axes beyond the dimension that cancel: the reader may or may not object
    let used: Vec<usize> = r.s.iter().filter_map(|c| match c {
        b'x' => Some(0), b'y' => Some(1), b'z' => Some(2), _ => None }).collect();
    if used.iter().any(|k| *k >= n) { r.sure = false; }
    Some(Op {
        m: rows.iter().map(|x| x[..n].to_vec()).collect(),
        s: rows.iter().map(|x| x[3].clone()).collect(),
    })
}

fn sp(g: &mut Gen) -> String {
    match g.weighted(&[6, 2, 1]) {
        0 => String::new(),
        1 => " ".to_string(),
        _ => { let n = g.larger(1, 3, 20); g.vec(n, n, |g| *g.pick(&[' ', '\t'])).into_iter().collect() },
    }
}

/// Free spacing only with probability 1/2.
pub struct Style { pub spaces: bool }

fn number(g: &mut Gen, st: &Style, v: &Q) -> String {
    let mut k = 1;
    if g.chance(1, 6) { k = g.int(2, 5); }
    if k == 1 && v.is_integer() && !g.chance(1, 8) {
        let z = if g.chance(1, 10) { "0" } else { "" };
        return format!("{}{}", z, v);
    }
    let (a, b) = if st.spaces { (sp(g), sp(g)) } else { (String::new(), String::new()) };
    format!("{}{}/{}{}", v.numer() * k, a, b, v.denom() * k)
}

/// Splits a value into 1-3 summands.
fn split(g: &mut Gen, v: &Q) -> Vec<Q> {
    let n = if g.chance(1, 80) { g.size(3, 40) } else { g.weighted(&[5, 2, 1]) };
    let mut rest = v.clone();
    let mut r = vec![];
    for _ in 0..n {
        let x = qf(g.int(-5, 5), *g.pick(&[1, 1, 2, 3]));
        rest -= &x;
        r.push(x);
    }
    r.push(rest);
    r
}

/// A random text for the operator within the documented syntax.
pub fn render(g: &mut Gen, op: &Op) -> String {
    let st = Style { spaces: g.flip() };
    let n = op.dim();
    let s = |g: &mut Gen| if st.spaces { sp(g) } else { String::new() };
    let mut text = s(g);
    for i in 0..n {
        if i > 0 { text += &s(g); text.push(','); text += &s(g); }
        let mut terms: Vec<(Q, usize)> = vec![];
        for j in 0..=n {
            let (v, k) = if j < n { (&op.m[i][j], j) } else { (&op.s[i], 3) };
            if v.is_zero() && !g.chance(1, 8) { continue; }
            for x in split(g, v) { terms.push((x, k)); }
        }
        if terms.is_empty() { terms.push((Q::zero(), 3)); }
        if g.chance(1, 3) { terms = g.shuffled(&terms); }
        for (t, (v, k)) in terms.iter().enumerate() {
            let neg = v.is_negative() || (v.is_zero() && g.chance(1, 4));
            if neg || t > 0 || g.chance(1, 6) {
                if t > 0 { text += &s(g); }
                text.push(if neg { '-' } else { '+' });
                text += &s(g);
            }
            let a = v.abs();
            if *k == 3 {
                text += &number(g, &st, &a);
            } else {
                if !a.is_one() || g.chance(1, 6) {
                    text += &number(g, &st, &a);
                    if g.chance(1, 3) { text.push('*') } else { text += &s(g); }
                }
                text.push(['x', 'y', 'z'][*k]);
            }
        }
    }
    text + &s(g)
}

// ------------------------------------------------------------ groups

fn im(m: &[&[i64]]) -> QM { qm(&m.iter().map(|r| r.to_vec()).collect()) }

/// Finite matrix groups: generators of subgroups of the holohedries.
pub fn holohedry(g: &mut Gen, d: usize) -> Vec<QM> {
    match d {
        1 => vec![im(&[&[-1]])],
        2 => if g.flip() {
            vec![im(&[&[0, -1], &[1, 0]]), im(&[&[-1, 0], &[0, 1]])]
        } else {
            vec![im(&[&[1, -1], &[1, 0]]), im(&[&[0, 1], &[1, 0]])]
        },
        _ => if g.chance(2, 3) {
            vec![im(&[&[0, 0, 1], &[1, 0, 0], &[0, 1, 0]]),
                im(&[&[0, -1, 0], &[1, 0, 0], &[0, 0, 1]]),
                im(&[&[-1, 0, 0], &[0, -1, 0], &[0, 0, -1]])]
        } else {
            vec![im(&[&[1, -1, 0], &[1, 0, 0], &[0, 0, 1]]),
                im(&[&[0, 1, 0], &[1, 0, 0], &[0, 0, 1]]),
                im(&[&[1, 0, 0], &[0, 1, 0], &[0, 0, -1]])]
        }
    }
}

/// A random element of the matrix group spanned by `h`.
pub fn gen_element(g: &mut Gen, h: &[QM]) -> QM {
    let d = h[0].len();
    let mut m = identity(d);
    for _ in 0..g.size(1, 5) { m = mul(&m, g.pick(h)); }
    m
}

pub fn conj(u: &QM, m: &QM) -> QM { mul(&mul(u, m), &inverse(u).unwrap()) }

/// Generators of a space group modulo integer translations, in a random
/// lattice basis; integral linear parts.
pub fn gen_group(g: &mut Gen, d: usize) -> Vec<Op> {
    let h = holohedry(g, d);
    let den = *g.pick(&[2, 2, 2, 4, 3, 6, 1]);
    let n = g.size(0, 3);
    let mut r = vec![];
    for _ in 0..n {
        let m = gen_element(g, &h);
        let s = (0..d).map(|_|
            if g.flip() { Q::zero() } else { qf(g.int(-den, den), den) }).collect();
        r.push(Op { m, s });
    }
    for _ in 0..g.weighted(&[3, 2, 1]) {
        // centring translations
        let k = *g.pick(&[2, 2, 3, 4]);
        r.push(Op { m: identity(d), s: (0..d).map(|_| qf(g.int(0, k), k)).collect() });
    }
    if r.is_empty() { r.push(Op::id(d)); }
    // conjugation by a shift of origin and a change of lattice basis
    let o: Vec<Q> = if g.chance(1, 3) {
        (0..d).map(|_| qf(g.int(-3, 3), *g.pick(&[1, 4, 7]))).collect()
    } else { vec![Q::zero(); d] };
    let u = if g.flip() { qm(&gen_unimodular(g, d, 4, 2)) } else { identity(d) };
    let c = Op { m: u, s: o };
    let ci = c.inverse().unwrap();
    r.iter().map(|x| c.after(&x.after(&ci))).collect()
}
