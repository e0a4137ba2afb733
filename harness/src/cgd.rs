//! Independent model of input lines.
use num_rational::Ratio;
use rust_systre::io::parse_cgd_line::Field;

use crate::engine::Gen;

pub const SPECIAL: &[char] = &['"', '#', ' ', '\t', '/', '-', '+', '.', 'e', 'E', '0', '1', '9', 'a', 'K',
    'é', '\u{120}', '\u{122}', '\u{a0}', '\r', 'n', 'i'];

/// Equal values, field by field (decimals bit by bit).
pub fn same_fields(a: &[Field], b: &[Field]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| match (x, y) {
        (Field::Double(x), Field::Double(y)) => x.to_bits() == y.to_bits(),
        _ => x == y,
    })
}

pub fn gen_space(g: &mut Gen) -> String {
    let n = g.larger(1, 3, 40);
    (0..n).map(|_| *g.pick(&[' ', ' ', '\t'])).collect()
}

pub fn gen_comment(g: &mut Gen) -> String {
    let n = g.larger(0, 6, 300);
    (0..n).map(|_| *g.pick(&['a', ' ', '#', '"', '1', '\t', 'é', '/', 'e'])).collect()
}

const LETTERS: &[char] = &['a', 'z', 'A', 'Z', 'n', 'i', 'f', 'e', 'E', '0', '9', '.', '-', '+', '/', '_', ',', '(',
    '\'', '\\', '%', 'é', 'ß', '\u{120}', '\u{109}', '\u{122}', '\u{123}', '\u{2020}', '\u{a0}', '中', '\u{1F600}',
    '\u{b}', '\u{130}'];

fn word(g: &mut Gen, hi: usize) -> String {
    let n = g.larger(0, hi, 80);
    let n = if n > 70 { n * 8 } else { n };
    (0..n).map(|_| *g.pick(LETTERS)).collect()
}

pub fn gen_key(g: &mut Gen) -> String {
    let first = *g.pick(&["a", "Z", "ATOM", "edge", "Cell", "inf", "nan", "e5", "infinity", "Name", "end1", "x"]);
    let w = if g.flip() { word(g, 4) } else { String::new() };
    format!("{}{}", first, w)
}

/// Whether the text begins with a decimal number.
fn numeric(s: &str) -> bool {
    let t = s.strip_prefix(['+', '-']).unwrap_or(s);
    let t = t.strip_prefix('.').unwrap_or(t);
    t.starts_with(|c: char| c.is_ascii_digit())
}

/// A field and its text.  `letter`: a bare name may begin with a letter.
pub fn gen_field(g: &mut Gen, letter: bool) -> (String, Field) {
    let digits = |g: &mut Gen, lo, hi| -> String {
        let n = g.size(lo, hi);
        (0..n).map(|_| (b'0' + g.below(10) as u8) as char).collect()
    };
    match g.weighted(&[3, 3, 2, 3, 3]) {
        0 => {
            let v = match g.weighted(&[3, 2, 1]) {
                0 => g.int(-1000, 1000),
                1 => g.int(i32::MIN as i64, i32::MAX as i64),
                _ => *g.pick(&[i32::MIN as i64, i32::MAX as i64, 0, 999_999_999, 1_000_000_000, -1_000_000_000]),
            };
            let zeros = if g.chance(1, 4) { "000" } else { "" };
            let sign = if v < 0 { "-" } else if g.chance(1, 4) { "+" } else { "" };
            (format!("{}{}{}", sign, zeros, v.abs()), Field::Int(v as i32))
        },
        1 => {
            let mut t = String::new();
            t += *g.pick(&["", "-", "+"]);
            match g.below(4) {
                0 => { t += &digits(g, 1, 6); t.push('.'); t += &digits(g, 1, 8); },
                1 => { t.push('.'); t += &digits(g, 1, 8); },
                2 => { t += &digits(g, 1, 12); t.push('.'); },
                _ => { t += &digits(g, 1, 14); },
            }
            if g.chance(1, 3) {
                t.push(*g.pick(&['e', 'E']));
                t += *g.pick(&["", "-", "+"]);
                t += &digits(g, 1, 2);
            }
            let v: f64 = t.parse().expect("decimal");
            let f = decimal(v);
            (t, f)
        },
        2 => {
            let (n, d) = (digits(g, 1, 9), digits(g, 1, 9));
            let n = if g.chance(1, 3) { format!("-{}", n) } else { n };
            let d = if d.bytes().all(|c| c == b'0') { "7".to_string() } else { d };
            let f = Field::Fraction(Ratio::new(n.parse().expect("int"), d.parse().expect("int")));
            (format!("{}/{}", n, d), f)
        },
        3 => {
            let first = *g.pick(&["inf", "nan", "a", "Si1", "e5", "E", "-x", "+", "-", ".", "/", "infinity", "é",
                "\u{120}", "\u{122}b", "*", "-inf", "+nan", "NaN", "(1,2)", "K", "--1", ".e3", "_", "Inf"]);
            let mut t = first.to_string();
            if g.flip() { t += &word(g, 4); }
            if numeric(&t) || (!letter && t.starts_with(|c: char| c.is_ascii_alphabetic())) {
                t = format!("*{}", t);
            }
            (t.clone(), Field::Name(t))
        },
        _ => {
            let mut t = word(g, 5);
            for _ in 0..g.size(0, 2) {
                t += *g.pick(&[" ", "#", "\t", "1 ", " x", "  "]);
            }
            if t.is_empty() { t.push('.'); }
            (format!("\"{}\"", t), Field::Name(t))
        }
    }
}

/// What a decimal number means: integral 32-bit values are integers.
pub fn decimal(v: f64) -> Field {
    if v.fract() == 0.0 && v >= i32::MIN as f64 && v <= i32::MAX as f64 {
        Field::Int(v as i32)
    } else {
        Field::Double(v)
    }
}

/// Every way in which a prefix of `s` can denote `f`: lengths of prefixes.
fn prefixes(s: &str, f: &Field) -> Vec<usize> {
    let stop = |c: char| c == '"' || c == '#' || c == ' ' || c == '\t';
    match f {
        Field::Key(k) => {
            let n = s.find(stop).unwrap_or(s.len());
            if n > 0 && s[..n] == **k && k.starts_with(|c: char| c.is_ascii_alphabetic()) { vec![n] } else { vec![] }
        },
        Field::Name(k) => {
            if let Some(t) = s.strip_prefix('"') {
                return match t.find('"') {
                    Some(n) if n > 0 && t[..n] == **k => vec![n + 2],
                    _ => vec![],
                };
            }
            let n = s.find(stop).unwrap_or(s.len());
            if n > 0 && s[..n] == **k { vec![n] } else { vec![] }
        },
        Field::Fraction(x) => {
            (1..=s.find(stop).unwrap_or(s.len())).filter(|&n| s.is_char_boundary(n)).filter(|&n| {
                let Some((a, b)) = s[..n].split_once('/') else { return false };
                let u = a.strip_prefix(['-', '+']).unwrap_or(a);
                let ok = |t: &str| !t.is_empty() && t.bytes().all(|c| c.is_ascii_digit());
                if !ok(u) || !ok(b) { return false; }
                match (a.parse::<i64>(), b.parse::<i64>()) {
                    // n / d = x, x in lowest terms
                    (Ok(a), Ok(b)) => b != 0
                        && a as i128 * *x.denom() as i128 == b as i128 * *x.numer() as i128,
                    _ => false,
                }
            }).collect()
        },
        Field::Int(_) | Field::Double(_) => {
            (1..=s.find(stop).unwrap_or(s.len())).filter(|&n| s.is_char_boundary(n)).filter(|&n| {
                let t = &s[..n];
                numeric(t) && match t.parse::<f64>() {
                    Ok(v) => same_fields(&[decimal(v)], &[f.clone()]),
                    Err(_) => false,
                }
            }).collect()
        }
    }
}

/// Whether `head` consists of exactly these fields, separated by spacing, with
/// a comment at most at the end of the line.
pub fn accounts(head: &str, fields: &[Field], to_end: bool) -> bool {
    let sp = |c: char| c == ' ' || c == '\t';
    fn go(s: &str, fields: &[Field], to_end: bool, sp: &impl Fn(char) -> bool) -> bool {
        let t = s.trim_start_matches(|c| sp(c));
        match fields.split_first() {
            None => t.is_empty() || (to_end && t.starts_with('#')),
            Some((f, more)) => prefixes(t, f).into_iter().any(|n| {
                let r = &t[n..];
                (r.starts_with(|c| sp(c)) || more.is_empty()) && go(r, more, to_end, sp)
            }),
        }
    }
    go(head, fields, to_end, &sp)
}
