//! C42, C43: reading single input lines.
use hx::engine::*;
use hx::{ensure, ensure_eq};

use num_rational::Ratio;
use rust_systre::io::parse_cgd_line::{parse_cgd_line, Field};

use hx::cgd::*;

fn main() {
    hx::engine::main(&[("C42", c42), ("C43", c43)]);
}

// ---------------------------------------------------------------- C42

#[derive(Debug)]
struct LineCase { text: String, want: Vec<Field>, comment: bool }

fn gen_case(g: &mut Gen) -> LineCase {
    let keyed = g.chance(2, 3);
    let n = g.larger(0, 8, 60);
    let n = if n > 50 { n * 6 } else { n };
    let mut want = vec![];
    let mut parts = vec![];
    if keyed {
        let k = gen_key(g);
        parts.push(k.clone());
        want.push(Field::Key(k));
    }
    for i in 0..n {
        let (t, f) = gen_field(g, keyed || i > 0);
        parts.push(t);
        want.push(f);
    }
    let comment = g.chance(1, 3);
    let mut text = String::new();
    if g.flip() { text += &gen_space(g); }
    for (i, p) in parts.iter().enumerate() {
        if i > 0 { text += &gen_space(g); }
        text += p;
    }
    if g.flip() { text += &gen_space(g); }
    if comment { text += "#"; text += &gen_comment(g); }
    LineCase { text, want, comment }
}

fn c42_test(c: &LineCase, o: &mut Obs) -> Outcome {
    o.nontrivial(c.want.len() >= 2);
    o.label_if(c.comment, "comment");
    o.label_if(c.want.len() > 50, "more than 50 fields");
    o.label_if(c.text.len() > 1000, "more than 1000 bytes");
    o.label_if(!c.text.is_ascii(), "not ASCII");
    for f in &c.want {
        o.label(match f {
            Field::Fraction(_) => "fraction", Field::Int(_) => "integer", Field::Double(_) => "decimal",
            Field::Key(_) => "keyword", Field::Name(_) => "name",
        });
    }
    match sut(|| parse_cgd_line(&c.text).map(|(r, f)| (r.to_string(), f)))? {
        Err(e) => Err(format!("rejected: {}", e)),
        Ok((rest, fields)) => {
            ensure_eq!(rest, "", "unread rest");
            ensure!(same_fields(&fields, &c.want), "got {:?}, expected {:?}", fields, c.want);
            Ok(())
        }
    }
}

fn c42(h: &mut Harness) {
    h.boost(60);
    h.rule("Lines rendered from an optional keyword, up to 8, now and then 360, fields (integers \
        at the ends of the 32-bit range, decimals with and without exponent, \
        fractions up to 9 digits, bare and quoted names with Unicode, names \
        that begin like inf, nan, e, a sign or a dot), with any spacing and an \
        optional comment. Non-trivial: at least 2 fields.");
    h.assume("spacing is made of blanks and tabs; bare names do not begin with \
        a number, and end at a blank, tab, quote or hash");
    let name = |s: &str| Field::Name(s.to_string());
    let ex = [
        ("nan", vec![Field::Key("nan".into())]),
        ("inf infinity nano Infinite", vec![Field::Key("inf".into()), name("infinity"), name("nano"), name("Infinite")]),
        ("1 inf nan", vec![Field::Int(1), name("inf"), name("nan")]),
        ("k \u{120}x \u{109}y \u{2020}", vec![Field::Key("k".into()), name("\u{120}x"), name("\u{109}y"), name("\u{2020}")]),
        ("\u{122} \"\u{123} #\" \u{123}# c", vec![name("\u{122}"), name("\u{123} #"), name("\u{123}")]),
        ("-2147483648 2147483647 -2147483649 2147483648", vec![Field::Int(i32::MIN), Field::Int(i32::MAX),
            Field::Double(-2147483649.0), Field::Double(2147483648.0)]),
        ("-0 -0.0 0/5 -0/1", vec![Field::Int(0), Field::Int(0), Field::Fraction(Ratio::new(0, 1)), Field::Fraction(Ratio::new(0, 1))]),
        ("1e5 1.5e1 +27.25E-3 .5 5.", vec![Field::Int(100000), Field::Int(15), Field::Double(0.02725), Field::Double(0.5), Field::Int(5)]),
        ("999999999/999999998 -1/999999999", vec![Field::Fraction(Ratio::new(999999999, 999999998)), Field::Fraction(Ratio::new(-1, 999999999))]),
        ("k#c", vec![Field::Key("k".into())]),
        ("\t# only \"comment", vec![]),
    ];
    let ex = ex.into_iter().map(|(t, want)| LineCase { text: t.into(), want, comment: t.contains('#') }).collect();
    h.sub("lines", 25000, 600000, ex, gen_case, |c, o| c42_test(c, o));
    // spacing and comments do not matter
    h.sub("every integer kind", 100, 2000, vec![],
        |g| {
            let k = g.size(0, 62) as u32;
            let base: i64 = 1i64 << k;
            let v = base + g.int(-2, 2);
            if g.flip() { -v } else { v }
        },
        |v, o| {
            o.nontrivial(v.abs() > 9);
            let t = v.to_string();
            let want = match i32::try_from(*v) {
                Ok(n) => Field::Int(n),
                Err(_) => Field::Double(*v as f64),
            };
            let got = sut(|| parse_cgd_line(&t).map(|(r, f)| (r.to_string(), f)))?;
            ensure!(matches!(&got, Ok((r, f)) if r.is_empty() && same_fields(f, &[want.clone()])),
                "{} is read as {:?}", t, got);
            Ok(())
        });
}

// ---------------------------------------------------------------- C43

fn gen_line(g: &mut Gen) -> String {
    let chars = |g: &mut Gen, set: &[char], hi: usize| -> String {
        let n = g.larger(0, hi, 120);
        (0..n).map(|_| *g.pick(set)).collect()
    };
    match g.weighted(&[4, 3, 2, 2]) {
        0 => {
            let mut s: Vec<char> = gen_case(g).text.chars().collect();
            for _ in 0..g.size(1, 4) {
                let p = g.below(s.len() as u64 + 1) as usize;
                match g.below(4) {
                    0 if p < s.len() => { s.remove(p); },
                    1 if p < s.len() => { let q = g.below(s.len() as u64) as usize; s.swap(p, q); },
                    2 => { s.truncate(p); },
                    _ => s.insert(p, *g.pick(SPECIAL)),
                }
            }
            s.into_iter().collect()
        },
        1 => chars(g, SPECIAL, 14),
        2 => {
            let t = ["1/2", "1/0", "-3/00", "e", "1e", "2eggs", "1e+", "inf", "nan", "\"", "\"\"", "\"a\"", "#", " ", "\t",
                "-", "+", "+1/2", "1/", "/2", "1.", ".", "..", "9999999999", "1/9999999999", "0000000001/2", "1e400",
                "-1e400", "1e-400", "x", "x1", "é", "\u{120}", "\u{a0}", "\r", "\u{b}", "\u{c}", "2147483648",
                "1.7976931348623159e308", "5e-324", "٣", "½", "1/2/3", "1.5/2", "-1/-2"];
            let n = g.larger(1, 6, 80);
            (0..n).map(|_| *g.pick(&t)).collect()
        },
        _ => {
            let n = g.larger(0, 12, 300);
            (0..n).map(|_| char::from_u32(match g.weighted(&[3, 2, 2]) {
                0 => g.below(0x80) as u32, 1 => g.below(0x800) as u32, _ => g.below(0x11_0000) as u32,
            }).unwrap_or('\u{fffd}')).collect()
        }
    }
}

fn c43_test(t: &String, o: &mut Obs) -> Outcome {
    o.nontrivial(t.chars().count() >= 2);
    o.label_if(t.len() > 300, "more than 300 bytes");
    match sut(|| parse_cgd_line(t).map(|(r, f)| (r.to_string(), f)))? {
        Err(e) => {
            o.label("reported");
            ensure!(!e.is_empty(), "empty error message");
            Ok(())
        },
        Ok((rest, fields)) => {
            o.label_if(!rest.is_empty(), "unread rest");
            o.label_if(rest.is_empty(), "fully read");
            o.label_if(fields.len() >= 2, "2 or more fields");
            o.label_if(fields.len() >= 20, "20 or more fields");
            ensure!(t.ends_with(&rest), "rest {:?} is no suffix of {:?}", rest, t);
            let head = &t[..t.len() - rest.len()];
            ensure!(accounts(head, &fields, rest.is_empty()),
                "{:?} is not accounted for by {:?} (rest {:?})", head, fields, rest);
            // a keyword is only ever the first field
            ensure!(fields.iter().skip(1).all(|f| !matches!(f, Field::Key(_))), "keyword inside {:?}", fields);
            Ok(())
        }
    }
}

fn c43(h: &mut Harness) {
    h.boost(80);
    h.rule("Well-formed lines with up to 4 random edits, strings over the \
        special characters of the format, sequences of difficult tokens, \
        arbitrary Unicode. The part read is matched against the returned fields \
        by a backtracking scanner of its own. Non-trivial: at least 2 \
        characters.");
    let ex = ["1/0", "k 1/0 2", "-5/000", "inf", "nanx", "\"", "a\"b", "2eggs", "1e", "\"\"", "1/2/3", "k\u{120}a", "1e400", "#", "",
        " ", "x #", "k \"open", "1\"a\"", "- -", "+1/2"];
    h.sub("lines", 40000, 1200000, ex.iter().map(|s| s.to_string()).collect(), gen_line, |t, o| c43_test(t, o));
}
