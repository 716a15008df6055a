//! A dictionary for the generators, taken from the source of the code under test.
//!
//! Every string, character and number literal of /repo/src is a candidate for an input: a branch that
//! depends on one certain value is reached only by inputs with that value. The literals which are not
//! (or not as often) in the same file of the tree these checks were written for (`literals.txt`), and
//! those which are gone, are tried often; the others now and then. This only directs the search: what
//! is right is decided by the oracles, and a tree whose literals have changed but whose behaviour has
//! not is as quiet as before.
use crate::engine::Src;
use std::collections::{BTreeMap, BTreeSet};
use std::path::Path;
use std::sync::OnceLock;

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Lit {
    Text(String),
    /// as it can be parsed as f64
    Num(String),
}

const BASE: &str = include_str!("literals.txt");

/// The literals of some Rust source; numbers that are multiplied or shifted are also evaluated
pub fn lex(s: &str) -> Vec<Lit> {
    let c: Vec<char> = s.chars().collect();
    let mut out = vec![];
    let mut i = 0;
    // the operand and operator before: (value, operator)
    let mut before: Option<(i128, char)> = None;
    let ident = |x: char| x.is_alphanumeric() || x == '_';
    let at = |k: usize| c.get(k).copied().unwrap_or('\0');
    while i < c.len() {
        let x = c[i];
        if x == '/' && at(i + 1) == '/' {
            while i < c.len() && c[i] != '\n' {
                i += 1;
            }
            continue;
        }
        if x == '/' && at(i + 1) == '*' {
            i += 2;
            while i < c.len() && !(c[i] == '*' && at(i + 1) == '/') {
                i += 1;
            }
            i += 2;
            continue;
        }
        if x.is_whitespace() {
            i += 1;
            continue;
        }
        // raw strings
        let r = if x == 'b' && at(i + 1) == 'r' { i + 1 } else { i };
        if at(r) == 'r' && (at(r + 1) == '"' || at(r + 1) == '#' && (at(r + 2) == '"' || at(r + 2) == '#')) {
            let mut h = 0;
            while at(r + 1 + h) == '#' {
                h += 1;
            }
            let start = r + 2 + h;
            let mut k = start;
            while k < c.len() && !(c[k] == '"' && (0..h).all(|j| at(k + 1 + j) == '#')) {
                k += 1;
            }
            out.push(Lit::Text(c[start.min(c.len())..k].iter().collect()));
            i = k + 1 + h;
            before = None;
            continue;
        }
        if x == '"' {
            let mut t = String::new();
            i += 1;
            while i < c.len() && c[i] != '"' {
                if c[i] == '\\' {
                    i = escape(&c, i, &mut t);
                } else {
                    t.push(c[i]);
                    i += 1;
                }
            }
            i += 1;
            out.push(Lit::Text(t));
            before = None;
            continue;
        }
        if x == '\'' {
            if at(i + 1) == '\\' {
                let mut t = String::new();
                i = escape(&c, i + 1, &mut t);
                out.push(Lit::Text(t));
                i += 1;
            } else if at(i + 2) == '\'' {
                out.push(Lit::Text(at(i + 1).to_string()));
                i += 3;
            } else {
                i += 1;
            }
            before = None;
            continue;
        }
        if x.is_ascii_digit() {
            let mut k = i;
            if x == '0' && matches!(at(i + 1), 'x' | 'b' | 'o') {
                k += 2;
                while ident(at(k)) {
                    k += 1;
                }
            } else {
                while at(k).is_ascii_digit() || at(k) == '_' {
                    k += 1;
                }
                if at(k) == '.' && at(k + 1).is_ascii_digit() {
                    k += 1;
                    while at(k).is_ascii_digit() || at(k) == '_' {
                        k += 1;
                    }
                }
                if matches!(at(k), 'e' | 'E') && (at(k + 1).is_ascii_digit() || matches!(at(k + 1), '-' | '+') && at(k + 2).is_ascii_digit()) {
                    k += 2;
                    while at(k).is_ascii_digit() {
                        k += 1;
                    }
                }
                while ident(at(k)) {
                    k += 1;
                }
            }
            let raw: String = c[i..k].iter().filter(|x| **x != '_').collect();
            i = k;
            let (val, text) = number(&raw);
            if let Some(t) = text {
                out.push(Lit::Num(t));
            }
            let mut now = val;
            if let (Some((a, op)), Some(b)) = (before, val) {
                now = match op {
                    '*' => a.checked_mul(b),
                    '<' if b < 64 => a.checked_mul(1 << b),
                    _ => None,
                };
                if let Some(v) = now {
                    out.push(Lit::Num(v.to_string()));
                }
            }
            // an operator after it?
            let mut k = i;
            while at(k).is_whitespace() {
                k += 1;
            }
            before = match (now, at(k), at(k + 1)) {
                (Some(v), '*', n) if n != '=' => {
                    i = k + 1;
                    Some((v, '*'))
                }
                (Some(v), '<', '<') => {
                    i = k + 2;
                    Some((v, '<'))
                }
                _ => None,
            };
            continue;
        }
        if ident(x) {
            let start = i;
            while ident(at(i)) {
                i += 1;
            }
            // where a narrow type ends
            let word: String = c[start..i].iter().collect();
            let n = match word.as_str() {
                "i8" => "128",
                "u8" => "256",
                "i16" => "32768",
                "u16" => "65536",
                "i32" => "2147483648",
                "u32" => "4294967296",
                "f32" => "16777216",
                "f64" => "9007199254740992",
                _ => "",
            };
            if !n.is_empty() {
                out.push(Lit::Num(n.into()));
            }
            // a prefix of a byte string or character is not skipped
            before = None;
            continue;
        }
        i += 1;
        before = None;
    }
    out
}

/// The value if it is whole; and a text for f64
fn number(raw: &str) -> (Option<i128>, Option<String>) {
    let radix = match raw.get(..2) {
        Some("0x") => 16,
        Some("0b") => 2,
        Some("0o") => 8,
        _ => 10,
    };
    let mut t = raw.to_string();
    for suf in ["i8", "i16", "i32", "i64", "i128", "isize", "u8", "u16", "u32", "u64", "u128", "usize", "f32", "f64"] {
        if let Some(x) = raw.strip_suffix(suf) {
            if radix != 16 || !suf.starts_with('f') {
                t = x.to_string();
            }
        }
    }
    if radix != 10 {
        let v = i128::from_str_radix(&t[2..], radix).ok();
        return (v, v.map(|v| v.to_string()));
    }
    match (t.parse::<i128>(), t.parse::<f64>()) {
        (Ok(v), _) => (Some(v), Some(v.to_string())),
        (_, Ok(f)) if f.is_finite() => (None, Some(t)),
        _ => (None, None),
    }
}

fn escape(c: &[char], i: usize, t: &mut String) -> usize {
    let at = |k: usize| c.get(k).copied().unwrap_or('\0');
    match at(i + 1) {
        'n' => t.push('\n'),
        't' => t.push('\t'),
        'r' => t.push('\r'),
        '0' => t.push('\0'),
        'x' => {
            let h: String = [at(i + 2), at(i + 3)].iter().collect();
            t.push(u8::from_str_radix(&h, 16).map(|b| b as char).unwrap_or('?'));
            return i + 4;
        }
        'u' => {
            let mut k = i + 3;
            let mut h = String::new();
            while k < c.len() && c[k] != '}' {
                h.push(c[k]);
                k += 1;
            }
            t.push(u32::from_str_radix(&h, 16).ok().and_then(char::from_u32).unwrap_or('?'));
            return k + 1;
        }
        '\n' => {
            let mut k = i + 1;
            while at(k).is_whitespace() {
                k += 1;
            }
            return k;
        }
        x => t.push(x),
    }
    i + 2
}

type Counts = BTreeMap<(String, Lit), u32>;

fn scan(dir: &Path, rel: &str, out: &mut Counts) {
    let Ok(rd) = std::fs::read_dir(dir) else { return };
    let mut names: Vec<_> = rd.flatten().collect();
    names.sort_by_key(|e| e.file_name());
    for e in names {
        let name = e.file_name().to_string_lossy().to_string();
        let p = e.path();
        if p.is_dir() {
            scan(&p, &format!("{rel}{name}/"), out);
        } else if name.ends_with(".rs") && name != "test.rs" && name != "tests.rs" {
            let Ok(s) = std::fs::read_to_string(&p) else { continue };
            for l in lex(&s) {
                let keep = match &l {
                    Lit::Text(t) => !t.is_empty() && t.len() <= 60,
                    Lit::Num(n) => n.len() > 1,
                };
                if keep {
                    *out.entry((format!("{rel}{name}"), l)).or_default() += 1;
                }
            }
        }
    }
}

fn source() -> Counts {
    let repo = std::env::var("PBT_REPO").unwrap_or_else(|_| "/repo".into());
    let mut out = Counts::new();
    scan(&Path::new(&repo).join("src"), "", &mut out);
    out
}

fn lines(c: &Counts) -> Vec<String> {
    c.iter()
        .map(|((f, l), n)| match l {
            Lit::Text(t) => format!("{f}\ts\t{n}\t{}", t.escape_default()),
            Lit::Num(x) => format!("{f}\tn\t{n}\t{x}"),
        })
        .collect()
}

/// For `literals.txt`
pub fn print() {
    for l in lines(&source()) {
        println!("{l}");
    }
}

#[derive(Default)]
pub struct Dict {
    pub texts: Vec<String>,
    /// with the value as a float
    pub nums: Vec<f64>,
    pub ints: Vec<i64>,
}

impl Dict {
    fn new(lits: BTreeSet<Lit>) -> Dict {
        let mut d = Dict::default();
        for l in lits {
            match l {
                Lit::Text(t) => d.texts.push(t),
                Lit::Num(n) => {
                    let f: f64 = n.parse().unwrap_or(0.0);
                    d.nums.push(f);
                    match n.parse::<i128>() {
                        Ok(i) => d.ints.push(i as i64),
                        Err(_) => d.ints.push(f as i64),
                    }
                }
            }
        }
        d
    }
}

pub struct Both {
    /// in changed code
    pub fresh: Dict,
    pub base: Dict,
    fresh_lits: Vec<String>,
}

static DICT: OnceLock<Both> = OnceLock::new();

fn build(given: Option<Vec<String>>) -> Both {
    let mut base = BTreeMap::new();
    for l in BASE.lines() {
        let f: Vec<&str> = l.splitn(4, '\t').collect();
        base.insert(format!("{}\t{}\t{}", f[0], f[1], f[3]), f[2].parse::<u32>().unwrap());
    }
    let src = source();
    let mut fresh: BTreeSet<String> = BTreeSet::new();
    let mut old: BTreeSet<String> = BTreeSet::new();
    let own = |l: &str| l.starts_with("verif_hooks");
    for l in lines(&src) {
        let f: Vec<&str> = l.splitn(4, '\t').collect();
        let had = base.remove(&format!("{}\t{}\t{}", f[0], f[1], f[3])).unwrap_or(0);
        let key = format!("{}\t{}", f[1], f[3]);
        if f[2].parse::<u32>().unwrap() != had && !own(&l) {
            fresh.insert(key);
        } else if !l.contains("fileformat") && !l.contains("osmformat") && !own(&l) {
            old.insert(key);
        }
    }
    if !src.is_empty() {
        for k in base.keys().filter(|k| !own(k)) {
            fresh.insert(k.split_once('\t').unwrap().1.to_string());
        }
    }
    if let Some(g) = given {
        fresh = g.into_iter().collect();
    }
    old.retain(|k| !fresh.contains(k));
    let lits = |s: &BTreeSet<String>| {
        s.iter()
            .map(|k| match k.split_once('\t').unwrap() {
                ("s", t) => {
                    let c: Vec<char> = t.chars().collect();
                    let mut o = String::new();
                    let mut i = 0;
                    while i < c.len() {
                        if c[i] == '\\' {
                            i = escape(&c, i, &mut o);
                        } else {
                            o.push(c[i]);
                            i += 1;
                        }
                    }
                    Lit::Text(o)
                }
                (_, n) => Lit::Num(n.to_string()),
            })
            .collect::<BTreeSet<_>>()
    };
    Both { fresh: Dict::new(lits(&fresh)), base: Dict::new(lits(&old)), fresh_lits: fresh.into_iter().collect() }
}

pub fn dict() -> &'static Both {
    DICT.get_or_init(|| build(None))
}

/// The fresh literals, for a replay file
pub fn fresh() -> Vec<String> {
    dict().fresh_lits.clone()
}
/// Those of a replay file
pub fn set_fresh(v: Vec<String>) {
    let _ = DICT.set(build(Some(v)));
}

fn which(src: &mut Src, has: fn(&Dict) -> bool) -> Option<&'static Dict> {
    let d = dict();
    if has(&d.fresh) && src.chance(1, 6) {
        Some(&d.fresh)
    } else if has(&d.base) && src.chance(1, 40) {
        Some(&d.base)
    } else {
        None
    }
}

/// A text of the dictionary
pub fn text(src: &mut Src) -> Option<&'static str> {
    which(src, |d| !d.texts.is_empty()).map(|d| src.pick(&d.texts).as_str())
}

/// A character of the dictionary, or the one with a number of it
pub fn chr(src: &mut Src) -> Option<char> {
    let d = which(src, |d| !d.texts.is_empty() || !d.ints.is_empty())?;
    if !d.texts.is_empty() && (d.ints.is_empty() || src.coin()) {
        let c: Vec<char> = src.pick(&d.texts).chars().collect();
        if c.is_empty() { None } else { Some(*src.pick(&c)) }
    } else {
        u32::try_from(*src.pick(&d.ints)).ok().and_then(char::from_u32)
    }
}

/// A number of the dictionary, or one near it or made of it
pub fn num(src: &mut Src) -> Option<i64> {
    let d = which(src, |d| !d.ints.is_empty())?;
    let n = *src.pick(&d.ints);
    Some(vary(src, n))
}

fn vary(src: &mut Src, n: i64) -> i64 {
    match src.draw(11) {
        0..=2 => n,
        3 => n.wrapping_add(1),
        4 => n.wrapping_sub(1),
        5 => n.wrapping_neg(),
        6 => n.wrapping_mul(-1).wrapping_add(src.range(-1, 1)),
        7 => n.wrapping_mul(src.range(2, 50)),
        8 => n.wrapping_mul(src.range(1, 50)).wrapping_add(src.range(-1, 1)),
        9 if (0..=62).contains(&n) => (1i64 << n).wrapping_add(src.range(-1, 1)),
        10 if n > 0 => src.range(0, n),
        _ => n.wrapping_add(src.range(-3, 3)),
    }
}

/// A number of the dictionary which is in these bounds
pub fn num_in(src: &mut Src, lo: i64, hi: i64) -> Option<i64> {
    num(src).filter(|n| (lo..=hi).contains(n))
}

/// How many of something: a number of the dictionary or one more or less; the larger the rarer
pub fn count(src: &mut Src, max: usize) -> Option<usize> {
    let d = which(src, |d| !d.ints.is_empty())?;
    let n = *src.pick(&d.ints);
    let n = n.saturating_add(src.range(-1, 1));
    if n < 0 || n > max as i64 || (n > 60 && !src.chance(60, n as u64)) {
        return None;
    }
    Some(n as usize)
}

/// A size for one of the rare large cases
pub fn size(src: &mut Src, max: usize) -> Option<usize> {
    let f = &dict().fresh;
    let big: Vec<i64> = f.ints.iter().copied().filter(|n| *n > 20 && *n <= max as i64).collect();
    if big.is_empty() || !src.chance(1, 2) {
        return None;
    }
    let n = *src.pick(&big);
    Some((n + src.range(-1, 2)).min(max as i64) as usize)
}

/// A float of the dictionary, or near it
pub fn float(src: &mut Src) -> Option<f64> {
    let d = which(src, |d| !d.nums.is_empty())?;
    let f = *src.pick(&d.nums);
    Some(match src.draw(5) {
        0 | 1 => f,
        2 => -f,
        3 => f64::from_bits(f.to_bits().wrapping_add(src.draw(4)).wrapping_sub(2)),
        4 => f + src.range(-20, 20) as f64 / 1e7,
        _ => f / 1e7,
    })
}

/// An internal coordinate of the dictionary, in degrees or as it is stored
pub fn coord(src: &mut Src) -> Option<i32> {
    let d = which(src, |d| !d.nums.is_empty())?;
    let f = *src.pick(&d.nums);
    let f = match src.draw(3) {
        0 => f,
        1 => f * 1e7,
        2 => -f * 1e7,
        _ => -f,
    } + src.range(-2, 2) as f64;
    if f.abs() < 2_147_483_647.0 { Some(f as i32) } else { None }
}

#[cfg(test)]
mod test {
    use super::*;
    #[test]
    fn literals() {
        let t = |s: &str| Lit::Text(s.into());
        let n = |s: &str| Lit::Num(s.into());
        let src = r##"fn a<'b>(x: &'b str) -> u32 { // "no"
            let y = "a\"b\n" ; let z = br#"r"w"#; b'x'; '\''; 64 * 1024 ; 1u64 << 33; 0xffu8; 1.5e3; x.0.1; 1_000i64; 0..5 "##;
        assert_eq!(
            lex(src),
            vec![
                n("4294967296"), t("a\"b\n"), t("r\"w"), t("x"), t("'"), n("64"), n("1024"), n("65536"), n("1"), n("33"), n("8589934592"), n("255"),
                n("1.5e3"), n("0.1"), n("1000"), n("0"), n("5")
            ]
        );
    }
}
