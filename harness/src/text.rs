//! Generators of text.
use crate::dict;
use crate::engine::Src;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum TextKind {
    /// Only characters that XML 1.0 can represent
    Xml,
    /// Any Unicode
    Any,
}

pub fn is_xml_char(c: char) -> bool {
    matches!(c, '\t' | '\n' | '\r' | ' '..='\u{D7FF}' | '\u{E000}'..='\u{FFFD}' | '\u{10000}'..)
}

const SPECIAL: &[&str] = &[
    "&", "<", ">", "\"", "'", "&amp;", "&#10;", "&lt;", "]]>", "<![CDATA[", "<!--", "-->", "/>", "\n", "\t", "\r", "\r\n",
    " ", "  ", "&", "\\", "=", "\" x=\"1", "'/><tag k='a' v='b'/>", "</osm>", "{", "}", "[", ",", ":", "%", "\\n", "\\u0041",
];
const UNI: &[char] = &[
    '\u{a0}', 'é', 'ß', 'ø', '\u{7f}', '\u{80}', '\u{85}', '\u{ad}', '\u{300}', 'ж', 'م', '日', '本', '\u{200b}', '\u{200e}',
    '\u{2028}', '\u{2029}', '\u{d7ff}', '\u{e000}', '\u{feff}', '\u{fffd}', '\u{10000}', '😀', '\u{10ffff}',
];
const CTRL: &[char] = &['\0', '\u{1}', '\u{8}', '\u{b}', '\u{c}', '\u{1f}', '\u{fffe}', '\u{ffff}'];
const WORDS: &[&str] = &[
    "highway", "name", "area", "no", "yes", "building", "source", "created_by", "addr:street", "note", "FIXME", "ref",
    "comment", "imagery_used", "osm", "node", "way", "relation", "id", "k", "v", "true", "false", "0", "1", "-1", "none",
    "null", "NULL", "nil", "NaN", "inf", "undefined", "unknown", "type", "multipolygon", "boundary", "route", "layer", "outer", "inner",
    "user", "uid", "version", "visible", "timestamp", "lat", "lon", "role", "delete", "modify", "create", "bot", "version=1", "test",
];

pub fn chr(src: &mut Src, kind: TextKind) -> char {
    if let Some(c) = dict::chr(src) {
        if kind == TextKind::Any || is_xml_char(c) {
            return c;
        }
    }
    match src.draw(9) {
        0..=5 => (b'a' + src.draw(25) as u8) as char,
        6 => (b' ' + src.draw(94) as u8) as char,
        7 => *src.pick(UNI),
        8 => loop {
            let c = src.draw(0x10ffff) as u32;
            let c = char::from_u32(c).unwrap_or('x');
            if kind == TextKind::Any || is_xml_char(c) {
                break c;
            }
            break 'y';
        },
        _ => {
            if kind == TextKind::Any {
                *src.pick(CTRL)
            } else {
                *src.pick(&['\n', '\t', '\r'])
            }
        }
    }
}

/// A text made of a literal of the source, or as long as a number there says
fn from_dict(src: &mut Src, kind: TextKind) -> Option<String> {
    let ok = |s: String| if kind == TextKind::Any { s } else { s.chars().filter(|c| is_xml_char(*c)).collect() };
    if let Some(t) = dict::text(src) {
        let t = ok(t.to_string());
        return Some(match src.draw(11) {
            0..=4 => t,
            5 => format!("{t}{}", chr(src, kind)),
            6 => format!("{}{t}", chr(src, kind)),
            7 => format!("{}{t}{}", src.pick(WORDS), src.pick(WORDS)),
            8 => t.to_uppercase(),
            9 => t.repeat(1 + src.draw(3) as usize),
            10 => t.trim().to_string(),
            _ => t.chars().skip(src.draw(2) as usize).collect(),
        });
    }
    if let Some(n) = dict::count(src, 20_000) {
        let c = chr(src, kind);
        return Some(if src.coin() {
            std::iter::repeat_n(c, n).collect()
        } else {
            let mut s: String = std::iter::repeat_n(c, n / c.len_utf8()).collect();
            s.extend(std::iter::repeat_n('z', n % c.len_utf8()));
            s
        });
    }
    dict::num(src).map(|n| n.to_string())
}

pub fn text(src: &mut Src, kind: TextKind) -> String {
    if let Some(t) = from_dict(src, kind) {
        return t;
    }
    match src.draw(19) {
        0..=3 => {
            // short and plain
            let n = src.draw(6) as usize;
            (0..n).map(|_| (b'a' + src.draw(25) as u8) as char).collect()
        }
        4..=6 => src.pick(WORDS).to_string(),
        7..=10 => {
            // pieces
            src.list(4, 12, |s| match s.draw(3) {
                0 => s.pick(WORDS).to_string(),
                1 => s.pick(SPECIAL).to_string(),
                _ => chr(s, kind).to_string(),
            })
            .concat()
        }
        11..=13 => src.list(8, 60, |s| chr(s, kind)).into_iter().collect(),
        14 => src.pick(SPECIAL).to_string(),
        15 | 16 => {
            // around the inline limit of small strings (22..24 bytes)
            let n = 20 + src.draw(6) as usize;
            let c = chr(src, kind);
            let mut s = String::new();
            while s.len() + c.len_utf8() <= n {
                s.push(c);
            }
            while s.len() < n {
                s.push('z');
            }
            s
        }
        17 => {
            // newlines then spaces (special cased by SmolStr)
            let a = src.draw(40) as usize;
            let b = src.draw(140) as usize;
            format!("{}{}", "\n".repeat(a), " ".repeat(b))
        }
        18 => {
            // a number
            format!("{}", src.range(-1000, 1000))
        }
        _ => {
            if src.chance(1, 6) {
                // long
                let piece: String = (0..5).map(|_| chr(src, kind)).collect();
                let n = src.draw(4000) as usize;
                piece.repeat(n / 5 + 1)
            } else {
                String::new()
            }
        }
    }
}

/// Keys that are almost this one
pub fn near_keys(k: &str) -> Vec<String> {
    let mut v = vec![k.to_uppercase(), k.to_lowercase(), format!("{k} "), format!("{k}:"), format!("{k}\0"), k.trim().to_string()];
    if let Some((i, c)) = k.char_indices().next_back() {
        v.push(k[..i].to_string());
        v.push(format!("{k}{c}"));
    }
    v.extend(k.split(':').take(2).map(|p| p.to_string()));
    v
}

/// A list of distinct keys with values
pub fn tags(src: &mut Src, kind: TextKind) -> Vec<(String, String)> {
    let n = dict::count(src, 300);
    let n = match src.draw(15) {
        x if x < 15 && n.is_some() => n.unwrap(),
        0..=5 => 0,
        6..=9 => 1,
        10..=13 => 2 + src.draw(3) as usize,
        14 => 5 + src.draw(20) as usize,
        _ => {
            if src.chance(1, 8) {
                100 + src.draw(300) as usize
            } else {
                3
            }
        }
    };
    let mut out: Vec<(String, String)> = vec![];
    let mut seen = std::collections::HashSet::new();
    for i in 0..n {
        let (k, v) = if n > 30 {
            (format!("k{i}"), format!("v{}", src.draw(9)))
        } else {
            (text(src, kind), text(src, kind))
        };
        if seen.insert(k.clone()) {
            out.push((k, v));
        }
    }
    out
}
