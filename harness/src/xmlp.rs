//! A small strict XML 1.0 parser (no DTDs), independent of the ones osmio uses.
use crate::text::is_xml_char;

#[derive(Debug, Clone, PartialEq)]
pub struct Elem {
    pub name: String,
    pub attrs: Vec<(String, String)>,
    pub children: Vec<Elem>,
    /// concatenated character data directly inside
    pub text: String,
}

impl Elem {
    pub fn attr(&self, k: &str) -> Option<&str> {
        self.attrs.iter().find(|(n, _)| n == k).map(|(_, v)| v.as_str())
    }
}

struct P<'a> {
    s: &'a str,
    i: usize,
}

type R<T> = Result<T, String>;

fn name_start(c: char) -> bool {
    c.is_ascii_alphabetic()
        || c == '_'
        || c == ':'
        || matches!(c, '\u{C0}'..='\u{D6}' | '\u{D8}'..='\u{F6}' | '\u{F8}'..='\u{2FF}' | '\u{370}'..='\u{37D}'
            | '\u{37F}'..='\u{1FFF}' | '\u{200C}'..='\u{200D}' | '\u{2070}'..='\u{218F}' | '\u{2C00}'..='\u{2FEF}'
            | '\u{3001}'..='\u{D7FF}' | '\u{F900}'..='\u{FDCF}' | '\u{FDF0}'..='\u{FFFD}' | '\u{10000}'..='\u{EFFFF}')
}
fn name_char(c: char) -> bool {
    name_start(c)
        || c.is_ascii_digit()
        || matches!(c, '-' | '.' | '\u{B7}' | '\u{300}'..='\u{36F}' | '\u{203F}'..='\u{2040}')
}

impl<'a> P<'a> {
    fn err<T>(&self, m: &str) -> R<T> {
        let mut lo = self.i.saturating_sub(30);
        while !self.s.is_char_boundary(lo) {
            lo -= 1;
        }
        let mut hi = (self.i + 30).min(self.s.len());
        while !self.s.is_char_boundary(hi) {
            hi += 1;
        }
        Err(format!("not well-formed at byte {}: {m} (near {:?})", self.i, &self.s[lo..hi]))
    }
    fn peek(&self) -> Option<char> {
        self.s[self.i..].chars().next()
    }
    fn rest(&self) -> &'a str {
        &self.s[self.i..]
    }
    fn eat(&mut self, t: &str) -> bool {
        if self.rest().starts_with(t) {
            self.i += t.len();
            true
        } else {
            false
        }
    }
    fn ws(&mut self) -> bool {
        let a = self.i;
        while matches!(self.peek(), Some(' ' | '\t' | '\n' | '\r')) {
            self.i += 1;
        }
        self.i > a
    }
    fn name(&mut self) -> R<String> {
        let a = self.i;
        match self.peek() {
            Some(c) if name_start(c) => self.i += c.len_utf8(),
            _ => return self.err("name expected"),
        }
        while let Some(c) = self.peek() {
            if !name_char(c) {
                break;
            }
            self.i += c.len_utf8();
        }
        Ok(self.s[a..self.i].to_string())
    }
    fn reference(&mut self) -> R<char> {
        // after '&'
        let Some(end) = self.rest().find(';') else { return self.err("unterminated reference") };
        let r = &self.rest()[..end];
        let c = match r {
            "amp" => '&',
            "lt" => '<',
            "gt" => '>',
            "quot" => '"',
            "apos" => '\'',
            _ => {
                let n = if let Some(h) = r.strip_prefix("#x") {
                    if h.is_empty() || !h.bytes().all(|b| b.is_ascii_hexdigit()) {
                        return self.err("bad character reference");
                    }
                    u32::from_str_radix(h, 16).ok()
                } else if let Some(d) = r.strip_prefix('#') {
                    if d.is_empty() || !d.bytes().all(|b| b.is_ascii_digit()) {
                        return self.err("bad character reference");
                    }
                    d.parse().ok()
                } else {
                    return self.err("unknown entity");
                };
                match n.and_then(char::from_u32) {
                    Some(c) if is_xml_char(c) => c,
                    _ => return self.err("reference to a character that XML does not allow"),
                }
            }
        };
        self.i += end + 1;
        Ok(c)
    }
    fn attrs(&mut self) -> R<Vec<(String, String)>> {
        let mut out: Vec<(String, String)> = vec![];
        loop {
            let sp = self.ws();
            match self.peek() {
                Some('>' | '/' | '?') => return Ok(out),
                None => return self.err("unexpected end in a tag"),
                _ => {}
            }
            if !sp {
                return self.err("white space expected before an attribute");
            }
            let n = self.name()?;
            self.ws();
            if !self.eat("=") {
                return self.err("= expected");
            }
            self.ws();
            let q = match self.peek() {
                Some(c @ ('"' | '\'')) => c,
                _ => return self.err("quote expected"),
            };
            self.i += 1;
            let mut v = String::new();
            loop {
                match self.peek() {
                    None => return self.err("unterminated attribute"),
                    Some(c) if c == q => {
                        self.i += 1;
                        break;
                    }
                    Some('<') => return self.err("< in an attribute"),
                    Some('&') => {
                        self.i += 1;
                        v.push(self.reference()?);
                    }
                    Some('\r') => {
                        self.i += 1;
                        if self.peek() == Some('\n') {
                            self.i += 1;
                        }
                        v.push(' ');
                    }
                    Some('\n' | '\t') => {
                        self.i += 1;
                        v.push(' ');
                    }
                    Some(c) if is_xml_char(c) => {
                        self.i += c.len_utf8();
                        v.push(c);
                    }
                    Some(_) => return self.err("character that XML does not allow"),
                }
            }
            if out.iter().any(|(k, _)| *k == n) {
                return self.err("duplicate attribute");
            }
            out.push((n, v));
        }
    }
    fn comment_or_pi(&mut self) -> R<bool> {
        if self.eat("<!--") {
            let Some(e) = self.rest().find("--") else { return self.err("unterminated comment") };
            self.i += e + 2;
            if !self.eat(">") {
                return self.err("-- in a comment");
            }
            return Ok(true);
        }
        if self.rest().starts_with("<?") {
            self.i += 2;
            let n = self.name()?;
            if n.eq_ignore_ascii_case("xml") {
                return self.err("misplaced XML declaration");
            }
            let Some(e) = self.rest().find("?>") else { return self.err("unterminated PI") };
            self.i += e + 2;
            return Ok(true);
        }
        Ok(false)
    }
    fn element(&mut self) -> R<Elem> {
        // iterative, documents can be deep
        let mut stack: Vec<Elem> = vec![];
        loop {
            // at a start tag
            if !self.eat("<") {
                return self.err("element expected");
            }
            let name = self.name()?;
            let attrs = self.attrs()?;
            let e = Elem { name, attrs, children: vec![], text: String::new() };
            let mut closed = None;
            if self.eat("/>") {
                closed = Some(e);
            } else if self.eat(">") {
                stack.push(e);
            } else {
                return self.err("> expected");
            }
            loop {
                if let Some(c) = closed.take() {
                    match stack.last_mut() {
                        None => return Ok(c),
                        Some(p) => p.children.push(c),
                    }
                }
                if self.eat("</") {
                    let n = self.name()?;
                    self.ws();
                    if !self.eat(">") {
                        return self.err("> expected");
                    }
                    let e = stack.pop().unwrap();
                    if e.name != n {
                        return self.err(&format!("</{n}> closes <{}>", e.name));
                    }
                    closed = Some(e);
                    continue;
                }
                if self.eat("<![CDATA[") {
                    let Some(e) = self.rest().find("]]>") else { return self.err("unterminated CDATA") };
                    let t = self.rest()[..e].to_string();
                    stack.last_mut().unwrap().text.push_str(&t);
                    self.i += e + 3;
                    continue;
                }
                if self.comment_or_pi()? {
                    continue;
                }
                match self.peek() {
                    None => return self.err("unexpected end"),
                    Some('<') => break, // a child
                    Some('&') => {
                        self.i += 1;
                        let c = self.reference()?;
                        stack.last_mut().unwrap().text.push(c);
                    }
                    Some(c) if is_xml_char(c) => {
                        if self.rest().starts_with("]]>") {
                            return self.err("]]> in character data");
                        }
                        self.i += c.len_utf8();
                        stack.last_mut().unwrap().text.push(c);
                    }
                    Some(_) => return self.err("character that XML does not allow"),
                }
            }
        }
    }
}

pub struct Doc {
    pub root: Elem,
    /// byte offset just after the root element
    pub root_end: usize,
    /// what follows the root is well-formed too
    pub tail_ok: bool,
}

pub fn parse(data: &[u8]) -> R<Doc> {
    let s = std::str::from_utf8(data).map_err(|e| format!("not UTF-8: {e}"))?;
    let mut p = P { s, i: 0 };
    p.eat("\u{feff}");
    if p.rest().starts_with("<?xml") && p.rest()[5..].starts_with([' ', '\t', '\n', '\r']) {
        p.i += 5;
        let a = p.attrs()?;
        if !p.eat("?>") {
            return p.err("bad XML declaration");
        }
        let names: Vec<&str> = a.iter().map(|x| x.0.as_str()).collect();
        if !matches!(
            names[..],
            ["version"] | ["version", "encoding"] | ["version", "standalone"] | ["version", "encoding", "standalone"]
        ) || a[0].1 != "1.0"
        {
            return p.err("bad XML declaration");
        }
        if let Some((_, e)) = a.iter().find(|x| x.0 == "encoding") {
            if !e.eq_ignore_ascii_case("utf-8") {
                return p.err("encoding is not UTF-8");
            }
        }
    }
    loop {
        p.ws();
        if !p.comment_or_pi()? {
            break;
        }
    }
    let root = p.element()?;
    let root_end = p.i;
    let mut tail_ok = true;
    loop {
        p.ws();
        if p.i == s.len() {
            break;
        }
        match p.comment_or_pi() {
            Ok(true) => {}
            _ => {
                tail_ok = false;
                break;
            }
        }
    }
    Ok(Doc { root, root_end, tail_ok })
}
