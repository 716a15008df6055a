//! A strict parser for JSON objects whose members are strings (RFC 8259).

pub fn object(s: &str) -> Result<Vec<(String, String)>, String> {
    let mut p = P { c: s.chars().collect(), i: 0 };
    p.ws();
    p.expect('{')?;
    p.ws();
    let mut out = vec![];
    if p.peek() == Some('}') {
        p.i += 1;
    } else {
        loop {
            p.ws();
            let k = p.string()?;
            p.ws();
            p.expect(':')?;
            p.ws();
            let v = p.string()?;
            out.push((k, v));
            p.ws();
            match p.next() {
                Some(',') => {}
                Some('}') => break,
                c => return Err(format!("{c:?} after a member")),
            }
        }
    }
    p.ws();
    match p.peek() {
        None => Ok(out),
        Some(c) => Err(format!("{c:?} after the object")),
    }
}

struct P {
    c: Vec<char>,
    i: usize,
}
impl P {
    fn peek(&self) -> Option<char> {
        self.c.get(self.i).copied()
    }
    fn next(&mut self) -> Option<char> {
        let c = self.peek();
        self.i += 1;
        c
    }
    fn ws(&mut self) {
        while matches!(self.peek(), Some(' ' | '\t' | '\n' | '\r')) {
            self.i += 1;
        }
    }
    fn expect(&mut self, c: char) -> Result<(), String> {
        match self.next() {
            Some(x) if x == c => Ok(()),
            x => Err(format!("{x:?} instead of {c:?} at {}", self.i - 1)),
        }
    }
    fn hex4(&mut self) -> Result<u32, String> {
        let mut n = 0;
        for _ in 0..4 {
            n = n * 16 + self.next().and_then(|c| c.to_digit(16)).ok_or("bad \\u escape")?;
        }
        Ok(n)
    }
    fn string(&mut self) -> Result<String, String> {
        self.expect('"')?;
        let mut out = String::new();
        loop {
            match self.next() {
                None => return Err("unfinished string".into()),
                Some('"') => return Ok(out),
                Some('\\') => match self.next() {
                    Some(c @ ('"' | '\\' | '/')) => out.push(c),
                    Some('b') => out.push('\u{8}'),
                    Some('f') => out.push('\u{c}'),
                    Some('n') => out.push('\n'),
                    Some('r') => out.push('\r'),
                    Some('t') => out.push('\t'),
                    Some('u') => {
                        let mut n = self.hex4()?;
                        if (0xd800..0xdc00).contains(&n) {
                            self.expect('\\')?;
                            self.expect('u')?;
                            let lo = self.hex4()?;
                            if !(0xdc00..0xe000).contains(&lo) {
                                return Err("lone surrogate".into());
                            }
                            n = 0x10000 + ((n - 0xd800) << 10) + (lo - 0xdc00);
                        }
                        out.push(char::from_u32(n).ok_or("lone surrogate")?);
                    }
                    c => return Err(format!("escape {c:?}")),
                },
                Some(c) if c < ' ' => return Err(format!("{c:?} in a string")),
                Some(c) => out.push(c),
            }
        }
    }
}

#[cfg(test)]
mod tests {
    use super::object;
    #[test]
    fn json() {
        assert_eq!(object("{}"), Ok(vec![]));
        assert_eq!(object(" {\"a\\n\":\"\\ud83d\\ude00\" , \"\":\"\\u0000\"}"), Ok(vec![("a\n".into(), "😀".into()), ("".into(), "\0".into())]));
        for bad in ["", "{", "{}x", "{\"a\":1}", "{\"a\":\"\n\"}", "{\"a\":\"b\",}", "{\"a\":\"\\ud800\"}", "{\"a\":\"\\x\"}", "[]"] {
            assert!(object(bad).is_err(), "{bad}");
        }
    }
}
