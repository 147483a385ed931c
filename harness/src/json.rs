//! A small JSON reader and writer (strings hold any Unicode text).

use std::collections::BTreeMap;
use std::fmt::Write;

#[derive(Clone, Debug, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    Num(f64),
    Str(String),
    Arr(Vec<J>),
    Obj(BTreeMap<String, J>),
}

impl From<&str> for J {
    fn from(s: &str) -> J {
        J::Str(s.to_owned())
    }
}
impl From<String> for J {
    fn from(s: String) -> J {
        J::Str(s)
    }
}
impl From<u64> for J {
    fn from(n: u64) -> J {
        J::Num(n as f64)
    }
}
impl From<usize> for J {
    fn from(n: usize) -> J {
        J::Num(n as f64)
    }
}
impl From<bool> for J {
    fn from(b: bool) -> J {
        J::Bool(b)
    }
}
impl From<Vec<J>> for J {
    fn from(v: Vec<J>) -> J {
        J::Arr(v)
    }
}

pub fn obj(pairs: Vec<(&str, J)>) -> J {
    J::Obj(pairs.into_iter().map(|(k, v)| (k.to_owned(), v)).collect())
}

impl J {
    pub fn get(&self, k: &str) -> Option<&J> {
        if let J::Obj(m) = self {
            m.get(k)
        } else {
            None
        }
    }
    pub fn s(&self) -> &str {
        if let J::Str(s) = self {
            s
        } else {
            ""
        }
    }
    pub fn n(&self) -> f64 {
        if let J::Num(n) = self {
            *n
        } else {
            f64::NAN
        }
    }
    pub fn arr(&self) -> &[J] {
        if let J::Arr(a) = self {
            a
        } else {
            &[]
        }
    }
    pub fn write(&self, out: &mut String) {
        match self {
            J::Null => out.push_str("null"),
            J::Bool(b) => out.push_str(if *b { "true" } else { "false" }),
            J::Num(n) => {
                if n.fract() == 0.0 && n.abs() < 9.0e15 {
                    write!(out, "{}", *n as i64).unwrap();
                } else {
                    write!(out, "{n}").unwrap();
                }
            }
            J::Str(s) => {
                out.push('"');
                for c in s.chars() {
                    match c {
                        '"' => out.push_str("\\\""),
                        '\\' => out.push_str("\\\\"),
                        '\n' => out.push_str("\\n"),
                        '\r' => out.push_str("\\r"),
                        '\t' => out.push_str("\\t"),
                        c if (c as u32) < 0x20 || c == '\u{2028}' || c == '\u{2029}' || c == '\u{7f}' => {
                            write!(out, "\\u{:04x}", c as u32).unwrap();
                        }
                        c => out.push(c),
                    }
                }
                out.push('"');
            }
            J::Arr(a) => {
                out.push('[');
                for (i, x) in a.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    x.write(out);
                }
                out.push(']');
            }
            J::Obj(m) => {
                out.push('{');
                for (i, (k, x)) in m.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    J::Str(k.clone()).write(out);
                    out.push(':');
                    x.write(out);
                }
                out.push('}');
            }
        }
    }
    pub fn text(&self) -> String {
        let mut s = String::new();
        self.write(&mut s);
        s
    }
    pub fn pretty(&self) -> String {
        fn go(j: &J, ind: usize, out: &mut String) {
            let pad = " ".repeat(ind + 1);
            match j {
                J::Arr(a) if !a.is_empty() && a.iter().any(|x| matches!(x, J::Arr(_) | J::Obj(_) | J::Str(_))) => {
                    out.push_str("[\n");
                    for (i, x) in a.iter().enumerate() {
                        out.push_str(&pad);
                        go(x, ind + 1, out);
                        out.push_str(if i + 1 < a.len() { ",\n" } else { "\n" });
                    }
                    out.push_str(&" ".repeat(ind));
                    out.push(']');
                }
                J::Obj(m) if !m.is_empty() => {
                    out.push_str("{\n");
                    for (i, (k, x)) in m.iter().enumerate() {
                        out.push_str(&pad);
                        J::Str(k.clone()).write(out);
                        out.push_str(": ");
                        go(x, ind + 1, out);
                        out.push_str(if i + 1 < m.len() { ",\n" } else { "\n" });
                    }
                    out.push_str(&" ".repeat(ind));
                    out.push('}');
                }
                _ => j.write(out),
            }
        }
        let mut s = String::new();
        go(self, 0, &mut s);
        s.push('\n');
        s
    }
    pub fn parse(text: &str) -> Result<J, String> {
        let b = text.as_bytes();
        let mut p = 0;
        let v = parse(text, b, &mut p)?;
        ws(b, &mut p);
        if p != b.len() {
            return Err(format!("trailing text at {p}"));
        }
        Ok(v)
    }
}

fn ws(b: &[u8], p: &mut usize) {
    while *p < b.len() && matches!(b[*p], b' ' | b'\n' | b'\r' | b'\t') {
        *p += 1;
    }
}

fn parse(t: &str, b: &[u8], p: &mut usize) -> Result<J, String> {
    ws(b, p);
    match b.get(*p) {
        None => Err("unexpected end".into()),
        Some(b'n') => {
            *p += 4;
            Ok(J::Null)
        }
        Some(b't') => {
            *p += 4;
            Ok(J::Bool(true))
        }
        Some(b'f') => {
            *p += 5;
            Ok(J::Bool(false))
        }
        Some(b'"') => Ok(J::Str(string(t, b, p)?)),
        Some(b'[') => {
            *p += 1;
            let mut a = vec![];
            ws(b, p);
            if b.get(*p) == Some(&b']') {
                *p += 1;
                return Ok(J::Arr(a));
            }
            loop {
                a.push(parse(t, b, p)?);
                ws(b, p);
                match b.get(*p) {
                    Some(b',') => *p += 1,
                    Some(b']') => {
                        *p += 1;
                        return Ok(J::Arr(a));
                    }
                    _ => return Err(format!("bad array at {p}")),
                }
            }
        }
        Some(b'{') => {
            *p += 1;
            let mut m = BTreeMap::new();
            ws(b, p);
            if b.get(*p) == Some(&b'}') {
                *p += 1;
                return Ok(J::Obj(m));
            }
            loop {
                ws(b, p);
                let k = string(t, b, p)?;
                ws(b, p);
                if b.get(*p) != Some(&b':') {
                    return Err(format!("bad object at {p}"));
                }
                *p += 1;
                let v = parse(t, b, p)?;
                m.insert(k, v);
                ws(b, p);
                match b.get(*p) {
                    Some(b',') => *p += 1,
                    Some(b'}') => {
                        *p += 1;
                        return Ok(J::Obj(m));
                    }
                    _ => return Err(format!("bad object at {p}")),
                }
            }
        }
        Some(_) => {
            let s = *p;
            while *p < b.len() && matches!(b[*p], b'0'..=b'9' | b'-' | b'+' | b'.' | b'e' | b'E') {
                *p += 1;
            }
            t[s..*p].parse().map(J::Num).map_err(|_| format!("bad token at {s}"))
        }
    }
}

fn string(t: &str, b: &[u8], p: &mut usize) -> Result<String, String> {
    if b.get(*p) != Some(&b'"') {
        return Err(format!("expected a string at {p}"));
    }
    *p += 1;
    let mut out = String::new();
    let mut start = *p;
    loop {
        match b.get(*p) {
            None => return Err("unterminated string".into()),
            Some(b'"') => {
                out.push_str(&t[start..*p]);
                *p += 1;
                return Ok(out);
            }
            Some(b'\\') => {
                out.push_str(&t[start..*p]);
                *p += 1;
                let e = *b.get(*p).ok_or("bad escape")?;
                *p += 1;
                match e {
                    b'n' => out.push('\n'),
                    b't' => out.push('\t'),
                    b'r' => out.push('\r'),
                    b'b' => out.push('\u{8}'),
                    b'f' => out.push('\u{c}'),
                    b'u' => {
                        let h = |p: &mut usize| -> Result<u32, String> {
                            let s = t.get(*p..*p + 4).ok_or("bad escape")?;
                            *p += 4;
                            u32::from_str_radix(s, 16).map_err(|_| "bad escape".to_owned())
                        };
                        let mut u = h(p)?;
                        if (0xD800..0xDC00).contains(&u) && t.get(*p..*p + 2) == Some("\\u") {
                            *p += 2;
                            let l = h(p)?;
                            u = 0x10000 + ((u - 0xD800) << 10) + l.wrapping_sub(0xDC00);
                        }
                        out.push(char::from_u32(u).unwrap_or('\u{FFFD}'));
                    }
                    c => out.push(c as char),
                }
                start = *p;
            }
            Some(_) => *p += 1,
        }
    }
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    const D: &[u8; 16] = b"0123456789abcdef";
    for x in b {
        s.push(D[(x >> 4) as usize] as char);
        s.push(D[(x & 15) as usize] as char);
    }
    s
}

pub fn unhex(s: &str) -> Vec<u8> {
    let v = |c: u8| match c {
        b'0'..=b'9' => c - b'0',
        b'a'..=b'f' => c - b'a' + 10,
        _ => 0,
    };
    s.as_bytes().chunks(2).map(|p| (v(p[0]) << 4) | v(p[1])).collect()
}
