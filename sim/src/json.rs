//! Just enough JSON for replay files and evidence.

use std::fmt::Write;

#[derive(Clone, Debug, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    Num(i128),
    F(f64),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}

impl J {
    pub fn s(v: impl Into<String>) -> J {
        J::Str(v.into())
    }
    pub fn n(v: impl TryInto<i128>) -> J {
        J::Num(v.try_into().ok().unwrap_or(0))
    }
    pub fn get(&self, k: &str) -> &J {
        if let J::Obj(o) = self {
            for (n, v) in o {
                if n == k {
                    return v;
                }
            }
        }
        &J::Null
    }
    pub fn arr(&self) -> &[J] {
        if let J::Arr(a) = self {
            a
        } else {
            &[]
        }
    }
    pub fn num(&self) -> i128 {
        match self {
            J::Num(n) => *n,
            J::F(f) => *f as i128,
            J::Bool(b) => *b as i128,
            _ => 0,
        }
    }
    pub fn u(&self) -> u64 {
        self.num() as u64
    }
    pub fn str(&self) -> &str {
        if let J::Str(s) = self {
            s
        } else {
            ""
        }
    }
    pub fn is_null(&self) -> bool {
        matches!(self, J::Null)
    }

    pub fn write(&self, out: &mut String, indent: Option<usize>) {
        match self {
            J::Null => out.push_str("null"),
            J::Bool(b) => out.push_str(if *b { "true" } else { "false" }),
            J::Num(n) => {
                let _ = write!(out, "{n}");
            },
            J::F(f) => {
                let _ = write!(out, "{f:.3}");
            },
            J::Str(s) => quote(s, out),
            J::Arr(a) => {
                let flat = a.iter().all(|x| !matches!(x, J::Obj(_) | J::Arr(_)));
                out.push('[');
                for (i, x) in a.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    if let (Some(n), false) = (indent, flat) {
                        nl(out, n + 1);
                    }
                    x.write(out, if flat { None } else { indent.map(|n| n + 1) });
                }
                if let (Some(n), false) = (indent, flat) {
                    nl(out, n);
                }
                out.push(']');
            },
            J::Obj(o) => {
                let flat = o.iter().all(|(_, x)| match x {
                    J::Obj(_) => false,
                    J::Arr(a) => a.len() < 8 && a.iter().all(|y| matches!(y, J::Num(_))),
                    _ => true,
                });
                out.push('{');
                for (i, (k, x)) in o.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    if let (Some(n), false) = (indent, flat) {
                        nl(out, n + 1);
                    } else if i > 0 {
                        out.push(' ');
                    }
                    quote(k, out);
                    out.push_str(": ");
                    x.write(out, if flat { None } else { indent.map(|n| n + 1) });
                }
                if let (Some(n), false) = (indent, flat) {
                    nl(out, n);
                }
                out.push('}');
            },
        }
    }

    pub fn pretty(&self) -> String {
        let mut s = String::new();
        self.write(&mut s, Some(0));
        s.push('\n');
        s
    }
}

fn nl(out: &mut String, n: usize) {
    out.push('\n');
    for _ in 0..n {
        out.push(' ');
    }
}

pub fn quote(s: &str, out: &mut String) {
    out.push('"');
    for c in s.chars() {
        match c {
            '"' => out.push_str("\\\""),
            '\\' => out.push_str("\\\\"),
            '\n' => out.push_str("\\n"),
            c if (c as u32) < 0x20 || (0x7f..0xa0).contains(&(c as u32)) || ('\u{300}'..'\u{370}').contains(&c) || ('\u{2000}'..'\u{2070}').contains(&c) || c == '\u{feff}' => {
                let _ = write!(out, "\\u{:04x}", c as u32);
            },
            c => out.push(c),
        }
    }
    out.push('"');
}

pub fn parse(s: &str) -> Result<J, String> {
    let b = s.as_bytes();
    let mut i = 0;
    let v = value(b, s, &mut i)?;
    ws(b, &mut i);
    if i != b.len() {
        return Err(format!("trailing data at {i}"));
    }
    Ok(v)
}

fn ws(b: &[u8], i: &mut usize) {
    while *i < b.len() && b[*i].is_ascii_whitespace() {
        *i += 1;
    }
}

fn value(b: &[u8], s: &str, i: &mut usize) -> Result<J, String> {
    ws(b, i);
    let Some(&c) = b.get(*i) else { return Err("unexpected end".into()) };
    match c {
        b'{' => {
            *i += 1;
            let mut o = Vec::new();
            loop {
                ws(b, i);
                if b.get(*i) == Some(&b'}') {
                    *i += 1;
                    return Ok(J::Obj(o));
                }
                let J::Str(k) = value(b, s, i)? else { return Err(format!("key at {i}")) };
                ws(b, i);
                if b.get(*i) != Some(&b':') {
                    return Err(format!("colon at {i}"));
                }
                *i += 1;
                o.push((k, value(b, s, i)?));
                ws(b, i);
                if b.get(*i) == Some(&b',') {
                    *i += 1;
                }
            }
        },
        b'[' => {
            *i += 1;
            let mut a = Vec::new();
            loop {
                ws(b, i);
                if b.get(*i) == Some(&b']') {
                    *i += 1;
                    return Ok(J::Arr(a));
                }
                a.push(value(b, s, i)?);
                ws(b, i);
                if b.get(*i) == Some(&b',') {
                    *i += 1;
                }
            }
        },
        b'"' => {
            *i += 1;
            let mut out = String::new();
            loop {
                let rest = &s[*i..];
                let Some(ch) = rest.chars().next() else { return Err("open string".into()) };
                *i += ch.len_utf8();
                match ch {
                    '"' => return Ok(J::Str(out)),
                    '\\' => {
                        let e = b[*i];
                        *i += 1;
                        match e {
                            b'n' => out.push('\n'),
                            b't' => out.push('\t'),
                            b'r' => out.push('\r'),
                            b'u' => {
                                let h = s.get(*i..*i + 4).ok_or("short escape")?;
                                let mut v =
                                    u32::from_str_radix(h, 16).map_err(|e| e.to_string())?;
                                *i += 4;
                                if (0xd800..0xdc00).contains(&v) && s[*i..].starts_with("\\u") {
                                    let h = s.get(*i + 2..*i + 6).ok_or("short escape")?;
                                    let lo =
                                        u32::from_str_radix(h, 16).map_err(|e| e.to_string())?;
                                    *i += 6;
                                    v = 0x10000 + ((v - 0xd800) << 10) + (lo & 0x3ff);
                                }
                                out.push(char::from_u32(v).ok_or("bad escape")?);
                            },
                            c => out.push(c as char),
                        }
                    },
                    c => out.push(c),
                }
            }
        },
        _ => {
            let st = *i;
            while *i < b.len() && !matches!(b[*i], b',' | b']' | b'}') && !b[*i].is_ascii_whitespace()
            {
                *i += 1;
            }
            match &s[st..*i] {
                "null" => Ok(J::Null),
                "true" => Ok(J::Bool(true)),
                "false" => Ok(J::Bool(false)),
                t => t
                    .parse::<i128>()
                    .map(J::Num)
                    .or_else(|_| t.parse::<f64>().map(J::F))
                    .map_err(|_| format!("bad token {t:?} at {st}")),
            }
        },
    }
}
