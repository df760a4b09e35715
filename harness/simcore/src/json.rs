//! Minimal JSON, for replay files and statistics.
use std::fmt::Write;
#[derive(Clone, Debug, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    Num(i64),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}
impl J {
    pub fn obj(v: Vec<(&str, J)>) -> J {
        J::Obj(v.into_iter().map(|(k, v)| (k.to_string(), v)).collect())
    }
    pub fn s(v: impl Into<String>) -> J {
        J::Str(v.into())
    }
    pub fn n(v: usize) -> J {
        J::Num(v as i64)
    }
    pub fn get(&self, k: &str) -> Option<&J> {
        match self {
            J::Obj(v) => v.iter().find(|x| x.0 == k).map(|x| &x.1),
            _ => None,
        }
    }
    pub fn num(&self, k: &str) -> usize {
        match self.get(k) {
            Some(J::Num(n)) => *n as usize,
            _ => 0,
        }
    }
    pub fn str(&self, k: &str) -> String {
        match self.get(k) {
            Some(J::Str(s)) => s.clone(),
            _ => String::new(),
        }
    }
    pub fn arr(&self, k: &str) -> &[J] {
        match self.get(k) {
            Some(J::Arr(v)) => v,
            _ => &[],
        }
    }
    pub fn as_num(&self) -> usize {
        match self {
            J::Num(n) => *n as usize,
            _ => 0,
        }
    }
    pub fn as_str(&self) -> &str {
        match self {
            J::Str(s) => s,
            _ => "",
        }
    }
    pub fn as_arr(&self) -> &[J] {
        match self {
            J::Arr(v) => v,
            _ => &[],
        }
    }
    pub fn write(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::Bool(b) => o.push_str(if *b { "true" } else { "false" }),
            J::Num(n) => write!(o, "{n}").unwrap(),
            J::Str(s) => esc(s, o),
            J::Arr(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    x.write(o);
                }
                o.push(']');
            }
            J::Obj(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    esc(k, o);
                    o.push(':');
                    x.write(o);
                }
                o.push('}');
            }
        }
    }
    pub fn to_text(&self) -> String {
        let mut o = String::new();
        self.write(&mut o);
        o
    }
    pub fn parse(s: &str) -> Result<J, String> {
        let b: Vec<char> = s.chars().collect();
        let mut i = 0;
        let v = val(&b, &mut i)?;
        ws(&b, &mut i);
        if i != b.len() {
            return Err(format!("trailing data at {i}"));
        }
        Ok(v)
    }
}
fn esc(s: &str, o: &mut String) {
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => write!(o, "\\u{:04x}", c as u32).unwrap(),
            c => o.push(c),
        }
    }
    o.push('"');
}
fn ws(b: &[char], i: &mut usize) {
    while *i < b.len() && b[*i].is_whitespace() {
        *i += 1;
    }
}
fn val(b: &[char], i: &mut usize) -> Result<J, String> {
    ws(b, i);
    match b.get(*i) {
        Some('{') => {
            *i += 1;
            let mut v = Vec::new();
            loop {
                ws(b, i);
                if b.get(*i) == Some(&'}') {
                    *i += 1;
                    return Ok(J::Obj(v));
                }
                let k = string(b, i)?;
                ws(b, i);
                if b.get(*i) != Some(&':') {
                    return Err(format!("expected : at {i}"));
                }
                *i += 1;
                v.push((k, val(b, i)?));
                ws(b, i);
                if b.get(*i) == Some(&',') {
                    *i += 1;
                }
            }
        }
        Some('[') => {
            *i += 1;
            let mut v = Vec::new();
            loop {
                ws(b, i);
                if b.get(*i) == Some(&']') {
                    *i += 1;
                    return Ok(J::Arr(v));
                }
                v.push(val(b, i)?);
                ws(b, i);
                if b.get(*i) == Some(&',') {
                    *i += 1;
                }
            }
        }
        Some('"') => Ok(J::Str(string(b, i)?)),
        Some(c) if c.is_ascii_digit() || *c == '-' => {
            let st = *i;
            *i += 1;
            while *i < b.len() && (b[*i].is_ascii_digit() || b[*i] == '.' || b[*i] == 'e') {
                *i += 1;
            }
            let t: String = b[st..*i].iter().collect();
            Ok(J::Num(t.parse::<f64>().map_err(|e| e.to_string())? as i64))
        }
        Some(_) => {
            for (t, v) in [("null", J::Null), ("true", J::Bool(true)), ("false", J::Bool(false))] {
                if b[*i..].iter().take(t.len()).collect::<String>() == t {
                    *i += t.len();
                    return Ok(v);
                }
            }
            Err(format!("bad json at {i}"))
        }
        None => Err("unexpected end".into()),
    }
}
fn string(b: &[char], i: &mut usize) -> Result<String, String> {
    if b.get(*i) != Some(&'"') {
        return Err(format!("expected string at {i}"));
    }
    *i += 1;
    let mut s = String::new();
    while let Some(&c) = b.get(*i) {
        *i += 1;
        match c {
            '"' => return Ok(s),
            '\\' => {
                let e = b.get(*i).copied().ok_or("eof")?;
                *i += 1;
                match e {
                    'n' => s.push('\n'),
                    'r' => s.push('\r'),
                    't' => s.push('\t'),
                    'u' => {
                        let hex = |at: usize| -> Result<u32, String> {
                            let h: String = b.get(at..at + 4).ok_or("short escape")?.iter().collect();
                            u32::from_str_radix(&h, 16).map_err(|e| e.to_string())
                        };
                        let mut c = hex(*i)?;
                        *i += 4;
                        if (0xD800..0xDC00).contains(&c) && b.get(*i) == Some(&'\\') && b.get(*i + 1) == Some(&'u') {
                            let d = hex(*i + 2)?;
                            *i += 6;
                            c = 0x10000 + ((c - 0xD800) << 10) + d.wrapping_sub(0xDC00) % 0x400;
                        }
                        s.push(char::from_u32(c).ok_or("bad escape")?);
                    }
                    e => s.push(e),
                }
            }
            c => s.push(c),
        }
    }
    Err("unterminated string".into())
}
