//! Minimal JSON.
use std::fmt::Write;
#[derive(Clone, Debug, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    Int(i128),
    Num(f64),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}
pub fn s(x: &str) -> J {
    J::Str(x.to_string())
}
pub fn n(x: u64) -> J {
    J::Int(x as i128)
}
impl J {
    pub fn get(&self, k: &str) -> Option<&J> {
        match self {
            J::Obj(v) => v.iter().find(|x| x.0 == k).map(|x| &x.1),
            _ => None,
        }
    }
    pub fn str(&self) -> String {
        match self {
            J::Str(x) => x.clone(),
            _ => String::new(),
        }
    }
    pub fn u64(&self) -> u64 {
        match self {
            J::Int(x) => *x as u64,
            J::Num(x) => *x as u64,
            _ => 0,
        }
    }
    pub fn arr(&self) -> Vec<J> {
        match self {
            J::Arr(v) => v.clone(),
            _ => vec![],
        }
    }
    pub fn dump(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::Bool(b) => o.push_str(if *b { "true" } else { "false" }),
            J::Int(x) => {
                let _ = write!(o, "{x}");
            }
            J::Num(x) => {
                if x.is_finite() {
                    let _ = write!(o, "{x:.6}");
                } else {
                    o.push_str("0")
                }
            }
            J::Str(x) => {
                o.push('"');
                for c in x.chars() {
                    match c {
                        '"' => o.push_str("\\\""),
                        '\\' => o.push_str("\\\\"),
                        '\n' => o.push_str("\\n"),
                        c if (c as u32) < 0x20 => {
                            let _ = write!(o, "\\u{:04x}", c as u32);
                        }
                        c => o.push(c),
                    }
                }
                o.push('"');
            }
            J::Arr(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    x.dump(o);
                }
                o.push(']');
            }
            J::Obj(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    J::Str(k.clone()).dump(o);
                    o.push(':');
                    x.dump(o);
                }
                o.push('}');
            }
        }
    }
    pub fn text(&self) -> String {
        let mut o = String::new();
        self.dump(&mut o);
        o
    }
}
pub fn parse(t: &str) -> Option<J> {
    let b = t.as_bytes();
    let mut p = 0;
    let v = val(b, &mut p)?;
    Some(v)
}
fn ws(b: &[u8], p: &mut usize) {
    while *p < b.len() && b[*p].is_ascii_whitespace() {
        *p += 1;
    }
}
fn val(b: &[u8], p: &mut usize) -> Option<J> {
    ws(b, p);
    match *b.get(*p)? {
        b'{' => {
            *p += 1;
            let mut v = vec![];
            loop {
                ws(b, p);
                if *b.get(*p)? == b'}' {
                    *p += 1;
                    return Some(J::Obj(v));
                }
                if b[*p] == b',' {
                    *p += 1;
                    continue;
                }
                let k = val(b, p)?.str();
                ws(b, p);
                if *b.get(*p)? != b':' {
                    return None;
                }
                *p += 1;
                v.push((k, val(b, p)?));
            }
        }
        b'[' => {
            *p += 1;
            let mut v = vec![];
            loop {
                ws(b, p);
                match *b.get(*p)? {
                    b']' => {
                        *p += 1;
                        return Some(J::Arr(v));
                    }
                    b',' => *p += 1,
                    _ => v.push(val(b, p)?),
                }
            }
        }
        b'"' => {
            *p += 1;
            let mut o = Vec::new();
            loop {
                let c = *b.get(*p)?;
                *p += 1;
                match c {
                    b'"' => return Some(J::Str(String::from_utf8_lossy(&o).into_owned())),
                    b'\\' => {
                        let e = *b.get(*p)?;
                        *p += 1;
                        match e {
                            b'n' => o.push(b'\n'),
                            b't' => o.push(b'\t'),
                            b'u' => {
                                let h = u32::from_str_radix(std::str::from_utf8(b.get(*p..*p + 4)?).ok()?, 16).ok()?;
                                *p += 4;
                                let mut t = [0; 4];
                                o.extend_from_slice(char::from_u32(h)?.encode_utf8(&mut t).as_bytes());
                            }
                            x => o.push(x),
                        }
                    }
                    c => o.push(c),
                }
            }
        }
        b't' => {
            *p += 4;
            Some(J::Bool(true))
        }
        b'f' => {
            *p += 5;
            Some(J::Bool(false))
        }
        b'n' => {
            *p += 4;
            Some(J::Null)
        }
        _ => {
            let st = *p;
            while *p < b.len() && matches!(b[*p], b'-' | b'+' | b'.' | b'e' | b'E' | b'0'..=b'9') {
                *p += 1;
            }
            let t = std::str::from_utf8(&b[st..*p]).ok()?;
            if let Ok(i) = t.parse::<i128>() {
                Some(J::Int(i))
            } else {
                t.parse::<f64>().ok().map(J::Num)
            }
        }
    }
}
