//! Just enough JSON for plans, replays and evidence.
use std::collections::BTreeMap;
use std::fmt::Write;

#[derive(Clone, Debug, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    Int(i128),
    Num(f64),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}

impl J {
    pub fn s(x: &str) -> J {
        J::Str(x.to_string())
    }
    pub fn n<T: TryInto<i128>>(x: T) -> J {
        J::Int(x.try_into().ok().unwrap())
    }
    pub fn obj(v: Vec<(&str, J)>) -> J {
        J::Obj(v.into_iter().map(|(k, v)| (k.to_string(), v)).collect())
    }
    pub fn map<K: ToString, V: TryInto<i128> + Copy>(m: &BTreeMap<K, V>) -> J {
        J::Obj(m.iter().map(|(k, v)| (k.to_string(), J::n(*v))).collect())
    }
    pub fn get(&self, k: &str) -> &J {
        match self {
            J::Obj(v) => v.iter().find(|(n, _)| n == k).map(|(_, v)| v).unwrap_or(&J::Null),
            _ => &J::Null,
        }
    }
    pub fn int(&self) -> i128 {
        match self {
            J::Int(i) => *i,
            J::Num(f) => *f as i128,
            J::Bool(b) => *b as i128,
            _ => 0,
        }
    }
    pub fn us(&self) -> usize {
        self.int() as usize
    }
    pub fn u64(&self) -> u64 {
        self.int() as u64
    }
    pub fn str(&self) -> &str {
        match self {
            J::Str(s) => s,
            _ => "",
        }
    }
    pub fn arr(&self) -> &[J] {
        match self {
            J::Arr(a) => a,
            _ => &[],
        }
    }
    pub fn write(&self, o: &mut String, ind: usize, depth: usize) {
        match self {
            J::Null => o.push_str("null"),
            J::Bool(b) => write!(o, "{}", b).unwrap(),
            J::Int(i) => write!(o, "{}", i).unwrap(),
            J::Num(f) => write!(o, "{:.3}", f).unwrap(),
            J::Str(s) => {
                o.push('"');
                for c in s.chars() {
                    match c {
                        '"' => o.push_str("\\\""),
                        '\\' => o.push_str("\\\\"),
                        '\n' => o.push_str("\\n"),
                        c if (c as u32) < 32 => write!(o, "\\u{:04x}", c as u32).unwrap(),
                        c => o.push(c),
                    }
                }
                o.push('"');
            }
            J::Arr(a) => {
                o.push('[');
                let nl = depth < ind && a.iter().any(|x| matches!(x, J::Arr(_) | J::Obj(_)));
                for (i, x) in a.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    if nl {
                        o.push('\n');
                        o.push_str(&" ".repeat(depth + 1));
                    }
                    x.write(o, ind, depth + 1);
                }
                if nl {
                    o.push('\n');
                    o.push_str(&" ".repeat(depth));
                }
                o.push(']');
            }
            J::Obj(m) => {
                o.push('{');
                let nl = depth < ind;
                for (i, (k, x)) in m.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    if nl {
                        o.push('\n');
                        o.push_str(&" ".repeat(depth + 1));
                    }
                    J::s(k).write(o, ind, depth + 1);
                    o.push(':');
                    x.write(o, ind, depth + 1);
                }
                if nl {
                    o.push('\n');
                    o.push_str(&" ".repeat(depth));
                }
                o.push('}');
            }
        }
    }
    pub fn text(&self) -> String {
        let mut o = String::new();
        self.write(&mut o, 0, 0);
        o
    }
    pub fn pretty(&self) -> String {
        let mut o = String::new();
        self.write(&mut o, 3, 0);
        o.push('\n');
        o
    }
    pub fn parse(s: &str) -> Option<J> {
        let b = s.as_bytes();
        let mut p = 0;
        let j = val(b, &mut p)?;
        ws(b, &mut p);
        (p == b.len()).then_some(j)
    }
}

fn ws(b: &[u8], p: &mut usize) {
    while *p < b.len() && b[*p].is_ascii_whitespace() {
        *p += 1;
    }
}

fn val(b: &[u8], p: &mut usize) -> Option<J> {
    ws(b, p);
    match *b.get(*p)? {
        b'n' => {
            *p += 4;
            Some(J::Null)
        }
        b't' => {
            *p += 4;
            Some(J::Bool(true))
        }
        b'f' => {
            *p += 5;
            Some(J::Bool(false))
        }
        b'"' => {
            *p += 1;
            let mut o = Vec::new();
            loop {
                match *b.get(*p)? {
                    b'"' => {
                        *p += 1;
                        return Some(J::Str(String::from_utf8(o).ok()?));
                    }
                    b'\\' => {
                        *p += 1;
                        match *b.get(*p)? {
                            b'n' => o.push(b'\n'),
                            b't' => o.push(b'\t'),
                            b'u' => {
                                let h = std::str::from_utf8(b.get(*p + 1..*p + 5)?).ok()?;
                                let c = char::from_u32(u32::from_str_radix(h, 16).ok()?)?;
                                o.extend_from_slice(c.to_string().as_bytes());
                                *p += 4;
                            }
                            c => o.push(c),
                        }
                        *p += 1;
                    }
                    c => {
                        o.push(c);
                        *p += 1;
                    }
                }
            }
        }
        b'[' => {
            *p += 1;
            let mut a = Vec::new();
            loop {
                ws(b, p);
                if *b.get(*p)? == b']' {
                    *p += 1;
                    return Some(J::Arr(a));
                }
                a.push(val(b, p)?);
                ws(b, p);
                if *b.get(*p)? == b',' {
                    *p += 1;
                }
            }
        }
        b'{' => {
            *p += 1;
            let mut m = Vec::new();
            loop {
                ws(b, p);
                if *b.get(*p)? == b'}' {
                    *p += 1;
                    return Some(J::Obj(m));
                }
                let k = match val(b, p)? {
                    J::Str(s) => s,
                    _ => return None,
                };
                ws(b, p);
                if *b.get(*p)? != b':' {
                    return None;
                }
                *p += 1;
                m.push((k, val(b, p)?));
                ws(b, p);
                if *b.get(*p)? == b',' {
                    *p += 1;
                }
            }
        }
        _ => {
            let st = *p;
            while *p < b.len() && matches!(b[*p], b'0'..=b'9' | b'-' | b'+' | b'.' | b'e' | b'E') {
                *p += 1;
            }
            let t = std::str::from_utf8(&b[st..*p]).ok()?;
            match t.parse::<i128>() {
                Ok(i) => Some(J::Int(i)),
                Err(_) => Some(J::Num(t.parse().ok()?)),
            }
        }
    }
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        write!(s, "{:02x}", x).unwrap();
    }
    s
}

pub fn unhex(s: &str) -> Vec<u8> {
    s.as_bytes()
        .chunks(2)
        .filter_map(|c| u8::from_str_radix(std::str::from_utf8(c).ok()?, 16).ok())
        .collect()
}
