//! A minimal JSON value, parser and writer (keeps the harness free of extra dependencies).
use std::collections::BTreeMap;
use std::fmt::Write;

#[derive(Clone, Debug, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    Int(i64),
    Str(String),
    Arr(Vec<J>),
    Obj(BTreeMap<String, J>),
}

impl J {
    pub fn obj() -> J { J::Obj(BTreeMap::new()) }
    pub fn with(mut self, k: &str, v: impl Into<J>) -> J { self.set(k, v); self }
    pub fn set(&mut self, k: &str, v: impl Into<J>) {
        if let J::Obj(m) = self { m.insert(k.to_string(), v.into()); } else { panic!("not an object") }
    }
    pub fn get(&self, k: &str) -> Option<&J> {
        match self { J::Obj(m) => m.get(k), _ => None }
    }
    pub fn has(&self, k: &str) -> bool { self.get(k).is_some() }
    pub fn int(&self, k: &str) -> i64 {
        match self.get(k) { Some(J::Int(i)) => *i, x => panic!("field {} = {:?} in {:?}", k, x, self) }
    }
    pub fn int_or(&self, k: &str, d: i64) -> i64 {
        match self.get(k) { Some(J::Int(i)) => *i, _ => d }
    }
    pub fn us(&self, k: &str) -> usize { self.int(k) as usize }
    pub fn str(&self, k: &str) -> &str {
        match self.get(k) { Some(J::Str(s)) => s, x => panic!("field {} = {:?} in {:?}", k, x, self) }
    }
    pub fn arr(&self, k: &str) -> &[J] {
        match self.get(k) { Some(J::Arr(a)) => a, x => panic!("field {} = {:?} in {:?}", k, x, self) }
    }
    pub fn ints(&self, k: &str) -> Vec<i64> { self.arr(k).iter().map(|x| x.as_int()).collect() }
    pub fn uss(&self, k: &str) -> Vec<usize> { self.arr(k).iter().map(|x| x.as_int() as usize).collect() }
    pub fn as_int(&self) -> i64 { match self { J::Int(i) => *i, x => panic!("not an int {:?}", x) } }
    pub fn as_arr(&self) -> &[J] { match self { J::Arr(a) => a, x => panic!("not an array {:?}", x) } }

    pub fn write(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::Bool(b) => o.push_str(if *b { "true" } else { "false" }),
            J::Int(i) => { write!(o, "{}", i).unwrap(); }
            J::Str(s) => {
                o.push('"');
                for c in s.chars() {
                    match c {
                        '"' => o.push_str("\\\""),
                        '\\' => o.push_str("\\\\"),
                        '\n' => o.push_str("\\n"),
                        c if (c as u32) < 32 => { write!(o, "\\u{:04x}", c as u32).unwrap(); }
                        c => o.push(c),
                    }
                }
                o.push('"');
            }
            J::Arr(a) => {
                o.push('[');
                for (i, x) in a.iter().enumerate() {
                    if i > 0 { o.push(','); }
                    x.write(o);
                }
                o.push(']');
            }
            J::Obj(m) => {
                o.push('{');
                for (i, (k, x)) in m.iter().enumerate() {
                    if i > 0 { o.push(','); }
                    J::Str(k.clone()).write(o);
                    o.push(':');
                    x.write(o);
                }
                o.push('}');
            }
        }
    }
    pub fn text(&self) -> String { let mut s = String::new(); self.write(&mut s); s }

    pub fn parse(s: &str) -> J {
        let b = s.as_bytes();
        let mut i = 0;
        let v = parse(b, &mut i);
        v
    }
}

fn ws(b: &[u8], i: &mut usize) { while *i < b.len() && (b[*i] as char).is_whitespace() { *i += 1; } }

fn parse(b: &[u8], i: &mut usize) -> J {
    ws(b, i);
    match b[*i] {
        b'n' => { *i += 4; J::Null }
        b't' => { *i += 4; J::Bool(true) }
        b'f' => { *i += 5; J::Bool(false) }
        b'"' => J::Str(pstr(b, i)),
        b'[' => {
            *i += 1;
            let mut v = vec![];
            loop {
                ws(b, i);
                if b[*i] == b']' { *i += 1; return J::Arr(v); }
                if b[*i] == b',' { *i += 1; continue; }
                v.push(parse(b, i));
            }
        }
        b'{' => {
            *i += 1;
            let mut m = BTreeMap::new();
            loop {
                ws(b, i);
                if b[*i] == b'}' { *i += 1; return J::Obj(m); }
                if b[*i] == b',' { *i += 1; continue; }
                let k = pstr(b, i);
                ws(b, i);
                assert_eq!(b[*i], b':');
                *i += 1;
                m.insert(k, parse(b, i));
            }
        }
        _ => {
            let s = *i;
            while *i < b.len() && (b[*i] == b'-' || b[*i].is_ascii_digit()) { *i += 1; }
            J::Int(std::str::from_utf8(&b[s..*i]).unwrap().parse().expect("number"))
        }
    }
}

fn pstr(b: &[u8], i: &mut usize) -> String {
    assert_eq!(b[*i], b'"');
    *i += 1;
    let mut o = vec![];
    while b[*i] != b'"' {
        if b[*i] == b'\\' {
            *i += 1;
            match b[*i] {
                b'n' => o.push(b'\n'),
                b't' => o.push(b'\t'),
                c => o.push(c),
            }
        } else {
            o.push(b[*i]);
        }
        *i += 1;
    }
    *i += 1;
    String::from_utf8(o).unwrap()
}

impl From<i64> for J { fn from(v: i64) -> J { J::Int(v) } }
impl From<i32> for J { fn from(v: i32) -> J { J::Int(v as i64) } }
impl From<usize> for J { fn from(v: usize) -> J { J::Int(v as i64) } }
impl From<bool> for J { fn from(v: bool) -> J { J::Bool(v) } }
impl From<&str> for J { fn from(v: &str) -> J { J::Str(v.to_string()) } }
impl From<String> for J { fn from(v: String) -> J { J::Str(v) } }
impl<T: Into<J>> From<Vec<T>> for J { fn from(v: Vec<T>) -> J { J::Arr(v.into_iter().map(|x| x.into()).collect()) } }
