//! Reference models shared by several properties: tables and comparators
use crate::engine::Src;
use std::cmp::Ordering;

pub type Cell = Vec<u8>;

/// A text file as rows of cells
#[derive(Clone, Debug, Hash, Default)]
pub struct Table {
    pub header: Option<Vec<String>>,
    pub rows: Vec<Vec<Cell>>,
}
pub fn join_cells(cells: &[Cell], delim: u8) -> Vec<u8> {
    let mut v = Vec::new();
    for (i, c) in cells.iter().enumerate() {
        if i > 0 {
            v.push(delim);
        }
        v.extend_from_slice(c);
    }
    v
}
pub fn header_line(h: &[String]) -> Vec<u8> {
    let mut v = b" CDX".to_vec();
    for x in h {
        v.push(b'\t');
        v.extend_from_slice(x.as_bytes());
    }
    v.push(b'\n');
    v
}
impl Table {
    pub fn lines(&self) -> Vec<Vec<u8>> {
        self.rows
            .iter()
            .map(|r| {
                let mut v = join_cells(r, b'\t');
                v.push(b'\n');
                v
            })
            .collect()
    }
    pub fn head(&self) -> Vec<u8> {
        self.header.as_ref().map_or(Vec::new(), |h| header_line(h))
    }
    pub fn bytes(&self) -> Vec<u8> {
        let mut v = self.head();
        for l in self.lines() {
            v.extend_from_slice(&l);
        }
        v
    }
    /// file contents, without the final newline if that is possible and asked for
    pub fn bytes_nl(&self, final_newline: bool) -> Vec<u8> {
        let mut v = self.bytes();
        if !final_newline && self.rows.last().is_some_and(|r| r.len() > 1 || !r[0].is_empty()) {
            v.pop();
        }
        v
    }
}

pub fn cat(v: &[Vec<u8>]) -> Vec<u8> {
    v.concat()
}

/// field n (0 based) of a line with or without newline; empty if missing
pub fn field(line: &[u8], n: usize) -> &[u8] {
    let l = line.strip_suffix(b"\n").unwrap_or(line);
    l.split(|c| *c == b'\t').nth(n).unwrap_or(b"")
}

// ---------------------------------------------------------------- numbers

/// value of the longest numeric prefix: [+-]ddd[.ddd][e[+-]dd][suffix]
pub fn ref_f64(b: &[u8]) -> f64 {
    ref_f64_rest(b).0
}
pub fn ref_f64_rest(b: &[u8]) -> (f64, usize) {
    let mut i = 0;
    let mut neg = false;
    if i < b.len() && (b[i] == b'+' || b[i] == b'-') {
        neg = b[i] == b'-';
        i += 1;
    }
    let start = i;
    let mut txt = String::from("0");
    while i < b.len() && b[i].is_ascii_digit() {
        txt.push(b[i] as char);
        i += 1;
    }
    if i < b.len() && b[i] == b'.' {
        txt.push('.');
        i += 1;
        while i < b.len() && b[i].is_ascii_digit() {
            txt.push(b[i] as char);
            i += 1;
        }
        txt.push('0');
    }
    if i < b.len() && (b[i] == b'e' || b[i] == b'E') {
        let mut j = i + 1;
        let mut e = String::from("e");
        if j < b.len() && (b[j] == b'+' || b[j] == b'-') {
            e.push(b[j] as char);
            j += 1;
        }
        let d = j;
        while j < b.len() && b[j].is_ascii_digit() {
            e.push(b[j] as char);
            j += 1;
        }
        if j > d {
            txt.push_str(&e);
            i = j;
        }
    }
    let _ = start;
    let mut v: f64 = txt.parse().unwrap_or(0.0);
    if i < b.len() {
        if let Some(p) = b"KMGTPEZY".iter().position(|c| *c == b[i]) {
            v *= 1024f64.powi(p as i32 + 1);
            i += 1;
        } else if let Some(p) = b"kmgtpezy".iter().position(|c| *c == b[i]) {
            v *= 1000f64.powi(p as i32 + 1);
            i += 1;
        }
    }
    (if neg { -v } else { v }, i)
}

/// decimal of arbitrary length
fn ref_num(b: &[u8]) -> (bool, Vec<u8>, Vec<u8>) {
    let mut i = 0;
    while i < b.len() && b[i] <= b' ' {
        i += 1;
    }
    let mut neg = false;
    if i < b.len() && b[i] == b'-' {
        neg = true;
        i += 1;
    }
    let mut int = Vec::new();
    while i < b.len() && (b[i].is_ascii_digit() || b[i] == b',') {
        if b[i] != b',' {
            int.push(b[i]);
        }
        i += 1;
    }
    let mut frac = Vec::new();
    if i < b.len() && b[i] == b'.' {
        i += 1;
        while i < b.len() && b[i].is_ascii_digit() {
            frac.push(b[i]);
            i += 1;
        }
    }
    while int.first() == Some(&b'0') {
        int.remove(0);
    }
    while frac.last() == Some(&b'0') {
        frac.pop();
    }
    if int.is_empty() && frac.is_empty() {
        neg = false;
    }
    (neg, int, frac)
}
fn cmp_num(a: &[u8], b: &[u8]) -> Ordering {
    let (na, ia, fa) = ref_num(a);
    let (nb, ib, fb) = ref_num(b);
    match (na, nb) {
        (true, false) => Ordering::Less,
        (false, true) => Ordering::Greater,
        _ => {
            let o = ia.len().cmp(&ib.len()).then_with(|| ia.cmp(&ib)).then_with(|| fa.cmp(&fb));
            if na {
                o.reverse()
            } else {
                o
            }
        }
    }
}

fn ref_ip(b: &[u8]) -> Vec<(usize, Vec<u8>)> {
    let s: Vec<u8> = b.iter().copied().skip_while(|c| *c <= b' ').collect();
    let mut out = Vec::new();
    let mut i = 0;
    loop {
        let mut d = Vec::new();
        while i < s.len() && s[i].is_ascii_digit() {
            d.push(s[i]);
            i += 1;
        }
        out.push((d.len(), d));
        if i < s.len() && s[i] == b'.' {
            i += 1;
        } else {
            return out;
        }
    }
}

pub fn fcmp(a: f64, b: f64) -> Ordering {
    a.partial_cmp(&b).unwrap_or_else(|| a.is_nan().cmp(&b.is_nan()))
}

// ---------------------------------------------------------------- comparators

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Method {
    Plain,
    Lower,
    Length,
    Float,
    Numeric,
    Ip,
    Equal,
    /// expression a*c_x + b*c_y
    Expr(i8, usize, i8, usize),
}
pub const METHODS: [Method; 7] =
    [Method::Plain, Method::Lower, Method::Length, Method::Float, Method::Numeric, Method::Ip, Method::Equal];

impl Method {
    pub fn cmp(self, a: &[u8], b: &[u8]) -> Ordering {
        match self {
            Self::Plain => a.cmp(b),
            Self::Lower => a.to_ascii_lowercase().cmp(&b.to_ascii_lowercase()),
            Self::Length => a.len().cmp(&b.len()),
            Self::Float => fcmp(ref_f64(a), ref_f64(b)),
            Self::Numeric => cmp_num(a, b),
            Self::Ip => ref_ip(a).cmp(&ref_ip(b)),
            Self::Equal => Ordering::Equal,
            Self::Expr(..) => unreachable!(),
        }
    }
    pub fn spelling(self, s: &mut Src) -> String {
        let v: &[&str] = match self {
            Self::Plain => &["plain", "", "PLAIN"],
            Self::Lower => &["lower", "Lower"],
            Self::Length => &["len", "length"],
            Self::Float => &["float"],
            Self::Numeric => &["num", "numeric"],
            Self::Ip => &["ip"],
            Self::Equal => &["equal"],
            Self::Expr(..) => &["expr"],
        };
        (*s.pick(v)).to_string()
    }
}

#[derive(Clone, Debug, Hash)]
pub struct Key {
    /// None is the whole line
    pub col: Option<usize>,
    pub method: Method,
    pub rev: bool,
    pub spec: String,
}
pub fn lin(line: &[u8], m: Method) -> f64 {
    if let Method::Expr(i8::MIN, x, _, y) = m {
        // a quotient: may be infinite, a negative zero, or not a number
        ref_f64(field(line, x)) / ref_f64(field(line, y))
    } else if let Method::Expr(a, x, b, y) = m {
        f64::from(a) * ref_f64(field(line, x)) + f64::from(b) * ref_f64(field(line, y))
    } else {
        0.0
    }
}
impl Key {
    /// compare two lines, newline included
    pub fn cmp(&self, a: &[u8], b: &[u8]) -> Ordering {
        let o = match (self.method, self.col) {
            (Method::Expr(..), _) => fcmp(lin(a, self.method), lin(b, self.method)),
            (m, None) => m.cmp(a, b),
            (m, Some(c)) => m.cmp(field(a, c), field(b, c)),
        };
        if self.rev {
            o.reverse()
        } else {
            o
        }
    }
}
pub fn cmp_keys(keys: &[Key], a: &[u8], b: &[u8]) -> Ordering {
    for k in keys {
        let o = k.cmp(a, b);
        if o != Ordering::Equal {
            return o;
        }
    }
    Ordering::Equal
}
/// stable sort, and keep only the first of equals if unique
pub fn ref_sort(keys: &[Key], lines: &[Vec<u8>], unique: bool) -> Vec<Vec<u8>> {
    let mut v = lines.to_vec();
    // insertion into a vector, to not depend on a sort routine
    if v.len() < 40 {
        let mut out: Vec<Vec<u8>> = Vec::new();
        for l in v {
            let mut i = out.len();
            while i > 0 && cmp_keys(keys, &out[i - 1], &l) == Ordering::Greater {
                i -= 1;
            }
            out.insert(i, l);
        }
        v = out;
    } else {
        v.sort_by(|a, b| cmp_keys(keys, a, b));
    }
    if unique {
        let mut out: Vec<Vec<u8>> = Vec::new();
        for l in v {
            if !out.last().is_some_and(|p| cmp_keys(keys, p, &l) == Ordering::Equal) {
                out.push(l);
            }
        }
        v = out;
    }
    v
}
