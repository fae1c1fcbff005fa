//! Generators
use crate::engine::Src;
use crate::model::*;

/// what kind of values a column holds
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Kind {
    /// short words over a small alphabet: many ties
    Word,
    /// values that share a long prefix
    Prefix,
    /// any bytes but tab and newline
    Bytes,
    /// integers
    Int,
    /// decimals and exponents
    Float,
    /// decimals of arbitrary length, with commas
    Num,
    /// 1.2.3
    Ip,
    /// mixed case words
    Case,
    /// unicode text
    Utf,
}
pub const KINDS: [Kind; 9] =
    [Kind::Word, Kind::Prefix, Kind::Bytes, Kind::Int, Kind::Float, Kind::Num, Kind::Ip, Kind::Case, Kind::Utf];

fn string(s: &mut Src, alphabet: &[u8], lo: usize, hi: usize) -> Vec<u8> {
    let n = s.range(lo, hi);
    (0..n).map(|_| *s.pick(alphabet)).collect()
}

pub fn digits(s: &mut Src, lo: usize, hi: usize) -> String {
    let n = s.range(lo, hi);
    (0..n).map(|_| (b'0' + s.usize(10) as u8) as char).collect()
}

pub fn value(s: &mut Src, k: Kind) -> Cell {
    let v = short_value(s, k);
    if matches!(k, Kind::Word | Kind::Bytes | Kind::Case | Kind::Utf) && s.chance(1, 150) {
        return v.repeat(*s.pick(&[10, 50, 300, 3000]));
    }
    v
}
fn short_value(s: &mut Src, k: Kind) -> Cell {
    match k {
        Kind::Word => string(s, b"abc", 0, 3),
        Kind::Prefix => {
            let base: &[u8] = s.pick(&[&b"prefix12"[..], b"prefix1", b"prefix123", b"a", b"prefix12345678901"]);
            let mut v = base.to_vec();
            let other = string(s, b"ab\0 ~", 0, 3);
            if s.chance(1, 6) {
                // rather a common suffix
                v.splice(0..0, other);
            } else {
                v.extend(other);
            }
            v
        }
        Kind::Bytes => {
            let n = s.range(0, 12);
            (0..n)
                .map(|_| loop_byte(s))
                .collect()
        }
        Kind::Int => {
            let v = match s.weighted(&[6, 3, 1]) {
                0 => s.irange(-5, 12),
                1 => s.irange(-1000, 1000),
                _ => s.irange(-1_000_000_000_000, 1_000_000_000_000),
            };
            let mut t = v.to_string();
            if v > 0 && s.chance(1, 10) {
                t = format!("+{t}");
            }
            if v >= 0 && s.chance(1, 10) {
                t = format!("0{v}");
            }
            t.into_bytes()
        }
        Kind::Float => {
            let sign = *s.pick(&["", "", "", "-", "+"]);
            let t = match s.weighted(&[4, 3, 2, 1, 1, 1, 1]) {
                0 => format!("{sign}{}", s.range(0, 20)),
                1 => format!("{sign}{}.{}", s.range(0, 5), *s.pick(&["0", "5", "25", "75", "125"])),
                2 => format!("{sign}{}e{}", s.range(1, 9), s.irange(-8, 12)),
                3 => format!("{sign}.{}", *s.pick(&["5", "25", "0"])),
                4 => format!("{sign}{}{}", s.range(1, 30), *s.pick(&["k", "K", "m", "M", "G", "T", "t", "g", "p", "P", "E", "e", "Z", "y", "B", "x", "q", "kk", "Kx", " K"])),
                5 => format!("{sign}{}", *s.pick(&["0", "0.0", "", "abc", "0e5"])),
                _ => format!("{sign}{}e{}", s.range(1, 9), *s.pick(&["300", "-300", "99999999999", "400"])),
            };
            t.into_bytes()
        }
        Kind::Num => {
            let ws = *s.pick(&["", "", "", " ", "  "]);
            let sign = *s.pick(&["", "", "-"]);
            let mut int = match s.weighted(&[5, 2, 1]) {
                0 => s.range(0, 12).to_string(),
                1 => digits(s, 0, 4),
                _ => format!("{}{}", *s.pick(&["1234567890123456789", "99999999999999999999"]), digits(s, 0, 3)),
            };
            if s.chance(1, 8) {
                int = format!("0{int}");
            }
            if int.len() > 3 && s.chance(1, 3) {
                let p = int.len() - 3;
                int.insert(p, ',');
            }
            let frac = match s.weighted(&[4, 3, 1]) {
                0 => String::new(),
                1 => format!(".{}", digits(s, 0, 3)),
                _ => format!(".{}{}", "12345678901234567890", digits(s, 0, 2)),
            };
            let junk = *s.pick(&["", "", "", "", "x"]);
            format!("{ws}{sign}{int}{frac}{junk}").into_bytes()
        }
        Kind::Ip if s.chance(1, 5) => {
            // many parts that are the same
            let mut v = vec!["7"; s.range(0, 9)];
            v.push(*s.pick(&["9", "10", "100", "7", "010"]));
            v.extend(std::iter::repeat("1").take(s.usize(3)));
            v.join(".").into_bytes()
        }
        Kind::Ip => {
            let n = s.size(1, 4, 12);
            let v: Vec<String> = (0..n)
                .map(|i| match s.weighted(&[if i > 3 { 50 } else { 5 }, 2]) {
                    0 => s.range(0, 12).to_string(),
                    _ => s.range(90, 300).to_string(),
                })
                .collect();
            v.join(".").into_bytes()
        }
        Kind::Case => string(s, b"aAbBzZ_", 0, 11),
        Kind::Utf => {
            let n = s.range(0, 5);
            let mut t = String::new();
            for _ in 0..n {
                t.push_str(s.pick(&["a", "B", "é", "É", "ß", "Ω", "ω", "日", "z", "€", "🙂", "İ", "\u{a0}", " ", "\u{2003}", "i", "I", "ı"]));
            }
            t.into_bytes()
        }
    }
}
fn loop_byte(s: &mut Src) -> u8 {
    match s.weighted(&[3, 2, 1]) {
        0 => *s.pick(b"ab01 "),
        1 => *s.pick(&[0u8, 1, 9 + 2, 13, 31, 33, 34, 39, 44, 92, 127, 128, 195, 255]),
        _ => {
            let b = s.usize(256) as u8;
            if b == b'\t' || b == b'\n' {
                b'x'
            } else {
                b
            }
        }
    }
}

/// does this line look like a header or like gzip data
pub fn bad_first(line: &[u8]) -> bool {
    line.starts_with(b" CDX") || line.starts_with(&[0x1f, 0x8b])
}

pub const NAMES: [&str; 8] = ["alpha", "b", "Gamma", "d4", "e_e", "zeta", "count", "k9x"];

pub struct TableOpt {
    pub max_rows: usize,
    pub max_cols: usize,
    pub ragged: bool,
    /// probability in percent of a header
    pub header: u64,
}
pub fn names(s: &mut Src, n: usize) -> Vec<String> {
    // distinct names
    let off = s.usize(NAMES.len());
    (0..n)
        .map(|i| {
            let base = NAMES[(i + off) % NAMES.len()];
            if i < NAMES.len() {
                base.to_string()
            } else {
                format!("{base}{i}")
            }
        })
        .collect()
}
/// kinds of columns, given a number of columns
pub fn kinds(s: &mut Src, n: usize) -> Vec<Kind> {
    (0..n).map(|_| *s.pick(&KINDS)).collect()
}
pub fn rows(s: &mut Src, kinds: &[Kind], nrows: usize, ragged: bool) -> Vec<Vec<Cell>> {
    let mut out: Vec<Vec<Cell>> = Vec::new();
    for _ in 0..nrows {
        if !out.is_empty() && s.chance(1, 6) {
            // an exact or near duplicate of an earlier line
            let i = s.usize(out.len());
            let mut r = out[i].clone();
            if s.coin() {
                let c = s.usize(r.len());
                r[c] = value(s, kinds[c]);
            }
            if !bad_first(&r[0]) {
                out.push(r);
            }
            continue;
        }
        let n = if ragged && s.chance(1, 5) { s.range(1, kinds.len()) } else { kinds.len() };
        let r: Vec<Cell> = kinds[..n].iter().map(|k| value(s, *k)).collect();
        let r = if bad_first(&r[0]) {
            let mut r = r;
            r[0] = b"q".to_vec();
            r
        } else {
            r
        };
        out.push(r);
    }
    out
}
/// number of rows, mostly small
pub fn nrows(s: &mut Src, max: usize) -> usize {
    match s.weighted(&[6, 36, 24, 6, 1]) {
        0 => 0,
        1 => s.range(1, 8.min(max)),
        2 => s.range(1, 25.min(max)),
        3 => s.range(1, max),
        // rarely, many more
        _ => {
            let more = *s.pick(&[50, 300, 1100]);
            s.range(max, max + more)
        }
    }
}
/// number of columns, mostly small
pub fn ncols(s: &mut Src, max: usize) -> usize {
    if max > 1 && s.chance(1, 60) {
        let more = *s.pick(&[4, 30, 70]);
        s.range(max, max + more)
    } else {
        s.range(1, max)
    }
}
pub fn table(s: &mut Src, o: &TableOpt) -> (Table, Vec<Kind>) {
    let nc = ncols(s, o.max_cols);
    let ks = kinds(s, nc);
    let header = if s.chance(o.header, 100) { Some(names(s, nc)) } else { None };
    let n = nrows(s, o.max_rows);
    let r = rows(s, &ks, n, o.ragged);
    (Table { header, rows: r }, ks)
}
/// a table of a given shape
pub fn more(s: &mut Src, t: &Table, ks: &[Kind], max_rows: usize, ragged: bool) -> Table {
    let n = nrows(s, max_rows);
    Table { header: t.header.clone(), rows: rows(s, ks, n, ragged) }
}

/// a comparator that fits this kind of column, or any
pub fn method_for(s: &mut Src, k: Kind) -> Method {
    let good = match k {
        Kind::Word | Kind::Utf => Method::Plain,
        Kind::Prefix | Kind::Bytes => Method::Plain,
        Kind::Int => *s.pick(&[Method::Numeric, Method::Float]),
        Kind::Float => Method::Float,
        Kind::Num => Method::Numeric,
        Kind::Ip => Method::Ip,
        Kind::Case => Method::Lower,
    };
    match s.weighted(&[6, 2, 1, 1]) {
        0 => good,
        1 => Method::Plain,
        2 => *s.pick(&[Method::Length, Method::Lower]),
        _ => Method::Equal,
    }
}
/// how to name a column
pub fn col_spec(s: &mut Src, c: usize, header: Option<&[String]>, rect: Option<usize>) -> String {
    if let Some(h) = header {
        if c < h.len() {
            return match s.weighted(&[3, 3, 1]) {
                0 => (c + 1).to_string(),
                1 => h[c].clone(),
                _ => format!("+{}", h.len() - c),
            };
        }
    } else if let Some(n) = rect {
        if c < n {
            return match s.weighted(&[4, 1, 1]) {
                0 => (c + 1).to_string(),
                1 => format!("c{}", c + 1),
                _ => format!("+{}", n - c),
            };
        }
    }
    (c + 1).to_string()
}
/// sort keys for a table. `rect` is the number of columns if every line has that many
pub fn keys(s: &mut Src, header: Option<&[String]>, ks: &[Kind], rect: Option<usize>) -> Vec<Key> {
    let n = if s.chance(1, 30) { s.range(4, 9) } else { s.weighted(&[1, 6, 3, 1]) };
    let mut v = Vec::new();
    for _ in 0..n {
        let rev = s.chance(1, 3);
        let whole = s.chance(1, 6);
        let ints: Vec<usize> = (0..ks.len()).filter(|i| ks[*i] == Kind::Int).collect();
        if !ints.is_empty() && s.chance(1, 6) {
            let x = *s.pick(&ints);
            let y = *s.pick(&ints);
            let quot = s.chance(1, 4);
            let a = if quot { i8::MIN } else { s.irange(-2, 2) as i8 };
            let b = s.irange(-2, 2) as i8;
            let m = Method::Expr(a, x, b, y);
            let nm = |c: usize| header.map_or_else(|| format!("c{}", c + 1), |h| h[c].clone());
            if rect.is_some() {
                let r = if rev { ".rev" } else { "" };
                let spec = if quot { format!(",expr{r},{}/{}", nm(x), nm(y)) } else { format!(",expr{r},({a})*{}+({b})*{}", nm(x), nm(y)) };
                v.push(Key { col: None, method: m, rev, spec });
                continue;
            }
        }
        if whole {
            let m = if ks[0] == Kind::Word || ks[0] == Kind::Prefix { *s.pick(&[Method::Plain, Method::Lower, Method::Length]) } else { *s.pick(&[Method::Plain, Method::Length]) };
            v.push(Key { col: None, method: m, rev, spec: spec_of(s, "", m, rev) });
        } else {
            let c = s.usize(ks.len());
            let m = method_for(s, ks[c]);
            let name = col_spec(s, c, header, rect);
            v.push(Key { col: Some(c), method: m, rev, spec: spec_of(s, &name, m, rev) });
        }
    }
    v
}
pub fn spec_of(s: &mut Src, col: &str, m: Method, rev: bool) -> String {
    let sp = m.spelling(s);
    let mut parts: Vec<String> = Vec::new();
    if !sp.is_empty() {
        parts.push(sp);
    }
    if rev {
        let at = s.usize(parts.len() + 1);
        parts.insert(at, (*s.pick(&["rev", "REV"])).to_string());
    }
    if matches!(m, Method::Plain | Method::Lower | Method::Length) && s.chance(1, 20) {
        // numbers are not involved, so it does not matter how junk in numbers is treated
        let at = s.usize(parts.len() + 1);
        parts.insert(at, (*s.pick(&["strict", "trail", "low"])).to_string());
    }
    if parts.is_empty() {
        if s.coin() {
            return col.to_string();
        }
        return format!("{col},");
    }
    format!("{col},{}", parts.join("."))
}
/// a comparison of values, reversed or not
pub fn rev_spelling(s: &mut Src, m: Method) -> (bool, String) {
    let sp = m.spelling(s);
    if !s.chance(1, 4) {
        return (false, sp);
    }
    let rev = *s.pick(&["rev", "REV", "Rev"]);
    (
        true,
        if sp.is_empty() {
            rev.to_string()
        } else if s.coin() {
            format!("{rev}.{sp}")
        } else {
            format!("{sp}.{rev}")
        },
    )
}
pub fn flip(o: std::cmp::Ordering, rev: bool) -> std::cmp::Ordering {
    if rev {
        o.reverse()
    } else {
        o
    }
}
/// the default when no key is given
pub fn whole_key() -> Key {
    Key { col: None, method: Method::Plain, rev: false, spec: String::new() }
}

/// Bytes whose length and line ends lie close to places where a buffer might end.
pub fn edges(s: &mut Src) -> Vec<u8> {
    const AT: [usize; 12] = [8, 16, 1024, 4096, 8192, 8200, 16384, 16392, 24576, 32768, 32776, 65536];
    let near = |s: &mut Src| -> usize {
        let b = *s.pick(&AT);
        match s.weighted(&[6, 2, 2, 1]) {
            0 => b,
            1 => b - 1,
            2 => b + 1,
            _ => b + s.usize(20) - 7,
        }
    };
    let len = near(s);
    let mut v = vec![*s.pick(b"xya\t0"); len];
    if v[0] == b'\t' {
        v = vec![b'q'; len];
    }
    for _ in 0..s.weighted(&[1, 3, 3, 3, 2, 1]) {
        // the newline is the last byte of the buffer, or the first of the next
        let i = if s.chance(1, 4) { s.usize(len) } else { near(s).saturating_sub(s.usize(2)) };
        if i < len {
            v[i] = b'\n';
        }
    }
    if !s.chance(2, 3) {
        v[len - 1] = b'\n';
    }
    v
}
