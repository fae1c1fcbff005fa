//! cgrep and the matchers
use super::cut::colset;
use crate::engine::*;
use crate::gen::*;
use crate::model::*;
use crate::run::*;
use std::cmp::Ordering;

// ------------------------------------------------------------ regular expressions
#[derive(Clone, Debug)]
enum Re {
    Lit(char),
    Dot,
    Class(Vec<char>, bool),
    Cat(Vec<Re>),
    Alt(Vec<Re>),
    Star(Box<Re>),
    Plus(Box<Re>),
    Opt(Box<Re>),
    Begin,
    End,
}
const RE_CHARS: [char; 9] = ['a', 'b', 'c', 'A', 'B', '0', '1', 'é', 'z'];
fn re(s: &mut Src, depth: usize) -> Re {
    let w: &[u64] = if depth == 0 { &[6, 2, 2] } else { &[6, 2, 2, 3, 2, 1, 1, 1] };
    match s.weighted(w) {
        0 => Re::Lit(*s.pick(&RE_CHARS)),
        1 => Re::Dot,
        2 => {
            let n = s.range(1, 3);
            Re::Class((0..n).map(|_| *s.pick(&RE_CHARS)).collect(), s.chance(1, 3))
        }
        3 => {
            let n = s.range(1, 3);
            Re::Cat((0..n).map(|_| re(s, depth - 1)).collect())
        }
        4 => {
            let n = s.range(2, 3);
            Re::Alt((0..n).map(|_| re(s, depth - 1)).collect())
        }
        5 => Re::Star(Box::new(re(s, depth - 1))),
        6 => Re::Plus(Box::new(re(s, depth - 1))),
        _ => Re::Opt(Box::new(re(s, depth - 1))),
    }
}
fn re_top(s: &mut Src) -> Re {
    let mut v = vec![re(s, 2)];
    if s.coin() {
        v.push(re(s, 1));
    }
    if s.chance(1, 3) {
        v.insert(0, Re::Begin);
    }
    if s.chance(1, 3) {
        v.push(Re::End);
    }
    Re::Cat(v)
}
fn re_text(r: &Re) -> String {
    match r {
        Re::Lit(c) => c.to_string(),
        Re::Dot => ".".into(),
        Re::Class(v, neg) => format!("[{}{}]", if *neg { "^" } else { "" }, v.iter().collect::<String>()),
        Re::Cat(v) => v.iter().map(|x| if matches!(x, Re::Alt(_)) { format!("({})", re_text(x)) } else { re_text(x) }).collect(),
        Re::Alt(v) => v.iter().map(re_text).collect::<Vec<_>>().join("|"),
        Re::Star(x) => format!("(?:{})*", re_text(x)),
        Re::Plus(x) => format!("({})+", re_text(x)),
        Re::Opt(x) => format!("({})?", re_text(x)),
        Re::Begin => "^".into(),
        Re::End => "$".into(),
    }
}
fn fold_eq(a: char, b: char, case: bool) -> bool {
    a == b || (case && a.to_lowercase().eq(b.to_lowercase()))
}
fn char_at(t: &[u8], pos: usize) -> Option<(char, usize)> {
    for n in 1..=4 {
        if pos + n <= t.len() {
            if let Ok(x) = std::str::from_utf8(&t[pos..pos + n]) {
                return x.chars().next().map(|c| (c, n));
            }
        }
    }
    None
}
/// where matches end that begin at one of the places
fn re_ends(r: &Re, t: &[u8], from: &[usize], case: bool) -> Vec<usize> {
    let one = |f: &dyn Fn(char) -> bool| -> Vec<usize> {
        from.iter()
            .filter_map(|p| match char_at(t, *p) {
                Some((c, n)) if f(c) => Some(p + n),
                _ => None,
            })
            .collect()
    };
    let mut v = match r {
        Re::Lit(x) => one(&|c| fold_eq(c, *x, case)),
        Re::Dot => one(&|c| c != '\n'),
        Re::Class(v, neg) => one(&|c| v.iter().any(|x| fold_eq(c, *x, case)) != *neg),
        Re::Begin => from.iter().copied().filter(|p| *p == 0).collect(),
        Re::End => from.iter().copied().filter(|p| *p == t.len()).collect(),
        Re::Cat(v) => v.iter().fold(from.to_vec(), |cur, x| re_ends(x, t, &cur, case)),
        Re::Alt(v) => v.iter().flat_map(|x| re_ends(x, t, from, case)).collect(),
        Re::Opt(x) => {
            let mut v = re_ends(x, t, from, case);
            v.extend(from);
            v
        }
        Re::Star(x) | Re::Plus(x) => {
            let mut seen = vec![false; t.len() + 1];
            let mut out = if matches!(r, Re::Star(_)) { from.to_vec() } else { vec![] };
            let mut todo = from.to_vec();
            while !todo.is_empty() {
                todo = re_ends(x, t, &todo, case);
                todo.retain(|e| !std::mem::replace(&mut seen[*e], true));
                out.extend(&todo);
            }
            out
        }
    };
    v.sort_unstable();
    v.dedup();
    v
}
fn re_match(r: &Re, t: &[u8], case: bool) -> bool {
    let all: Vec<usize> = (0..=t.len()).collect();
    !re_ends(r, t, &all, case).is_empty()
}

// ------------------------------------------------------------ matchers
#[derive(Clone, Debug)]
enum Mk {
    Prefix(String),
    Suffix(String),
    Infix(String),
    Exact(String),
    Glob(String),
    Regex(Re),
    Length(usize, Option<usize>),
    Empty,
    Blank,
    Comment(String),
    Hash,
    Slash,
    Yes,
    Float,
    Integer,
    Number,
    Ip,
    Range(Method, bool, Vec<(usize, String)>),
    FileExact(Vec<String>, String),
    Multi(bool, Vec<Mk>),
}
#[derive(Clone, Debug)]
pub struct Matcher {
    utf8: bool,
    not: bool,
    trim: bool,
    null: bool,
    case: bool,
    kind: Mk,
    /// "method,pattern"
    pub spec: String,
}
const OPS: [[&str; 2]; 6] = [["<", "LT"], ["<=", "LE"], [">", "GT"], [">=", "GE"], ["==", "EQ"], ["!=", "NE"]];
fn op_ok(op: usize, o: Ordering) -> bool {
    match op {
        0 => o == Ordering::Less,
        1 => o != Ordering::Greater,
        2 => o == Ordering::Greater,
        3 => o != Ordering::Less,
        4 => o == Ordering::Equal,
        _ => o != Ordering::Equal,
    }
}
fn lower(t: &[u8], utf8: bool) -> Vec<u8> {
    if utf8 {
        String::from_utf8_lossy(t).chars().flat_map(char::to_lowercase).collect::<String>().into_bytes()
    } else {
        t.to_ascii_lowercase()
    }
}
fn trimmed(t: &[u8], utf8: bool) -> Vec<u8> {
    if utf8 {
        String::from_utf8_lossy(t).trim().as_bytes().to_vec()
    } else {
        let a = t.iter().position(|c| *c > b' ');
        match a {
            None => vec![],
            Some(a) => {
                let b = t.iter().rposition(|c| *c > b' ').unwrap();
                t[a..=b].to_vec()
            }
        }
    }
}
fn glob<T: Copy>(pat: &[T], t: &[T], star: &dyn Fn(T) -> bool, one: &dyn Fn(T, T) -> bool) -> bool {
    // dp[j]: pat[..i] matches t[..j]
    let mut dp = vec![false; t.len() + 1];
    dp[0] = true;
    for p in pat {
        let mut n = vec![false; t.len() + 1];
        if star(*p) {
            let mut any = false;
            for j in 0..=t.len() {
                any |= dp[j];
                n[j] = any;
            }
        } else {
            for j in 0..t.len() {
                n[j + 1] = dp[j] && one(*p, t[j]);
            }
        }
        dp = n;
    }
    dp[t.len()]
}
fn digits_at(t: &[u8], mut i: usize) -> usize {
    while i < t.len() && t[i].is_ascii_digit() {
        i += 1;
    }
    i
}
impl Mk {
    fn eval(&self, t: &[u8], utf8: bool, case: bool) -> bool {
        let fold = |x: &[u8]| if case { lower(x, utf8) } else { x.to_vec() };
        match self {
            Mk::Prefix(p) => fold(t).starts_with(&fold(p.as_bytes())),
            Mk::Suffix(p) => fold(t).ends_with(&fold(p.as_bytes())),
            Mk::Exact(p) => fold(t) == fold(p.as_bytes()),
            Mk::Infix(p) => {
                let (h, n) = (fold(t), fold(p.as_bytes()));
                n.is_empty() || h.windows(n.len()).any(|w| w == n)
            }
            Mk::Glob(p) => {
                if utf8 {
                    let a: Vec<char> = p.chars().collect();
                    let b: Vec<char> = String::from_utf8_lossy(t).chars().collect();
                    glob(&a, &b, &|c| c == '*', &|x, y| x == '?' || fold_eq(x, y, case))
                } else {
                    glob(p.as_bytes(), t, &|c| c == b'*', &|x, y| x == b'?' || x == y || (case && x.eq_ignore_ascii_case(&y)))
                }
            }
            Mk::Regex(r) => re_match(r, t, case),
            Mk::Length(a, b) => {
                let n = if utf8 { String::from_utf8_lossy(t).chars().count() } else { t.len() };
                n >= *a && b.is_none_or(|b| n <= b)
            }
            Mk::Empty => t.is_empty(),
            Mk::Blank => trimmed(t, utf8).is_empty(),
            Mk::Comment(p) => {
                let t = trimmed(t, utf8);
                t.is_empty() || t.starts_with(p.as_bytes())
            }
            Mk::Hash => Mk::Comment("#".into()).eval(t, utf8, case),
            Mk::Slash => Mk::Comment("//".into()).eval(t, utf8, case),
            Mk::Yes => true,
            Mk::Integer => {
                let t = t.strip_prefix(b"-").unwrap_or(t);
                !t.is_empty() && digits_at(t, 0) == t.len()
            }
            Mk::Number => {
                let t = t.strip_prefix(b"-").unwrap_or(t);
                let a = digits_at(t, 0);
                a > 0 && (a == t.len() || (t[a] == b'.' && a + 1 < t.len() && digits_at(t, a + 1) == t.len()))
            }
            Mk::Float => {
                let t = t.strip_prefix(b"-").unwrap_or(t);
                let a = digits_at(t, 0);
                let mut i = a;
                if i < t.len() && t[i] == b'.' {
                    i += 1;
                    let e = digits_at(t, i);
                    if e == i {
                        return false;
                    }
                    i = e;
                } else if a == 0 {
                    return false;
                }
                if i < t.len() && (t[i] == b'e' || t[i] == b'E') {
                    i += 1;
                    if i < t.len() && (t[i] == b'+' || t[i] == b'-') {
                        i += 1;
                    }
                    let e = digits_at(t, i);
                    if e == i {
                        return false;
                    }
                    i = e;
                }
                i == t.len()
            }
            Mk::Ip => {
                let p: Vec<&[u8]> = t.split(|c| *c == b'.').collect();
                p.len() == 4
                    && p.iter().all(|x| {
                        (1..=3).contains(&x.len())
                            && digits_at(x, 0) == x.len()
                            && std::str::from_utf8(x).unwrap().parse::<u32>().unwrap() <= 255
                    })
            }
            Mk::Range(m, rev, v) => v.iter().all(|(op, val)| op_ok(*op, flip(m.cmp(t, val.as_bytes()), *rev))),
            Mk::FileExact(v, _) => v.iter().any(|x| fold(x.as_bytes()) == fold(t)),
            Mk::Multi(and, v) => {
                if *and {
                    v.iter().all(|x| x.eval(t, utf8, case))
                } else {
                    v.iter().any(|x| x.eval(t, utf8, case))
                }
            }
        }
    }
}
impl Matcher {
    pub fn is_utf8(&self) -> bool {
        self.utf8
    }
    pub fn eval(&self, t: &[u8]) -> bool {
        self.not ^ self.eval_raw(t)
    }
    pub fn eval_raw(&self, t: &[u8]) -> bool {
        let mut t = if self.utf8 { String::from_utf8_lossy(t).into_owned().into_bytes() } else { t.to_vec() };
        if self.trim {
            t = trimmed(&t, self.utf8);
        }
        (self.null && t.is_empty()) || self.kind.eval(&t, self.utf8, self.case)
    }
}
/// part of a value, usable as an argument
fn part(s: &mut Src, v: &[u8]) -> String {
    let t = String::from_utf8_lossy(v).into_owned();
    let c: Vec<char> = t.chars().filter(|c| *c != '\0' && *c != '\u{fffd}').collect();
    if c.is_empty() || s.chance(1, 12) {
        return (*s.pick(&["", "a", "b", "é", "x"])).to_string();
    }
    let a = s.usize(c.len());
    let b = s.range(a, (a + 3).min(c.len()));
    match s.weighted(&[12, 8, 8, 1, 1]) {
        0 => c[a..b].iter().collect(),
        1 => c[..b].iter().collect(),
        2 => c[a..].iter().collect(),
        // almost a part
        3 => c[..c.len() - 1].iter().chain(&['q']).collect(),
        _ => ['q'].iter().chain(&c[1..]).collect(),
    }
}
fn case_change(s: &mut Src, t: &str) -> String {
    match s.usize(3) {
        0 => t.to_string(),
        1 => t.chars().flat_map(char::to_uppercase).collect(),
        _ => t.chars().flat_map(char::to_lowercase).collect(),
    }
}
/// a matcher that has a chance to match some of these values
pub fn matcher(s: &mut Src, ctx: &Ctx, samples: &[Vec<u8>]) -> Matcher {
    let sample = |s: &mut Src| -> Vec<u8> {
        if samples.is_empty() {
            b"ab".to_vec()
        } else {
            s.pick(samples).clone()
        }
    };
    let utf8 = s.chance(1, 3);
    let case = s.chance(1, 3);
    let multi = if s.chance(1, 6) { Some(s.coin()) } else { None };
    let kinds: &[u64] = &[3, 3, 3, 3, 4, 4, 2, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 3, 1];
    let k = s.weighted(kinds);
    let n = if multi.is_some() { s.size(1, 3, 30) } else { 1 };
    let mut mk: Vec<(Mk, String)> = Vec::new();
    for i in 0..n {
        let full = sample(s);
        let p = part(s, &full);
        let p = if case { case_change(s, &p) } else { p };
        mk.push(match k {
            0 => (Mk::Prefix(p.clone()), p),
            1 => (Mk::Suffix(p.clone()), p),
            2 => (Mk::Infix(p.clone()), p),
            3 => {
                let q: String = String::from_utf8_lossy(&full).chars().filter(|c| *c != '\0').collect();
                let q = if case { case_change(s, &q) } else { q };
                (Mk::Exact(q.clone()), q)
            }
            4 => {
                let q: String = String::from_utf8_lossy(&full).chars().filter(|c| *c != '\0').collect();
                let mut g = String::new();
                if s.chance(1, 3) {
                    g.push('*');
                }
                for c in q.chars() {
                    match s.weighted(&[5, 1, 1, 1]) {
                        0 => g.push(c),
                        1 => g.push('?'),
                        2 => g.push('*'),
                        _ => {
                            g.push(c);
                            g.push('*');
                        }
                    }
                }
                let g = if case { case_change(s, &g) } else { g };
                (Mk::Glob(g.clone()), g)
            }
            5 => {
                let r = re_top(s);
                let t = re_text(&r);
                (Mk::Regex(r), t)
            }
            6 => {
                let a = s.range(0, 6);
                if s.coin() {
                    (Mk::Length(a, None), a.to_string())
                } else {
                    let b = s.range(a, 9);
                    (Mk::Length(a, Some(b)), format!("{a},{b}"))
                }
            }
            7 => (Mk::Empty, String::new()),
            8 => (Mk::Blank, String::new()),
            9 => (Mk::Comment(p.clone()), p),
            10 => (Mk::Hash, String::new()),
            11 => (Mk::Slash, String::new()),
            12 => (Mk::Yes, String::new()),
            13 => (Mk::Float, String::new()),
            14 => (Mk::Integer, String::new()),
            15 => (Mk::Number, String::new()),
            16 => (Mk::Ip, String::new()),
            17 => {
                let m = *s.pick(&[Method::Plain, Method::Lower, Method::Length, Method::Float, Method::Numeric]);
                let cnt = s.range(1, 2);
                let mut v: Vec<(usize, String)> = Vec::new();
                for _ in 0..cnt {
                    let x = sample(s);
                    let mut x: String = String::from_utf8_lossy(&x).chars().filter(|c| !"<>=!,\0\u{fffd}\r".contains(*c) && !c.is_control()).collect();
                    if x.is_empty() {
                        x = "a".into();
                    }
                    v.push((s.usize(6), x));
                }
                let named = s.coin();
                let (rev, mut t) = rev_spelling(s, m);
                if !t.is_empty() {
                    t.push(',');
                }
                if named {
                    t.push_str(&v.iter().map(|(o, x)| format!("{},{x}", OPS[*o][1])).collect::<Vec<_>>().join(","));
                } else {
                    t.push_str(&v.iter().map(|(o, x)| format!("{}{x}", OPS[*o][0])).collect::<Vec<_>>().join(""));
                }
                (Mk::Range(m, rev, v), t)
            }
            _ => {
                let mut v = Vec::new();
                for _ in 0..s.range(1, 4) {
                    let x = sample(s);
                    if !x.is_empty() && !x.starts_with(b" CDX") {
                        if let Ok(x) = String::from_utf8(x) {
                            v.push(if case { case_change(s, &x) } else { x });
                        }
                    }
                }
                if v.first().is_some_and(|x| x.starts_with(" CDX") || x.starts_with('\u{1f}')) {
                    v.clear();
                }
                let mut body: String = v.iter().map(|x| format!("{x}\n")).collect();
                if !v.is_empty() && s.chance(1, 3) {
                    body.pop();
                }
                let f = ctx.file(&ctx.unique("match"), body.as_bytes());
                (Mk::FileExact(v, f.clone()), f)
            }
        });
    }
    let method = match k {
        0 => "prefix",
        1 => "suffix",
        2 => *s.pick(&["infix", "substr", "substring"]),
        3 => "exact",
        4 => "glob",
        5 => *s.pick(&["regex", ""]),
        6 => "length",
        7 => "empty",
        8 => "blank",
        9 => "comment",
        10 => "hash",
        11 => "slash",
        12 => "yes",
        13 => "float",
        14 => "integer",
        15 => "number",
        16 => "ip",
        17 => "range",
        _ => *s.pick(&["file-exact", "fileexact"]),
    };
    // case is meaningless for some methods
    let (not, trim, null) = (s.chance(1, 4), s.chance(1, 6), s.chance(1, 6));
    let mut mods: Vec<&str> = Vec::new();
    for (on, name) in [(utf8, "utf8"), (case, "case"), (not, "not"), (trim, "trim"), (null, "null"), (multi == Some(true), "and"), (multi == Some(false), "or")] {
        if on {
            let at = s.usize(mods.len() + 1);
            mods.insert(at, name);
        }
    }
    if !method.is_empty() {
        let at = s.usize(mods.len() + 1);
        mods.insert(at, method);
    }
    let (kind, pattern) = match multi {
        None => mk.pop().unwrap(),
        Some(and) => {
            let d = *s.pick(&['@', '|', ',', '~']);
            let d = if mk.iter().any(|(_, t)| t.contains(d)) { '%' } else { d };
            if mk.iter().any(|(_, t)| t.contains(d)) {
                // no delimiter left: use one simple pattern
                (Mk::Multi(and, vec![Mk::Prefix("a".into())]), String::new())
            } else {
                let t: String = mk.iter().map(|(_, t)| format!("{d}{t}")).collect();
                (Mk::Multi(and, mk.into_iter().map(|(m, _)| m).collect()), t)
            }
        }
    };
    if multi.is_some() && pattern.is_empty() {
        return Matcher { utf8: false, not: false, trim: false, null: false, case: false, kind: Mk::Prefix("a".into()), spec: "prefix,a".into() };
    }
    let mut spec = mods.join(".");
    if !pattern.is_empty() || s.coin() {
        spec.push(',');
        spec.push_str(&pattern);
    }
    Matcher { utf8, not, trim, null, case, kind, spec }
}

// ------------------------------------------------------------ lines
#[derive(Clone, Debug)]
enum Det {
    All,
    Some,
    None,
    NotAll,
    Mixed,
    Uniform,
    /// 0 at most, 1 at least, 2 exactly; of matches or of failures; number
    Count(u8, bool, usize),
    /// the same with a fraction of the total, rounded to the nearest number
    Frac(u8, bool, f64),
}
impl Det {
    fn eval(&self, yes: usize, no: usize) -> bool {
        match self {
            Det::All => no == 0,
            Det::Some => yes > 0,
            Det::None => yes == 0,
            Det::NotAll => no > 0,
            Det::Mixed => yes > 0 && no > 0,
            Det::Uniform => yes == 0 || no == 0,
            Det::Count(k, y, n) => {
                let c = if *y { yes } else { no };
                match k {
                    0 => c <= *n,
                    1 => c >= *n,
                    _ => c == *n,
                }
            }
            Det::Frac(k, y, f) => {
                let n = (f * (yes + no) as f64).round() as usize;
                Det::Count(*k, *y, n).eval(yes, no)
            }
        }
    }
    fn gen(s: &mut Src, tot: usize) -> (Self, String) {
        match s.weighted(&[2, 2, 2, 1, 1, 1, 4, 2, 2]) {
            8 => {
                let (k, y) = (s.usize(3) as u8, s.coin());
                let n = s.range(0, tot);
                let t = match s.weighted(&[2, 1]) {
                    0 if n == tot || n == 0 => format!("{}.0", n / tot),
                    0 => format!("{:.4}", n as f64 / tot as f64),
                    _ => (*s.pick(&["0.1", "0.3", "0.55", "0.7", "0.9", "1.0", ".2", "0.0"])).to_string(),
                };
                let f: f64 = t.parse().unwrap();
                let rest = (f * tot as f64).fract();
                if (rest - 0.5).abs() < 0.01 {
                    // halfway between two numbers
                    return (Det::All, "ALL,".into());
                }
                (Det::Frac(k, y, f), format!("{}{},{t},", ["atmost", "atleast", "exactly"][k as usize], if y { "" } else { "no" }))
            }
            0 => (Det::All, "all,".into()),
            1 => (Det::Some, "some,".into()),
            2 => (Det::None, "none,".into()),
            3 => (Det::NotAll, "notall,".into()),
            4 => (Det::Mixed, "mixed,".into()),
            5 => (Det::Uniform, "Uniform,".into()),
            6 => {
                let (k, y, n) = (s.usize(3) as u8, s.coin(), s.range(0, 3));
                (Det::Count(k, y, n), format!("{}{},{n},", ["atmost", "atleast", "exactly"][k as usize], if y { "" } else { "no" }))
            }
            _ => (Det::Some, String::new()),
        }
    }
}
#[derive(Clone, Debug)]
enum Lm {
    Whole(Matcher),
    Col(usize, Matcher),
    Set(Det, Vec<usize>, Matcher),
    Count(usize),
    Comp(usize, usize, Det, Vec<usize>, Method, bool),
}
impl Lm {
    fn eval(&self, line: &[u8]) -> bool {
        let l = line.strip_suffix(b"\n").unwrap_or(line);
        match self {
            Lm::Whole(m) => m.eval(l),
            Lm::Col(c, m) => m.eval(field(l, *c)),
            Lm::Set(d, cols, m) => {
                let yes = cols.iter().filter(|c| m.eval_raw(field(l, **c))).count();
                m.not ^ d.eval(yes, cols.len() - yes)
            }
            Lm::Count(n) => l.split(|c| *c == b'\t').count() == *n,
            Lm::Comp(c, op, d, cols, m, rev) => {
                let yes = cols.iter().filter(|x| op_ok(*op, flip(m.cmp(field(l, *c), field(l, **x)), *rev))).count();
                d.eval(yes, cols.len() - yes)
            }
        }
    }
}
/// a line matcher with its specification
pub struct LineMatcher {
    m: Lm,
    pub spec: String,
}
impl LineMatcher {
    pub fn eval(&self, line: &[u8]) -> bool {
        self.m.eval(line)
    }
}
pub fn line_matcher(s: &mut Src, ctx: &Ctx, names: &[String], lines: &[Vec<u8>], fresh: &mut usize) -> LineMatcher {
    let col_name = |s: &mut Src, c: usize| match s.usize(3) {
        0 => (c + 1).to_string(),
        1 => names[c].clone(),
        _ => format!("+{}", names.len() - c),
    };
    let cells = |c: usize| -> Vec<Vec<u8>> { lines.iter().map(|l| field(l, c).to_vec()).collect() };
    match s.weighted(&[8, 3, 4, 1, 2]) {
        0 => {
            let c = s.usize(names.len());
            let m = matcher(s, ctx, &cells(c));
            LineMatcher { spec: format!("{},{}", col_name(s, c), m.spec), m: Lm::Col(c, m) }
        }
        1 => {
            let v: Vec<Vec<u8>> = lines.iter().map(|l| l.strip_suffix(b"\n").unwrap_or(l).to_vec()).collect();
            let m = matcher(s, ctx, &v);
            LineMatcher { spec: format!(",{}", m.spec), m: Lm::Whole(m) }
        }
        2 => {
            let (cs, sel) = colset(s, names, fresh);
            let (d, dt) = Det::gen(s, sel.len());
            let c = s.usize(names.len());
            let m = matcher(s, ctx, &cells(c));
            LineMatcher { spec: format!("[{dt}{cs}],{}", m.spec), m: Lm::Set(d, sel.iter().map(|x| x.col).collect(), m) }
        }
        3 => {
            let n = s.range(1, names.len());
            LineMatcher { spec: format!(",count,{n}"), m: Lm::Count(n) }
        }
        _ => {
            let c = s.usize(names.len());
            let op = s.usize(6);
            let named = s.coin();
            let o = if named { format!("{}.", OPS[op][1]) } else { OPS[op][0].to_string() };
            let (d, cols, ct) = if s.coin() {
                let x = s.usize(names.len());
                (Det::Some, vec![x], col_name(s, x))
            } else {
                let (cs, sel) = colset(s, names, fresh);
                let (d, dt) = Det::gen(s, sel.len());
                (d, sel.iter().map(|x| x.col).collect(), format!("[{dt}{cs}]"))
            };
            let m = *s.pick(&[Method::Plain, Method::Lower, Method::Length, Method::Float, Method::Numeric]);
            let (rev, mut sp) = rev_spelling(s, m);
            if !sp.is_empty() || s.coin() {
                sp.insert(0, ',');
            }
            LineMatcher { spec: format!("{},comp,{o}{ct}{sp}", col_name(s, c)), m: Lm::Comp(c, op, d, cols, m, rev) }
        }
    }
}

pub fn tail_path(path: &str, n: usize) -> String {
    let parts: Vec<&str> = path.split('/').collect();
    if n == 0 || n >= parts.len() {
        path.to_string()
    } else {
        parts[parts.len() - n..].join("/")
    }
}

fn grep(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let ragged = s.chance(1, 3);
    let max_cols = if s.chance(1, 8) { 12 } else { 5 };
    let (t, ks) = table(s, &TableOpt { max_rows: 15, max_cols, ragged, header: 60 });
    let nf = 1 + s.weighted(&[6, 2, 1]);
    let mut tables = vec![t];
    for _ in 1..nf {
        let t = more(s, &tables[0], &ks, 8, ragged);
        tables.push(t);
    }
    let has_head = tables[0].header.is_some();
    let names: Vec<String> = tables[0].header.clone().unwrap_or_else(|| (1..=ks.len()).map(|i| format!("c{i}")).collect());
    for t in &mut tables {
        // more interesting values for some matchers
        for r in &mut t.rows {
            if s.chance(1, 6) {
                let c = s.usize(r.len());
                let x: &[u8] = s.pick(&[&b"  # x"[..], b" // y", b"  ", b"1.2.3.4", b"256.1.1.1", b"001.02.3.045", b"1.1.1.1.1", b"-12", b"1.5e3", b"", b" a ", b"-.5", b"1.", b"\xc2\xa0b\xe2\x80\x83", b"\xc4\xb0x", b"y\xc4\xb0", b"aBcDefgHijKlMNopqRstuVWxyZ0123456789AbC"]);
                r[c] = x.to_vec();
            }
        }
        if !has_head {
            if let Some(r) = t.rows.first_mut() {
                while r.len() < ks.len() {
                    r.push(b"q".to_vec());
                }
            }
        }
    }
    let lines: Vec<Vec<u8>> = tables.iter().flat_map(Table::lines).collect();
    let mut fresh = 0;
    let nm = s.weighted(&[1, 8, 3, 1]);
    let ms: Vec<LineMatcher> = (0..nm).map(|_| line_matcher(s, ctx, &names, &lines, &mut fresh)).collect();
    let mut args = vec!["cgrep".to_string()];
    for m in &ms {
        args.push("-p".into());
        args.push(m.spec.clone());
    }
    let or = s.chance(1, 3);
    if or {
        args.push("-o".into());
    }
    let inv = s.chance(1, 4);
    if inv {
        args.push("-v".into());
    }
    // location columns
    let mut locs: Vec<(usize, String)> = Vec::new();
    if s.chance(1, 4) {
        let mut specs = Vec::new();
        for i in 0..s.size(1, 2, 5) {
            let k = s.usize(8);
            let what = ["bytes", "line", "name", "name.1", "Name.2", "name.3", "name.4", "name.7"][k];
            let named = i > 0 || s.coin();
            let n = if named { format!("loc{i}") } else { ["bytes", "line", "filename"][k.min(2)].to_string() };
            specs.push(if named { format!("{n}:{what}") } else { what.to_string() });
            locs.push((k, n));
        }
        args.push("-l".into());
        args.push(specs.join(","));
    }
    let mut want = Vec::new();
    if has_head {
        let mut h: Vec<String> = locs.iter().map(|x| x.1.clone()).collect();
        h.extend(names.clone());
        want.extend(header_line(&h));
    }
    let use_stdin = s.chance(1, 6) && locs.is_empty();
    let mut stdin = None;
    let mut files = Vec::new();
    let (mut yes, mut no) = (0, 0);
    for (i, t) in tables.iter().enumerate() {
        let nl = !s.chance(1, 4);
        let f = t.bytes_nl(nl);
        let path = if use_stdin && i == 0 {
            stdin = Some(f.clone());
            "-".to_string()
        } else {
            ctx.file(&format!("f{i}"), &f)
        };
        args.push(path.clone());
        let mut off = t.head().len();
        for (j, l) in t.lines().iter().enumerate() {
            let m = if or { ms.iter().any(|m| m.eval(l)) } else { ms.iter().all(|m| m.eval(l)) };
            if m != inv {
                yes += 1;
                for (k, _) in &locs {
                    let txt = match k {
                        0 => off.to_string(),
                        1 => (j + 1).to_string(),
                        2 => path.clone(),
                        3 => tail_path(&path, 1),
                        7 => tail_path(&path, 7),
                        _ => tail_path(&path, *k - 2),
                    };
                    want.extend(txt.as_bytes());
                    want.push(b'\t');
                }
                want.extend(l);
            } else {
                no += 1;
            }
            off += l.len();
        }
        files.push(f);
    }
    let o = cdx_ok(ctx, &args, stdin.as_deref())?;
    if o.out != want {
        return Err(format!("{}\n  input {:?}\n  expected \"{}\"", o.describe(), files.iter().map(|f| show(f)).collect::<Vec<_>>(), show(&want)));
    }
    ok(yes > 0 && no > 0, (&tables, &args[..args.len() - nf]), || format!("{} input {:?}", o.cmd(), files.iter().map(|f| show(f)).collect::<Vec<_>>()))
}

pub fn prop() -> Prop {
    Prop {
        id: "C10",
        rule: "non-trivial: some lines are selected and some are not",
        arms: vec![Arm { name: "grep", quick: 16_000, thorough: 250_000, f: grep }],
    }
}
