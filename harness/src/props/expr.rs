//! arithmetic expressions: calc, cut --expr, cgrep expr
use crate::engine::*;
use crate::gen::*;
use crate::model::*;
use crate::run::*;

#[link(name = "m")]
extern "C" {
    fn acos(x: f64) -> f64;
    fn acosh(x: f64) -> f64;
    fn asin(x: f64) -> f64;
    fn asinh(x: f64) -> f64;
    fn atan(x: f64) -> f64;
    fn atan2(x: f64, y: f64) -> f64;
    fn atanh(x: f64) -> f64;
    fn cbrt(x: f64) -> f64;
    fn cos(x: f64) -> f64;
    fn cosh(x: f64) -> f64;
    fn erf(x: f64) -> f64;
    fn exp(x: f64) -> f64;
    fn exp2(x: f64) -> f64;
    fn exp10(x: f64) -> f64;
    fn expm1(x: f64) -> f64;
    fn hypot(x: f64, y: f64) -> f64;
    fn j0(x: f64) -> f64;
    fn j1(x: f64) -> f64;
    fn jn(n: i32, x: f64) -> f64;
    fn lgamma(x: f64) -> f64;
    fn log(x: f64) -> f64;
    fn log1p(x: f64) -> f64;
    fn log2(x: f64) -> f64;
    fn log10(x: f64) -> f64;
    fn pow(x: f64, y: f64) -> f64;
    fn sin(x: f64) -> f64;
    fn sinh(x: f64) -> f64;
    fn tan(x: f64) -> f64;
    fn tanh(x: f64) -> f64;
    fn tgamma(x: f64) -> f64;
    fn y0(x: f64) -> f64;
    fn y1(x: f64) -> f64;
    fn yn(n: i32, x: f64) -> f64;
    fn fdim(x: f64, y: f64) -> f64;
    fn fma(x: f64, y: f64, z: f64) -> f64;
    fn fmod(x: f64, y: f64) -> f64;
    fn ldexp(x: f64, n: i32) -> f64;
    fn nextafter(x: f64, y: f64) -> f64;
    fn remainder(x: f64, y: f64) -> f64;
    fn scalbn(x: f64, n: i32) -> f64;
}

#[derive(Clone, Debug)]
pub(super) enum E {
    Num(f64, String),
    /// column and spelling
    Col(usize, String),
    Un(bool, Box<E>),
    Fact(Box<E>),
    Bin(usize, Box<E>, Box<E>),
    Fun(&'static str, Vec<E>),
    /// min, max, avg over a list of columns, with its spelling
    Set(&'static str, Vec<usize>, String),
}
const OPS: [&str; 12] = ["<", ">", "==", "!=", "<=", ">=", "+", "-", "*", "/", "%", "^"];
const fn level(op: usize) -> usize {
    match op {
        0..=5 => 1,
        6 | 7 => 2,
        8..=10 => 3,
        _ => 5,
    }
}
/// as in math.h
const CONSTS: [(&str, f64); 20] = [
    ("pi", 3.141_592_653_589_793_238_46),
    ("e", 2.718_281_828_459_045_235_4),
    ("M_E", 2.718_281_828_459_045_235_4),
    ("M_LOG2E", 1.442_695_040_888_963_407_4),
    ("M_LOG10E", 0.434_294_481_903_251_827_65),
    ("M_LN2", 0.693_147_180_559_945_309_42),
    ("M_LN10", 2.302_585_092_994_045_684_02),
    ("M_PI", 3.141_592_653_589_793_238_46),
    ("M_PI_2", 1.570_796_326_794_896_619_23),
    ("M_PI_4", 0.785_398_163_397_448_309_62),
    ("M_1_PI", 0.318_309_886_183_790_671_54),
    ("M_2_PI", 0.636_619_772_367_581_343_08),
    ("M_2_SQRTPI", 1.128_379_167_095_512_573_9),
    ("M_SQRT2", 1.414_213_562_373_095_048_8),
    ("M_SQRT1_2", 0.707_106_781_186_547_524_4),
    ("M_INF", f64::INFINITY),
    ("M_NEG_INF", f64::NEG_INFINITY),
    ("M_MAX", f64::MAX),
    ("M_MIN", f64::MIN),
    ("M_MIN_POS", f64::MIN_POSITIVE),
];
const EXACT1: [&str; 7] = ["abs", "fabs", "ceil", "floor", "round", "trunc", "sqrt"];
const EXACT2: [&str; 9] = ["fmod", "fdim", "fmax", "fmin", "copysign", "remainder", "ldexp", "scalbn", "nextafter"];
const MANY: [&str; 3] = ["min", "max", "avg"];

pub(super) struct Cols<'a> {
    /// number of columns that can be named
    pub n: usize,
    pub header: Option<&'a [String]>,
    /// only the names of the header are known
    pub names: bool,
}
fn literal(s: &mut Src) -> E {
    let t = match s.weighted(&[6, 3, 2, 1, 1]) {
        0 => s.usize(12).to_string(),
        1 => format!("{}.{}", s.usize(20), *s.pick(&["5", "25", "75", "125", "1"])),
        2 => s.usize(2000).to_string(),
        3 => format!("{}e{}", 1 + s.usize(9), s.irange(-5, 8)),
        _ => format!("{}{}", 1 + s.usize(9), *s.pick(&["k", "K", "M"])),
    };
    E::Num(ref_f64(t.as_bytes()), t)
}
pub(super) fn expr(s: &mut Src, depth: usize, c: &Cols) -> E {
    if depth == 0 || s.chance(1, 5) {
        if c.n > 0 && s.chance(2, 3) {
            let k = s.usize(c.n);
            let name = match c.header {
                Some(h) if c.names || s.coin() => h[k].clone(),
                Some(_) if s.chance(1, 3) => format!("[{}]", k + 1),
                _ => format!("c{}", k + 1),
            };
            return E::Col(k, name);
        }
        if s.chance(1, 10) {
            let (n, v) = *s.pick(&CONSTS);
            return E::Num(v, n.to_string());
        }
        return literal(s);
    }
    match s.weighted(&[40, 8, 4, 8, 8, 4, 4, 4, 1]) {
        8 => {
            // a long chain of operators of the same precedence
            let n = s.size(2, 5, 30);
            let kind = s.usize(3);
            let mut v: Vec<E> = (0..=n).map(|_| if kind == 2 { let t = *s.pick(&["1", "2", "0.5", "3"]); E::Num(t.parse().unwrap(), t.into()) } else { expr(s, 0, c) }).collect();
            if kind == 2 {
                let mut e = v.pop().unwrap();
                while let Some(x) = v.pop() {
                    e = E::Bin(11, Box::new(x), Box::new(e));
                }
                e
            } else {
                let mut it = v.into_iter();
                let mut e = it.next().unwrap();
                for x in it {
                    let op = if kind == 0 { 6 + s.usize(2) } else { 8 + s.usize(3) };
                    e = E::Bin(op, Box::new(e), Box::new(x));
                }
                e
            }
        }
        0 => {
            let op = match s.weighted(&[3, 8, 1]) {
                0 => s.usize(6),
                1 => 6 + s.usize(5),
                _ => 11,
            };
            E::Bin(op, Box::new(expr(s, depth - 1, c)), Box::new(expr(s, depth - 1, c)))
        }
        1 => E::Un(s.chance(3, 4), Box::new(expr(s, depth - 1, c))),
        2 => {
            // from 23! on, the value is not a floating point number: see calc
            let t = match s.weighted(&[10, 3, 1]) {
                0 => s.usize(9),
                1 => s.usize(23),
                _ => s.range(171, 200),
            };
            E::Fact(Box::new(E::Num(t as f64, t.to_string())))
        }
        3 => E::Fun(s.pick(&EXACT1), vec![expr(s, depth - 1, c)]),
        4 => {
            let f = *s.pick(&EXACT2);
            let b = if f == "ldexp" || f == "scalbn" { E::Un(s.coin(), Box::new(E::Num(0.0, s.size(0, 30, 2200).to_string()).fix())) } else { expr(s, depth - 1, c) };
            E::Fun(f, vec![expr(s, depth - 1, c), b])
        }
        5 => {
            let f = *s.pick(&["fma", "if", "if"]);
            E::Fun(f, (0..3).map(|_| expr(s, depth - 1, c)).collect())
        }
        6 => {
            let n = s.size(1, 4, 15);
            let depth = if n > 4 { 1 } else { depth };
            E::Fun(s.pick(&MANY), (0..n).map(|_| expr(s, depth - 1, c)).collect())
        }
        _ => {
            let f = *s.pick(&MANY);
            if c.header.is_none() || c.names {
                return E::Fun(f, vec![expr(s, depth - 1, c)]);
            }
            let a = s.usize(c.n);
            let b = s.range(a, c.n - 1);
            let nm = |s: &mut Src, k: usize| if s.coin() { (k + 1).to_string() } else { c.header.unwrap()[k].clone() };
            let mut cols: Vec<usize> = (a..=b).collect();
            let mut t = if a == b { nm(s, a) } else { format!("{}-{}", nm(s, a), nm(s, b)) };
            if s.chance(1, 3) {
                let k = s.usize(c.n);
                if !cols.contains(&k) {
                    cols.push(k);
                    t = format!("{t},{}", nm(s, k));
                }
            }
            E::Set(f, cols, t)
        }
    }
}
impl E {
    fn fix(self) -> E {
        match self {
            E::Num(_, t) => E::Num(t.parse().unwrap(), t),
            x => x,
        }
    }
    const fn level(&self) -> usize {
        match self {
            E::Num(..) | E::Col(..) | E::Fun(..) | E::Set(..) => 7,
            E::Fact(_) => 6,
            E::Un(..) => 4,
            E::Bin(op, _, _) => level(*op),
        }
    }
    fn paren(s: &mut Src, e: &E, need: bool) -> String {
        let t = e.text(s);
        if need || s.chance(1, 12) {
            format!("({t})")
        } else {
            t
        }
    }
    /// text with just the necessary parentheses, sometimes more
    pub(super) fn text(&self, s: &mut Src) -> String {
        match self {
            E::Num(_, t) | E::Col(_, t) => t.clone(),
            E::Un(minus, x) => {
                let t = E::paren(s, x, x.level() < 4);
                format!("{}{t}", if *minus { '-' } else { '+' })
            }
            E::Fact(x) => {
                let t = E::paren(s, x, x.level() < 6);
                format!("{t}!")
            }
            E::Bin(op, a, b) => {
                let l = level(*op);
                let need_a = if *op == 11 { a.level() <= 5 } else { a.level() < l };
                let need_b = if *op == 11 { b.level() < 4 } else { b.level() <= l };
                let mut ta = E::paren(s, a, need_a);
                if ta.ends_with('!') && OPS[*op].starts_with('=') {
                    ta = format!("({ta})");
                }
                let tb = E::paren(s, b, need_b);
                format!("{ta}{}{tb}", OPS[*op])
            }
            E::Fun(f, args) => {
                let v: Vec<String> = args.iter().map(|a| E::paren(s, a, false)).collect();
                format!("{f}({})", v.join(","))
            }
            E::Set(f, _, t) => format!("{f}([{t}])"),
        }
    }
    /// None if the value is not specified
    pub(super) fn eval(&self, cells: &[f64]) -> Option<f64> {
        let b = |x: bool| if x { 1.0 } else { 0.0 };
        Some(match self {
            E::Num(v, _) => *v,
            E::Col(c, _) => cells.get(*c).copied().unwrap_or(0.0),
            E::Un(m, x) => {
                let v = x.eval(cells)?;
                if *m {
                    -v
                } else {
                    v
                }
            }
            E::Fact(x) => factorial(x.eval(cells)?)?,
            E::Bin(op, l, r) => {
                let (l, r) = (l.eval(cells)?, r.eval(cells)?);
                match op {
                    0 => b(l < r),
                    1 => b(l > r),
                    2 => b(l == r),
                    3 => b(l != r),
                    4 => b(l <= r),
                    5 => b(l >= r),
                    6 => l + r,
                    7 => l - r,
                    8 => l * r,
                    9 => l / r,
                    10 => l % r,
                    _ => unsafe { pow(l, r) },
                }
            }
            E::Fun(f, args) => {
                let mut v = Vec::new();
                for a in args {
                    v.push(a.eval(cells)?);
                }
                fun(f, &v)?
            }
            E::Set(f, c, _) => {
                let v: Vec<f64> = c.iter().map(|c| cells.get(*c).copied().unwrap_or(0.0)).collect();
                fun(f, &v)?
            }
        })
    }
    pub(super) fn size(&self) -> usize {
        match self {
            E::Num(..) | E::Col(..) => 0,
            E::Un(_, x) | E::Fact(x) => 1 + x.size(),
            E::Bin(_, a, b) => 1 + a.size() + b.size(),
            E::Fun(_, a) => 1 + a.iter().map(E::size).sum::<usize>(),
            E::Set(..) => 1,
        }
    }
}
fn factorial(v: f64) -> Option<f64> {
    if v < 0.0 || v.fract() != 0.0 || v.is_nan() {
        return None;
    }
    if v > 170.0 {
        return Some(f64::INFINITY);
    }
    // decimal digits, lowest first
    let mut d: Vec<u32> = vec![1];
    for k in 2..=v as u32 {
        let mut carry = 0;
        for x in &mut d {
            let t = *x * k + carry;
            *x = t % 10;
            carry = t / 10;
        }
        while carry > 0 {
            d.push(carry % 10);
            carry /= 10;
        }
    }
    let t: String = d.iter().rev().map(|x| char::from(b'0' + *x as u8)).collect();
    Some(t.parse().unwrap())
}
fn fun(f: &str, v: &[f64]) -> Option<f64> {
    let zeros = v.iter().any(|x| *x == 0.0 && x.is_sign_negative()) && v.iter().any(|x| *x == 0.0 && x.is_sign_positive());
    let nan = v.iter().any(|x| x.is_nan());
    if (nan || zeros) && ["fmax", "fmin", "min", "max"].contains(&f) {
        return None;
    }
    unsafe {
        Some(match f {
            "abs" | "fabs" => v[0].abs(),
            "ceil" => v[0].ceil(),
            "floor" => v[0].floor(),
            "round" => v[0].round(),
            "trunc" => v[0].trunc(),
            "sqrt" => v[0].sqrt(),
            "fmod" => fmod(v[0], v[1]),
            "fdim" => fdim(v[0], v[1]),
            "fmax" | "max" => v.iter().copied().fold(f64::NEG_INFINITY, f64::max),
            "fmin" | "min" => v.iter().copied().fold(f64::INFINITY, f64::min),
            "copysign" => v[0].copysign(v[1]),
            "remainder" => {
                // ties and the sign of zero are where implementations differ
                remainder(v[0], v[1])
            }
            "ldexp" => ldexp(v[0], v[1] as i32),
            "scalbn" => scalbn(v[0], v[1] as i32),
            "nextafter" => nextafter(v[0], v[1]),
            "fma" => fma(v[0], v[1], v[2]),
            "if" => {
                if v[0] != 0.0 {
                    v[1]
                } else {
                    v[2]
                }
            }
            "avg" => v.iter().fold(0.0, |a, b| a + b) / v.len() as f64,
            _ => unreachable!(),
        })
    }
}
pub(super) fn same(t: &[u8], want: f64, tol: f64) -> bool {
    let Ok(t) = std::str::from_utf8(t) else { return false };
    let Ok(v) = t.parse::<f64>() else { return false };
    if want.is_nan() {
        return v.is_nan();
    }
    // negative: the relative error counts, however small the value is
    let scale = if tol < 0.0 { want.abs() } else { want.abs().max(1e-3) };
    v == want || (v - want).abs() <= tol.abs() * scale
}

/// constant expressions
fn calc(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let n = s.size(1, 12, 200);
    let mut lines: Vec<(String, Option<f64>, f64)> = Vec::new();
    let mut size = 0;
    for _ in 0..n {
        if s.chance(1, 4) {
            let (t, v, tol) = transcendental(s, None);
            lines.push((t, Some(v), tol));
            size += 1;
            continue;
        }
        if s.chance(1, 10) {
            let k = s.usize(173);
            lines.push((format!("{k}!"), factorial(k as f64), 1e-14));
            continue;
        }
        let d = s.size(1, 4, 6);
        let e = expr(s, d, &Cols { n: 0, header: None, names: false });
        size += e.size();
        lines.push((e.text(s), e.eval(&[]), 0.0));
    }
    let mut args = vec!["calc".to_string()];
    match s.usize(4) {
        0 => args.push("--fmt=plain".into()),
        1 => args.push("--fmt=float".into()),
        2 => args.push("--fmt=short".into()),
        _ => {}
    }
    let mut data: Vec<u8> = Vec::new();
    for (t, _, _) in &lines {
        if s.chance(1, 10) {
            data.extend(s.pick(&["plain,", "float,", "Short,"]).as_bytes());
        }
        data.extend(t.as_bytes());
        data.push(b'\n');
    }
    if s.chance(1, 4) {
        data.pop();
    }
    args.push(ctx.file("f", &data));
    let o = cdx(ctx, &args, None);
    let got: Vec<&[u8]> = o.out.strip_suffix(b"\n").unwrap_or(&o.out).split(|c| *c == b'\n').collect();
    if o.code != 0 || got.len() != lines.len() {
        return Err(format!("{}\nexpressions: \"{}\"", o.describe(), show(&data)));
    }
    for (g, (t, v, tol)) in got.iter().zip(&lines) {
        if let Some(v) = v {
            if !same(g, *v, *tol) {
                return Err(format!("{t} should be {v:?}, but calc gives {}", show(g)));
            }
        }
    }
    ok(size > 3, &data, || lines[0].0.clone())
}

/// a function of floating point numbers, with arguments from its domain. With column names, these are used for arguments
fn transcendental(s: &mut Src, cols: Option<(&mut Vec<f64>, &mut Vec<String>)>) -> (String, f64, f64) {
    let names = [
        "acos", "acosh", "asin", "asinh", "atan", "atan2", "atanh", "cbrt", "cos", "cosh", "erf", "exp", "exp2", "exp10", "expm1", "hypot", "j0", "j1", "jn", "lgamma", "log", "log1p", "log2", "log10", "pow", "sin", "sinh", "tan",
        "tanh", "tgamma", "y0", "y1", "yn",
    ];
    if s.chance(1, 12) {
        let n = s.usize(171) as f64;
        let v = factorial(n).unwrap_or(0.0);
        return match cols {
            Some((vals, nm)) => {
                vals.push(n);
                nm.push(format!("v{}", vals.len()));
                (format!("{}!", nm.last().unwrap()), v, 1e-9)
            }
            None => (format!("{n}!"), v, 1e-9),
        };
    }
    let f = *s.pick(&names);
    // functions that are close to a straight line at zero, and so have exact values there
    let tiny = ["asin", "asinh", "atan", "atanh", "cbrt", "erf", "expm1", "log1p", "sin", "sinh", "tan", "tanh"].contains(&f) && s.chance(1, 3);
    let huge = f == "hypot" && s.chance(1, 3);
    let scale = 2f64.powi(if tiny { s.irange(-70, -12) as i32 } else if huge { *s.pick(&[-600, 600, 900]) } else { 0 });
    let mut num = |lo: i64, hi: i64| s.irange(lo * 64, hi * 64) as f64 / 64.0;
    let (a, b) = unsafe {
        match f {
            "acos" | "asin" => (num(-1, 1), 0.0),
            "atanh" => (num(-63, 63) / 64.0, 0.0),
            "acosh" => (num(1, 20), 0.0),
            "lgamma" | "tgamma" => (num(0, 20) + 0.25, 0.0),
            "log" | "log2" | "log10" => (num(0, 100) + 1.0 / 64.0, 0.0),
            "log1p" => (num(0, 100) - 63.0 / 64.0, 0.0),
            "y0" | "y1" => (num(0, 30) + 0.25, 0.0),
            "jn" => (num(0, 6).round(), num(0, 20)),
            "yn" => (num(0, 5).round(), num(1, 20)),
            "pow" => (num(0, 20) + 0.125, num(-8, 8)),
            "atan2" | "hypot" => (num(-20, 20), num(-20, 20)),
            "tan" => (num(-1, 1), 0.0),
            _ => (num(-20, 20), 0.0),
        }
    };
    let (a, b) = if tiny { (num(-1, 1) * scale, 0.0) } else { (a * scale, b * scale) };
    let v = unsafe {
        match f {
            "acos" => acos(a),
            "acosh" => acosh(a),
            "asin" => asin(a),
            "asinh" => asinh(a),
            "atan" => atan(a),
            "atan2" => atan2(a, b),
            "atanh" => atanh(a),
            "cbrt" => cbrt(a),
            "cos" => cos(a),
            "cosh" => cosh(a),
            "erf" => erf(a),
            "exp" => exp(a),
            "exp2" => exp2(a),
            "exp10" => exp10(a),
            "expm1" => expm1(a),
            "hypot" => hypot(a, b),
            "j0" => j0(a),
            "j1" => j1(a),
            "jn" => jn(a as i32, b),
            "lgamma" => lgamma(a),
            "log" => log(a),
            "log1p" => log1p(a),
            "log2" => log2(a),
            "log10" => log10(a),
            "pow" => pow(a, b),
            "sin" => sin(a),
            "sinh" => sinh(a),
            "tan" => tan(a),
            "tanh" => tanh(a),
            "tgamma" => tgamma(a),
            "y0" => y0(a),
            "y1" => y1(a),
            "yn" => yn(a as i32, b),
            _ => unreachable!(),
        }
    };
    let two = ["atan2", "hypot", "jn", "pow", "yn"].contains(&f);
    let t = if let Some((vals, nm)) = cols {
        vals.push(a);
        nm.push(format!("v{}", vals.len()));
        let x = nm.last().unwrap().clone();
        if two {
            vals.push(b);
            nm.push(format!("v{}", vals.len()));
            format!("{f}({x},{})", nm.last().unwrap())
        } else {
            format!("{f}({x})")
        }
    } else if two {
        format!("{f}({a},{b})")
    } else {
        format!("{f}({a})")
    };
    (t, v, if tiny || huge { -1e-9 } else { 1e-9 })
}

/// expressions of columns, in one or two files
fn columns(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let nc = s.range(1, 5);
    let ks: Vec<Kind> = (0..nc).map(|_| *s.pick(&[Kind::Int, Kind::Float, Kind::Int, Kind::Float, Kind::Word])).collect();
    let header = s.chance(3, 4);
    let ragged = s.chance(1, 4);
    let mut h = names(s, nc);
    if s.chance(1, 6) {
        let k = s.usize(nc);
        h[k] = (*s.pick(&["größe", "a_1_b", "Ωx2", "M_P", "日本", "Max"])).to_string();
    }
    let n = nrows(s, 10).max(1);
    let mut t = Table { header: header.then(|| h.clone()), rows: rows(s, &ks, n, ragged) };
    t.rows[0].resize(nc, b"1".to_vec());
    let ne = s.size(1, 3, 9);
    let es: Vec<E> = (0..ne)
        .map(|_| {
            let d = s.size(1, 4, 6);
            expr(s, d, &Cols { n: nc, header: t.header.as_deref(), names: false })
        })
        .collect();
    let texts: Vec<String> = es.iter().map(|e| e.text(s)).collect();
    // a second file, perhaps with the columns in another order
    let mut files = vec![t.clone()];
    let mut perm: Vec<usize> = (0..nc).collect();
    if s.chance(1, 3) {
        let k = nrows(s, 5).max(1);
        let mut u = Table { header: t.header.clone(), rows: rows(s, &ks, k, false) };
        let by_name = !texts.iter().any(|t| (1..=nc).any(|c| t.contains(&format!("c{c}")) || t.contains('[')));
        if header && by_name && s.chance(2, 3) {
            let r = s.usize(nc);
            perm.rotate_left(r);
            u.header = Some(perm.iter().map(|p| h[*p].clone()).collect());
            u.rows = u.rows.iter().map(|r| perm.iter().map(|p| r[*p].clone()).collect()).collect();
            if bad_first(&u.rows[0][0]) {
                u.rows[0][0] = b"1".to_vec();
            }
        }
        files.push(u);
    }
    let grep = s.chance(1, 4) && files[0].header == files.last().unwrap().header;
    let mut args: Vec<String>;
    if grep {
        args = vec!["cgrep".into(), "-p".into(), format!(",expr,{}", texts[0])];
    } else {
        args = vec!["cut".into()];
        for (i, t) in texts.iter().enumerate() {
            args.push("-e".into());
            args.push(format!("out{i}:{t}"));
        }
    }
    args.push("--".into());
    for (i, f) in files.iter().enumerate() {
        args.push(ctx.file(&format!("f{i}"), &f.bytes()));
    }
    let o = cdx(ctx, &args, None);
    let fail = |why: String| {
        Err(format!("{}\nfiles {}\n{why}", o.describe(), files.iter().map(|f| format!("\"{}\"", show(&f.bytes()))).collect::<Vec<_>>().join(" ")))
    };
    if o.code != 0 {
        return fail("should succeed".into());
    }
    let mut body: &[u8] = &o.out;
    if header {
        let hl = if grep { t.head() } else { header_line(&(0..ne).map(|i| format!("out{i}")).collect::<Vec<_>>()) };
        match body.strip_prefix(&hl[..]) {
            Some(b) => body = b,
            None => return fail("wrong header".into()),
        }
    }
    let mut it = body.strip_suffix(b"\n").unwrap_or(body).split(|c| *c == b'\n');
    let mut unspec = false;
    let mut want = Vec::new();
    for (k, f) in files.iter().enumerate() {
        for r in &f.rows {
            // values in the order of the first file
            let mut cells = vec![0.0; nc];
            for (c, p) in perm.iter().enumerate() {
                let to = if k == 1 { *p } else { c };
                cells[to] = r.get(c).map_or(0.0, |x| ref_f64(x));
            }
            let vals: Vec<Option<f64>> = es.iter().map(|e| e.eval(&cells)).collect();
            if grep {
                match vals[0] {
                    None => unspec = true,
                    Some(v) => {
                        if v != 0.0 {
                            want.extend(join_cells(r, b'\t'));
                            want.push(b'\n');
                        }
                    }
                }
                continue;
            }
            let Some(l) = it.next() else { return fail("too few lines".into()) };
            let g: Vec<&[u8]> = l.split(|c| *c == b'\t').collect();
            if g.len() != ne {
                return fail(format!("line \"{}\" has the wrong number of columns", show(l)));
            }
            for i in 0..ne {
                if let Some(v) = vals[i] {
                    if !same(g[i], v, 0.0) {
                        return fail(format!("for \"{}\" {} should be {v:?}, not {}", show(&join_cells(r, b'\t')), texts[i], show(g[i])));
                    }
                }
            }
        }
    }
    if grep && !unspec && body != want {
        return fail(format!("wanted \"{}\"", show(&want)));
    }
    if !grep && it.next().is_some() {
        return fail("too many lines".into());
    }
    ok(es.iter().map(E::size).sum::<usize>() > 1, (&files, &texts), || o.cmd())
}

/// functions of columns
fn functions(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let mut vals = Vec::new();
    let mut nm = Vec::new();
    let mut ex = Vec::new();
    for _ in 0..s.range(1, 6) {
        ex.push(transcendental(s, Some((&mut vals, &mut nm))));
    }
    let t = Table { header: Some(nm), rows: vec![vals.iter().map(|v| format!("{v}").into_bytes()).collect()] };
    let mut args = vec!["cut".to_string()];
    for (i, e) in ex.iter().enumerate() {
        args.push("-e".into());
        args.push(format!("o{i}:{}", e.0));
    }
    args.push(ctx.file("f", &t.bytes()));
    let o = cdx(ctx, &args, None);
    let l = o.out.split(|c| *c == b'\n').nth(1).unwrap_or(b"");
    let g: Vec<&[u8]> = l.split(|c| *c == b'\t').collect();
    if o.code != 0 || g.len() != ex.len() {
        return Err(format!("{} file \"{}\"", o.describe(), show(&t.bytes())));
    }
    for (g, e) in g.iter().zip(&ex) {
        if !same(g, e.1, e.2) {
            return Err(format!("{} of \"{}\" should be {}, not {}", e.0, show(&t.bytes()), e.1, show(g)));
        }
    }
    ok(true, &t, || o.cmd())
}

/// texts that may not be expressions: fails with a message or gives a value
fn junk(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let toks = ["(", ")", ",", "+", "-", "*", "/", "%", "^", "!", "<", "=", ">", "1", "2.5", "c1", "c0", "x_", "max", "if(", "sin(", "[1]", "[", "]", " ", ".", "é", "e", "99999999999999999999", "c99999999999999999999"];
    let n = s.range(0, 7);
    let t: String = (0..n).map(|_| *s.pick(&toks)).collect();
    let f = ctx.file("f", b"1\t2\n");
    let g = ctx.file("g", format!("{t}\n").as_bytes());
    let o = if s.coin() { cdx(ctx, &["cut".to_string(), format!("--expr=x:{t}"), f], None) } else { cdx(ctx, &["calc".to_string(), g], None) };
    if o.crashed() || (o.code == 1 && o.err.is_empty()) {
        return Err(o.describe());
    }
    ok(n > 1, &t, || o.cmd())
}

/// well-formed but for one mistake: must be refused
fn malformed(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let h: Vec<String> = ["alpha", "b", "count"].iter().map(|x| (*x).to_string()).collect();
    let d = s.range(0, 3);
    let cols = Cols { n: 3, header: Some(&h), names: true };
    let e = expr(s, d, &cols);
    let good = e.text(s);
    let x = expr(s, 0, &cols).text(s);
    let two = ["atan2", "hypot", "pow", "fmod", "fdim", "fmax", "fmin", "copysign", "remainder", "ldexp", "scalbn", "nextafter", "jn", "yn"];
    let one = ["sin", "cos", "exp", "log", "sqrt", "abs", "floor", "ceil", "round", "trunc", "tgamma", "erf", "cbrt", "fabs", "log2", "tanh"];
    let three = ["fma", "if"];
    let bad = match s.usize(9) {
        0 => {
            let (f, n) = match s.usize(3) {
                0 => (*s.pick(&one), *s.pick(&[2usize, 3, 5])),
                1 => (*s.pick(&two), *s.pick(&[1usize, 3, 4])),
                _ => (*s.pick(&three), *s.pick(&[1usize, 2, 4])),
            };
            format!("{f}({})", vec![x.clone(); n].join(","))
        }
        1 => format!("{x}{}", *s.pick(&["+", "-", "*", "/", "^", "<", "==", "%", ">="])),
        2 => format!("{}{x}", *s.pick(&["*", "/", "^", "<", "==", "%", ">=", "!="])),
        3 => format!("({x}"),
        4 => format!("{x})"),
        5 => format!("{x}{}{x}", *s.pick(&["=", "*/", "+*", "<>", "^^", "$", "&&", "|"])),
        6 => format!("nosuch+{x}"),
        7 => format!("nosuch({x})"),
        _ => format!("{x}({x})"),
    };
    // inside of something larger
    let text = match s.usize(5) {
        0 => bad,
        1 => format!("{good}+({bad})"),
        2 => format!("max({good},{bad})"),
        3 => format!("({bad})*{x}"),
        _ => format!("-({bad})"),
    };
    let t = Table { header: Some(h), rows: vec![vec![b"1".to_vec(), b"2".to_vec(), b"3".to_vec()]] };
    let f = ctx.file("f", &t.bytes());
    let o = if s.chance(3, 4) { cdx(ctx, &["cut".to_string(), format!("--expr=x:{text}"), f], None) } else { cdx(ctx, &["cgrep".to_string(), format!("--pattern=,expr,{text}"), f], None) };
    if o.code != 1 || o.timeout || o.err.is_empty() {
        return Err(format!("a malformed expression must be refused: {}", o.describe()));
    }
    ok(true, &text, || o.cmd())
}

pub fn prop() -> Prop {
    Prop {
        id: "C18",
        rule: "non-trivial: more than one operation per expression or file",
        arms: vec![
            Arm { name: "calc", quick: 3_000, thorough: 60_000, f: calc },
            Arm { name: "columns", quick: 6_000, thorough: 120_000, f: columns },
            Arm { name: "functions", quick: 2_000, thorough: 20_000, f: functions },
            Arm { name: "malformed", quick: 1_000, thorough: 20_000, f: malformed },
            Arm { name: "junk", quick: 3_000, thorough: 60_000, f: junk },
        ],
    }
}
