//! C25: filegen
use super::expr::{expr, same, Cols, E};
use crate::engine::*;
use crate::run::*;

enum G {
    Null,
    Grid,
    Count(i64),
    Expr(E, String, &'static str),
    /// sign, digits before and after the point
    Decimal(bool, usize, usize),
    Normal(f64, f64, &'static str),
}
fn generator(s: &mut Src) -> (G, String) {
    match s.weighted(&[2, 1, 3, 4, 3, 2]) {
        0 => (G::Grid, "grid".into()),
        1 => (G::Null, "null".into()),
        2 => match s.usize(4) {
            0 => (G::Count(0), "count".into()),
            1 => {
                let n = s.irange(-20, 20);
                (G::Count(n), format!("count,{n}"))
            }
            2 => {
                let n = s.irange(-2_000_000, 2_000_000);
                (G::Count(n), format!("count,{n}"))
            }
            _ => {
                let n = *s.pick(&[i64::MAX, i64::MIN + 1, i64::MAX - 1, i64::from(u32::MAX)]);
                (G::Count(n), format!("count,{n}"))
            }
        },
        3 => {
            let d = s.range(1, 3);
            let h = ["line".to_string(), "col".to_string()];
            let e = expr(s, d, &Cols { n: 2, header: Some(&h), names: true });
            let t = e.text(s);
            let f = *s.pick(&["", "plain", "float", "short"]);
            let spec = if f.is_empty() { format!("expr,{t}") } else { format!("expr,{f},{t}") };
            (G::Expr(e, t, f), spec)
        }
        4 => {
            if s.chance(1, 8) {
                return (G::Decimal(false, 4, 0), "decimal".into());
            }
            let (sign, a, b) = (s.coin(), s.weighted(&[1, 4, 3, 2, 1]), if s.coin() { 0 } else { s.range(1, 5) });
            let a = if b == 0 { a.max(1) } else { a };
            let a = if s.chance(1, 10) { 19 } else { a };
            let mut t = "N".repeat(a);
            if b > 0 {
                t.push('.');
                t.push_str(&"N".repeat(b));
            }
            (G::Decimal(sign, a, b), format!("decimal,{}{t}", if sign { "-" } else { "" }))
        }
        _ => {
            let m = *s.pick(&[0.0, 5.0, -100.0, 2.5]);
            let d = *s.pick(&[1.0, 0.5, 20.0, 0.0]);
            match s.usize(4) {
                0 => (G::Normal(0.0, 1.0, ""), "normal".into()),
                1 => (G::Normal(m, 1.0, ""), format!("normal,{m}")),
                2 => (G::Normal(m, d, ""), format!("normal,{m},{d}")),
                _ => {
                    let f = *s.pick(&["plain", "plain.6", "short", "float.8", "float", "short.3", "plain.9"]);
                    (G::Normal(m, d, f), format!("normal,{m},{d},{f}"))
                }
            }
        }
    }
}
/// one cell
fn cell(g: &G, b: &[u8], line: usize, col: usize) -> Result<(), String> {
    let t = std::str::from_utf8(b).map_err(|_| "not text".to_string())?;
    let is = |w: String| if t == w { Ok(()) } else { Err(format!("should be {w:?}")) };
    match g {
        G::Null => is(String::new()),
        G::Grid => is(format!("{line}_{col}")),
        G::Count(n) => is((i128::from(*n) + line as i128 - 1).to_string()),
        G::Expr(e, x, f) => match e.eval(&[line as f64, col as f64]) {
            None => Ok(()),
            Some(v) => {
                if !same(b, v, 0.0) {
                    return Err(format!("{x} should be {v:?}"));
                }
                let exp = t.contains('e');
                if v.is_finite() && ((*f == "plain" && exp) || (*f == "float" && !exp)) {
                    return Err(format!("{x} should be written as {f}"));
                }
                Ok(())
            }
        },
        G::Decimal(sign, a, b) => {
            let u = if *sign { t.strip_prefix('-').unwrap_or(t) } else { t };
            let (i, f) = if *b > 0 { u.split_once('.').ok_or("should have a fraction")? } else { (u, "") };
            let digits = |x: &str| x.bytes().all(|c| c.is_ascii_digit());
            if i.is_empty() || !digits(i) || !digits(f) || f.len() != *b || i.len() > (*a).max(1) || (i.len() > 1 && i.starts_with('0')) || (*a == 0 && i != "0") {
                return Err("does not fit the pattern".into());
            }
            Ok(())
        }
        G::Normal(m, d, f) => {
            let v: f64 = t.parse().map_err(|_| "should be a number".to_string())?;
            // written again in this format, it is the same
            let (kind, digits) = f.split_once('.').map_or((*f, None), |(a, b)| (a, b.parse::<usize>().ok()));
            let plain = kind == "plain" || kind == "short" && (v == 0.0 || (0.0001..1000.0).contains(&v.abs()));
            let again = match (plain, digits) {
                (true, None) => format!("{v}"),
                (true, Some(n)) => format!("{v:.n$}"),
                (false, None) => format!("{v:e}"),
                (false, Some(n)) => format!("{v:.n$e}"),
            };
            // (rounding may lead over the limit of short)
            if !kind.is_empty() && again != t && !(kind == "short" && digits.is_some() && (v.abs() >= 999.0 && v.abs() < 1001.0 || v.abs() < 0.001)) {
                return Err(format!("is not in format {f}"));
            }
            // the probability of 12 standard deviations is below 1e-32
            if (v - m).abs() > d * 12.0 + 1e-6 * m.abs().max(1.0) {
                return Err("is too far from the mean".into());
            }
            Ok(())
        }
    }
}
/// the values of a column together; limits are wide enough to be exceeded with a probability below 1e-12
fn column(g: &G, v: &[&[u8]]) -> Result<(), String> {
    let n = v.len();
    if n < 250 {
        return Ok(());
    }
    match g {
        G::Decimal(sign, a, b) => {
            let neg = v.iter().filter(|x| x.starts_with(b"-")).count();
            if *sign && (neg == 0 || neg == n) {
                return Err("all have the same sign".into());
            }
            for (digits, after) in [(*a, false), (*b, true)] {
                if digits == 0 {
                    continue;
                }
                let max = 10f64.powi(digits as i32);
                let x: Vec<f64> = v
                    .iter()
                    .map(|x| {
                        let t = String::from_utf8_lossy(x).trim_start_matches('-').to_string();
                        let (i, f) = t.split_once('.').unwrap_or((&t, ""));
                        if after { f } else { i }.parse::<f64>().unwrap_or(0.0) / max
                    })
                    .collect();
                if x.iter().all(|v| *v < 0.85) || x.iter().all(|v| *v >= 0.15) || x.iter().all(|v| *v < 0.4 || *v >= 0.6) {
                    return Err("the values are not spread over the range".into());
                }
            }
            Ok(())
        }
        G::Normal(m, d, _) if *d > 0.0 => {
            let x: Vec<f64> = v.iter().map(|b| std::str::from_utf8(b).unwrap_or("").parse::<f64>().unwrap_or(0.0)).collect();
            let mean = x.iter().sum::<f64>() / n as f64;
            let dev = (x.iter().map(|v| (v - mean) * (v - mean)).sum::<f64>() / n as f64).sqrt();
            if (mean - m).abs() > 8.0 * d / (n as f64).sqrt() || !(0.6 * d..1.4 * d).contains(&dev) {
                return Err(format!("mean {mean} and deviation {dev} are not {m} and {d}"));
            }
            Ok(())
        }
        _ => Ok(()),
    }
}

fn gen(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let mut args: Vec<String> = vec!["filegen".into()];
    let mut gens: Vec<(G, String)> = Vec::new();
    for _ in 0..s.usize(5) {
        let g = generator(s);
        if s.chance(1, 4) {
            let k = s.range(1, 4);
            args.push(s.pick(&["-m", "--multi"]).to_string());
            args.push(format!("{k},{}", g.1));
            let spec = g.1.clone();
            for _ in 1..k {
                gens.push((copy(&g.0), spec.clone()));
            }
        } else {
            args.push(s.pick(&["-c", "--column"]).to_string());
            args.push(g.1.clone());
        }
        gens.push(g);
    }
    if gens.is_empty() {
        gens.push((G::Grid, "grid".into()));
    }
    let mut n = 10;
    if s.chance(3, 4) {
        n = match s.weighted(&[2, 1, 6, 2]) {
            0 => s.usize(3),
            1 => 0,
            2 => s.usize(40),
            _ => s.range(250, 500),
        };
        args.insert(1, s.pick(&["-n", "--lines"]).to_string());
        args.insert(2, n.to_string());
    }
    let header = s.coin();
    if header {
        args.push(s.pick(&["-h", "--with-header"]).to_string());
    }
    let o = cdx(ctx, &args, None);
    let fail = |why: String| Err(format!("{}\n{why}", o.describe()));
    if o.code != 0 || !o.err.is_empty() {
        return fail("should succeed, silently".into());
    }
    let mut lines: Vec<&[u8]> = o.out.split_inclusive(|c| *c == b'\n').collect();
    if header {
        let mut h = b" CDX".to_vec();
        for i in 1..=gens.len() {
            h.extend(format!("\tc{i}").as_bytes());
        }
        h.push(b'\n');
        if lines.is_empty() || lines[0] != h {
            return fail(format!("header should be \"{}\"", show(&h)));
        }
        lines.remove(0);
    }
    if lines.len() != n {
        return fail(format!("should have {n} lines"));
    }
    let mut cols: Vec<Vec<&[u8]>> = vec![Vec::new(); gens.len()];
    for (i, l) in lines.iter().enumerate() {
        let Some(l) = l.strip_suffix(b"\n") else { return fail("incomplete line".into()) };
        let c: Vec<&[u8]> = l.split(|c| *c == b'\t').collect();
        if c.len() != gens.len() {
            return fail(format!("line {} should have {} columns", i + 1, gens.len()));
        }
        for (k, b) in c.iter().enumerate() {
            if let Err(m) = cell(&gens[k].0, b, i + 1, k + 1) {
                return fail(format!("line {} column {} ({}): \"{}\" {m}", i + 1, k + 1, gens[k].1, show(b)));
            }
            cols[k].push(b);
        }
    }
    for (k, c) in cols.iter().enumerate() {
        if let Err(m) = column(&gens[k].0, c) {
            return fail(format!("column {} ({}): {m}", k + 1, gens[k].1));
        }
    }
    ok(n > 1 && gens.len() > 1, &args, || o.cmd())
}
fn copy(g: &G) -> G {
    match g {
        G::Null => G::Null,
        G::Grid => G::Grid,
        G::Count(n) => G::Count(*n),
        G::Expr(e, t, f) => G::Expr(e.clone(), t.clone(), f),
        G::Decimal(a, b, c) => G::Decimal(*a, *b, *c),
        G::Normal(a, b, f) => G::Normal(*a, *b, f),
    }
}
/// anything else is refused
fn junk(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let spec = match s.usize(9) {
        0 => "nothing".to_string(),
        1 => format!("count,{}", s.pick(&["x", "1x", "1 2", "--1"])),
        2 => format!("decimal,{}", "N".repeat(s.range(20, 60))),
        3 => format!("decimal,N.{}", "N".repeat(s.range(20, 60))),
        4 => format!("normal,{}", s.pick(&["x", "1,x", "1,2,nofmt", "1,2,plain,3", "1x"])),
        5 => format!("expr,{}", s.pick(&["(", "line+", ")", "nofun(3)", "line line", "1+*2"])),
        6 => "grids,1".to_string(),
        7 => format!("normal,0,{}", s.pick(&["nan", "inf"])),
        _ => String::new(),
    };
    let multi = s.coin();
    let args: Vec<String> = if multi && s.chance(1, 3) {
        vec!["filegen".into(), "-m".into(), s.pick(&["grid", "x,grid", "2,nothing"]).to_string()]
    } else if multi {
        vec!["filegen".into(), "-m".into(), format!("2,{spec}")]
    } else {
        vec!["filegen".into(), "-c".into(), spec]
    };
    let o = cdx(ctx, &args, None);
    if o.code != 1 || o.err.is_empty() || !o.out.is_empty() || o.timeout {
        return Err(format!("{}\nshould be refused", o.describe()));
    }
    ok(true, &args, || o.cmd())
}

pub fn prop() -> Prop {
    Prop {
        id: "C25",
        rule: "at least two lines and two columns, or a specification that has to be refused",
        arms: vec![Arm { name: "gen", quick: 4000, thorough: 150_000, f: gen }, Arm { name: "junk", quick: 300, thorough: 3000, f: junk }],
    }
}
