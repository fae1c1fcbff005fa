//! uniq and aggregators
use crate::engine::*;
use crate::gen::*;
use crate::model::*;
use crate::run::*;
use std::cmp::Ordering;

/// a table in which equal keys are often adjacent
fn clumpy(s: &mut Src, max: usize) -> (Table, Vec<Kind>, bool) {
    let ragged = s.chance(1, 4);
    let (mut t, ks) = table(s, &TableOpt { max_rows: max, max_cols: 4, ragged, header: 50 });
    // repeat some rows, changing another column
    let mut out: Vec<Vec<Cell>> = Vec::new();
    for r in std::mem::take(&mut t.rows) {
        out.push(r.clone());
        let reps = s.weighted(&[3, 2, 1, 1]);
        for _ in 0..reps {
            let mut q = r.clone();
            if s.chance(2, 3) {
                let c = s.usize(q.len());
                q[c] = value(s, ks[c]);
                if bad_first(&q[0]) {
                    q[0] = b"q".to_vec();
                }
            }
            out.push(q);
        }
    }
    t.rows = out;
    (t, ks, ragged)
}
fn groups(keys: &[Key], lines: &[Vec<u8>]) -> Vec<Vec<usize>> {
    let mut g: Vec<Vec<usize>> = Vec::new();
    for i in 0..lines.len() {
        if i > 0 && cmp_keys(keys, &lines[i - 1], &lines[i]) == Ordering::Equal {
            g.last_mut().unwrap().push(i);
        } else {
            g.push(vec![i]);
        }
    }
    g
}
fn pick(which: usize, k: &Key, lines: &[Vec<u8>], g: &[usize]) -> usize {
    match which {
        0 => g[0],
        1 => g[g.len() - 1],
        _ => {
            let mut b = g[0];
            for i in &g[1..] {
                let o = k.cmp(&lines[*i], &lines[b]);
                if (which == 2 && o == Ordering::Less) || (which == 3 && o == Ordering::Greater) {
                    b = *i;
                }
            }
            b
        }
    }
}
fn which_arg(s: &mut Src, t: &Table, ks: &[Kind], rect: Option<usize>, args: &mut Vec<String>) -> (usize, Key) {
    let which = s.usize(4);
    let mut k = whole_key();
    if which >= 2 || (which == 1 && s.chance(1, 4)) {
        let v = keys(s, t.header.as_deref(), ks, rect);
        if let Some(x) = v.into_iter().next() {
            k = x;
        }
    }
    if which > 0 || s.chance(1, 4) {
        let nm = s.pick(&[["first", "FIRST"], ["last", "Last"], ["min", "Min"], ["max", "MAX"]][which]);
        args.push("-w".into());
        args.push(if k.spec.is_empty() { (*nm).to_string() } else { format!("{nm},{}", k.spec) });
    }
    (which, k)
}

fn uniq_cli(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let (t, ks, ragged) = clumpy(s, 12);
    let rect = if ragged || t.rows.is_empty() { None } else { Some(ks.len()) };
    let kys = if t.rows.is_empty() && t.header.is_none() { Vec::new() } else { keys(s, t.header.as_deref(), &ks, rect) };
    let eff = if kys.is_empty() { vec![whole_key()] } else { kys.clone() };
    let mut args = vec!["uniq".to_string()];
    for k in &kys {
        args.push("-k".into());
        args.push(k.spec.clone());
    }
    let (which, wk) = which_arg(s, &t, &ks, rect, &mut args);
    let cpos = s.weighted(&[2, 1, 1]);
    let cname = *s.pick(&["", "Num", "n"]);
    if cpos > 0 {
        let p = if cpos == 1 { *s.pick(&["", ",", ",begin", ",start", ",First"]) } else { *s.pick(&[",end", ",stop", ",LAST"]) };
        args.push("-c".into());
        args.push(format!("{cname}{p}"));
    }
    let cn = if cname.is_empty() { "count" } else { cname };
    if t.header.as_ref().is_some_and(|h| h.iter().any(|x| x == cn)) && cpos > 0 {
        return ok(false, 0, String::new);
    }
    let lines = t.lines();
    let gs = groups(&eff, &lines);
    let mut want = Vec::new();
    if let Some(h) = &t.header {
        let mut h = h.clone();
        if cpos == 1 {
            h.insert(0, cn.to_string());
        }
        if cpos == 2 {
            h.push(cn.to_string());
        }
        want.extend(header_line(&h));
    }
    for g in &gs {
        let l = &lines[pick(which, &wk, &lines, g)];
        match cpos {
            0 => want.extend(l),
            1 => {
                want.extend(format!("{}\t", g.len()).into_bytes());
                want.extend(l);
            }
            _ => {
                want.extend(&l[..l.len() - 1]);
                want.extend(format!("\t{}\n", g.len()).into_bytes());
            }
        }
    }
    let nl = !s.chance(1, 4);
    let data = t.bytes_nl(nl);
    let stdin = s.coin();
    if !stdin {
        args.push(ctx.file("f", &data));
    }
    let o = cdx_ok(ctx, &args, if stdin { Some(&data) } else { None })?;
    if o.out != want {
        return Err(format!("{}\n  input \"{}\"\n  expected \"{}\"", o.describe(), show(&data), show(&want)));
    }
    ok(gs.len() > 1 && gs.iter().any(|g| g.len() > 1), (&t, &args[1..args.len() - usize::from(!stdin)]), || format!("{} input \"{}\"", o.cmd(), show(&data)))
}

// ------------------------------------------------------------------ aggregators

/// expected result
pub enum Exp {
    Text(Vec<u8>),
    Num(f64),
}
impl Exp {
    pub fn matches(&self, c: &[u8]) -> bool {
        match self {
            Self::Text(t) => t == c,
            Self::Num(v) => std::str::from_utf8(c).ok().and_then(|x| x.parse::<f64>().ok()).is_some_and(|x| (x - v).abs() <= 1e-9 * v.abs().max(1e-300)),
        }
    }
    pub fn show(&self) -> String {
        match self {
            Self::Text(t) => show(t),
            Self::Num(v) => format!("{v}"),
        }
    }
}
#[derive(Clone, Debug)]
pub struct AggSpec {
    pub text: String,
    pub kind: usize,
    pub counter: usize,
    utf8: bool,
    method: Method,
    rev: bool,
    delim: u8,
    out: u8,
    sort: bool,
    uniq: bool,
    count: bool,
    min_len: usize,
    max_len: usize,
    max_parts: usize,
    init: i64,
}
pub fn agg_spec(s: &mut Src, k: Kind) -> AggSpec {
    let mut a = AggSpec { text: String::new(), kind: 0, counter: 0, utf8: false, method: Method::Plain, rev: false, delim: b',', out: b',', sort: false, uniq: false, count: false, min_len: 0, max_len: usize::MAX, max_parts: usize::MAX, init: 0 };
    a.kind = s.usize(11);
    let numeric = k == Kind::Int;
    if !numeric && (a.kind == 9 || a.kind == 10) {
        a.kind = 4;
    }
    match a.kind {
        0..=3 => {
            a.counter = s.usize(3);
            a.utf8 = s.coin();
            let nm = ["asum", "amin", "amax", if s.coin() { "amean" } else { "aavg" }][a.kind];
            let c = ["chars", "swords", "awords"][a.counter];
            a.text = format!("{nm},{}", if a.utf8 { if s.coin() { format!("{c}.utf8") } else { format!("utf8.{c}") } } else { c.to_string() });
        }
        4 => {
            let mut parts: Vec<String> = Vec::new();
            if s.chance(1, 3) {
                a.delim = *s.pick(b",b.-1");
                a.out = *s.pick(b",;.|");
                parts.push(format!("D{}{}", a.delim as char, a.out as char));
            }
            if s.coin() {
                a.sort = true;
                parts.push("sort".into());
            }
            if s.coin() {
                a.uniq = true;
                parts.push("uniq".into());
            }
            if s.chance(1, 4) {
                a.count = true;
                parts.push("count".into());
            }
            if s.chance(1, 4) {
                a.min_len = s.usize(4);
                parts.push(format!("min_len:{}", a.min_len));
            }
            if s.chance(1, 4) {
                a.max_len = s.usize(5);
                parts.push(format!("max_len:{}", a.max_len));
            }
            if s.chance(1, 4) {
                a.max_parts = s.usize(5);
                parts.push(format!("max_parts:{}", a.max_parts));
            }
            for i in (1..parts.len()).rev() {
                let j = i - s.usize(i + 1);
                parts.swap(i, j);
            }
            if s.chance(1, 3) {
                a.method = method_for(s, k);
                let (rev, sp) = rev_spelling(s, a.method);
                a.rev = rev;
                parts.push(format!("comp:{sp}"));
            }
            a.text = if parts.is_empty() { "merge".into() } else { format!("merge,{}", parts.join(".")) };
        }
        5 => {
            a.text = "count".into();
            if s.chance(1, 3) {
                a.init = s.irange(-3, 100);
                a.text = format!("count,{}", a.init);
            }
        }
        6 => a.text = "prefix".into(),
        7 => a.text = "suffix".into(),
        8 => {
            // min or max, 8 and 11
            if s.coin() {
                a.kind = 11;
            }
            let nm = if a.kind == 8 { if s.coin() { "min" } else { "minimum" } } else if s.coin() { "max" } else { "maximum" };
            a.text = nm.to_string();
            if s.chance(2, 3) {
                a.method = method_for(s, k);
                let (rev, sp) = rev_spelling(s, a.method);
                a.rev = rev;
                a.text = format!("{nm},{sp}");
            }
        }
        9 => a.text = (if s.coin() { "mean" } else { "avg" }).into(),
        _ => a.text = "sum".into(),
    }
    a
}
fn counter(a: &AggSpec, v: &[u8]) -> usize {
    let chars: Vec<char> = if a.utf8 { String::from_utf8_lossy(v).chars().collect() } else { v.iter().map(|b| *b as char).collect() };
    let inw: Vec<bool> = chars
        .iter()
        .map(|c| match a.counter {
            0 => true,
            1 => {
                if a.utf8 {
                    !c.is_whitespace()
                } else {
                    *c > ' '
                }
            }
            _ => {
                if a.utf8 {
                    c.is_alphanumeric()
                } else {
                    c.is_ascii_alphanumeric()
                }
            }
        })
        .collect();
    if a.counter == 0 {
        return inw.len();
    }
    (0..inw.len()).filter(|i| inw[*i] && (*i == 0 || !inw[*i - 1])).count()
}
/// None if the outcome is unspecified
pub fn agg_ref(a: &AggSpec, vals: &[Vec<u8>]) -> Option<Exp> {
    let cnt: Vec<usize> = vals.iter().map(|v| counter(a, v)).collect();
    Some(match a.kind {
        0 => Exp::Num(cnt.iter().sum::<usize>() as f64),
        1 => Exp::Num(*cnt.iter().min()? as f64),
        2 => Exp::Num(cnt.iter().max().copied().unwrap_or(0) as f64),
        3 => Exp::Num(if cnt.is_empty() { 0.0 } else { cnt.iter().sum::<usize>() as f64 / cnt.len() as f64 }),
        4 => {
            let nonempty: Vec<&Vec<u8>> = vals.iter().filter(|v| !v.is_empty()).collect();
            if nonempty.last().is_some_and(|v| v.last() == Some(&a.delim)) {
                return None;
            }
            let mut parts: Vec<Vec<u8>> = nonempty.iter().flat_map(|v| v.split(|c| *c == a.delim).map(<[u8]>::to_vec)).collect();
            if a.sort {
                parts.sort_by(|x, y| flip(a.method.cmp(x, y), a.rev));
            }
            if a.uniq {
                parts.dedup_by(|y, x| a.method.cmp(x, y) == Ordering::Equal);
            }
            parts.retain(|p| p.len() >= a.min_len && p.len() <= a.max_len);
            if a.count {
                Exp::Num(parts.len() as f64)
            } else {
                parts.truncate(a.max_parts);
                Exp::Text(join_cells(&parts, a.out))
            }
        }
        5 => Exp::Num((a.init + vals.len() as i64) as f64),
        6 | 7 => {
            let mut p = vals.first()?.clone();
            for v in vals {
                let rev = |x: &[u8]| x.iter().rev().copied().collect::<Vec<u8>>();
                let (x, y) = if a.kind == 6 { (p.clone(), v.clone()) } else { (rev(&p), rev(v)) };
                let n = x.iter().zip(&y).take_while(|(a, b)| a == b).count();
                p = if a.kind == 6 { x[..n].to_vec() } else { rev(&x[..n]) };
            }
            Exp::Text(p)
        }
        8 | 11 => {
            let mut b = vals.first()?;
            for v in vals {
                let o = flip(a.method.cmp(v, b), a.rev);
                if (a.kind == 8 && o == Ordering::Less) || (a.kind == 11 && o == Ordering::Greater) {
                    b = v;
                }
            }
            Exp::Text(b.clone())
        }
        9 => Exp::Num(if vals.is_empty() { 0.0 } else { vals.iter().map(|v| ref_f64(v)).sum::<f64>() / vals.len() as f64 }),
        _ => Exp::Num(vals.iter().map(|v| ref_f64(v)).sum::<f64>()),
    })
}

enum Place {
    Replace(usize),
    Pre(String, usize),
    Post(String, usize),
}
enum What {
    Agg(AggSpec),
    /// x = a*x + b*col
    Expr(i64, i64, i64),
    Count,
}

fn uniq_agg(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let (mut t, ks, ragged) = clumpy(s, 8);
    if t.rows.is_empty() && t.header.is_none() {
        t.header = Some(names(s, ks.len()));
    }
    let rect = if ragged { None } else { Some(ks.len()) };
    let kys = keys(s, t.header.as_deref(), &ks, rect);
    let eff = if kys.is_empty() { vec![whole_key()] } else { kys.clone() };
    let width = t.header.as_ref().map_or_else(|| t.rows[0].len(), Vec::len);
    let mut args = vec!["uniq".to_string()];
    for k in &kys {
        args.push("-k".into());
        args.push(k.spec.clone());
    }
    let (which, wk) = which_arg(s, &t, &ks, rect, &mut args);
    let mut plan: Vec<(Place, What)> = Vec::new();
    let na = s.size(1, 3, 10);
    for i in 0..na {
        let c = s.usize(width);
        let a = agg_spec(s, ks[c]);
        let col = col_spec(s, c, t.header.as_deref(), if rect.is_some() { Some(width) } else { None });
        let new = format!("new{i}");
        let ints = ks[c] == Kind::Int && s.chance(1, 4);
        let place = s.usize(3);
        let (txt, what, place) = if ints {
            let (a, b, init) = (s.irange(-1, 2), s.irange(-2, 2), s.irange(-3, 3));
            let cn = t.header.as_ref().map_or_else(|| format!("c{}", c + 1), |h| h[c].clone());
            (format!("expr,x,{init},({a})*x+({b})*{cn}"), What::Expr(a, b, init), 1 + place % 2)
        } else {
            (format!("{col},{}", a.text), What::Agg(a), place)
        };
        if place == 0 && plan.iter().any(|p| matches!(&p.0, Place::Replace(x) if *x == c)) {
            continue;
        }
        let (opt, val, place) = match place {
            0 => ("-a", txt, Place::Replace(c)),
            1 => ("--agg-pre", format!("{new},{txt}"), Place::Pre(new, c)),
            _ => ("--agg-post", format!("{new},{txt}"), Place::Post(new, c)),
        };
        args.push(opt.into());
        args.push(val);
        plan.push((place, what));
    }
    match s.weighted(&[2, 1, 1]) {
        1 => {
            args.push("-c".into());
            args.push("Num".into());
            plan.insert(0, (Place::Pre("Num".into(), 0), What::Count));
        }
        2 => {
            args.push("-c".into());
            args.push("Num,end".into());
            plan.push((Place::Post("Num".into(), 0), What::Count));
        }
        _ => {}
    }
    let lines = t.lines();
    let gs = groups(&eff, &lines);
    let mut want: Vec<Vec<Option<Exp>>> = Vec::new();
    let eval = |w: &What, c: usize, g: &[usize]| -> Option<Exp> {
        let vals: Vec<Vec<u8>> = g.iter().map(|i| field(&lines[*i], c).to_vec()).collect();
        match w {
            What::Agg(a) => agg_ref(a, &vals),
            What::Expr(a, b, init) => {
                let mut x = *init as f64;
                for v in &vals {
                    x = *a as f64 * x + *b as f64 * ref_f64(v);
                }
                Some(Exp::Num(x))
            }
            What::Count => Some(Exp::Num(g.len() as f64)),
        }
    };
    for g in &gs {
        let l = &lines[pick(which, &wk, &lines, g)];
        let mut row = Vec::new();
        for (p, w) in &plan {
            if let Place::Pre(_, c) = p {
                row.push(eval(w, *c, g));
            }
        }
        for c in 0..width {
            let r = plan.iter().find(|(p, _)| matches!(p, Place::Replace(x) if *x == c));
            row.push(match r {
                Some((_, w)) => eval(w, c, g),
                None => Some(Exp::Text(field(l, c).to_vec())),
            });
        }
        for (p, w) in &plan {
            if let Place::Post(_, c) = p {
                row.push(eval(w, *c, g));
            }
        }
        want.push(row);
    }
    let nl = !s.chance(1, 4);
    let data = t.bytes_nl(nl);
    let o = cdx_ok(ctx, &args, Some(&data))?;
    let mut rest = &o.out[..];
    if let Some(h) = &t.header {
        let mut v: Vec<String> = Vec::new();
        for (p, _) in &plan {
            if let Place::Pre(n, _) = p {
                v.push(n.clone());
            }
        }
        v.extend(h.clone());
        for (p, _) in &plan {
            if let Place::Post(n, _) = p {
                v.push(n.clone());
            }
        }
        let hl = header_line(&v);
        if !rest.starts_with(&hl) {
            return Err(format!("wrong header: {}\n  input \"{}\"\n  expected \"{}\"", o.describe(), show(&data), show(&hl)));
        }
        rest = &rest[hl.len()..];
    }
    if !rest.is_empty() && !rest.ends_with(b"\n") {
        return Err(format!("incomplete last line: {}", o.describe()));
    }
    let got: Vec<Vec<Vec<u8>>> = rest.split(|c| *c == b'\n').map(|l| l.split(|c| *c == b'\t').map(<[u8]>::to_vec).collect()).collect();
    let got = &got[..got.len() - 1];
    let bad = got.len() != want.len()
        || got.iter().zip(&want).any(|(g, w)| g.len() != w.len() || g.iter().zip(w).any(|(a, b)| b.as_ref().is_some_and(|b| !b.matches(a))));
    if bad {
        let w: Vec<Vec<String>> = want.iter().map(|r| r.iter().map(|e| e.as_ref().map_or("?".into(), Exp::show)).collect()).collect();
        return Err(format!("{}\n  input \"{}\"\n  expected {w:?}", o.describe(), show(&data)));
    }
    ok(gs.len() > 1 && gs.iter().any(|g| g.len() > 2), (&t, &args), || format!("{} input \"{}\"", o.cmd(), show(&data)))
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C06",
            rule: "at least two groups, one of them with more than one line",
            arms: vec![Arm { name: "uniq", quick: 12000, thorough: 300_000, f: uniq_cli }],
        },
        Prop {
            id: "C07",
            rule: "at least two groups, one of them with more than two lines",
            arms: vec![Arm { name: "agg", quick: 12000, thorough: 300_000, f: uniq_agg }],
        },
    ]
}
