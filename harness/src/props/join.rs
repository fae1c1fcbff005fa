//! join
use crate::engine::*;
use crate::gen::*;
use crate::model::*;
use crate::run::*;
use std::cmp::Ordering;

#[derive(Clone, Debug, Hash)]
struct JKey {
    p: usize,
    q: usize,
    method: Method,
    rev: bool,
}
fn cell(r: &[Cell], c: usize) -> &[u8] {
    r.get(c).map_or(b"", |x| &x[..])
}
fn cmp12(keys: &[JKey], a: &[Cell], fa: usize, b: &[Cell], fb: usize) -> Ordering {
    for k in keys {
        let ca = if fa == 0 { k.p } else { k.q };
        let cb = if fb == 0 { k.p } else { k.q };
        let o = k.method.cmp(cell(a, ca), cell(b, cb));
        let o = if k.rev { o.reverse() } else { o };
        if o != Ordering::Equal {
            return o;
        }
    }
    Ordering::Equal
}
fn perm(s: &mut Src, n: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..n).collect();
    for i in (1..n).rev() {
        let j = i - s.usize(i + 1);
        v.swap(i, j);
    }
    v
}
fn line_of(r: &[Cell]) -> Vec<u8> {
    let mut v = join_cells(r, b'\t');
    v.push(b'\n');
    v
}

pub fn join_cli(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let nk = 1 + s.weighted(&[24, 10, 3, 1]);
    let kk: Vec<Kind> = (0..nk).map(|_| *s.pick(&[Kind::Word, Kind::Int, Kind::Prefix, Kind::Case, Kind::Num, Kind::Ip, Kind::Float, Kind::Bytes])).collect();
    let n1 = nk + s.usize(3);
    let n2 = nk + s.usize(3);
    let p1 = perm(s, n1);
    let p2 = perm(s, n2);
    let header = s.coin();
    let same_names = s.coin();
    let all = names(s, 8);
    let mut h1: Vec<String> = (0..n1).map(|i| all[i].clone()).collect();
    let mut h2: Vec<String> = (0..n2).map(|i| format!("{}x", all[i])).collect();
    for i in 0..nk {
        h1[p1[i]] = format!("key{i}");
        h2[p2[i]] = if same_names { format!("key{i}") } else { format!("kez{i}") };
    }
    let mut keys: Vec<JKey> = Vec::new();
    let mut specs: Vec<String> = Vec::new();
    for i in 0..nk {
        let mut method = method_for(s, kk[i]);
        if method == Method::Equal {
            method = Method::Plain;
        }
        let rev = s.chance(1, 4);
        let k = JKey { p: p1[i], q: p2[i], method, rev };
        let nm = |s: &mut Src, c: usize, n: usize, h: &[String]| match s.weighted(&[3, 2, 1]) {
            1 if header => h[c].clone(),
            2 if header => format!("+{}", n - c),
            _ => (c + 1).to_string(),
        };
        let col = if header && same_names && s.coin() {
            format!("key{i}")
        } else if k.p == k.q && s.coin() {
            (k.p + 1).to_string()
        } else {
            format!("{}.{}", nm(s, k.p, n1, &h1), nm(s, k.q, n2, &h2))
        };
        let name = if header && same_names {
            Some(format!("key{i}"))
        } else if !header && k.p == k.q {
            Some(format!("c{}", k.p + 1))
        } else {
            None
        };
        if let (Some(name), Kind::Int, true) = (name, kk[i], s.chance(1, 4)) {
            // the value of an expression, the columns of which are found in each file
            let (down, t) = s.pick(&[(false, "K*2"), (true, "-K"), (true, "3-K*2"), (false, "(K-1)/4"), (false, "K+0")]);
            let e = t.replace('K', &name);
            let method = Method::Float;
            specs.push(format!(",{},{e}", if rev { *s.pick(&["expr.rev", "rev.expr"]) } else { "expr" }));
            keys.push(JKey { method, rev: rev ^ down, ..k });
            continue;
        }
        specs.push(spec_of(s, &col, method, rev));
        keys.push(k);
    }
    // key tuples
    let np = s.size(1, 8, 60);
    let pool: Vec<Vec<Cell>> = (0..np).map(|_| kk.iter().map(|k| value(s, *k)).collect()).collect();
    let mut mk = |s: &mut Src, n: usize, p: &[usize], max: usize| -> Vec<Vec<Cell>> {
        let rows = nrows(s, max);
        (0..rows)
            .map(|_| {
                let mut r: Vec<Cell> = vec![Vec::new(); n];
                let t = s.usize(np);
                let fresh = s.chance(1, 5);
                for i in 0..n {
                    r[p[i]] = if i < nk {
                        if fresh { value(s, kk[i]) } else { pool[t][i].clone() }
                    } else {
                        value(s, Kind::Word)
                    };
                }
                if bad_first(&r[0]) {
                    r[0] = b"q".to_vec();
                }
                r
            })
            .collect()
    };
    let mut r1 = mk(s, n1, &p1, 20);
    let mut r2 = mk(s, n2, &p2, 20);
    r1.sort_by(|a, b| cmp12(&keys, a, 0, b, 0));
    r2.sort_by(|a, b| cmp12(&keys, a, 1, b, 1));
    r2.dedup_by(|b, a| cmp12(&keys, a, 1, b, 1) == Ordering::Equal);
    // trailing empty cells may be left out
    for (i, r) in r1.iter_mut().enumerate().chain(r2.iter_mut().enumerate()) {
        if (i > 0 || header) && r.len() > 1 && r.last().is_some_and(|c| c.is_empty()) && s.chance(1, 3) {
            r.pop();
        }
    }
    let t1 = Table { header: if header { Some(h1.clone()) } else { None }, rows: r1 };
    let t2 = Table { header: if header { Some(h2.clone()) } else { None }, rows: r2 };
    let w1 = if header { n1 } else { t1.rows.first().map_or(0, Vec::len) };
    let w2 = if header { n2 } else { t2.rows.first().map_or(0, Vec::len) };

    // output columns
    let mut out: Vec<(usize, usize, String)> = Vec::new();
    let mut args = vec!["join".to_string()];
    let default_key = nk == 1 && keys[0].p == 0 && keys[0].q == 0 && keys[0].method == Method::Plain && !keys[0].rev && s.coin();
    if !default_key {
        for k in &specs {
            args.push("-k".into());
            args.push(k.clone());
        }
    }
    let nm = |f: usize, c: usize| if !header { String::new() } else if f == 0 { h1[c].clone() } else { h2[c].clone() };
    if s.chance(1, 2) && w1 > 0 && w2 > 0 {
        let nopt = s.size(1, 2, 6);
        for _ in 0..nopt {
            let mut spec = String::new();
            let parts = s.size(1, 3, 9);
            let mut last: Option<usize> = None;
            for _ in 0..parts {
                let f = s.usize(2);
                let w = if f == 0 { w1 } else { w2 };
                let a = s.usize(w);
                let b = s.range(a, w - 1);
                let (txt, cols, rename) = match s.weighted(&[3, 2, 2, 1]) {
                    0 => ((a + 1).to_string(), vec![a], None),
                    1 => (format!("{}-{}", a + 1, b + 1), (a..=b).collect::<Vec<_>>(), None),
                    2 if header => (nm(f, a), vec![a], None),
                    3 if header => (format!("ren{}:{}", out.len(), a + 1), vec![a], Some(format!("ren{}", out.len()))),
                    _ => (format!("+{}", w - a), vec![a], None),
                };
                if !spec.is_empty() {
                    spec.push(',');
                }
                if last != Some(f) || s.chance(1, 3) {
                    spec.push_str(&format!("{}.", f + 1));
                }
                last = Some(f);
                spec.push_str(&txt);
                for c in cols {
                    out.push((f, c, rename.clone().unwrap_or_else(|| nm(f, c))));
                }
            }
            args.push("-o".into());
            args.push(spec);
        }
    } else {
        for c in 0..w1 {
            out.push((0, c, nm(0, c)));
        }
        for c in 0..w2 {
            if !keys.iter().any(|k| k.q == c) {
                out.push((1, c, nm(1, c)));
            }
        }
        if out.is_empty() {
            return ok(false, 0, String::new);
        }
    }
    // the model
    let mut want = Vec::new();
    let mut no1 = t1.head();
    let mut no2 = t2.head();
    if header {
        let v: Vec<String> = out.iter().map(|o| o.2.clone()).collect();
        want.extend(header_line(&v));
    }
    let mut matches = 0;
    for a in &t1.rows {
        let m: Vec<&Vec<Cell>> = t2.rows.iter().filter(|b| cmp12(&keys, a, 0, b, 1) == Ordering::Equal).collect();
        for b in &m {
            matches += 1;
            let cells: Vec<Cell> = out.iter().map(|(f, c, _)| cell(if *f == 0 { a } else { b }, *c).to_vec()).collect();
            want.extend(line_of(&cells));
        }
        if m.is_empty() {
            no1.extend(line_of(a));
        }
    }
    let mut un = 0;
    for b in &t2.rows {
        if !t1.rows.iter().any(|a| cmp12(&keys, a, 0, b, 1) == Ordering::Equal) {
            no2.extend(line_of(b));
            un += 1;
        }
    }
    let also1 = s.coin();
    let also2 = s.coin();
    for (w, n, f) in [(also1, 1, "no1"), (also2, 2, "no2")] {
        ctx.rm(f);
        if w {
            if s.chance(1, 4) {
                ctx.file(f, &b"old\n".repeat(400));
            }
            args.push("-a".into());
            args.push(format!("{n},{}", ctx.path(f)));
        }
    }
    let to_file = s.chance(1, 5);
    if to_file {
        if s.coin() {
            ctx.file("out", &b"old\n".repeat(400));
        } else {
            ctx.rm("out");
        }
        args.push("-f".into());
        args.push(ctx.path("out"));
    }
    let nl1 = !s.chance(1, 4);
    let nl2 = !s.chance(1, 4);
    let b1 = t1.bytes_nl(nl1);
    let b2 = t2.bytes_nl(nl2);
    let stdin = s.weighted(&[6, 1, 1]);
    args.push(if stdin == 1 { "-".into() } else { ctx.file("f1", &b1) });
    args.push(if stdin == 2 { "-".into() } else { ctx.file("f2", &b2) });
    let o = cdx_ok(ctx, &args, match stdin { 1 => Some(&b1[..]), 2 => Some(&b2[..]), _ => None })?;
    let ins = format!("f1=\"{}\" f2=\"{}\"", show(&b1), show(&b2));
    let got = if to_file { std::fs::read(ctx.path("out")).unwrap_or_default() } else { o.out.clone() };
    if to_file && !o.out.is_empty() {
        return Err(format!("output to a file, but stdout is not empty: {}\n  {ins}", o.describe()));
    }
    if got != want {
        return Err(format!("{}\n  {ins}\n  got \"{}\"\n  expected \"{}\"", o.describe(), show(&got), show(&want)));
    }
    for (w, f, exp) in [(also1, "no1", &no1), (also2, "no2", &no2)] {
        if w {
            let g = std::fs::read(ctx.path(f)).unwrap_or_default();
            if g != *exp {
                return Err(format!("{}\n  {ins}\n  unmatched file {f} \"{}\"\n  expected \"{}\"", o.describe(), show(&g), show(exp)));
            }
        }
    }
    ok(matches > 1 && un > 0, (&t1, &t2, &args[1..args.len() - 2].len(), &specs), || format!("{} {ins}", o.cmd()))
}

/// requests that make no sense must be refused, and nothing may crash
fn bad(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let w: Vec<usize> = (0..2).map(|_| s.range(1, 4)).collect();
    let header = s.coin();
    let tables: Vec<Table> = (0..2)
        .map(|f| {
            let n = s.range(1, 4);
            let mut r: Vec<Vec<Cell>> = (0..n).map(|i| (0..w[f]).map(|c| format!("{}{c}", (b'a' + i as u8) as char).into_bytes()).collect()).collect();
            r.dedup();
            Table { header: if header { Some((0..w[f]).map(|c| format!("{}{c}", ["x", "y"][f])).collect()) } else { None }, rows: r }
        })
        .collect();
    let good = |s: &mut Src| {
        let f = s.usize(2);
        format!("{}.{}", f + 1, s.range(1, w[f]))
    };
    let past = *s.pick(&[3usize, 3, 3, 4, 5, 10, 0]);
    let mut args = vec!["join".to_string()];
    match s.usize(5) {
        0 | 1 => {
            // a file that does not exist
            let mut v: Vec<String> = (0..s.usize(3)).map(|_| good(s)).collect();
            let at = s.usize(v.len() + 1);
            v.insert(at, format!("{past}.1"));
            args.push("-o".into());
            args.push(v.join(","));
        }
        2 => {
            // a column that does not exist
            let f = s.usize(2);
            let c = match s.usize(3) {
                0 => "nosuch".to_string(),
                1 => format!("+{}", w[f] + 1 + s.usize(2)),
                _ => "+0".to_string(),
            };
            let mut v: Vec<String> = (0..s.usize(3)).map(|_| good(s)).collect();
            let at = s.usize(v.len() + 1);
            v.insert(at, format!("{}.{c}", f + 1));
            args.push("-o".into());
            args.push(v.join(","));
        }
        3 => {
            args.push("-a".into());
            args.push(format!("{past},{}", ctx.path("no")));
        }
        _ => {
            args.push("-k".into());
            args.push((*s.pick(&["nosuch", "+9", "1.nosuch", "nosuch.1", "1,nosuch"])).to_string());
        }
    }
    for (i, t) in tables.iter().enumerate() {
        args.push(ctx.file(&format!("f{}", i + 1), &t.bytes()));
    }
    let o = cdx(ctx, &args, None);
    if o.code != 1 || o.timeout || o.err.is_empty() {
        return Err(format!("a bad request must be refused: {}\n  input {:?}", o.describe(), tables));
    }
    ok(true, (&tables, &args[..args.len() - 2]), || o.cmd())
}

pub fn prop() -> Prop {
    Prop {
        id: "C05",
        rule: "a request that must be refused, or at least two pairs of lines match and at least one line of file 2 is unmatched",
        arms: vec![Arm { name: "join", quick: 12000, thorough: 300_000, f: join_cli }, Arm { name: "bad", quick: 400, thorough: 5000, f: bad }],
    }
}
