//! binsearch against a linear scan
use crate::engine::*;
use crate::gen::*;
use crate::model::*;
use crate::run::*;
use std::cmp::Ordering;

fn arg_ok(b: &[u8], sub: Option<u8>) -> bool {
    std::str::from_utf8(b).is_ok() && !b.contains(&0) && sub.is_none_or(|d| !b.contains(&d))
}

/// the line without its newline
fn bare(l: &[u8]) -> &[u8] {
    l.strip_suffix(b"\n").unwrap_or(l)
}
fn string_word(s: &mut Src) -> Cell {
    value(s, Kind::Word)
}

fn search(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let max = if s.chance(1, 25) { 300 } else { 20 };
    let ragged = s.chance(1, 4);
    let (t, ks) = table(s, &TableOpt { max_rows: max, max_cols: 4, ragged, header: 50 });
    let nf = 1 + s.weighted(&[6, 2, 1]);
    let mut tables = vec![t];
    for _ in 1..nf {
        let t = more(s, &tables[0], &ks, max, ragged);
        tables.push(t);
    }
    // files without a header may have different numbers of columns: keys counted from the end still work
    let mut shift = vec![0usize; nf];
    let from_end = !ragged && tables[0].header.is_none() && tables.iter().all(|t| !t.rows.is_empty()) && s.chance(1, 3);
    if from_end {
        for (t, sh) in tables.iter_mut().zip(&mut shift) {
            *sh = s.usize(3);
            for r in &mut t.rows {
                for _ in 0..*sh {
                    r.insert(0, string_word(s));
                }
            }
        }
    }
    let rect = if ragged { None } else { Some(ks.len()) };
    // keys: columns only
    let nk = s.weighted(&[2, 6, 3, 1]);
    let mut keys: Vec<Key> = Vec::new();
    for _ in 0..nk {
        let rev = s.chance(1, 4);
        if !from_end && s.chance(1, 8) {
            // the whole line
            let m = *s.pick(&[Method::Plain, Method::Lower, Method::Length]);
            keys.push(Key { col: None, method: m, rev, spec: spec_of(s, "", m, rev) });
            continue;
        }
        let c = s.usize(ks.len());
        let m = method_for(s, ks[c]);
        if from_end {
            keys.push(Key { col: Some(c), method: m, rev, spec: spec_of(s, &format!("+{}", ks.len() - c), m, rev) });
            continue;
        }
        // names and positions from the end are looked up in each file: empty files have other names
        let named = tables[0].header.is_some() || (rect.is_some() && tables.iter().all(|t| !t.rows.is_empty()));
        let name = if named { col_spec(s, c, tables[0].header.as_deref(), rect) } else { (c + 1).to_string() };
        keys.push(Key { col: Some(c), method: m, rev, spec: spec_of(s, &name, m, rev) });
    }
    let eff: Vec<Key> = if keys.is_empty() {
        vec![Key { col: Some(0), method: Method::Plain, rev: false, spec: String::new() }]
    } else {
        keys.clone()
    };
    if keys.is_empty() {
        shift = vec![0; nf];
    }
    let sub = *s.pick(&[b',', b',', b':', b'|', b'a']);
    let multi = eff.len() > 1;
    // the value to look for, one per key
    let all: Vec<Vec<u8>> = tables.iter().flat_map(Table::lines).collect();
    let all_shift: Vec<usize> = tables.iter().zip(&shift).flat_map(|(t, x)| vec![*x; t.rows.len()]).collect();
    let pick_row = if !all.is_empty() && !s.chance(1, 4) { Some(s.usize(all.len())) } else { None };
    let vals: Vec<Cell> = eff
        .iter()
        .map(|k| {
            let v = match (pick_row, k.col) {
                (Some(r), Some(c)) if !s.chance(1, 8) => field(&all[r], c + all_shift[r]).to_vec(),
                (Some(r), None) if !s.chance(1, 8) => bare(&all[r]).to_vec(),
                (_, c) => value(s, ks[c.unwrap_or(0)]),
            };
            if arg_ok(&v, if multi { Some(sub) } else { None }) {
                v
            } else {
                b"b".to_vec()
            }
        })
        .collect();
    let pattern = join_cells(&vals, sub);
    let part = |k: &Key, line: &[u8], sh: usize| -> Cell { k.col.map_or_else(|| bare(line).to_vec(), |c| field(line, c + sh).to_vec()) };
    // line against value
    let probe_cmp = |line: &[u8], sh: usize| -> Ordering {
        for (k, v) in eff.iter().zip(&vals) {
            let o = k.method.cmp(&part(k, line, sh), v);
            let o = if k.rev { o.reverse() } else { o };
            if o != Ordering::Equal {
                return o;
            }
        }
        Ordering::Equal
    };
    let line_cmp = |a: &[u8], b: &[u8], sh: usize| -> Ordering {
        for k in &eff {
            let o = flip(k.method.cmp(&part(k, a, sh), &part(k, b, sh)), k.rev);
            if o != Ordering::Equal {
                return o;
            }
        }
        Ordering::Equal
    };
    let mut args = vec!["binsearch".to_string()];
    for k in &keys {
        args.push("-k".into());
        args.push(k.spec.clone());
    }
    if multi && sub != b',' {
        args.push("-s".into());
        args.push((sub as char).to_string());
    }
    // context: before match, before non, after match, after non
    let mut cx = [0usize; 4];
    match s.weighted(&[4, 1, 2, 2, 1]) {
        0 => {}
        4 => {
            let (y, n) = (s.size(0, 4, 60), s.size(0, 4, 60));
            cx = [y, n, y, n];
            args.push("-C".into());
            args.push(format!("{y}.{n}"));
        }
        1 => {
            let n = s.size(0, 4, 60);
            cx = [n; 4];
            args.push("-C".into());
            args.push(n.to_string());
        }
        2 => {
            let (a, b) = (s.size(0, 4, 60), s.size(0, 4, 60));
            cx = [a, a, b, b];
            args.push("-C".into());
            args.push(format!("{a},{b}"));
        }
        _ => {
            for x in &mut cx {
                *x = s.size(0, 4, 60);
            }
            args.push("-C".into());
            args.push(format!("{}.{},{}.{}", cx[0], cx[1], cx[2], cx[3]));
        }
    }
    // file name column
    let fname: Option<(String, usize)> = match s.weighted(&[4, 1, 2]) {
        0 => None,
        1 => Some(("file".into(), 0)),
        _ => Some(("file".into(), s.range(1, 3))),
    };
    if let Some((n, p)) = &fname {
        args.push("-H".into());
        args.push(if *p == 0 { n.clone() } else { format!("{n}:{p}") });
    }
    args.push("--".into());
    args.push(String::from_utf8(pattern).unwrap());
    let mut want = Vec::new();
    let mut files = Vec::new();
    let mut hits = 0;
    let mut between = false;
    for (i, t) in tables.iter().enumerate() {
        let sh = shift[i];
        let mut sorted = t.lines();
        sorted.sort_by(|a, b| line_cmp(a, b, sh));
        let mut data = t.head();
        data.extend(cat(&sorted));
        if s.chance(1, 4) && sorted.last().is_some_and(|l| l.len() > 1) {
            data.pop();
        }
        let path = ctx.file(&format!("f{i}"), &data);
        if i == 0 {
            if let Some(h) = &t.header {
                let mut h = h.clone();
                if let Some((n, _)) = &fname {
                    h.insert(0, n.clone());
                }
                want.extend(header_line(&h));
            }
        }
        let lo = sorted.iter().take_while(|l| probe_cmp(l, sh) == Ordering::Less).count();
        let hi = lo + sorted[lo..].iter().take_while(|l| probe_cmp(l, sh) == Ordering::Equal).count();
        let found = hi > lo;
        hits += hi - lo;
        between |= !found && lo > 0 && hi < sorted.len();
        let (b, a) = if found { (cx[0], cx[2]) } else { (cx[1], cx[3]) };
        let from = lo.saturating_sub(b);
        let to = (hi + a).min(sorted.len());
        for l in &sorted[from..to] {
            if let Some((_, p)) = &fname {
                let parts: Vec<&str> = path.split('/').collect();
                let tail = if *p == 0 { path.clone() } else { parts[parts.len() - p..].join("/") };
                want.extend(tail.as_bytes());
                want.push(b'\t');
            }
            want.extend(l);
        }
        files.push(data);
        args.push(path);
    }
    let o = cdx_ok(ctx, &args, None)?;
    if o.out != want {
        return Err(format!("{}\n  input {:?}\n  expected \"{}\"", o.describe(), files.iter().map(|f| show(f)).collect::<Vec<_>>(), show(&want)));
    }
    ok((hits > 0 || between) && all.len() > 3, (&tables, &args[..args.len() - tables.len()]), || {
        format!("{} input {:?}", o.cmd(), files.iter().map(|f| show(f)).collect::<Vec<_>>())
    })
}

pub fn prop() -> Prop {
    Prop {
        id: "C08",
        rule: "non-trivial: more than three lines, and the value is found or falls between two lines",
        arms: vec![Arm { name: "search", quick: 10_000, thorough: 150_000, f: search }],
    }
}
