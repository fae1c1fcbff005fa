//! C24: verify
use crate::engine::*;
use crate::gen::*;
use crate::model::*;
use crate::props::grep::{line_matcher, LineMatcher};
use crate::run::*;
use std::cmp::Ordering;

const OPS: [(&str, &str); 6] = [("<", "LT"), (">", "GT"), ("<=", "LE"), (">=", "GE"), ("==", "EQ"), ("!=", "NE")];
fn op_ok(op: usize, o: Ordering) -> bool {
    match op {
        0 => o == Ordering::Less,
        1 => o == Ordering::Greater,
        2 => o != Ordering::Greater,
        3 => o != Ordering::Less,
        4 => o == Ordering::Equal,
        _ => o != Ordering::Equal,
    }
}
/// line compared to value
fn cmp_val(k: &Key, line: &[u8], val: &[u8]) -> Ordering {
    let line = line.strip_suffix(b"\n").unwrap_or(line);
    let o = match (k.method, k.col) {
        (Method::Expr(..), _) => fcmp(lin(line, k.method), ref_f64(val)),
        (m, None) => m.cmp(line, val),
        (m, Some(c)) => m.cmp(field(line, c), val),
    };
    if k.rev {
        o.reverse()
    } else {
        o
    }
}
fn plain_value(v: &[u8]) -> bool {
    !v.is_empty() && std::str::from_utf8(v).is_ok() && !v.iter().any(|c| b"<>!=,\n\0".contains(c))
}
/// condition on the first or last line
struct Cond {
    spec: String,
    parts: Vec<(usize, Vec<Vec<u8>>)>,
}
impl Cond {
    fn gen(s: &mut Src, keys: &[Key], lines: &[Vec<u8>]) -> Option<Self> {
        let two = s.chance(1, 3);
        let mut parts = Vec::new();
        for _ in 0..(if two { 2 } else { 1 }) {
            let mut vals = Vec::new();
            for k in keys {
                let v: Vec<u8> = if !lines.is_empty() && s.chance(2, 3) {
                    let l = match s.usize(3) {
                        0 => &lines[0],
                        1 => &lines[lines.len() - 1],
                        _ => s.pick(lines),
                    };
                    let l = l.strip_suffix(b"\n").unwrap_or(l);
                    match (k.method, k.col) {
                        (Method::Expr(..), _) => (lin(l, k.method) as i64).to_string().into_bytes(),
                        (_, None) => l.to_vec(),
                        (_, Some(c)) => field(l, c).to_vec(),
                    }
                } else {
                    let kind = *s.pick(&KINDS);
                    value(s, kind)
                };
                if !plain_value(&v) {
                    return None;
                }
                vals.push(v);
            }
            parts.push((s.usize(6), vals));
        }
        // with names, the first of two values cannot contain a comma
        let named = if two && keys.len() > 1 { false } else { s.coin() };
        let mut spec = String::new();
        for (i, (op, vals)) in parts.iter().enumerate() {
            let v = String::from_utf8(vals.join(&b',')).unwrap();
            if named {
                if i > 0 {
                    spec.push(',');
                }
                spec.push_str(OPS[*op].1);
                spec.push(',');
            } else {
                spec.push_str(OPS[*op].0);
            }
            spec.push_str(&v);
        }
        Some(Self { spec, parts })
    }
    fn ok(&self, keys: &[Key], line: &[u8]) -> bool {
        self.parts.iter().all(|(op, vals)| {
            let mut o = Ordering::Equal;
            for (k, v) in keys.iter().zip(vals) {
                o = cmp_val(k, line, v);
                if o != Ordering::Equal {
                    break;
                }
            }
            op_ok(*op, o)
        })
    }
}

fn verify(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let ragged = s.chance(1, 5);
    let (t, ks) = table(s, &TableOpt { max_rows: 12, max_cols: 4, ragged, header: 60 });
    let nf = 1 + s.weighted(&[6, 2, 1]);
    let mut tables = vec![t];
    for _ in 1..nf {
        let t = more(s, &tables[0], &ks, 8, ragged);
        tables.push(t);
    }
    let has_head = tables[0].header.is_some();
    let names: Vec<String> = tables[0].header.clone().unwrap_or_else(|| (1..=ks.len()).map(|i| format!("c{i}")).collect());
    if !has_head {
        for t in &mut tables {
            if let Some(r) = t.rows.first_mut() {
                while r.len() < ks.len() {
                    r.push(b"q".to_vec());
                }
            }
        }
    }
    if ragged {
        // too many columns
        for t in &mut tables {
            for (i, r) in t.rows.iter_mut().enumerate() {
                if (has_head || i > 0) && s.chance(1, 5) {
                    while r.len() < ks.len() || r.len() == ks.len() || s.coin() && r.len() < 12 {
                        r.push(b"q".to_vec());
                    }
                }
            }
        }
    }
    let kk = keys(s, tables[0].header.as_deref(), &ks, if ragged { None } else { Some(ks.len()) });
    let eff = if kk.is_empty() { vec![whole_key()] } else { kk.clone() };
    let mode = s.weighted(&[2, 3, 3]);
    // mostly sorted, so that not everything fails
    for t in &mut tables {
        if has_head && s.chance(4, 5) || !has_head && !ragged {
            t.rows.sort_by(|a, b| {
                let (a, b) = (join_cells(a, b'\t'), join_cells(b, b'\t'));
                let n = |mut v: Vec<u8>| {
                    v.push(b'\n');
                    v
                };
                cmp_keys(&eff, &n(a), &n(b))
            });
            if mode == 2 && s.chance(3, 4) {
                let mut i = 1;
                while i < t.rows.len() {
                    let l = t.lines();
                    if cmp_keys(&eff, &l[i - 1], &l[i]) == Ordering::Equal {
                        t.rows.remove(i);
                    } else {
                        i += 1;
                    }
                }
            }
            if t.rows.len() > 1 && s.chance(1, 5) {
                let i = s.usize(t.rows.len() - 1);
                if !bad_first(&t.rows[i + 1][0]) {
                    t.rows.swap(i, i + 1);
                }
            }
        }
    }
    let lines: Vec<Vec<u8>> = tables.iter().flat_map(Table::lines).collect();
    let mut args = vec!["verify".to_string()];
    for k in &kk {
        args.push("-k".into());
        args.push(k.spec.clone());
    }
    match mode {
        1 => args.push((*s.pick(&["-s", "--sort"])).into()),
        2 => args.push((*s.pick(&["-u", "--unique"])).into()),
        _ => {}
    }
    let mut fresh = 0;
    let nm = s.weighted(&[4, 2, 1]);
    let mut ms: Vec<LineMatcher> = Vec::new();
    for _ in 0..nm {
        let mut m = line_matcher(s, ctx, &names, &lines, &mut fresh);
        for _ in 0..4 {
            // prefer what holds for most lines
            if lines.iter().filter(|l| !m.eval(l)).count() * 4 <= lines.len() {
                break;
            }
            m = line_matcher(s, ctx, &names, &lines, &mut fresh);
        }
        args.push("-p".into());
        args.push(m.spec.clone());
        ms.push(m);
    }
    let first = if s.chance(1, 4) { Cond::gen(s, &eff, &lines) } else { None };
    let last = if s.chance(1, 4) { Cond::gen(s, &eff, &lines) } else { None };
    if let Some(c) = &first {
        args.push((*s.pick(&["-f", "--first"])).into());
        args.push(c.spec.clone());
    }
    if let Some(c) = &last {
        args.push((*s.pick(&["-l", "--last"])).into());
        args.push(c.spec.clone());
    }
    let mut max = 5;
    if s.chance(1, 4) {
        max = s.range(1, 30);
        args.push("-r".into());
        args.push(max.to_string());
    }
    let opts = args.clone();
    let mut files = Vec::new();
    // line numbers with the wrong number of columns or without match, and number of failures, of the first bad file
    let mut bad: Option<(String, Vec<usize>, usize)> = None;
    for (i, t) in tables.iter().enumerate() {
        let nl = !s.chance(1, 4);
        let f = t.bytes_nl(nl);
        let path = ctx.file(&format!("v{i}"), &f);
        args.push(path.clone());
        files.push(f);
        if bad.is_some() || t.rows.is_empty() {
            continue;
        }
        let l = t.lines();
        let width = if has_head { names.len() } else { t.rows[0].len() };
        let mut nums = Vec::new();
        let mut fails = 0;
        for j in 0..l.len() {
            if t.rows[j].len() != width || !ms.iter().all(|m| m.eval(&l[j])) {
                nums.push(j + 1);
                fails += 1;
            }
            if j > 0 && mode > 0 {
                match cmp_keys(&eff, &l[j - 1], &l[j]) {
                    Ordering::Greater => fails += 1,
                    Ordering::Equal if mode == 2 => fails += 1,
                    _ => {}
                }
            }
        }
        if first.as_ref().is_some_and(|c| !c.ok(&eff, &l[0])) {
            fails += 1;
        }
        if last.as_ref().is_some_and(|c| !c.ok(&eff, &l[l.len() - 1])) {
            fails += 1;
        }
        if fails > 0 {
            bad = Some((path, nums, fails));
        }
    }
    let o = cdx(ctx, &args, None);
    let want = i32::from(bad.is_some());
    let what = || format!("{}\n  input {:?}\n  expected exit {want}", o.describe(), files.iter().map(|f| show(f)).collect::<Vec<_>>());
    if o.code != want || o.timeout || !o.out.is_empty() {
        return Err(what());
    }
    if want == 1 && o.err.is_empty() {
        return Err(format!("{}\n  and a message", what()));
    }
    if let Some((path, nums, fails)) = &bad {
        // line numbers in the messages
        let err = String::from_utf8_lossy(&o.err);
        let mut got: Vec<usize> = Vec::new();
        for (i, _) in err.match_indices(&format!(" of {path}")) {
            let d: String = err[..i].chars().rev().take_while(char::is_ascii_digit).collect::<Vec<_>>().into_iter().rev().collect();
            if let Ok(n) = d.parse::<usize>() {
                if got.last() != Some(&n) {
                    got.push(n);
                }
            }
        }
        let same = if *fails < max { got == *nums } else { got.iter().all(|g| nums.contains(g)) };
        if !same {
            return Err(format!("{}\n  lines reported: {got:?}, wrong are {nums:?}", what()));
        }
    } else if !o.err.is_empty() {
        return Err(format!("{}\n  and no message", what()));
    }
    let checks = usize::from(mode > 0) + nm + usize::from(first.is_some()) + usize::from(last.is_some());
    ok(lines.len() > 1 && (checks > 0 || want == 1), (&tables, &opts), || format!("{} input {:?}", o.cmd(), files.iter().map(|f| show(f)).collect::<Vec<_>>()))
}

pub fn prop() -> Prop {
    Prop {
        id: "C24",
        rule: "non-trivial: at least two lines, and an ordering, matcher, first or last condition, or a failure",
        arms: vec![Arm { name: "verify", quick: 14_000, thorough: 250_000, f: verify }],
    }
}
