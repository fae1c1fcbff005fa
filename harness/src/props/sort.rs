//! sort, merge, check
use crate::engine::*;
use crate::gen::*;
use crate::model::*;
use crate::run::*;
use std::cmp::Ordering;

pub struct SortCase {
    pub tables: Vec<Table>,
    pub keys: Vec<Key>,
    pub unique: bool,
    pub files: Vec<Vec<u8>>,
}
pub fn sort_case(s: &mut Src, max_rows: usize) -> SortCase {
    let ragged = s.chance(1, 3);
    let (t, ks) = table(s, &TableOpt { max_rows, max_cols: 4, ragged, header: 50 });
    let nf = 1 + s.weighted(&[5, 3, 2, 1]);
    let mut tables = vec![t];
    for _ in 1..nf {
        let t = more(s, &tables[0], &ks, max_rows, ragged);
        tables.push(t);
    }
    let rect = if ragged { None } else { Some(ks.len()) };
    let keys = keys(s, tables[0].header.as_deref(), &ks, rect);
    let unique = s.chance(1, 3);
    let files = tables.iter().map(|t| { let nl = !s.chance(1, 4); t.bytes_nl(nl) }).collect();
    SortCase { tables, keys, unique, files }
}
impl SortCase {
    pub fn eff_keys(&self) -> Vec<Key> {
        if self.keys.is_empty() {
            vec![whole_key()]
        } else {
            self.keys.clone()
        }
    }
    pub fn key_args(&self) -> Vec<String> {
        self.keys.iter().flat_map(|k| vec!["-k".to_string(), k.spec.clone()]).collect()
    }
    pub fn all_lines(&self) -> Vec<Vec<u8>> {
        self.tables.iter().flat_map(Table::lines).collect()
    }
    pub fn head(&self) -> Vec<u8> {
        self.tables[0].head()
    }
}
pub fn has_tie(keys: &[Key], lines: &[Vec<u8>]) -> bool {
    lines.windows(2).any(|w| cmp_keys(keys, &w[0], &w[1]) == Ordering::Equal)
}

fn sort_cli(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let max = if s.chance(1, 30) { 400 } else { 40 };
    let c = sort_case(s, max);
    let keys = c.eff_keys();
    let use_stdin = s.chance(1, 4);
    let mut args = vec!["sort".to_string()];
    args.extend(c.key_args());
    if c.unique {
        args.push("-u".into());
    }
    if s.chance(1, 6) {
        args.push("-a".into());
    }
    for (i, f) in c.files.iter().enumerate() {
        if use_stdin && i == 0 {
            args.push("-".into());
        } else {
            args.push(ctx.file(&format!("f{i}"), f));
        }
    }
    let stdin = if use_stdin { Some(&c.files[0][..]) } else { None };
    let o = cdx_ok(ctx, &args, stdin)?;
    let lines = c.all_lines();
    let sorted = ref_sort(&keys, &lines, c.unique);
    let mut want = c.head();
    want.extend(cat(&sorted));
    if o.out != want {
        return Err(format!("{}\n  input {:?}\n  expected \"{}\"", o.describe(), c.files.iter().map(|f| show(f)).collect::<Vec<_>>(), show(&want)));
    }
    ok(lines.len() > 2 && lines != sorted, (&c.tables, &c.keys, c.unique), || {
        format!("{} input {:?}", o.cmd(), c.files.iter().map(|f| show(f)).collect::<Vec<_>>())
    })
}

/// by random order: equal keys are together, and otherwise sorted as always
fn random_cli(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let max = if s.chance(1, 10) { 400 } else { 60 };
    let mut c = sort_case(s, max);
    let whole = s.chance(1, 6);
    let ncol = c.tables[0].rows.iter().map(Vec::len).max().unwrap_or(1).max(1);
    let col = s.usize(ncol.max(c.tables[0].header.as_ref().map_or(0, Vec::len)));
    if s.coin() {
        c.keys.clear();
    }
    let kind = *s.pick(&["random", "random", "rev.random", "Random"]);
    let mut args = vec!["sort".to_string(), "-k".into(), if whole { format!(",{kind}") } else { format!("{},{kind}", col + 1) }];
    args.extend(c.key_args());
    if c.unique {
        args.push("-u".into());
    }
    for (i, f) in c.files.iter().enumerate() {
        args.push(ctx.file(&format!("f{i}"), f));
    }
    let o = cdx_ok(ctx, &args, None)?;
    let bad = |why: &str| format!("{why}: {}\n  input {:?}", o.describe(), c.files.iter().map(|f| show(f)).collect::<Vec<_>>());
    let class = |l: &[u8]| -> Vec<u8> { if whole { l.to_vec() } else { field(l, col).to_vec() } };
    let lines = c.all_lines();
    let mut want: std::collections::HashMap<Vec<u8>, Vec<Vec<u8>>> = std::collections::HashMap::new();
    for l in &lines {
        want.entry(class(l)).or_default().push(l.clone());
    }
    let classes = want.len();
    let mut rest = match o.out.strip_prefix(&c.head()[..]) {
        Some(r) => r,
        None => return Err(bad("header missing")),
    };
    while !rest.is_empty() {
        let n = rest.iter().position(|b| *b == b'\n').map_or(rest.len(), |i| i + 1);
        match want.remove(&class(&rest[..n])) {
            None => return Err(bad(&format!("\"{}\" is not with its equals, or not in the input", show(&rest[..n])))),
            Some(ls) => {
                let part = cat(&ref_sort(&c.keys, &ls, c.unique));
                if !rest.starts_with(&part) {
                    return Err(bad(&format!("lines with the key \"{}\" should be \"{}\"", show(&class(&rest[..n])), show(&part))));
                }
                rest = &rest[part.len()..];
            }
        }
    }
    if !want.is_empty() {
        return Err(bad("lines are missing"));
    }
    if classes >= 15 {
        let p = cdx_ok(ctx, &args, None)?;
        if p.out == o.out {
            return Err(bad("twice the same order of 15 or more keys"));
        }
    }
    ok(classes > 2 && classes < lines.len(), (&c.tables, &args), || o.cmd())
}

/// merging sorted files is sorting their concatenation
pub const MERGE_RULE: &str = "merge arm non-trivial: two or more non-empty files and at least one tie among all lines";
pub fn merge_cli(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let mut c = sort_case(s, 25);
    if s.chance(1, 5) {
        // many files
        let n = s.size(2, 12, 70);
        let extra: Vec<Table> = (0..n).map(|_| { let i = s.usize(c.tables.len()); c.tables[i].clone() }).collect();
        c.tables.extend(extra);
    }
    let keys = c.eff_keys();
    let mut args = vec!["sort".to_string(), "-m".to_string()];
    args.extend(c.key_args());
    if c.unique {
        args.push("-u".into());
    }
    let alt = s.coin();
    if alt {
        args.push("-A".into());
    }
    let use_stdin = s.chance(1, 6);
    let mut stdin = None;
    let mut files = Vec::new();
    for (i, t) in c.tables.iter().enumerate() {
        let mut f = t.head();
        f.extend(cat(&ref_sort(&keys, &t.lines(), false)));
        if f.ends_with(b"\n") && f.len() > t.head().len() && !f.ends_with(b"\n\n") && s.chance(1, 4) && f.len() > t.head().len() + 1 {
            f.pop();
        }
        files.push(f.clone());
        if use_stdin && i == 0 {
            args.push("-".into());
            stdin = Some(f);
        } else {
            args.push(ctx.file(&format!("f{i}"), &f));
        }
    }
    let o = cdx_ok(ctx, &args, stdin.as_deref())?;
    let lines: Vec<Vec<u8>> = c.all_lines();
    let sorted = ref_sort(&keys, &lines, c.unique);
    let mut want = c.head();
    want.extend(cat(&sorted));
    if o.out != want {
        return Err(format!("{}\n  input {:?}\n  expected \"{}\"", o.describe(), files.iter().map(|f| show(f)).collect::<Vec<_>>(), show(&want)));
    }
    ok(c.tables.iter().filter(|t| !t.rows.is_empty()).count() > 1 && has_tie(&keys, &ref_sort(&keys, &lines, false)), (&c.tables, &c.keys, c.unique, alt), || {
        format!("{} input {:?}", o.cmd(), files.iter().map(|f| show(f)).collect::<Vec<_>>())
    })
}

/// sort --check accepts exactly the files that are in order
fn check_cli(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let mut c = sort_case(s, 12);
    let keys = c.eff_keys();
    // most files are sorted, and a few lines moved
    for t in &mut c.tables {
        let mut idx: Vec<usize> = (0..t.rows.len()).collect();
        let lines = t.lines();
        idx.sort_by(|a, b| cmp_keys(&keys, &lines[*a], &lines[*b]));
        let mut rows: Vec<Vec<Cell>> = idx.iter().map(|i| t.rows[*i].clone()).collect();
        if c.unique && s.coin() {
            rows.dedup_by(|a, b| {
                let x = Table { header: None, rows: vec![a.clone(), b.clone()] }.lines();
                cmp_keys(&keys, &x[0], &x[1]) == Ordering::Equal
            });
        }
        let moves = s.weighted(&[5, 3, 1]);
        for _ in 0..moves {
            if rows.len() > 1 {
                let i = s.usize(rows.len() - 1);
                rows.swap(i, i + 1);
            }
        }
        t.rows = rows;
    }
    let limit = if s.coin() { 1 } else { s.range(1, 4) };
    let mut args = vec!["sort".to_string()];
    if limit == 1 {
        args.push("-c".into());
    } else {
        args.push("-C".into());
        args.push(limit.to_string());
    }
    if c.unique {
        args.push("-u".into());
    }
    args.extend(c.key_args());
    let mut bad = 0;
    for (i, t) in c.tables.iter().enumerate() {
        let nl = !s.chance(1, 4);
        let f = t.bytes_nl(nl);
        c.files[i] = f.clone();
        args.push(ctx.file(&format!("f{i}"), &f));
        bad += t
            .lines()
            .windows(2)
            .filter(|w| match cmp_keys(&keys, &w[0], &w[1]) {
                Ordering::Less => false,
                Ordering::Equal => c.unique,
                Ordering::Greater => true,
            })
            .count();
    }
    let o = cdx(ctx, &args, None);
    if o.crashed() {
        return Err(format!("crash: {}", o.describe()));
    }
    let want = i32::from(bad > 0);
    let reports = count(&o.err, b"Lines are ");
    if o.code != want || !o.out.is_empty() || reports != bad.min(limit) {
        return Err(format!(
            "{}\n  input {:?}\n  {bad} adjacent pairs are out of order, so exit {want} and {} reports expected",
            o.describe(),
            c.files.iter().map(|f| show(f)).collect::<Vec<_>>(),
            bad.min(limit)
        ));
    }
    ok(c.tables.iter().any(|t| t.rows.len() > 2), (&c.tables, &c.keys, c.unique, limit), || {
        format!("{} ({bad} bad pairs) input {:?}", o.cmd(), c.files.iter().map(|f| show(f)).collect::<Vec<_>>())
    })
}
pub fn count(hay: &[u8], needle: &[u8]) -> usize {
    hay.windows(needle.len()).filter(|w| *w == needle).count()
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C01",
            rule: "non-trivial: more than two lines and the output differs from the input order",
            arms: vec![Arm { name: "sort", quick: 5000, thorough: 100_000, f: sort_cli }, Arm { name: "random", quick: 1500, thorough: 30_000, f: random_cli }],
        },
        Prop {
            id: "C04",
            rule: "non-trivial: some file has more than two lines",
            arms: vec![Arm { name: "check", quick: 4000, thorough: 80_000, f: check_cli }],
        },
    ]
}
