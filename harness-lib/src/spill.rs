//! C02: external sorting and merging
use crate::engine::*;
use crate::model::*;
use crate::sort::{has_tie, merge_cli, sort_case};
use cdx::prelude::*;
use cdx::sort::Sorter;

struct Pieces<'a> {
    data: &'a [u8],
    sizes: &'a [usize],
    next: usize,
}
impl std::io::Read for Pieces<'_> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let n = self.sizes[self.next % self.sizes.len()].min(buf.len()).min(self.data.len());
        self.next += 1;
        buf[..n].copy_from_slice(&self.data[..n]);
        self.data = &self.data[n..];
        Ok(n)
    }
}

/// merging sorted files without headers, both ways
fn merge_tmp(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let max = *s.pick(&[3, 12, 40]);
    let mut c = sort_case(s, max);
    let extra = s.size(0, 4, 40);
    for _ in 0..extra {
        let i = s.usize(c.tables.len());
        let t = c.tables[i].clone();
        c.tables.push(t);
    }
    let keys = c.eff_keys();
    if c.tables.iter().all(|t| t.header.is_none() && t.rows.is_empty()) {
        return ok(false, (), String::new);
    }
    let mut cmp = LineCompList::new();
    for k in &keys {
        cmp.add(&k.spec).map_err(|e| format!("key {} refused: {e}", k.spec))?;
    }
    let hdr: Vec<String> = match c.tables.iter().find_map(|t| t.header.clone()) {
        Some(h) => h,
        None => {
            let width = c.tables.iter().find(|t| !t.rows.is_empty()).map_or(1, |t| t.rows[0].len());
            (1..=width).map(|i| format!("c{i}")).collect()
        }
    };
    cmp.lookup(&hdr.iter().map(String::as_str).collect::<Vec<_>>()).map_err(|e| format!("lookup: {e}"))?;
    let mut files = Vec::new();
    for (i, t) in c.tables.iter().enumerate() {
        files.push(ctx.file(&format!("s{i}"), &cat(&ref_sort(&keys, &t.lines(), c.unique && s.coin()))));
    }
    let tmp = tempfile::TempDir::new_in(&ctx.dir).map_err(|e| e.to_string())?;
    let alt = s.coin();
    let config = cdx::sort::SortConfig { alt_merge: alt, ..Default::default() };
    let mut out: Vec<u8> = Vec::new();
    let what = || format!("merge of temporary files, alternative {alt}, keys {:?}, unique {}, input {:?}", keys.iter().map(|k| k.spec.as_str()).collect::<Vec<_>>(), c.unique, c.tables.iter().map(|t| show(&cat(&t.lines()))).collect::<Vec<_>>());
    let r = if alt { config.merge_t1(&files, &mut cmp, &mut out, c.unique, &tmp) } else { config.merge_t2(&files, &mut cmp, &mut out, c.unique, &tmp) };
    r.map_err(|e| format!("{} failed: {e}", what()))?;
    let lines = c.all_lines();
    let want = cat(&ref_sort(&keys, &lines, c.unique));
    if out != want {
        return Err(format!("{}\n  gives    \"{}\"\n  expected \"{}\"", what(), show(&out), show(&want)));
    }
    ok(c.tables.len() > 1 && has_tie(&keys, &ref_sort(&keys, &lines, false)), (&c.tables, &c.keys, c.unique, alt), what)
}

/// sort with a buffer so small that data has to go through temporary files
fn spill(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let max = *s.pick(&[12, 40, 40, 150]);
    let c = sort_case(s, max);
    let keys = c.eff_keys();
    let mut cmp = LineCompList::new();
    for k in &keys {
        cmp.add(&k.spec).map_err(|e| format!("key {} refused: {e}", k.spec))?;
    }
    let total: usize = c.files.iter().map(Vec::len).sum();
    let cap = match s.weighted(&[3, 2, 2, 1]) {
        0 => s.range(16, 200),
        1 => s.range(200, 2000),
        // near the size of the whole input or of the first file
        2 => (total + 8).saturating_sub(s.range(0, 16)).max(16),
        _ => (c.files[0].len() + 4).saturating_sub(s.range(0, 8)).max(16),
    };
    let mut names = Vec::new();
    for (i, f) in c.files.iter().enumerate() {
        names.push(ctx.file(&format!("s{i}"), f));
    }
    let mut out: Vec<u8> = Vec::new();
    // without headers, from readers that return any number of bytes at a time
    let pieces: Option<Vec<usize>> = if c.head().is_empty() && c.tables.iter().any(|t| !t.rows.is_empty()) && s.chance(1, 4) { Some((0..s.range(1, 5)).map(|_| *s.pick(&[1, 2, 7, 16, 100, 5000])).collect()) } else { None };
    let run = || -> cdx::util::Result<()> {
        if let Some(p) = &pieces {
            let width = c.tables.iter().find(|t| !t.rows.is_empty()).map_or(1, |t| t.rows[0].len());
            let fake: Vec<String> = (1..=width).map(|i| format!("c{i}")).collect();
            cmp.lookup(&fake.iter().map(String::as_str).collect::<Vec<_>>())?;
            let mut so = Sorter::new(cmp, cap * 2, c.unique);
            for f in &c.files {
                so.add(Pieces { data: f, sizes: p, next: 0 })?;
            }
            return so.finalize(&mut out);
        }
        let mut so = Sorter::new(cmp, cap * 2, c.unique);
        for n in &names {
            so.add_file(n, &mut out)?;
        }
        so.finalize(&mut out)
    };
    let what = || {
        format!(
            "sort with a {cap} byte buffer, keys {:?}, unique {}, input {:?}",
            keys.iter().map(|k| k.spec.as_str()).collect::<Vec<_>>(),
            c.unique,
            c.files.iter().map(|f| show(f)).collect::<Vec<_>>()
        )
    };
    run().map_err(|e| format!("{} failed: {e}", what()))?;
    let lines = c.all_lines();
    let mut want = c.head();
    want.extend(cat(&ref_sort(&keys, &lines, c.unique)));
    if out != want {
        return Err(format!("{}\n  gives    \"{}\"\n  expected \"{}\"", what(), show(&out), show(&want)));
    }
    let full = ref_sort(&keys, &lines, false);
    ok(total > cap && lines.len() > 2 && has_tie(&keys, &full), (&c.tables, &c.keys, c.unique, cap), what)
}

pub fn prop() -> Prop {
    Prop {
        id: "C02",
        rule: "spill arm non-trivial: the input exceeds the sort buffer and has at least one tie; merge arm non-trivial: two or more non-empty files and at least one tie among all lines",
        arms: vec![
            Arm { name: "spill", quick: 20_000, thorough: 400_000, f: spill },
            Arm { name: "tmp-merge", quick: 12_000, thorough: 200_000, f: merge_tmp },
            Arm { name: "merge", quick: 6000, thorough: 100_000, f: merge_cli },
        ],
    }
}
