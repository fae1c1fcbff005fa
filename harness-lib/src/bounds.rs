//! C08: binary search within a block of lines
use crate::engine::*;
use crate::gen::*;
use crate::model::*;
use crate::search;
use cdx::binsearch::{equal_range, equal_range_n, find_end, find_prev, find_start, lower_bound, lower_bound_n, upper_bound_n};
use cdx::prelude::*;
use std::cmp::Ordering;

/// several values looked for in one block of sorted lines, with the same comparator
fn bounds(s: &mut Src, _ctx: &mut Ctx) -> CaseResult {
    let nc = s.range(1, 3);
    let ks = kinds(s, nc);
    let header = names(s, nc);
    let hdr: Vec<&str> = header.iter().map(String::as_str).collect();
    let ragged = s.chance(1, 4);
    let nk = 1 + s.weighted(&[6, 3, 1]);
    let mut keys: Vec<Key> = Vec::new();
    for _ in 0..nk {
        let rev = s.chance(1, 4);
        let c = s.usize(nc);
        let m = method_for(s, ks[c]);
        let name = col_spec(s, c, Some(&header), Some(nc));
        keys.push(Key { col: Some(c), method: m, rev, spec: spec_of(s, &name, m, rev) });
    }
    let n = s.size(0, 12, 120);
    let t = Table { header: None, rows: rows(s, &ks, n, ragged) };
    let lines = ref_sort(&keys, &t.lines(), false);
    let mut data = cat(&lines);
    // the last line may lack its newline, if something is left of it
    let mut last_len = lines.last().map_or(0, Vec::len);
    if last_len > 1 && s.chance(1, 3) {
        data.pop();
        last_len -= 1;
    }
    let mut starts = vec![0];
    for l in &lines {
        starts.push(starts.last().unwrap() + l.len());
    }
    *starts.last_mut().unwrap() = data.len();
    let mut cmp = LineCompList::new();
    for k in &keys {
        cmp.add(&k.spec).map_err(|e| format!("key {} refused: {e}", k.spec))?;
    }
    cmp.lookup(&hdr).map_err(|e| format!("lookup: {e}"))?;
    let spec: Vec<&str> = keys.iter().map(|k| k.spec.as_str()).collect();
    let mut good = false;
    for _ in 0..s.range(1, 4) {
        let vals: Vec<Cell> = if !lines.is_empty() && !s.chance(1, 4) {
            let r = s.usize(lines.len());
            keys.iter().map(|k| field(&lines[r], k.col.unwrap()).to_vec()).collect()
        } else {
            keys.iter().map(|k| value(s, ks[k.col.unwrap()])).collect()
        };
        if nk > 1 && vals.iter().any(|v| v.contains(&1)) {
            continue;
        }
        cmp.set(&join_cells(&vals, 1), 1).map_err(|e| format!("set: {e}"))?;
        let against = |l: &[u8]| -> Ordering {
            for (k, v) in keys.iter().zip(&vals) {
                let o = k.method.cmp(field(l, k.col.unwrap()), v);
                let o = if k.rev { o.reverse() } else { o };
                if o != Ordering::Equal {
                    return o;
                }
            }
            Ordering::Equal
        };
        let lo = lines.iter().filter(|l| against(l) == Ordering::Less).count();
        let hi = lines.iter().filter(|l| against(l) != Ordering::Greater).count();
        let what = || format!("keys {spec:?} value {:?} in \"{}\"", vals.iter().map(|v| show(v)).collect::<Vec<_>>(), show(&data));
        let (a, b) = equal_range_n(&data, &mut cmp);
        if (a, b) != (starts[lo], starts[hi]) {
            return Err(format!("{}: equal_range_n {a}..{b}, expected {}..{}", what(), starts[lo], starts[hi]));
        }
        if equal_range(&data, &mut cmp) != &data[starts[lo]..starts[hi]] {
            return Err(format!("{}: equal_range \"{}\"", what(), show(equal_range(&data, &mut cmp))));
        }
        let one = if hi > lo { lo + 1 } else { lo };
        let (a, b) = lower_bound_n(&data, &mut cmp);
        if (a, b) != (starts[lo], starts[one]) {
            return Err(format!("{}: lower_bound_n {a}..{b}, expected {}..{}", what(), starts[lo], starts[one]));
        }
        if lower_bound(&data, &mut cmp) != &data[starts[lo]..starts[one]] {
            return Err(format!("{}: lower_bound \"{}\"", what(), show(lower_bound(&data, &mut cmp))));
        }
        let u = upper_bound_n(&data, &mut cmp);
        if u != starts[hi] {
            return Err(format!("{}: upper_bound_n {u}, expected {}", what(), starts[hi]));
        }
        good |= lines.len() > 3 && (hi > lo || (lo > 0 && hi < lines.len()));
    }
    // the lines around a place
    if !data.is_empty() {
        let p = s.usize(data.len());
        let l = (0..lines.len()).find(|i| starts[i + 1] > p).unwrap();
        let prev = if l == 0 { 0 } else { starts[l - 1] };
        let got = (find_start(&data, p), find_end(&data, p), find_prev(&data, starts[l]));
        if got != (starts[l], starts[l + 1], prev) {
            return Err(format!("place {p} in \"{}\": start, end and previous line {got:?}, expected {:?}", show(&data), (starts[l], starts[l + 1], prev)));
        }
    }
    ok(good, (&lines, &spec, last_len), || format!("{spec:?} in \"{}\"", show(&data)))
}

pub fn prop() -> Prop {
    let mut p = search::prop();
    p.rule = "more than three lines, and a value that is found or falls between two lines";
    p.arms.push(Arm { name: "bounds", quick: 100_000, thorough: 2_000_000, f: bounds });
    p
}
