//! C03: all ways of comparing two lines agree
use crate::engine::*;
use crate::gen::*;
use crate::model::*;
use cdx::comp::Item;
use cdx::prelude::*;

fn text_line(l: &[u8]) -> TextLine {
    let mut t = TextLine::new();
    t.raw().extend_from_slice(l);
    t.split(&TextFileMode::default());
    t
}

/// every entry point agrees with the reference
fn agree(s: &mut Src, _ctx: &mut Ctx) -> CaseResult {
    let nc = s.range(1, 3);
    let ks = kinds(s, nc);
    let header = names(s, nc);
    let hdr: Vec<&str> = header.iter().map(String::as_str).collect();
    let ragged = s.chance(1, 4);
    let n = s.range(2, 6);
    let t = Table { header: None, rows: rows(s, &ks, n, ragged) };
    let mut keys = keys(s, Some(&header), &ks, Some(nc));
    if keys.is_empty() {
        keys.push(whole_key());
    }
    let mut cmp = LineCompList::new();
    for k in &keys {
        cmp.add(&k.spec).map_err(|e| format!("key {} refused: {e}", k.spec))?;
    }
    cmp.lookup(&hdr).map_err(|e| format!("lookup: {e}"))?;
    let lines = t.lines();
    let mut base = Vec::new();
    let mut items = Vec::new();
    let mut items2 = Vec::new();
    let tl: Vec<TextLine> = lines.iter().map(|l| text_line(l)).collect();
    for l in &lines {
        let mut it = Item::new();
        it.offset = base.len() as u32;
        it.size_plus = l.len() as u32;
        base.extend_from_slice(l);
        items.push(it);
        items2.push(it);
    }
    for i in 0..items.len() {
        cmp.fill_cache_line(&mut items[i], &base);
        cmp.fill_cache_cols(&mut items2[i], &tl[i]);
    }
    let spec: Vec<&str> = keys.iter().map(|k| k.spec.as_str()).collect();
    let mut less = false;
    for a in 0..lines.len() {
        for b in 0..lines.len() {
            let want = cmp_keys(&keys, &lines[a], &lines[b]);
            if want == Ordering::Less {
                less = true;
            }
            let got = [
                ("lines", cmp.comp_lines(&lines[a], &lines[b])),
                ("columns", cmp.comp_cols(&tl[a], &tl[b])),
                ("cached lines", cmp.comp_items(&base, &items[a], &items[b])),
                ("cached columns", cmp.comp_items(&base, &items2[a], &items2[b])),
            ];
            let eq = [
                ("lines", cmp.equal_lines(&lines[a], &lines[b])),
                ("columns", cmp.equal_cols(&tl[a], &tl[b])),
                ("cached lines", cmp.equal_items(&base, &items[a], &items[b])),
                ("cached columns", cmp.equal_items(&base, &items2[a], &items2[b])),
            ];
            for (w, g) in got {
                if g != want {
                    return Err(format!("keys {spec:?}: comparing {w} \"{}\" and \"{}\" gives {g:?}, expected {want:?}", show(&lines[a]), show(&lines[b])));
                }
            }
            for (w, g) in eq {
                if g != (want == Ordering::Equal) {
                    return Err(format!("keys {spec:?}: equality of {w} \"{}\" and \"{}\" gives {g:?}, but they compare {want:?}", show(&lines[a]), show(&lines[b])));
                }
            }
        }
    }
    // a search value, of one part per key, against a line
    let parts = keys.len() == 1 || keys.iter().all(|k| k.col.is_some());
    if parts && !keys.iter().any(|k| matches!(k.method, Method::Expr(..))) {
        for a in &lines {
            // the newline is not part of the value
            let bare = |x: &'_ [u8]| x.strip_suffix(b"\n").unwrap_or(x).to_vec();
            let whole = bare(a);
            let v: Vec<u8> = keys.iter().map(|k| k.col.map_or(&whole[..], |c| field(a, c))).collect::<Vec<_>>().join(&b"\t"[..]);
            cmp.set(&v, b'\t').map_err(|e| format!("set: {e}"))?;
            for (b, bt) in lines.iter().zip(&tl) {
                let want = cmp_keys(&keys, &bare(a), &bare(b));
                let got = [cmp.comp_self_line(b), cmp.comp_self_cols(bt)];
                let eq = [cmp.equal_self_line(b), cmp.equal_self_cols(bt)];
                if got.iter().any(|g| *g != want) || eq.iter().any(|g| *g != (want == Ordering::Equal)) {
                    return Err(format!("keys {spec:?}: value \"{}\" against line \"{}\" gives {got:?} equal {eq:?}, expected {want:?}", show(&v), show(b)));
                }
            }
        }
    }
    ok(less, (&t, &keys), || format!("keys {spec:?} lines {:?}", lines.iter().map(|l| show(l)).collect::<Vec<_>>()))
}

/// lists of comparisons of values
fn values(s: &mut Src, _ctx: &mut Ctx) -> CaseResult {
    let nk = s.range(1, 3);
    let mut list = cdx::comp::CompList::new();
    let mut keys = Vec::new();
    for _ in 0..nk {
        let method = METHODS[s.usize(METHODS.len())];
        let rev = s.coin();
        let spec = spec_of(s, "1", method, rev);
        let name = spec.split_once(',').map_or("", |x| x.1).to_string();
        list.add(&name).map_err(|e| format!("comparison {name} refused: {e}"))?;
        keys.push(Key { col: Some(0), method, rev, spec: name });
    }
    let k = *s.pick(&KINDS);
    let t = rows(s, &[k], 4, false);
    let vals: Vec<Vec<u8>> = t.into_iter().map(|mut r| r.remove(0)).collect();
    let spec: Vec<&str> = keys.iter().map(|k| k.spec.as_str()).collect();
    let mut less = false;
    for a in &vals {
        let v = vec![&a[..]; nk].join(&b"\t"[..]);
        list.set(&v, b'\t').map_err(|e| format!("set: {e}"))?;
        for b in &vals {
            let want = cmp_keys(&keys, a, b);
            less |= want == Ordering::Less;
            let got = [list.comp(a, b), list.comp_self(b)];
            let eq = [list.equal(a, b), list.equal_self(b)];
            if got.iter().any(|g| *g != want) || eq.iter().any(|g| *g != (want == Ordering::Equal)) {
                return Err(format!("comparisons {spec:?}: \"{}\" and \"{}\" compare {got:?}, equal {eq:?}, expected {want:?}", show(a), show(b)));
            }
        }
    }
    ok(less, (&spec, &vals), || format!("comparisons {spec:?} values {:?}", vals.iter().map(|l| show(l)).collect::<Vec<_>>()))
}

/// arbitrary values, well formed or not, are put in a total preorder
fn preorder(s: &mut Src, _ctx: &mut Ctx) -> CaseResult {
    let m = METHODS[s.usize(METHODS.len())];
    let rev = s.coin();
    let spec = spec_of(s, "1", m, rev);
    let mut cmp = LineCompList::new();
    cmp.add(&spec).map_err(|e| format!("key {spec} refused: {e}"))?;
    let alphabet: &[u8] = match m {
        Method::Plain | Method::Lower | Method::Length | Method::Equal => b"aAbB\0\x7f\xff z0",
        _ => b"0123456789..--+,eEkKMxX 00",
    };
    let vals: Vec<Vec<u8>> = (0..4)
        .map(|_| {
            let n = s.range(0, 10);
            let mut v: Vec<u8> = (0..n).map(|_| *s.pick(alphabet)).collect();
            v.push(b'\n');
            v
        })
        .collect();
    let mut base = Vec::new();
    let mut items = Vec::new();
    for l in &vals {
        let mut it = Item::new();
        it.offset = base.len() as u32;
        it.size_plus = l.len() as u32;
        base.extend_from_slice(l);
        items.push(it);
    }
    for it in &mut items {
        cmp.fill_cache_line(it, &base);
    }
    let n = vals.len();
    let mut m = vec![vec![Ordering::Equal; n]; n];
    for a in 0..n {
        for b in 0..n {
            m[a][b] = cmp.comp_lines(&vals[a], &vals[b]);
            let it = cmp.comp_items(&base, &items[a], &items[b]);
            if it != m[a][b] {
                return Err(format!("key {spec}: \"{}\" and \"{}\" compare {:?}, but {it:?} when cached", show(&vals[a]), show(&vals[b]), m[a][b]));
            }
        }
    }
    for a in 0..n {
        for b in 0..n {
            if m[a][b] != m[b][a].reverse() {
                return Err(format!("key {spec}: \"{}\" and \"{}\" compare {:?} and {:?}", show(&vals[a]), show(&vals[b]), m[a][b], m[b][a]));
            }
            for c in 0..n {
                if m[a][b] != Ordering::Greater && m[b][c] != Ordering::Greater && m[a][c] == Ordering::Greater {
                    return Err(format!("key {spec}: \"{}\" <= \"{}\" <= \"{}\", but the first is greater than the last", show(&vals[a]), show(&vals[b]), show(&vals[c])));
                }
            }
        }
    }
    ok(m.iter().flatten().any(|o| *o == Ordering::Less), (&spec, &vals), || format!("key {spec} values {:?}", vals.iter().map(|l| show(l)).collect::<Vec<_>>()))
}

pub fn prop() -> Prop {
    Prop {
        id: "C03",
        rule: crate::libs::COMP_RULE,
        arms: vec![
            Arm { name: "agree", quick: 60_000, thorough: 2_000_000, f: agree },
            Arm { name: "values", quick: 30_000, thorough: 1_000_000, f: values },
            Arm { name: "preorder", quick: 60_000, thorough: 2_000_000, f: preorder },
            Arm { name: "commands", quick: 600, thorough: 20_000, f: crate::libs::comp_cli },
        ],
    }
}
