//! C09: column sets, as the library offers them
use crate::cut;
use crate::engine::*;
use cdx::column::{ColumnSet, CompositeColumn};
use cdx::util::{StringLine, TextLine};
use cdx::prelude::TextFileMode;

#[derive(Clone, Debug, Hash)]
enum One {
    Num(usize),
    End(usize),
    Name(String),
}
impl One {
    fn text(&self) -> String {
        match self {
            One::Num(n) => n.to_string(),
            One::End(n) => format!("+{n}"),
            One::Name(n) => n.clone(),
        }
    }
    fn find(&self, names: &[&str]) -> Option<usize> {
        match self {
            One::Num(n) => Some(n - 1),
            One::End(n) => names.len().checked_sub(*n),
            One::Name(n) => names.iter().position(|x| x == n),
        }
    }
}

#[derive(Clone, Debug, Hash)]
enum Part {
    One(One),
    Range(Option<One>, Option<One>),
    Prefix(String),
    Not(String),
}
impl Part {
    fn text(&self) -> String {
        match self {
            Part::One(x) => x.text(),
            Part::Range(a, b) => format!("{}-{}", a.as_ref().map_or(String::new(), One::text), b.as_ref().map_or(String::new(), One::text)),
            Part::Prefix(p) => format!("(prefix,{p})"),
            Part::Not(p) => format!("(not.exact,{p})"),
        }
    }
    fn find(&self, names: &[&str]) -> Option<Vec<usize>> {
        match self {
            Part::One(x) => x.find(names).map(|x| vec![x]),
            Part::Range(a, b) => {
                let a = a.as_ref().unwrap_or(&One::Num(1)).find(names)?;
                let b = b.as_ref().unwrap_or(&One::End(1)).find(names)?;
                (a <= b).then(|| (a..=b).collect())
            }
            Part::Prefix(p) => Some((0..names.len()).filter(|i| names[*i].starts_with(p.as_str())).collect()),
            Part::Not(p) => Some((0..names.len()).filter(|i| names[*i] != p).collect()),
        }
    }
}

const NAMES: [&str; 9] = ["ab", "abc", "b", "Ab", "zero", "b7", "_x", "ünd", "x_1"];

fn one(s: &mut Src) -> One {
    match s.weighted(&[4, 3, 4]) {
        0 => One::Num(s.size(1, 5, 14)),
        1 => One::End(s.size(1, 4, 9)),
        _ => One::Name((*s.pick(&NAMES)).to_string()),
    }
}

fn part(s: &mut Src) -> Part {
    match s.weighted(&[6, 3, 1, 1]) {
        0 => Part::One(one(s)),
        1 => {
            let a = if s.chance(1, 4) { None } else { Some(one(s)) };
            let b = if s.chance(1, 4) { None } else { Some(one(s)) };
            Part::Range(a, b)
        }
        2 => Part::Prefix((*s.pick(&["a", "b", "ab", "q"])).to_string()),
        _ => Part::Not((*s.pick(&NAMES)).to_string()),
    }
}

type Added = (Part, String, bool);

fn want(parts: &[Added], names: &[&str]) -> Option<Vec<(usize, String)>> {
    let mut no = Vec::new();
    for (p, _, neg) in parts {
        let c = p.find(names);
        if *neg {
            no.extend(c?);
        }
    }
    let mut out = Vec::new();
    if parts.iter().all(|p| p.2) {
        out.extend((0..names.len()).map(|c| (c, String::new())));
    }
    for (p, name, neg) in parts {
        if !*neg {
            out.extend(p.find(names)?.into_iter().map(|c| (c, name.clone())));
        }
    }
    out.retain(|x| !no.contains(&x.0));
    Some(out)
}

/// a history of a column set: columns added, looked up in several headers, lines selected from
fn sets(s: &mut Src, _ctx: &mut Ctx) -> CaseResult {
    let mut set = ColumnSet::new();
    let mut log: Vec<String> = Vec::new();
    let mut parts: Vec<Added> = Vec::new();
    let mut specs: Vec<String> = Vec::new();
    let mut found: Option<Vec<(usize, String)>> = None;
    let (mut looked, mut used, mut adds) = (0, 0, 0);
    let steps = s.range(2, 10);
    for _ in 0..steps {
        match s.weighted(&[3, 3, 4]) {
            0 => {
                let n = s.size(1, 3, 8);
                let turn = s.chance(1, 4);
                let mut texts = Vec::new();
                for _ in 0..n {
                    let p = part(s);
                    let neg = s.chance(1, 4);
                    let name = if !neg && !turn && s.chance(1, 5) { format!("n{}", s.usize(9)) } else { String::new() };
                    texts.push(format!("{}{}{}{}", if neg { "~" } else { "" }, name, if name.is_empty() { "" } else { ":" }, p.text()));
                    parts.push((p, name, neg != turn));
                }
                let text = texts.join(",");
                log.push(format!("{}({text})", if turn { "add_no" } else { "add_yes" }));
                let r = if turn { set.add_no(&text) } else { set.add_yes(&text) };
                if let Err(e) = r {
                    return Err(format!("{log:?}: {e}"));
                }
                if !turn {
                    specs.push(text);
                }
                adds += 1;
            }
            1 => {
                let n = s.size(1, 6, 9);
                let mut names: Vec<&str> = Vec::new();
                for _ in 0..n {
                    let x = *s.pick(&NAMES);
                    names.push(x);
                }
                log.push(format!("lookup({})", names.join(" ")));
                let got = set.lookup(&names);
                let w = want(&parts, &names);
                match (&got, &w) {
                    (Ok(()), Some(w)) => {
                        let nums: Vec<usize> = w.iter().map(|x| x.0).collect();
                        let full: Vec<(usize, String)> = set.get_cols().iter().map(|x| (x.num, x.name.clone())).collect();
                        if set.get_cols_num() != nums || full != *w {
                            return Err(format!("{log:?}: selects {full:?}, expected {w:?}"));
                        }
                    }
                    (Err(_), None) => {}
                    _ => return Err(format!("{log:?}: gives {:?}, expected {w:?}", got.map_err(|e| e.to_string()))),
                }
                // all at once
                if specs.len() == 1 && adds == 1 {
                    let spec = &specs[0];
                    let a = ColumnSet::lookup_cols(spec, &names).ok();
                    let b: Option<Vec<(usize, String)>> = ColumnSet::lookup_cols_full(spec, &names).ok().map(|v| v.into_iter().map(|x| (x.num, x.name)).collect());
                    let c: Option<Vec<usize>> = ColumnSet::ranges(&names, spec).ok().map(|v| v.iter().map(|x| x.num).collect());
                    let d = ColumnSet::lookup1(spec, &names).ok();
                    let nums: Option<Vec<usize>> = w.as_ref().map(|w| w.iter().map(|x| x.0).collect());
                    let single = nums.as_ref().filter(|x| x.len() == 1).map(|x| x[0]);
                    if a != nums || b != w || c != nums || d != single {
                        return Err(format!("{log:?}: lookup_cols {a:?}, lookup_cols_full {b:?}, ranges {c:?}, lookup1 {d:?}, expected {w:?}"));
                    }
                }
                looked += usize::from(w.is_some());
                // nothing is said of a set after a lookup that failed
                if w.is_none() {
                    break;
                }
                found = w;
            }
            _ => {
                let n = s.size(0, 7, 10);
                let line: Vec<String> = (0..n).map(|i| format!("{}{i}", s.pick(&["v", "", "wörd ", "x"]))).collect();
                let cols: Vec<&str> = line.iter().map(String::as_str).collect();
                log.push(format!("line({})", cols.join("|")));
                let mut sel = vec!["old"];
                let mut loose = vec!["old"];
                let (mut w1, mut w3, mut w4) = (Vec::new(), Vec::new(), Vec::new());
                let a = set.select(&cols, &mut sel);
                let b = set.select_sloppy(&cols, &"rest", &mut loose);
                let c = set.write(&mut w1, &cols, "::");
                let e = set.write_sloppy(&cols, "rest", &mut w4);
                let mut sl = StringLine::new();
                sl.line = format!("{}\n", cols.join("\t"));
                sl.split(b'\t');
                let d = set.write3s(&mut w3, &sl, b';');
                let mut tl = TextLine::new();
                tl.raw().extend_from_slice(sl.line.as_bytes());
                tl.split(&TextFileMode::default());
                let (mut w2, mut w5) = (Vec::new(), Vec::new());
                let f = set.write2(&mut w2, &tl, b';');
                let g = set.write3(&mut w5, &tl, &TextFileMode { delim: b';', ..Default::default() });
                let Some(w) = &found else {
                    if a.is_ok() || b.is_ok() || c.is_ok() || d.is_ok() || e.is_ok() || f.is_ok() || g.is_ok() {
                        return Err(format!("{log:?}: used before any lookup, without an error"));
                    }
                    continue;
                };
                if b.is_err() || d.is_err() || e.is_err() || f.is_err() || g.is_err() {
                    return Err(format!("{log:?}: fails, with columns {w:?}"));
                }
                let short = w.iter().any(|x| x.0 >= n);
                if a.is_err() != short || c.is_err() != short {
                    return Err(format!("{log:?}: columns {w:?}: select {:?}, write {:?}", a.map_err(|e| e.to_string()), c.map_err(|e| e.to_string())));
                }
                let pick = |rest: &'static str| -> Vec<&str> { w.iter().map(|x| cols.get(x.0).copied().unwrap_or(rest)).collect() };
                // a line of no columns is a line of one empty column to a delimited line
                let empty = pick("");
                let good = (short || (sel == empty && w1 == format!("{}\n", empty.join("::")).into_bytes()))
                    && loose == pick("rest")
                    && w4 == pick("rest").concat().into_bytes()
                    && w3 == empty.join(";").into_bytes()
                    && w5 == w3
                    && w2 == format!("{}\n", empty.join(";")).into_bytes();
                if !good {
                    return Err(format!("{log:?}: columns {w:?}: select {sel:?}, select_sloppy {loose:?}, write \"{}\", write2 \"{}\", write3 \"{}\", write3s \"{}\", write_sloppy \"{}\"", show(&w1), show(&w2), show(&w5), show(&w3), show(&w4)));
                }
                used += 1;
            }
        }
    }
    ok(looked >= 1 && used >= 1 && adds >= 1, &log, || log.join(" "))
}

/// a composite column: text with column values in it
fn composite(s: &mut Src, _ctx: &mut Ctx) -> CaseResult {
    let n = s.size(1, 5, 9);
    let names: Vec<&str> = NAMES[..n].to_vec();
    let vals: Vec<String> = (0..n).map(|i| format!("{}{i}", s.pick(&["v", "", "^", "wörd "]))).collect();
    let mut spec = "made:".to_string();
    let mut want = Vec::new();
    let parts = s.size(1, 5, 12);
    for _ in 0..parts {
        if s.coin() {
            let t = *s.pick(&["a", "-", " é", "::", "(", ")", ",", "}"]);
            spec.push_str(t);
            want.extend_from_slice(t.as_bytes());
        } else {
            let c = s.usize(n);
            let one = match s.usize(3) {
                0 if names[c].is_ascii() && !names[c].starts_with('_') => names[c].to_string(),
                1 => format!("+{}", n - c),
                _ => (c + 1).to_string(),
            };
            spec.push_str(&format!("^{{{one}}}"));
            want.extend_from_slice(vals[c].as_bytes());
        }
    }
    let mut c = CompositeColumn::new(&spec).map_err(|e| format!("{spec}: {e}"))?;
    let mut others = names.clone();
    if s.coin() {
        others.reverse();
        let _ = c.lookup(&others);
    }
    c.lookup(&names).map_err(|e| format!("{spec} in {names:?}: {e}"))?;
    let mut got = b"old".to_vec();
    let fields: Vec<&[u8]> = vals.iter().map(|x| x.as_bytes()).collect();
    c.get(&mut got, &fields);
    if got != want {
        return Err(format!("{spec} of {names:?} = {vals:?}: \"{}\", expected \"{}\"", show(&got), show(&want)));
    }
    ok(parts > 1, (&spec, &vals), || format!("{spec} of {vals:?}"))
}

pub fn prop() -> Prop {
    let mut p = cut::props().into_iter().find(|p| p.id == "C09").unwrap();
    p.rule = "cut, files, bad: some file has more than one line, there is more than one column, and the selection is valid, or the files have their columns in different orders; sets: a set that was added to, looked up and used; composite: more than one part";
    p.arms.push(Arm { name: "sets", quick: 20_000, thorough: 400_000, f: sets });
    p.arms.push(Arm { name: "composite", quick: 20_000, thorough: 300_000, f: composite });
    p
}
