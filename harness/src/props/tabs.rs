//! C26: tabs shows files within the screen (the part that needs only the command)
use crate::engine::*;
use crate::gen::*;
use crate::model::*;
use crate::run::*;

/// characters of known width
const CHARS: [(char, usize); 12] = [('a', 1), ('b', 1), ('X', 1), ('0', 1), (' ', 1), ('é', 1), ('日', 2), ('本', 2), ('-', 1), ('z', 1), ('\u{301}', 0), ('ß', 1)];
fn char_width(c: char) -> usize {
    CHARS.iter().find(|x| x.0 == c).map_or(1, |x| x.1)
}
pub fn width(t: &str) -> usize {
    t.chars().map(char_width).sum()
}
fn cell(s: &mut Src, long: usize) -> String {
    let n = match s.weighted(&[1, 4, 4, 1]) {
        0 => 0,
        1 => s.range(1, 3),
        2 => s.range(1, 12),
        _ => s.range(1, long),
    };
    let plain = s.chance(2, 3);
    let mut t = String::new();
    for _ in 0..n {
        let c = if plain { CHARS[s.usize(4)].0 } else { s.pick(&CHARS).0 };
        // a mark belongs to a letter
        if c == '\u{301}' && !t.ends_with(['a', 'b', 'X']) {
            t.push('a');
        }
        t.push(c);
    }
    t
}
pub fn file(s: &mut Src) -> (Option<Vec<String>>, Vec<Vec<String>>) {
    let nc = if s.chance(1, 10) { s.range(5, 60) } else { s.range(1, 6) };
    let long = *s.pick(&[10, 30, 150]);
    let nr = nrows(s, 60);
    let ragged = s.chance(1, 3);
    let header = s.coin().then(|| names(s, nc));
    let mut rows: Vec<Vec<String>> = Vec::new();
    for _ in 0..nr {
        let n = if ragged { s.range(1, nc + 2) } else { nc };
        let mut r: Vec<String> = (0..n).map(|_| cell(s, long)).collect();
        if bad_first(r[0].as_bytes()) || (n == 1 && r[0].is_empty()) {
            r[0] = "k".into();
        }
        rows.push(r);
    }
    (header, rows)
}
pub fn bytes(f: &(Option<Vec<String>>, Vec<Vec<String>>)) -> Vec<u8> {
    let mut o = Vec::new();
    if let Some(h) = &f.0 {
        o.extend(header_line(h));
    }
    for r in &f.1 {
        o.extend(r.join("\t").as_bytes());
        o.push(b'\n');
    }
    o
}
/// as much of the text as fits, and its width
fn fit(t: &str, max: usize) -> (String, usize) {
    let mut o = String::new();
    let mut w = 0;
    for c in t.chars() {
        if w + char_width(c) > max {
            break;
        }
        w += char_width(c);
        o.push(c);
    }
    (o, w)
}
/// the lines, and the width of all columns
pub fn want(f: &(Option<Vec<String>>, Vec<Vec<String>>), wid: usize, height: usize) -> (Vec<String>, usize) {
    let mut lines: Vec<&Vec<String>> = f.0.iter().collect();
    for r in &f.1 {
        if lines.len() < height {
            lines.push(r);
        }
    }
    if f.0.is_none() && f.1.is_empty() {
        return (Vec::new(), 0);
    }
    let first = f.0.as_ref().map_or_else(|| f.1[0].len(), Vec::len);
    let nc = lines.iter().map(|r| r.len()).max().unwrap_or(0).max(first);
    let mut sizes: Vec<usize> = (0..nc).map(|c| lines.iter().filter_map(|r| r.get(c)).map(|t| width(t)).max().unwrap_or(0)).collect();
    // the widest columns give way, the first of them first
    while sizes.iter().sum::<usize>() > wid.saturating_sub(nc) {
        let m = *sizes.iter().max().unwrap();
        let k = sizes.iter().position(|x| *x == m).unwrap();
        sizes[k] -= 1;
    }
    let mut out = Vec::new();
    for (i, r) in lines.iter().enumerate() {
        let mut t = String::new();
        for (c, v) in r.iter().enumerate() {
            if c > 0 {
                t.push(' ');
            }
            let (v, w) = fit(v, sizes[c]);
            let left = if i == 0 && f.0.is_some() { (sizes[c] - w) / 2 } else { 0 };
            t.push_str(&" ".repeat(left));
            t.push_str(&v);
            t.push_str(&" ".repeat(sizes[c] - w - left));
        }
        out.push(t);
    }
    (out, sizes.iter().sum::<usize>() + nc)
}

/// the command, on a screen of unknown size: 100 x 24
pub fn command(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let n = match s.weighted(&[3, 3, 2, 1]) {
        0 => 1,
        1 => 2,
        2 => s.range(3, 6),
        _ => s.range(7, 20),
    };
    let files: Vec<_> = (0..n).map(|_| file(s)).collect();
    let mut args = vec!["tabs".to_string()];
    for (i, f) in files.iter().enumerate() {
        ctx.file(&format!("f{i}"), &bytes(f));
        args.push(format!("f{i}"));
    }
    let o = cdx(ctx, &args, None);
    for i in 0..n {
        ctx.rm(&format!("f{i}"));
    }
    let desc = || format!("{}\nfiles {}", o.describe(), files.iter().map(|f| format!("\"{}\"", show(&bytes(f)))).collect::<Vec<_>>().join(" "));
    if o.code != 0 || !o.err.is_empty() {
        return Err(format!("{}\nshould succeed", desc()));
    }
    let mut got: Vec<String> = String::from_utf8_lossy(&o.out).split('\n').map(str::to_string).collect();
    if got.pop() != Some(String::new()) {
        return Err(format!("{}\nincomplete line", desc()));
    }
    let mut exp: Vec<String> = Vec::new();
    if n == 1 {
        exp = want(&files[0], 100, 24).0;
    } else {
        let mut left = 25usize.saturating_sub(2 * n);
        for (i, f) in files.iter().enumerate() {
            let (l, tot) = want(f, 100, left / (n - i));
            let name = format!("f{i}");
            if name.len() <= tot {
                let a = (tot - name.len()) / 2;
                exp.push(format!("{}{name}{}", " ".repeat(a), " ".repeat(tot - name.len() - a)));
            }
            left = left.saturating_sub(l.len());
            exp.extend(l);
            if i + 1 < n {
                exp.push("-".repeat(tot));
            }
        }
    }
    if got != exp {
        return Err(format!("{}\nshows    {got:?}\nexpected {exp:?}", desc()));
    }
    ok(exp.len() > 2, &exp, || o.cmd())
}
pub const RULE: &str = "more than one line and column, or more than two lines from the command";
