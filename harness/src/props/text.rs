//! C12: text formats, --text-in and --text-out
use crate::engine::*;
use crate::gen::*;
use crate::model::*;
use crate::run::*;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Mode {
    Plain,
    Quote,
    Slash,
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Fmt {
    pub delim: u8,
    pub mode: Mode,
    pub repl: u8,
    pub eol: u8,
}
pub const DEFAULT: Fmt = Fmt { delim: b'\t', mode: Mode::Plain, repl: b' ', eol: b'\n' };
type Cell = Vec<u8>;

/// a format spec, with what it means. Trailing characters are omitted at random.
pub fn spec(s: &mut Src, dflt: Fmt) -> (String, Fmt) {
    let mut f = dflt;
    let mut t = "m".to_string();
    if !s.chance(9, 10) {
        return (t, f);
    }
    let c = *s.pick(b",|:;^~#t%/.");
    t.push(c as char);
    f.delim = if c == b't' { b'\t' } else { c };
    if !s.chance(6, 7) {
        return (t, f);
    }
    match s.weighted(&[2, 3, 3]) {
        0 => {
            t.push('p');
            f.mode = Mode::Plain;
        }
        1 => {
            t.push('q');
            f.mode = Mode::Quote;
        }
        _ => {
            t.push('b');
            f.mode = Mode::Slash;
        }
    }
    if s.chance(1, 3) {
        let c = *s.pick(b"_?s*");
        t.push(c as char);
        f.repl = if c == b's' { b' ' } else { c };
        if s.chance(2, 3) {
            let c = *s.pick(b"&n!@&");
            t.push(c as char);
            f.eol = if c == b'n' { b'\n' } else { c };
        }
    }
    (t, f)
}
/// encode, in one of the many ways to do so
pub fn enc(s: &mut Src, f: Fmt, v: &[u8]) -> Vec<u8> {
    let mut r = Vec::new();
    match f.mode {
        Mode::Plain => r.extend(v),
        Mode::Slash => {
            for &c in v {
                if c == f.delim || c == f.eol || c == b'\\' || s.chance(1, 12) {
                    match c {
                        b'\n' => r.extend(b"\\n"),
                        b'\t' if f.delim != b'\t' || s.coin() => r.extend(b"\\t"),
                        b'\r' => r.extend(b"\\r"),
                        // \n, \r and \t mean something else; other characters are themselves
                        b'n' | b'r' | b't' => r.push(c),
                        c if c >= 0x80 => r.push(c),
                        c => r.extend(&[b'\\', c]),
                    }
                } else {
                    r.push(c);
                }
            }
        }
        Mode::Quote => {
            let delims = v.iter().any(|c| *c == f.delim || *c == f.eol);
            let quotes = v.contains(&b'"');
            let how = s.usize(4);
            if !delims && !quotes && how > 0 {
                r.extend(v);
            } else if !quotes && how == 1 {
                // quoted only where necessary
                let mut open = false;
                for &c in v {
                    let must = c == f.delim || c == f.eol;
                    if must && !open {
                        // opening right after closing would mean a quote
                        if r.last() == Some(&b'"') {
                            r.pop();
                        } else {
                            r.push(b'"');
                        }
                        open = true;
                    } else if !must && open && s.coin() {
                        r.push(b'"');
                        open = false;
                    }
                    r.push(c);
                }
                if open {
                    r.push(b'"');
                }
            } else if !delims && v.first().map_or(false, |c| *c != b'"') && how == 2 {
                // doubled, without any quoting
                for &c in v {
                    r.push(c);
                    if c == b'"' {
                        r.push(c);
                    }
                }
            } else {
                r.push(b'"');
                for &c in v {
                    r.push(c);
                    if c == b'"' {
                        r.push(c);
                    }
                }
                r.push(b'"');
            }
        }
    }
    r
}
/// all the lines of a file, decoded, and as they were
pub fn dec(f: Fmt, b: &[u8]) -> Result<Vec<(Vec<Cell>, Vec<u8>)>, String> {
    let mut out = Vec::new();
    let mut i = 0;
    while i < b.len() {
        let start = i;
        let mut cells = vec![Vec::new()];
        let mut inq = false;
        // at the start of a column
        let mut first = true;
        loop {
            if i >= b.len() {
                return Err("ends within a line".into());
            }
            let c = b[i];
            i += 1;
            let cur = cells.last_mut().unwrap();
            match f.mode {
                Mode::Slash if c == b'\\' => {
                    if i >= b.len() {
                        return Err("ends within a line".into());
                    }
                    cur.push(match b[i] {
                        b'n' => b'\n',
                        b't' => b'\t',
                        b'r' => b'\r',
                        x => x,
                    });
                    i += 1;
                    continue;
                }
                Mode::Quote if c == b'"' => {
                    if (inq || !first) && b.get(i) == Some(&b'"') {
                        cur.push(b'"');
                        i += 1;
                    } else {
                        inq = !inq;
                    }
                    first = false;
                    continue;
                }
                _ => {}
            }
            first = false;
            if inq {
                cur.push(c);
            } else if c == f.eol {
                break;
            } else if c == f.delim {
                cells.push(Vec::new());
                first = true;
            } else {
                cur.push(c);
            }
        }
        out.push((cells, b[start..i].to_vec()));
    }
    Ok(out)
}
/// what is left of a value written in this format
fn kept(f: Fmt, v: &[u8]) -> Cell {
    if f.mode != Mode::Plain {
        return v.to_vec();
    }
    v.iter().map(|c| if *c == f.delim || *c == f.eol { f.repl } else { *c }).collect()
}
fn cell(s: &mut Src, f: Fmt, other: Fmt) -> Cell {
    let n = if s.chance(1, 25) { s.range(10, 90) } else { s.weighted(&[2, 4, 3, 2, 1]) };
    let mut v = Vec::new();
    for _ in 0..n {
        let c: &[u8] = match s.weighted(&[6, 3, 3, 2, 2, 2, 2, 1, 1]) {
            0 => *s.pick(&[&b"a"[..], b"b", b"n", b"t", b"r", b"7"]),
            1 => &[f.delim][..],
            2 => b"\"",
            3 => &[other.delim][..],
            4 => b"\\",
            5 => match s.usize(4) {
                0 => &[f.eol][..],
                1 => &[other.eol][..],
                2 => b"&",
                _ => b"\n",
            },
            6 => *s.pick(&[&b"\t"[..], b" ", b"\r", b"'"]),
            7 => "é".as_bytes(),
            _ => *s.pick(&[&b"\xff"[..], b"\x01", b"\\n", b"\"\""]),
        };
        if f.mode == Mode::Plain && c.iter().any(|c| *c == f.delim || *c == f.eol) {
            continue;
        }
        v.extend(c);
    }
    v
}
struct File {
    header: Option<Vec<String>>,
    rows: Vec<Vec<Cell>>,
    raw: Vec<Vec<u8>>,
    head: Vec<u8>,
    bytes: Vec<u8>,
}
fn file(s: &mut Src, f: Fmt, other: Fmt, max_rows: usize, ragged: bool) -> Option<File> {
    let nc = s.size(1, 4, 12);
    let header = if s.coin() { Some(names(s, nc)) } else { None };
    let nr = if header.is_none() { s.range(1, max_rows) } else { s.range(0, max_rows) };
    let mut pool: Vec<Cell> = Vec::new();
    let mut rows: Vec<Vec<Cell>> = Vec::new();
    for i in 0..nr {
        if i > 0 && s.chance(1, 5) {
            rows.push(rows[i - 1].clone());
            continue;
        }
        let mut row = Vec::new();
        let w = if ragged && s.chance(1, 6) { s.range(1, nc + 1) } else { nc };
        for _ in 0..w {
            if !pool.is_empty() && s.chance(1, 3) {
                row.push(s.pick(&pool).clone());
            } else {
                let c = cell(s, f, other);
                pool.push(c.clone());
                row.push(c);
            }
        }
        rows.push(row);
    }
    let mut head = Vec::new();
    if let Some(h) = &header {
        head.extend(b" CDX");
        for n in h {
            head.push(f.delim);
            head.extend(n.as_bytes());
        }
        head.push(f.eol);
    }
    let mut raw = Vec::new();
    for r in &rows {
        let v: Vec<Vec<u8>> = r.iter().map(|c| enc(s, f, c)).collect();
        let mut l = v.join(&f.delim);
        l.push(f.eol);
        raw.push(l);
    }
    if header.is_none() && raw[0].starts_with(b" CDX") {
        return None;
    }
    let mut bytes = head.clone();
    bytes.extend(raw.concat());
    // self check: the reference decoder must agree
    let d = dec(f, &raw.concat()).expect("reference");
    if d.len() != rows.len() || d.iter().zip(&rows).any(|(a, b)| a.0 != *b) {
        panic!("reference encoder and decoder disagree {:?} {:?}", f, show(&bytes));
    }
    // the final newline is optional, unless the last line is empty
    if s.chance(1, 3) && raw.last().map_or(true, |l| l.len() > 1) {
        bytes.pop();
    }
    Some(File { header, rows, raw, head, bytes })
}
fn show_cells(v: &[Vec<Cell>]) -> String {
    v.iter().map(|r| format!("[{}]", r.iter().map(|c| format!("\"{}\"", show(c))).collect::<Vec<_>>().join(", "))).collect::<Vec<_>>().join("\n")
}
fn special(f: Fmt, rows: &[Vec<Cell>]) -> bool {
    rows.iter().flatten().any(|c| c.iter().any(|c| *c == f.delim || *c == f.eol || b"\"\\\n".contains(c)))
}
fn text_args(s: &mut Src, args: &mut Vec<String>) -> (Fmt, Fmt) {
    let (i, fin) = if s.chance(7, 8) {
        let (t, f) = spec(s, DEFAULT);
        (Some(t), f)
    } else {
        (None, DEFAULT)
    };
    let (o, fout) = if s.chance(3, 4) {
        let (t, f) = spec(s, DEFAULT);
        (Some(t), f)
    } else {
        (None, fin)
    };
    let mut v = Vec::new();
    if let Some(t) = i {
        v.push(format!("--text-in={t}"));
    }
    if let Some(t) = o {
        v.push(format!("--text-out={t}"));
    }
    if s.coin() {
        v.reverse();
    }
    args.extend(v);
    (fin, fout)
}

/// cut converts from one format to another
fn convert(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let mut args = vec!["cut".to_string()];
    let (fin, fout) = text_args(s, &mut args);
    let Some(t) = file(s, fin, fout, 8, false) else { return ok(false, 0, String::new) };
    let nc = t.header.as_ref().map_or_else(|| t.rows[0].len(), Vec::len);
    let want_cols: Vec<usize> = if s.coin() { (0..nc).collect() } else { (0..s.range(1, 4)).map(|_| s.usize(nc)).collect() };
    let cols: Vec<String> = want_cols.iter().map(|c| (c + 1).to_string()).collect();
    args.push("-D".into());
    args.push("Allow".into());
    if s.coin() || cols.len() == 1 {
        args.push("-f".into());
        args.push(cols.join(","));
    } else {
        for c in &cols {
            args.push("-f".into());
            args.push(c.clone());
        }
    }
    args.push(ctx.file("f", &t.bytes));
    let o = cdx(ctx, &args, None);
    let mut want: Vec<Vec<Cell>> = Vec::new();
    let mut whead = Vec::new();
    if let Some(h) = &t.header {
        whead.extend(b" CDX");
        for c in &want_cols {
            whead.push(fout.delim);
            whead.extend(h[*c].as_bytes());
        }
        whead.push(fout.eol);
    }
    for r in &t.rows {
        want.push(want_cols.iter().map(|c| kept(fout, &r[*c])).collect());
    }
    let fail = |why: &str| Err(format!("{why}\n{}\nfile: \"{}\"\nwanted header \"{}\" and the values\n{}", o.describe(), show(&t.bytes), show(&whead), show_cells(&want)));
    if o.code != 0 {
        return fail("failed");
    }
    let Some(body) = o.out.strip_prefix(&whead[..]) else { return fail("wrong header") };
    let got = match dec(fout, body) {
        Ok(x) => x,
        Err(e) => return fail(&e),
    };
    if got.len() != want.len() || got.iter().zip(&want).any(|(a, b)| a.0 != *b) {
        return fail("wrong values");
    }
    ok(special(fin, &t.rows) || special(fout, &t.rows), (&t.bytes, fin, fout), || o.cmd())
}

/// commands that select lines: they write the lines as they were
fn verbatim(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let (sp, f) = spec(s, DEFAULT);
    let tool = s.usize(6);
    let ragged = tool == 5 && s.chance(1, 3);
    let Some(t) = file(s, f, DEFAULT, 8, ragged) else { return ok(false, 0, String::new) };
    let nc = t.header.as_ref().map_or_else(|| t.rows[0].len(), Vec::len);
    let col = s.usize(nc);
    let pos = if s.coin() || t.header.is_none() { (col + 1).to_string() } else { t.header.as_ref().unwrap()[col].clone() };
    let cells: Vec<&[u8]> = t.rows.iter().map(|r| r.get(col).map_or(&b""[..], |c| &c[..])).collect();
    let mut args: Vec<String> = Vec::new();
    let mut want = t.head.clone();
    let mut code = 0;
    match tool {
        0 => {
            // matching a column looks at the decoded value
            let pat: Vec<u8> = if !cells.is_empty() { s.pick(&cells).to_vec() } else { b"a".to_vec() };
            if pat.is_empty() || pat.contains(&0) || std::str::from_utf8(&pat).is_err() {
                return ok(false, 0, String::new);
            }
            let inv = s.chance(1, 3);
            args.extend(["cgrep".to_string(), "-p".into(), format!("{pos},exact,{}", String::from_utf8(pat.clone()).unwrap())]);
            if inv {
                args.push("-v".into());
            }
            let (mut lb, mut ll) = (false, false);
            if s.chance(1, 3) {
                lb = s.coin();
                ll = !lb || s.coin();
                args.push("-l".into());
                args.push([(lb, "B:bytes"), (ll, "L:line")].iter().filter(|x| x.0).map(|x| x.1).collect::<Vec<_>>().join(","));
                if t.header.is_some() {
                    let mut h = b" CDX".to_vec();
                    for (on, n) in [(lb, "B"), (ll, "L")] {
                        if on {
                            h.push(f.delim);
                            h.extend(n.as_bytes());
                        }
                    }
                    h.extend(&t.head[4..]);
                    want = h;
                    if t.header.as_ref().unwrap().iter().any(|n| n == "B" || n == "L") {
                        return ok(false, 0, String::new);
                    }
                }
            }
            let mut off = t.head.len();
            for (i, (c, r)) in cells.iter().zip(&t.raw).enumerate() {
                if (*c == &pat[..]) != inv {
                    if lb {
                        want.extend(off.to_string().as_bytes());
                        want.push(f.delim);
                    }
                    if ll {
                        want.extend((i + 1).to_string().as_bytes());
                        want.push(f.delim);
                    }
                    want.extend(r);
                }
                off += r.len();
            }
        }
        1 => {
            // lines are equal if the values are
            let which = s.usize(2);
            args.extend(["uniq".to_string(), "-k".into(), pos, "-w".into(), (*s.pick(&["First", "Last"][which..=which])).to_string()]);
            let count = s.chance(1, 3);
            if count {
                args.push("-c".into());
                args.push("num,begin".into());
                if t.header.is_some() {
                    if t.header.as_ref().unwrap().iter().any(|n| n == "num") {
                        return ok(false, 0, String::new);
                    }
                    want = b" CDX".to_vec();
                    want.push(f.delim);
                    want.extend(b"num");
                    want.extend(&t.head[4..]);
                }
            }
            let mut i = 0;
            while i < cells.len() {
                let mut j = i + 1;
                while j < cells.len() && cells[j] == cells[i] {
                    j += 1;
                }
                if count {
                    want.extend((j - i).to_string().as_bytes());
                    want.push(f.delim);
                }
                want.extend(&t.raw[if which == 0 { i } else { j - 1 }]);
                i = j;
            }
        }
        2 => {
            let (a, b) = (s.range(1, 5), s.range(0, 4));
            args.extend(["sample".to_string(), "-r".into(), format!("{a}-{}", a + b)]);
            for r in t.raw.iter().skip(a - 1).take(b + 1) {
                want.extend(r);
            }
        }
        3 => {
            args.extend(["cat".to_string(), "-b".into()]);
            if let Some(h) = &t.header {
                if h.iter().any(|n| n == "number") {
                    return ok(false, 0, String::new);
                }
                want = b" CDX".to_vec();
                want.push(f.delim);
                want.extend(b"number");
                want.extend(&t.head[4..]);
            }
            for (i, r) in t.raw.iter().enumerate() {
                want.extend((i + 1).to_string().as_bytes());
                want.push(f.delim);
                want.extend(r);
            }
        }
        4 => {
            args.extend(["wc".to_string(), "-l".into()]);
            if t.rows.is_empty() {
                return ok(false, 0, String::new);
            }
            want = format!("{}{}", t.rows.len(), f.eol as char).into_bytes();
        }
        _ => {
            args.push("verify".to_string());
            want.clear();
            if t.rows.iter().any(|r| r.len() != nc) {
                code = 1;
            }
        }
    }
    args.push(format!("--text-in={sp}"));
    args.push("--".into());
    args.push(ctx.file("f", &t.bytes));
    let o = cdx(ctx, &args, None);
    if (o.code == 0) != (code == 0) || o.crashed() || o.out != want {
        return Err(format!("{}\nfile: \"{}\"\nwanted exit code {code} and \"{}\"", o.describe(), show(&t.bytes), show(&want)));
    }
    ok(special(f, &t.rows) && t.rows.len() > 1, (&t.bytes, &args), || o.cmd())
}

/// transpose reads and writes the same format
fn transposed(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let (sp, f) = spec(s, DEFAULT);
    let Some(t) = file(s, f, DEFAULT, 6, false) else { return ok(false, 0, String::new) };
    if t.rows.is_empty() {
        return ok(false, 0, String::new);
    }
    let o = cdx(ctx, &["transpose".to_string(), format!("--text-in={sp}"), ctx.file("f", &t.bytes)], None);
    let mut want: Vec<Vec<Cell>> = vec![Vec::new(); t.rows[0].len()];
    if let Some(h) = &t.header {
        for (w, n) in want.iter_mut().zip(h) {
            w.push(n.as_bytes().to_vec());
        }
    }
    for r in &t.rows {
        for (w, c) in want.iter_mut().zip(r) {
            w.push(c.clone());
        }
    }
    let got = dec(f, &o.out);
    if o.code != 0 || !matches!(&got, Ok(g) if g.len() == want.len() && g.iter().zip(&want).all(|(a, b)| a.0 == *b)) {
        return Err(format!("{}\nfile: \"{}\"\nwanted the values\n{}", o.describe(), show(&t.bytes), show_cells(&want)));
    }
    ok(special(f, &t.rows), (&t.bytes, sp), || o.cmd())
}

/// the delimiter is the only difference
fn delim(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let d = *s.pick(b"|;:^~%@");
    let ragged = s.chance(1, 4);
    let (t, ks) = table(s, &TableOpt { max_rows: 8, max_cols: 4, ragged, header: 50 });
    let t2 = more(s, &t, &ks, 8, ragged);
    let nc = t.header.as_ref().map_or(ks.len(), Vec::len);
    let mut two = false;
    let mut args: Vec<String> = Vec::new();
    let col = (s.usize(nc) + 1).to_string();
    match s.usize(9) {
        0 => {
            args.extend(["cut".into(), "-D".into(), "Allow".into(), "-f".into(), col.clone()]);
            if s.coin() {
                args.extend(["-g".into(), "+all:1-".into()]);
            }
            if s.coin() {
                args.extend(["-e".into(), format!("sum:c{col}+1")]);
                if t.header.is_some() {
                    args.pop();
                    args.push(format!("sum:{}+1", t.header.as_ref().unwrap()[0]));
                }
            }
            if s.coin() {
                args.extend(["-f".into(), "1".into()]);
            }
            two = s.coin();
        }
        1 => {
            args.extend(["cgrep".into(), "-p".into(), format!("{col},{}", s.pick(&["empty,", "blank,", "prefix,1", "infix,a", "length,1,3"])), "-l".into(), "ln:line,by:bytes,nm:name.1".into()]);
            if s.coin() {
                args.push("-v".into());
            }
            two = s.coin();
        }
        2 => {
            args.extend(["uniq".into(), "-k".into(), col.clone()]);
            if s.coin() {
                args.extend(["-c".into(), "num".into()]);
            }
            if s.coin() {
                args.extend([(*s.pick(&["--agg-pre", "--agg-post"])).into(), format!("nu,{col},count")]);
            }
            if s.coin() {
                args.extend(["-a".into(), format!("{col},max")]);
            }
        }
        3 => {
            args.extend(["paste".into(), "-D".into(), "Allow".into(), "-e".into(), (*s.pick(&["Late", "Early", "Exact"])).into()]);
            if s.coin() {
                args.push("-l".into());
            } else if s.coin() {
                args.extend(["-d".into(), "zz".into()]);
            }
            two = true;
        }
        4 => {
            args.push("transpose".into());
            if s.coin() {
                args.push("-h".into());
            }
        }
        5 => {
            args.push("wc".into());
            for x in ["-l", "-w", "-c", "-b"] {
                if s.coin() && (x != "-w" || d != b' ') {
                    args.push(x.into());
                }
            }
            for x in ["-f", "-h", "-t"] {
                if s.coin() {
                    args.extend([x.into(), (*s.pick(&["yes", "no"])).into()]);
                }
            }
            // words are delimited by tabs, but not by other delimiters
            if s.coin() {
                args.push("-C".into());
            } else {
                args.retain(|a| a != "-w");
            }
            two = s.coin();
        }
        6 => {
            args.extend(["cat".into(), (*s.pick(&["-b", "-e"])).into()]);
            two = s.coin();
        }
        7 => {
            args.extend(["sample".into(), "-f".into(), "2,1".into()]);
            two = s.coin();
        }
        _ => {
            args.extend(["verify".into(), "-k".into(), format!("{col},{}", s.pick(&["plain", "num"])), "-s".into()]);
            two = s.coin();
        }
    }
    let has_d = |b: &[u8]| b.contains(&d);
    let (b1, b2) = (t.bytes(), t2.bytes());
    if has_d(&b1) || has_d(&b2) {
        return ok(false, 0, String::new);
    }
    let conv = |b: &[u8]| b.iter().map(|c| if *c == b'\t' { d } else { *c }).collect::<Vec<u8>>();
    args.push("--".into());
    args.push(ctx.file("f", &b1));
    if two {
        args.push(ctx.file("g", &b2));
    }
    let o = cdx(ctx, &args, None);
    ctx.file("f", &conv(&b1));
    if two {
        ctx.file("g", &conv(&b2));
    }
    args.insert(1, format!("--text-in=m{}", d as char));
    let p = cdx(ctx, &args, None);
    if o.crashed() || o.code != p.code || has_d(&o.out) || conv(&o.out) != p.out {
        return Err(format!("with tabs:\n{}\nwith {}:\n{}\nfiles: \"{}\" \"{}\"", o.describe(), d as char, p.describe(), show(&b1), show(&b2)));
    }
    ok(o.out.contains(&b'\t'), (&b1, &b2, &args), || p.cmd())
}

pub fn prop() -> Prop {
    Prop {
        id: "C12",
        rule: "some value needs quoting or escaping (convert, verbatim), or the output has several columns (delim)",
        arms: vec![
            Arm { name: "convert", quick: 3000, thorough: 60000, f: convert },
            Arm { name: "verbatim", quick: 3000, thorough: 60000, f: verbatim },
            Arm { name: "transpose", quick: 500, thorough: 20000, f: transposed },
            Arm { name: "delim", quick: 2000, thorough: 40000, f: delim },
        ],
    }
}
