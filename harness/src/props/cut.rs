//! cut: column selection, and transforms
use crate::engine::*;
use crate::gen::*;
use crate::model::*;
use crate::run::*;

/// one selected column: number, new name
#[derive(Clone, Debug, Hash)]
pub struct Sel {
    pub col: usize,
    pub name: Option<String>,
}

/// a single column spec
fn one(s: &mut Src, c: usize, names: &[String]) -> String {
    match s.weighted(&[3, 3, 2]) {
        0 => (c + 1).to_string(),
        // a name that occurs more than once stands for its first column
        1 if !names[..c].contains(&names[c]) => names[c].clone(),
        1 => (c + 1).to_string(),
        _ => format!("+{}", names.len() - c),
    }
}

/// a column list in the language of ColumnSet, and the columns it stands for
pub fn colset(s: &mut Src, names: &[String], fresh: &mut usize) -> (String, Vec<Sel>) {
    let n = names.len();
    let parts = s.size(1, 4, 14);
    let mut spec: Vec<String> = Vec::new();
    let mut yes: Vec<Sel> = Vec::new();
    let mut no: Vec<usize> = Vec::new();
    let mut any_yes = false;
    for _ in 0..parts {
        let neg = s.chance(1, 5);
        let (txt, cols): (String, Vec<usize>) = match s.weighted(&[6, 4, 1, 1, 2, 2]) {
            0 => {
                let c = s.usize(n);
                (one(s, c, names), vec![c])
            }
            1 => {
                let a = s.usize(n);
                let b = s.range(a, n - 1);
                let (x, y) = (one(s, a, names), one(s, b, names));
                (format!("{x}-{y}"), (a..=b).collect())
            }
            2 => {
                let a = s.usize(n);
                (format!("{}-", one(s, a, names)), (a..n).collect())
            }
            3 => {
                let b = s.usize(n);
                (format!("-{}", one(s, b, names)), (0..=b).collect())
            }
            4 => ("-".to_string(), (0..n).collect()),
            _ => {
                let c = s.usize(n);
                let not = s.chance(1, 4);
                let (txt, cols): (String, Vec<usize>) = match s.usize(7) {
                    5 if names[c].is_ascii() => {
                        // nested parentheses, with a comma or a colon inside
                        let (p, q) = names[c].split_at(1);
                        let alt = *s.pick(&["((P)|z,z)", "(z:z|(P))", "(z,z|(P)|(z:z))", "((P))"]);
                        (format!("(regex,^{}{q}$)", alt.replace('P', p)), (0..n).filter(|i| names[*i] == names[c]).collect())
                    }
                    0 => (format!("(exact,{})", names[c]), (0..n).filter(|i| names[*i] == names[c]).collect()),
                    1 => {
                        let p = &names[c][..1];
                        (format!("(prefix,{p})"), (0..n).filter(|i| names[*i].starts_with(p)).collect())
                    }
                    2 => {
                        let p = &names[c][names[c].len() - 1..];
                        (format!("(suffix,{p})"), (0..n).filter(|i| names[*i].ends_with(p)).collect())
                    }
                    3 if names[c].is_ascii() => {
                        // a plus sign inside the parentheses is part of the pattern
                        let (p, q) = names[c].split_at(1);
                        let hit = |x: &str| x.strip_suffix(q).is_some_and(|y| !y.is_empty() && y.chars().all(|ch| p.starts_with(ch)));
                        (format!("(regex,^{p}+{q}$)"), (0..n).filter(|i| hit(&names[*i])).collect())
                    }
                    4 if names[c].is_ascii() => {
                        let p = &names[c][..1];
                        (format!("(glob,{p}*)"), (0..n).filter(|i| names[*i].starts_with(p)).collect())
                    }
                    _ => {
                        let p = &names[c][names[c].len() - 1..];
                        (format!("(infix,{p})"), (0..n).filter(|i| names[*i].contains(p)).collect())
                    }
                };
                if not {
                    (txt.replacen('(', "(not.", 1), (0..n).filter(|i| !cols.contains(i)).collect())
                } else {
                    (txt, cols)
                }
            }
        };
        if neg {
            spec.push(format!("~{txt}"));
            no.extend(cols);
        } else {
            any_yes = true;
            // a new name makes sense for a single column
            let name = if cols.len() == 1 && s.chance(1, 4) {
                *fresh += 1;
                Some(format!("new{fresh}"))
            } else {
                None
            };
            spec.push(match &name {
                Some(x) => format!("{x}:{txt}"),
                None => txt,
            });
            yes.extend(cols.into_iter().map(|col| Sel { col, name: name.clone() }));
        }
    }
    if !any_yes {
        yes = (0..n).map(|col| Sel { col, name: None }).collect();
    }
    yes.retain(|x| !no.contains(&x.col));
    if yes.is_empty() {
        // selecting nothing is not interesting
        return ("1".into(), vec![Sel { col: 0, name: None }]);
    }
    (spec.join(","), yes)
}

pub fn put_name(head: &mut Vec<String>, name: &str, dups: usize) -> Result<(), ()> {
    if !head.iter().any(|x| x == name) {
        head.push(name.to_string());
        return Ok(());
    }
    match dups {
        0 => Err(()),
        1 => {
            head.push(name.to_string());
            Ok(())
        }
        _ => {
            let mut k = 1;
            loop {
                let x = format!("{name}{k}");
                if !head.contains(&x) {
                    head.push(x);
                    return Ok(());
                }
                k += 1;
            }
        }
    }
}

enum Piece {
    Fields(Vec<Sel>),
    Group(u8, Vec<Sel>),
    Composite(Vec<Result<usize, String>>),
    Sum(usize, usize),
}

fn cut(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let ragged = s.chance(1, 3);
    let (t, ks) = table(s, &TableOpt { max_rows: 12, max_cols: 6, ragged, header: 60 });
    let nf = 1 + s.weighted(&[6, 2, 1]);
    let mut tables = vec![t];
    for _ in 1..nf {
        let t = more(s, &tables[0], &ks, 8, ragged);
        tables.push(t);
    }
    let has_head = tables[0].header.is_some();
    if has_head && ks.len() > 1 && s.chance(1, 12) {
        // the same name twice
        let (a, b) = (s.usize(ks.len()), s.usize(ks.len()));
        for t in &mut tables {
            let h = t.header.as_mut().unwrap();
            h[b] = h[a].clone();
        }
    }
    let names: Vec<String> = tables[0].header.clone().unwrap_or_else(|| (1..=ks.len()).map(|i| format!("c{i}")).collect());
    if !has_head {
        // the first line of a file without header defines the columns
        for t in &mut tables {
            if let Some(r) = t.rows.first_mut() {
                while r.len() < ks.len() {
                    r.push(b"q".to_vec());
                }
            }
        }
    }
    let mut fresh = 0;
    let mut args = vec!["cut".to_string()];
    let dups = s.weighted(&[2, 2, 2]);
    if dups > 0 || s.coin() {
        args.push("-D".into());
        args.push(["Fail", "Allow", "Numeric"][dups].into());
    }
    let np = s.size(1, 3, 9);
    let mut pieces: Vec<Piece> = Vec::new();
    let mut head: Vec<String> = Vec::new();
    let mut clash = false;
    for _ in 0..np {
        let ints: Vec<usize> = (0..ks.len()).filter(|i| ks[*i] == Kind::Int && !names[..*i].contains(&names[*i])).collect();
        match s.weighted(&[6, 2, 2, 1]) {
            1 => {
                let d = *s.pick(b",;:a|");
                let (spec, sel) = colset(s, &names, &mut fresh);
                fresh += 1;
                args.push("-g".into());
                args.push(format!("{}grp{fresh}:{spec}", d as char));
                clash |= put_name(&mut head, &format!("grp{fresh}"), dups).is_err();
                pieces.push(Piece::Group(d, sel));
            }
            2 => {
                fresh += 1;
                let mut txt = format!("comp{fresh}:");
                let mut parts: Vec<Result<usize, String>> = Vec::new();
                for _ in 0..s.size(1, 5, 15) {
                    match s.weighted(&[3, 3, 1]) {
                        0 => {
                            let c = s.usize(names.len());
                            let x = one(s, c, &names);
                            txt.push_str(&format!("^{{{x}}}"));
                            parts.push(Ok(c));
                        }
                        1 => {
                            let l = (*s.pick(&["x", "yz", "-", "{", "}", " ", ":", ",", "é"])).to_string();
                            txt.push_str(&l);
                            parts.push(Err(l));
                        }
                        _ => {
                            txt.push_str("^^");
                            parts.push(Err("^".into()));
                        }
                    }
                }
                if s.chance(1, 4) {
                    let c = s.usize(names.len());
                    txt.push_str(&format!("^{}", c + 1));
                    parts.push(Ok(c));
                    txt.push(' ');
                    parts.push(Err(" ".into()));
                }
                args.push("-c".into());
                args.push(txt);
                clash |= put_name(&mut head, &format!("comp{fresh}"), dups).is_err();
                pieces.push(Piece::Composite(parts));
            }
            3 if !ints.is_empty() => {
                let a = *s.pick(&ints);
                let b = *s.pick(&ints);
                fresh += 1;
                args.push("-e".into());
                args.push(format!("expr{fresh}:{}+{}", names[a], names[b]));
                clash |= put_name(&mut head, &format!("expr{fresh}"), dups).is_err();
                pieces.push(Piece::Sum(a, b));
            }
            _ => {
                let (spec, sel) = colset(s, &names, &mut fresh);
                args.push(format!("--fields={spec}"));
                for x in &sel {
                    clash |= put_name(&mut head, x.name.as_ref().unwrap_or(&names[x.col]), dups).is_err();
                }
                pieces.push(Piece::Fields(sel));
            }
        }
    }
    let use_stdin = s.chance(1, 6);
    let mut stdin = None;
    let mut files = Vec::new();
    for (i, t) in tables.iter().enumerate() {
        let nl = !s.chance(1, 4);
        let f = t.bytes_nl(nl);
        if use_stdin && i == 0 {
            args.push("-".into());
            stdin = Some(f.clone());
        } else {
            args.push(ctx.file(&format!("f{i}"), &f));
        }
        files.push(f);
    }
    let o = cdx(ctx, &args, stdin.as_deref());
    let input = || files.iter().map(|f| show(f)).collect::<Vec<_>>();
    if o.crashed() {
        return Err(format!("crash: {}\n  input {:?}", o.describe(), input()));
    }
    let empty = files.iter().all(Vec::is_empty);
    if clash && !empty {
        // a header with duplicate names must not be written
        if o.code == 0 {
            return Err(format!("duplicate column names were accepted: {}\n  input {:?}", o.describe(), input()));
        }
        return ok(false, &args, String::new);
    }
    let mut want = Vec::new();
    if has_head {
        want.extend(header_line(&head));
    }
    for t in &tables {
        for l in t.lines() {
            let mut first = true;
            for p in &pieces {
                if !first {
                    want.push(b'\t');
                }
                first = false;
                match p {
                    Piece::Fields(sel) => {
                        let v: Vec<Cell> = sel.iter().map(|x| field(&l, x.col).to_vec()).collect();
                        want.extend(join_cells(&v, b'\t'));
                    }
                    Piece::Group(d, sel) => {
                        let v: Vec<Cell> =
                            sel.iter().map(|x| field(&l, x.col).iter().map(|c| if c == d { b' ' } else { *c }).collect()).collect();
                        want.extend(join_cells(&v, *d));
                    }
                    Piece::Composite(parts) => {
                        for p in parts {
                            match p {
                                Ok(c) => want.extend(field(&l, *c)),
                                Err(t) => want.extend(t.as_bytes()),
                            }
                        }
                    }
                    Piece::Sum(a, b) => want.extend((ref_f64(field(&l, *a)) + ref_f64(field(&l, *b)) + 0.0).to_string().as_bytes()),
                }
            }
            want.push(b'\n');
        }
    }
    if o.code != 0 || o.out != want {
        return Err(format!("{}\n  input {:?}\n  expected \"{}\"", o.describe(), input(), show(&want)));
    }
    ok(tables.iter().any(|t| t.rows.len() > 1) && ks.len() > 1, (&tables, &args[..args.len() - nf]), || format!("{} input {:?}", o.cmd(), input()))
}

/// The files have their columns in different orders, and columns of their own. Columns are looked up by name in each of them.
fn cut_files(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let nc = s.size(1, 4, 12);
    let base = names(s, nc);
    let ks: Vec<Kind> = (0..nc).map(|_| *s.pick(&[Kind::Int, Kind::Word, Kind::Bytes, Kind::Int])).collect();
    let nf = s.size(2, 3, 8);
    // columns of each file: an index into base, or a column of its own
    let mut shape: Vec<Vec<Option<usize>>> = Vec::new();
    let mut tables: Vec<Table> = Vec::new();
    for f in 0..nf {
        let mut sh: Vec<Option<usize>> = (0..nc).map(Some).collect();
        for i in (1..nc).rev() {
            let j = i - s.usize(i + 1);
            sh.swap(i, j);
        }
        for _ in 0..s.weighted(&[3, 2, 1]) {
            let at = s.usize(sh.len() + 1);
            sh.insert(at, None);
        }
        let h: Vec<String> = sh.iter().enumerate().map(|(i, x)| x.map_or_else(|| format!("own{f}_{i}"), |c| base[c].clone())).collect();
        let n = nrows(s, 8);
        let kk: Vec<Kind> = sh.iter().map(|x| x.map_or(Kind::Word, |c| ks[c])).collect();
        let ragged = s.chance(1, 3);
        tables.push(Table { header: Some(h), rows: rows(s, &kk, n, ragged) });
        shape.push(sh);
    }
    let mut args = vec!["cut".to_string(), "-D".into(), "Allow".into()];
    let mut head: Vec<String> = Vec::new();
    let mut pieces: Vec<Piece> = Vec::new();
    for k in 0..s.size(1, 3, 8) {
        let ints: Vec<usize> = (0..nc).filter(|i| ks[*i] == Kind::Int).collect();
        let mut cols = |s: &mut Src| -> Vec<usize> { (0..s.size(1, 3, 9)).map(|_| s.usize(nc)).collect() };
        match s.weighted(&[4, 2, 2, 1]) {
            1 => {
                let c = cols(s);
                args.push(format!("--group=,grp{k}:{}", c.iter().map(|x| base[*x].clone()).collect::<Vec<_>>().join(",")));
                head.push(format!("grp{k}"));
                pieces.push(Piece::Group(b',', c.iter().map(|x| Sel { col: *x, name: None }).collect()));
            }
            2 => {
                let c = cols(s);
                args.push(format!("--composite=comp{k}:{}", c.iter().map(|x| format!("<^{{{}}}", base[*x])).collect::<String>()));
                head.push(format!("comp{k}"));
                pieces.push(Piece::Composite(c.iter().flat_map(|x| [Err("<".to_string()), Ok(*x)]).collect()));
            }
            3 if !ints.is_empty() => {
                let (a, b) = (*s.pick(&ints), *s.pick(&ints));
                args.push(format!("--expr=expr{k}:{}+{}", base[a], base[b]));
                head.push(format!("expr{k}"));
                pieces.push(Piece::Sum(a, b));
            }
            _ => {
                let c = cols(s);
                let mut sel = Vec::new();
                let mut spec = Vec::new();
                for x in c {
                    let txt = if s.chance(1, 3) { format!("(exact,{})", base[x]) } else { base[x].clone() };
                    let name = if s.chance(1, 4) { Some(format!("new{}", head.len())) } else { None };
                    spec.push(name.as_ref().map_or_else(|| txt.clone(), |n| format!("{n}:{txt}")));
                    head.push(name.clone().unwrap_or_else(|| base[x].clone()));
                    sel.push(Sel { col: x, name });
                }
                args.push(format!("--fields={}", spec.join(",")));
                pieces.push(Piece::Fields(sel));
            }
        }
    }
    let mut files = Vec::new();
    let mut want = header_line(&head);
    for (i, t) in tables.iter().enumerate() {
        let nl = !s.chance(1, 4);
        let b = t.bytes_nl(nl);
        args.push(ctx.file(&format!("f{i}"), &b));
        files.push(b);
        for l in t.lines() {
            let get = |c: usize| field(&l, shape[i].iter().position(|x| *x == Some(c)).unwrap());
            let mut cells: Vec<Cell> = Vec::new();
            for p in &pieces {
                match p {
                    Piece::Fields(sel) => cells.extend(sel.iter().map(|x| get(x.col).to_vec())),
                    Piece::Group(d, sel) => {
                        let v: Vec<Cell> = sel.iter().map(|x| get(x.col).iter().map(|c| if c == d { b' ' } else { *c }).collect()).collect();
                        cells.push(join_cells(&v, *d));
                    }
                    Piece::Composite(parts) => cells.push(parts.iter().flat_map(|p| p.as_ref().map_or_else(|t| t.as_bytes().to_vec(), |c| get(*c).to_vec())).collect()),
                    Piece::Sum(a, b) => cells.push((ref_f64(get(*a)) + ref_f64(get(*b)) + 0.0).to_string().into_bytes()),
                }
            }
            want.extend(join_cells(&cells, b'\t'));
            want.push(b'\n');
        }
    }
    let o = cdx(ctx, &args, None);
    let input = || files.iter().map(|f| show(f)).collect::<Vec<_>>();
    if o.code != 0 || o.out != want {
        return Err(format!("{}\n  input {:?}\n  expected \"{}\"", o.describe(), input(), show(&want)));
    }
    let moved = shape[1..].iter().any(|x| *x != shape[0]);
    ok(moved && tables[1..].iter().any(|t| !t.rows.is_empty()), (&tables, &args[..args.len() - nf]), || format!("{} input {:?}", o.cmd(), input()))
}

/// column lists that name no column must be rejected
fn bad(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let nc = s.range(1, 5);
    let ks = kinds(s, nc);
    let names = names(s, nc);
    let n = s.range(1, 4);
    let t = Table { header: Some(names.clone()), rows: rows(s, &ks, n, false) };
    let mut fresh = 0;
    let (good, _) = colset(s, &names, &mut fresh);
    let worst = match s.usize(6) {
        0 => "nosuch".to_string(),
        1 => format!("+{}", nc + 1 + s.usize(3)),
        2 => "+0".to_string(),
        3 if nc > 1 => {
            let a = s.range(1, nc - 1);
            let b = s.usize(a);
            format!("{}-{}", one(s, a, &names), one(s, b, &names))
        }
        4 => format!("{}-nosuch", one(s, 0, &names)),
        5 => format!("{}X", names[0]),
        _ => "(nosuchmatcher,x)".to_string(),
    };
    let worst = if s.chance(1, 4) { format!("~{worst}") } else { worst };
    let spec = if s.coin() { format!("{good},{worst}") } else { format!("{worst},{good}") };
    let f = ctx.file("f0", &t.bytes());
    let o = cdx(ctx, &["cut".to_string(), "-D".into(), "Allow".into(), format!("--fields={spec}"), f], None);
    if o.code != 1 || o.timeout || o.err.is_empty() {
        return Err(format!("a bad column list must fail: {}\n  input {}", o.describe(), show(&t.bytes())));
    }
    ok(true, (&t, &spec), || o.cmd())
}

// ------------------------------------------------------------ transforms

const B64: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
pub fn b64_encode(b: &[u8]) -> Vec<u8> {
    let mut o = Vec::new();
    for c in b.chunks(3) {
        let n = (u32::from(c[0]) << 16) | (u32::from(*c.get(1).unwrap_or(&0)) << 8) | u32::from(*c.get(2).unwrap_or(&0));
        for i in 0..4 {
            if i <= c.len() {
                o.push(B64[(n >> (18 - 6 * i)) as usize & 63]);
            } else {
                o.push(b'=');
            }
        }
    }
    o
}
/// None if it is not canonical base64
pub fn b64_decode(b: &[u8]) -> Option<Vec<u8>> {
    if b.len() % 4 != 0 {
        return None;
    }
    let mut o = Vec::new();
    let last = b.len() / 4;
    for (k, c) in b.chunks(4).enumerate() {
        let pad = if k + 1 == last { c.iter().rev().take_while(|x| **x == b'=').count() } else { 0 };
        if pad > 2 {
            return None;
        }
        let mut n = 0u32;
        for x in &c[..4 - pad] {
            n = (n << 6) | B64.iter().position(|y| y == x)? as u32;
        }
        n <<= 6 * pad;
        let bytes = [(n >> 16) as u8, (n >> 8) as u8, n as u8];
        if bytes[3 - pad..].iter().any(|x| *x != 0) {
            return None;
        }
        o.extend(&bytes[..3 - pad]);
    }
    Some(o)
}
#[derive(Clone, Debug, Hash)]
pub enum Tr {
    Norm(bool),
    Lower(bool),
    Upper(bool),
    Enc,
    Dec,
    Bytes(Vec<(usize, usize)>),
}
pub fn apply(t: &Tr, v: &[u8]) -> Option<Vec<u8>> {
    Some(match t {
        Tr::Norm(false) => v.split(|c| *c <= b' ').filter(|w| !w.is_empty()).collect::<Vec<_>>().join(&b' '),
        Tr::Norm(true) => String::from_utf8_lossy(v)
            .split(|c: char| c.is_whitespace() || c == '\u{fffd}')
            .filter(|w| !w.is_empty())
            .collect::<Vec<_>>()
            .join(" ")
            .into_bytes(),
        Tr::Lower(false) => v.to_ascii_lowercase(),
        Tr::Upper(false) => v.to_ascii_uppercase(),
        Tr::Lower(true) => String::from_utf8_lossy(v).chars().flat_map(char::to_lowercase).collect::<String>().into_bytes(),
        Tr::Upper(true) => String::from_utf8_lossy(v).chars().flat_map(char::to_uppercase).collect::<String>().into_bytes(),
        Tr::Enc => b64_encode(v),
        Tr::Dec => return b64_decode(v),
        Tr::Bytes(r) => r.iter().flat_map(|(a, b)| v.iter().skip(a - 1).take(b + 1 - a).copied().collect::<Vec<_>>()).collect(),
    })
}
pub fn tr_spec(s: &mut Src, t: &Tr) -> String {
    let u = |b: bool, n: &str, s: &mut Src| {
        let x = if b {
            if s.coin() {
                format!("{n}.utf8")
            } else {
                format!("utf8.{n}")
            }
        } else {
            n.to_string()
        };
        if s.chance(1, 8) {
            x.replace("utf8", "UTF8")
        } else {
            x
        }
    };
    match t {
        Tr::Norm(b) => u(*b, "normspace", s),
        Tr::Lower(b) => {
            let n = *s.pick(&["lower", "lowercase"]);
            u(*b, n, s)
        }
        Tr::Upper(b) => {
            let n = *s.pick(&["upper", "uppercase"]);
            u(*b, n, s)
        }
        Tr::Enc => "to_base64".into(),
        Tr::Dec => "from_base64".into(),
        Tr::Bytes(r) => {
            let v: Vec<String> = r.iter().map(|(a, b)| if a == b { a.to_string() } else { format!("{a}-{b}") }).collect();
            format!("bytes,{}", v.join(","))
        }
    }
}
pub fn text_value(s: &mut Src) -> Cell {
    match s.weighted(&[3, 1, 1, 1]) {
        0 => {
            let n = s.size(0, 8, 90);
            let mut v = Vec::new();
            for _ in 0..n {
                v.extend(s.pick(&["a", " ", "  ", "B", "é", "ß", "İ", "\u{a0}", "\u{2003}", "\x0b", "Z", "1", "\r"]).bytes());
            }
            v
        }
        1 => value(s, Kind::Bytes),
        2 => value(s, Kind::Utf),
        _ => {
            let k = *s.pick(&[Kind::Word, Kind::Bytes]);
            b64_encode(&value(s, k))
        }
    }
}
/// a position far behind the end of every value
fn far(s: &mut Src) -> usize {
    *s.pick(&[300, 65535, 65537, (1 << 31) + 1, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, (1 << 40) + 2])
}
/// every part of the list starts with a tilde; commas within parentheses do not separate parts
fn only_exclusions(list: &str) -> bool {
    let mut depth = 0;
    let mut start = true;
    for c in list.chars() {
        if start && c != '~' {
            return false;
        }
        match c {
            '(' => depth += 1,
            ')' => depth -= 1,
            _ => {}
        }
        start = c == ',' && depth == 0;
    }
    true
}
/// a chain of transforms
pub fn chain(s: &mut Src) -> Vec<Tr> {
    let nt = s.size(1, 3, 8);
    let mut chain: Vec<Tr> = Vec::new();
    for i in 0..nt {
        let u = s.coin();
        let x = match s.weighted(&[3, 2, 2, 2, 2, 2]) {
            0 => Tr::Norm(u),
            1 => Tr::Lower(u),
            2 => Tr::Upper(u),
            3 => Tr::Enc,
            // decode mostly what was encoded
            4 => {
                if i > 0 && matches!(chain[i - 1], Tr::Enc) || s.chance(1, 6) {
                    Tr::Dec
                } else {
                    Tr::Enc
                }
            }
            _ => {
                let k = s.size(1, 3, 9);
                Tr::Bytes(
                    (0..k)
                        .map(|_| {
                            let a = if s.chance(1, 40) { far(s) } else { s.range(1, 6) };
                            let b = if s.chance(1, 40) { a.max(far(s)) } else { s.range(a, a + 7) };
                            (a, b)
                        })
                        .collect(),
                )
            }
        };
        chain.push(x);
    }
    chain
}
fn trans(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let nc = s.size(1, 4, 12);
    let nr = s.size(1, 6, 90);
    let mut t = Table { header: if s.coin() { Some(names(s, nc)) } else { None }, rows: Vec::new() };
    for _ in 0..nr {
        let mut r: Vec<Cell> = (0..nc).map(|_| text_value(s)).collect();
        if bad_first(&r[0]) {
            r[0] = b"q".to_vec();
        }
        t.rows.push(r);
    }
    let np = s.size(1, 3, 9);
    let mut args = vec!["cut".to_string(), "-D".into(), "Allow".into()];
    let mut cols: Vec<(Option<(u8, String)>, Vec<Sel>, Vec<Tr>)> = Vec::new();
    let mut fresh = 0;
    let names: Vec<String> = t.header.clone().unwrap_or_else(|| (1..=nc).map(|i| format!("c{i}")).collect());
    for _ in 0..np {
        let chain = chain(s);
        let (list, sel) = if s.coin() {
            let c: Vec<usize> = (0..s.size(1, 2, 9)).map(|_| s.usize(nc)).collect();
            (c.iter().map(|x| (x + 1).to_string()).collect::<Vec<_>>().join(","), c.iter().map(|x| Sel { col: *x, name: None }).collect())
        } else {
            // a list of exclusions alone stands for columns that are not listed, and so not transformed
            let (list, sel) = colset(s, &names, &mut fresh);
            (if only_exclusions(&list) { format!("-,{list}") } else { list }, sel)
        };
        let tr: Vec<String> = chain.iter().map(|x| tr_spec(s, x)).collect();
        let spec = format!("{list}+{}", tr.join("+"));
        if s.chance(1, 5) {
            fresh += 1;
            let d = *s.pick(b",;|");
            args.push(format!("--group={}grp{fresh}:{spec}", d as char));
            cols.push((Some((d, format!("grp{fresh}"))), sel, chain));
        } else {
            args.push(format!("--fields={spec}"));
            cols.push((None, sel, chain));
        }
    }
    let nl = s.coin();
    let f = t.bytes_nl(nl);
    args.push(ctx.file("f0", &f));
    // expected
    let mut want = Vec::new();
    let mut bad = false;
    let mut changed = false;
    if let Some(h) = &t.header {
        let mut n: Vec<String> = Vec::new();
        for (g, sel, _) in &cols {
            match g {
                Some((_, name)) => n.push(name.clone()),
                None => n.extend(sel.iter().map(|x| x.name.clone().unwrap_or_else(|| h[x.col].clone()))),
            }
        }
        want.extend(header_line(&n));
    }
    'all: for r in &t.rows {
        let mut cells: Vec<Cell> = Vec::new();
        for (g, sel, chain) in &cols {
            let mut group: Vec<Cell> = Vec::new();
            for x in sel {
                let mut v = r[x.col].clone();
                for tr in chain {
                    match apply(tr, &v) {
                        Some(y) => v = y,
                        None => {
                            bad = true;
                            break 'all;
                        }
                    }
                }
                changed |= v != r[x.col];
                let delim = g.as_ref().map_or(b'\t', |x| x.0);
                let v: Cell = v.iter().map(|c| if *c == delim || *c == b'\n' { b' ' } else { *c }).collect();
                match g {
                    Some(_) => group.push(v),
                    None => cells.push(v),
                }
            }
            if let Some((d, _)) = g {
                cells.push(join_cells(&group, *d));
            }
        }
        want.extend(join_cells(&cells, b'\t'));
        want.push(b'\n');
    }
    let o = cdx(ctx, &args, None);
    if o.crashed() {
        return Err(format!("crash: {} input {}", o.describe(), show(&f)));
    }
    if bad {
        if o.code == 0 {
            return Err(format!("bad base64 was accepted: {} input {}", o.describe(), show(&f)));
        }
        return ok(true, (&t, &args), || format!("{} fails, input {}", o.cmd(), show(&f)));
    }
    if o.code != 0 || o.out != want {
        return Err(format!("{}\n  input {}\n  expected \"{}\"", o.describe(), show(&f), show(&want)));
    }
    ok(changed, (&t, &args[..args.len() - 1]), || format!("{} input {}", o.cmd(), show(&f)))
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C09",
            rule: "non-trivial: some file has more than one line, there is more than one column, and the selection is valid; or the files have their columns in different orders",
            arms: vec![Arm { name: "cut", quick: 10_000, thorough: 150_000, f: cut }, Arm { name: "files", quick: 2000, thorough: 40_000, f: cut_files }, Arm { name: "bad", quick: 2000, thorough: 20_000, f: bad }],
        },
        Prop {
            id: "C19",
            rule: "non-trivial: some value is changed by its transforms, or must be rejected",
            arms: vec![Arm { name: "trans", quick: 10_000, thorough: 150_000, f: trans }],
        },
    ]
}
