//! cat, paste, wc
use crate::engine::*;
use crate::gen::*;
use crate::model::*;
use crate::props::grep::matcher;
use crate::props::uniq::{agg_ref, agg_spec, AggSpec, Exp};
use crate::run::*;

/// several files with the same header, or none. Some have no lines, some are empty, some lack the final newline
pub struct Multi {
    pub tables: Vec<Table>,
    /// zero bytes
    pub empty: Vec<bool>,
    pub bytes: Vec<Vec<u8>>,
    pub kinds: Vec<Kind>,
}
pub fn multi(s: &mut Src, max_files: usize, max_rows: usize, header: u64, ragged: bool) -> Multi {
    let (t, ks) = table(s, &TableOpt { max_rows, max_cols: 4, ragged, header });
    let nf = s.size(1, max_files, 20);
    let mut m = Multi { tables: Vec::new(), empty: Vec::new(), bytes: Vec::new(), kinds: ks.clone() };
    for i in 0..nf {
        let x = if i == 0 { t.clone() } else { more(s, &t, &ks, max_rows, ragged) };
        let mut x = x;
        let empty = s.chance(1, 10);
        if empty || s.chance(1, 8) {
            x.rows.clear();
        }
        let nl = s.chance(2, 3);
        m.bytes.push(if empty { Vec::new() } else { x.bytes_nl(nl) });
        m.empty.push(empty || (x.header.is_none() && x.rows.is_empty()));
        m.tables.push(x);
    }
    m
}
/// pad one value so that the file is longer than the buffers of the program
fn fatten(s: &mut Src, m: &mut Multi) {
    for i in 0..m.bytes.len() {
        if m.tables[i].rows.is_empty() || !s.coin() {
            continue;
        }
        let want = *s.pick(&[16384usize, 32768, 8192, 65536]) as i64 + s.irange(-3, 3);
        let have = m.bytes[i].len() as i64;
        if want > have {
            let nl = m.bytes[i].last() == Some(&b'\n');
            let r = s.usize(m.tables[i].rows.len());
            m.tables[i].rows[r][0] = {
                let mut v = m.tables[i].rows[r][0].clone();
                v.extend(vec![b'x'; (want - have) as usize]);
                v
            };
            m.bytes[i] = m.tables[i].bytes_nl(nl);
        }
    }
}
fn write_files(ctx: &Ctx, m: &Multi, args: &mut Vec<String>) {
    for (i, b) in m.bytes.iter().enumerate() {
        args.push(ctx.file(&format!("f{i}"), b));
    }
}

fn cat_plain(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let ragged = s.coin();
    let mut m = multi(s, 4, 12, 50, ragged);
    if s.chance(1, 6) {
        fatten(s, &mut m);
    }
    let pad = s.weighted(&[2, 2, 2, 2]);
    let mut args = vec!["cat".to_string()];
    if pad > 0 {
        args.push("-p".into());
        args.push((*s.pick(&[["Yes", "yes"], ["No", "no"], ["End", "END"]][pad - 1])).to_string());
    }
    write_files(ctx, &m, &mut args);
    let stdin = if s.chance(1, 8) {
        let i = s.usize(m.bytes.len());
        let k = args.len() - m.bytes.len() + i;
        args[k] = "-".into();
        Some(m.bytes[i].clone())
    } else {
        None
    };
    let mut want: Vec<u8> = Vec::new();
    let mut first = true;
    for (t, b) in m.tables.iter().zip(&m.bytes) {
        if b.is_empty() {
            continue;
        }
        let skip = if first { 0 } else { t.head().len() };
        first = false;
        want.extend(&b[skip..]);
        if pad <= 1 && want.last() != Some(&b'\n') {
            want.push(b'\n');
        }
    }
    if pad == 3 && !want.is_empty() && want.last() != Some(&b'\n') {
        want.push(b'\n');
    }
    let o = cdx(ctx, &args, stdin.as_deref());
    if o.code != 0 || o.out != want {
        return Err(format!("{}\nfiles: {}\nwanted \"{}\"", o.describe(), m.bytes.iter().map(|b| format!("\"{}\"", show(b))).collect::<Vec<_>>().join(" "), show(&want)));
    }
    let live = m.tables.iter().filter(|t| !t.rows.is_empty()).count();
    ok(live >= 2 || m.bytes.iter().any(|b| !b.is_empty() && b.last() != Some(&b'\n')), (&m.bytes, pad), || o.cmd())
}

/// files whose sizes and line ends lie close to the ends of buffers
fn cat_edges(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let n = s.range(1, 3);
    let files: Vec<Vec<u8>> = (0..n).map(|_| edges(s)).collect();
    let pad = s.usize(3);
    let mut args = vec!["cat".to_string(), "-p".into(), ["yes", "no", "end"][pad].into()];
    let mut want = Vec::new();
    for (i, f) in files.iter().enumerate() {
        args.push(ctx.file(&format!("f{i}"), f));
        want.extend(f);
        if want.last() != Some(&b'\n') && (pad == 0 || pad == 2 && i + 1 == n) {
            want.push(b'\n');
        }
    }
    let o = cdx(ctx, &args, None);
    if o.code != 0 || o.out != want {
        return Err(format!("{}\nfiles: {}", o.describe(), files.iter().map(|b| format!("\"{}\"", show(b))).collect::<Vec<_>>().join(" ")));
    }
    ok(n > 1 && files.iter().any(|f| !f.ends_with(b"\n")), (&files, pad), || format!("{} with files of {:?} bytes", o.cmd(), files.iter().map(Vec::len).collect::<Vec<_>>()))
}
fn cat_number(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let ragged = s.coin();
    let m = multi(s, 3, 10, 50, ragged);
    let mut args = vec!["cat".to_string()];
    // 0 none, 1 begin, 2 end
    let mut place = 0;
    let mut start = 0;
    let mut name = "number".to_string();
    match s.weighted(&[2, 2, 2, 4]) {
        0 => {}
        1 => {
            place = 1;
            start = 1;
            args.push((*s.pick(&["-b", "--begin"])).into());
        }
        2 => {
            place = 2;
            start = 1;
            args.push((*s.pick(&["-e", "--end"])).into());
        }
        _ => {
            place = 1;
            name = (*s.pick(&["num", "N", "line_no"])).to_string();
            let mut spec = name.clone();
            if s.chance(3, 4) {
                start = s.irange(-20, 120);
                spec.push_str(&format!(",{start}"));
                if s.chance(2, 3) {
                    place = 1 + s.usize(2);
                    spec.push_str(if place == 1 { *s.pick(&[",begin", ",Begin"]) } else { *s.pick(&[",end", ",END"]) });
                }
            }
            args.push(format!("--number={spec}"));
        }
    }
    if m.tables[0].header.as_ref().is_some_and(|h| h.contains(&name)) {
        return ok(false, 0, String::new);
    }
    let lines: Vec<Vec<u8>> = m.tables.iter().flat_map(|t| t.rows.iter().map(|r| join_cells(r, b'\t'))).collect();
    let mut rem = Vec::new();
    let mut skp = Vec::new();
    for _ in 0..s.weighted(&[9, 9, 3, 1, 1]) {
        rem.push(matcher(s, ctx, &lines));
    }
    for _ in 0..s.weighted(&[9, 9, 3, 1, 1]) {
        skp.push(matcher(s, ctx, &lines));
    }
    if rem.iter().chain(&skp).any(|m| m.is_utf8()) && lines.iter().any(|l| std::str::from_utf8(l).is_err()) {
        return ok(false, 0, String::new);
    }
    for r in &rem {
        args.push(format!("--remove={}", r.spec));
    }
    for r in &skp {
        args.push(format!("--skip={}", r.spec));
    }
    if place == 0 && rem.is_empty() && skp.is_empty() {
        return ok(false, 0, String::new);
    }
    args.push("--".into());
    write_files(ctx, &m, &mut args);
    let mut want = Vec::new();
    let mut n = start;
    let mut did_head = false;
    let mut counts = (0, 0, 0);
    for (t, b) in m.tables.iter().zip(&m.bytes) {
        if b.is_empty() {
            continue;
        }
        if let (Some(h), false) = (&t.header, did_head) {
            let mut h = h.clone();
            if place == 1 {
                h.insert(0, name.clone());
            }
            if place == 2 {
                h.push(name.clone());
            }
            want.extend(header_line(&h));
            did_head = true;
        }
        for r in &t.rows {
            let l = join_cells(r, b'\t');
            if rem.iter().any(|m| m.eval(&l)) {
                counts.0 += 1;
                continue;
            }
            let num = if skp.iter().any(|m| m.eval(&l)) {
                counts.1 += 1;
                String::new()
            } else {
                counts.2 += 1;
                n += 1;
                (n - 1).to_string()
            };
            if place == 1 {
                want.extend(num.as_bytes());
                want.push(b'\t');
            }
            want.extend(&l);
            if place == 2 {
                want.push(b'\t');
                want.extend(num.as_bytes());
            }
            want.push(b'\n');
        }
    }
    let o = cdx(ctx, &args, None);
    if o.code != 0 || o.out != want {
        return Err(format!("{}\nfiles: {}\nwanted \"{}\"", o.describe(), m.bytes.iter().map(|b| format!("\"{}\"", show(b))).collect::<Vec<_>>().join(" "), show(&want)));
    }
    ok(counts.2 > 0 && (counts.0 > 0 || counts.1 > 0 || m.bytes.len() > 1), (&m.bytes, &o.out), || o.cmd())
}

// ------------------------------------------------------------------ paste

fn paste(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let far = s.chance(1, 60);
    let nf = if far { s.range(10, 25) } else { s.size(1, 4, 20) };
    let hmode = s.weighted(&[3, 2, 1]); // all, none, mixed
    let common = nrows(s, 8);
    let same = s.coin();
    let mut tables: Vec<Table> = Vec::new();
    let mut pool = s.usize(NAMES.len());
    let clash = s.chance(1, 3);
    for _ in 0..nf {
        let nc = s.size(1, 3, 9);
        let ks = kinds(s, nc);
        let n = if same { common } else { nrows(s, 6) };
        let ragged = s.chance(1, 6);
        let rows = rows(s, &ks, n, ragged);
        let has = match hmode {
            0 => true,
            1 => false,
            _ => s.coin(),
        };
        let header = if has {
            let mut h: Vec<String> = Vec::new();
            for _ in 0..nc {
                let mut k = if far { s.usize(2) } else if clash { s.usize(NAMES.len()) } else { pool % NAMES.len() };
                pool += 1;
                for _ in 0..NAMES.len() {
                    if h.iter().any(|x| x == NAMES[k]) {
                        k = (k + 1) % NAMES.len();
                    }
                }
                h.push(if (!clash && pool > 20) || h.iter().any(|x| x == NAMES[k]) { format!("{}_{pool}", NAMES[k]) } else { NAMES[k].to_string() });
            }
            Some(h)
        } else {
            None
        };
        tables.push(Table { header, rows });
    }
    // a file without header and without lines has no columns at all: leave it out
    if tables.iter().any(|t| t.header.is_none() && t.rows.is_empty()) {
        return ok(false, 0, String::new);
    }
    let mut args = vec!["paste".to_string()];
    let end = s.weighted(&[3, 1, 2, 4]); // default, exact, early, late
    if end > 0 {
        args.push("-e".into());
        args.push((*s.pick(&[["Exact", "exact"], ["early", "Early"], ["Late", "late"]][end - 1])).into());
    }
    let last = s.chance(1, 3);
    if last {
        args.push("-l".into());
    }
    let all_head = tables.iter().all(|t| t.header.is_some());
    // renames and duplicate handling
    let dups = if far { s.range(2, 3) } else { s.weighted(&[4, 2, 1, 2]) }; // default fail, fail, allow, numeric
    if dups > 0 {
        args.push("-D".into());
        args.push((*s.pick(&[["Fail", "fail"], ["Allow", "allow"], ["Numeric", "numeric"]][dups - 1])).into());
    }
    let mut renames: Vec<(String, String)> = Vec::new();
    if s.chance(1, 4) {
        for _ in 0..s.size(1, 2, 6) {
            let from = (*s.pick(&NAMES)).to_string();
            let to = if s.chance(1, 6) { (*s.pick(&NAMES)).to_string() } else { format!("new{}", renames.len()) };
            renames.push((from, to));
        }
        args.push("-r".into());
        args.push(renames.iter().map(|(a, b)| format!("{a}.{b}")).collect::<Vec<_>>().join(","));
    }
    let sloppy = s.chance(1, 4);
    if sloppy {
        args.push("-R".into());
    }
    // the header. Names are checked only as long as all files so far have a header
    let mut fail = false;
    let mut head: Vec<String> = Vec::new();
    let mut checking = true;
    for t in &tables {
        if t.header.is_none() {
            checking = false;
        }
        let h = t.header.clone().unwrap_or_else(|| (1..=t.rows[0].len()).map(|i| format!("c{i}")).collect());
        for n in h {
            if !checking || !head.contains(&n) {
                head.push(n);
                continue;
            }
            if let Some(k) = renames.iter().position(|(a, _)| *a == n) {
                let (_, to) = renames.remove(k);
                if head.contains(&to) {
                    fail = true;
                }
                head.push(to);
                continue;
            }
            match dups {
                0 | 1 => fail = true,
                2 => head.push(n),
                _ => {
                    let k = (1..).find(|i| !head.contains(&format!("{n}{i}"))).unwrap();
                    head.push(format!("{n}{k}"));
                }
            }
        }
    }
    if !renames.is_empty() && !sloppy {
        fail = true;
    }
    // defaults
    let ncol = head.len();
    let mut dflt = vec![String::new(); ncol];
    for _ in 0..s.weighted(&[2, 2, 1]) {
        let v = (*s.pick(&["zz", "", "-", "n a", "é"])).to_string();
        let mut spec = v.clone();
        let (mut a, mut b) = (0, ncol - 1);
        if s.coin() {
            a = s.usize(ncol);
            b = s.range(a, ncol - 1);
            let name = |s: &mut Src, c: usize| if all_head && head.iter().filter(|x| **x == head[c]).count() == 1 && s.coin() { head[c].clone() } else { (c + 1).to_string() };
            spec.push(',');
            spec.push_str(&name(s, a));
            if b > a {
                spec.push('-');
                spec.push_str(&name(s, b));
            }
        }
        if v.is_empty() && spec.starts_with(',') {
            continue;
        }
        for x in &mut dflt[a..=b] {
            x.clone_from(&v);
        }
        args.push(format!("--default={spec}"));
    }
    args.push("--".into());
    for (i, t) in tables.iter().enumerate() {
        let nl = s.chance(3, 4);
        args.push(ctx.file(&format!("f{i}"), &t.bytes_nl(nl)));
    }
    // rows
    let lens: Vec<usize> = tables.iter().map(|t| t.rows.len()).collect();
    let (mn, mx) = (*lens.iter().min().unwrap(), *lens.iter().max().unwrap());
    let mut want = Vec::new();
    if all_head {
        want.extend(header_line(&head));
    }
    let n = if fail {
        0
    } else if end == 3 {
        mx
    } else {
        mn
    };
    for i in 0..n {
        let mut parts: Vec<Vec<u8>> = Vec::new();
        let mut off = 0;
        for t in &tables {
            let w = t.header.as_ref().map_or_else(|| t.rows[0].len(), Vec::len);
            if i < t.rows.len() {
                parts.push(join_cells(&t.rows[i], b'\t'));
            } else if last && !t.rows.is_empty() {
                parts.push(join_cells(t.rows.last().unwrap(), b'\t'));
            } else {
                parts.push(dflt[off..off + w].join("\t").into_bytes());
            }
            off += w;
        }
        want.extend(join_cells(&parts, b'\t'));
        want.push(b'\n');
    }
    let late_fail = end <= 1 && mn != mx;
    let o = cdx(ctx, &args, None);
    let good = if fail { o.code == 1 } else if late_fail { o.code == 1 && o.out == want } else { o.code == 0 && o.out == want };
    if o.crashed() || !good {
        return Err(format!(
            "{}\nfiles: {}\nwanted {} \"{}\"",
            o.describe(),
            tables.iter().map(|t| format!("\"{}\"", show(&t.bytes()))).collect::<Vec<_>>().join(" "),
            if fail || late_fail { "failure" } else { "success" },
            show(&want)
        ));
    }
    ok(!fail && tables.len() > 1 && mx > 0, (&tables, &o.out), || o.cmd())
}

// ------------------------------------------------------------------ wc

fn tri(s: &mut Src) -> (usize, &'static str) {
    let k = s.usize(3);
    (k, s.pick(&[["yes", "True", "1", "on"], ["no", "FALSE", "0", "off"], ["maybe", "sometimes", "Maybe", "maybe"]][k]))
}
fn num_ok(cell: &[u8], want: f64) -> bool {
    let t = String::from_utf8_lossy(cell);
    if want.fract() == 0.0 && want.abs() < 1000.0 {
        return t == format!("{want:.0}");
    }
    t.parse::<f64>().is_ok_and(|v| (v - want).abs() <= 1e-9 * want.abs().max(1.0))
}
enum Wc {
    Agg(AggSpec),
    /// lines, bytes, chars, words
    Short(usize),
}
impl Wc {
    fn value(&self, v: &[Vec<u8>]) -> Option<f64> {
        match self {
            Wc::Agg(a) => match agg_ref(a, v) {
                Some(Exp::Num(x)) => Some(x),
                _ => None,
            },
            Wc::Short(k) => Some(v.iter().map(|l| short(*k, l)).sum::<usize>() as f64),
        }
    }
}
fn short(k: usize, l: &[u8]) -> usize {
    match k {
        0 => 1,
        1 => l.len(),
        2 => String::from_utf8_lossy(l).chars().count(),
        _ => l.split(|c| *c <= b' ').filter(|w| !w.is_empty()).count(),
    }
}

fn wc(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let columns = s.chance(1, 3);
    let ragged = s.chance(1, 3);
    let mut m = multi(s, 3, 8, 50, ragged);
    if columns && s.coin() {
        // files with other headers
        for i in 1..m.tables.len() {
            if m.tables[i].header.is_some() {
                let n = s.range(1, 4);
                let ks = kinds(s, n);
                let k = m.tables[i].rows.len();
                m.tables[i] = Table { header: Some(names(s, n)), rows: rows(s, &ks, k, ragged) };
                if !m.bytes[i].is_empty() {
                    m.bytes[i] = m.tables[i].bytes();
                }
            }
        }
    }
    let mut args = vec!["wc".to_string()];
    let mut aggs: Vec<(String, Wc)> = Vec::new();
    let totals = s.weighted(&[3, 2, 2, 1, 1]); // default, yes, no, maybe, only
    let only = totals == 4;
    for i in 0..s.weighted(&[1, 3, 2, 1]) {
        if s.coin() {
            let k = s.usize(4);
            let nm = ["lines", "bytes", "chars", "words"][k];
            if aggs.iter().any(|a| a.0 == nm) {
                continue;
            }
            args.push((*s.pick(&[["-l", "--lines"], ["-b", "--bytes"], ["-c", "--chars"], ["-w", "--words"]][k])).to_string());
            aggs.push((nm.to_string(), Wc::Short(k)));
        } else {
            let mut a = agg_spec(s, Kind::Word);
            let mut n = 0;
            while !(a.kind <= 3 || a.kind == 5) || (columns && (a.kind == 1 || a.kind == 3)) {
                a = agg_spec(s, Kind::Word);
                n += 1;
                if n > 30 {
                    return ok(false, 0, String::new);
                }
            }
            let nm = format!("agg{i}");
            args.push("-a".into());
            args.push(format!("{nm},{}", a.text));
            aggs.push((nm, Wc::Agg(a)));
        }
    }
    // clap keeps the order within an option only, so the columns are those of the command line
    if aggs.is_empty() {
        aggs.push(if columns { ("bytes".into(), Wc::Short(1)) } else { ("lines".into(), Wc::Short(0)) });
    }
    let mut file_tri = 2;
    let mut file_name = "file".to_string();
    if s.coin() {
        let (k, t) = tri(s);
        file_tri = k;
        let mut v = t.to_string();
        if !columns && s.coin() {
            file_name = "path".into();
            v.push_str(",path");
        }
        args.push("-f".into());
        args.push(v);
    }
    let mut head_tri = 2;
    if s.coin() {
        let (k, t) = tri(s);
        head_tri = k;
        args.push("-h".into());
        args.push(t.into());
    }
    let total_tri = match totals {
        1 => 0,
        2 => 1,
        _ => 2,
    };
    if totals > 0 {
        args.push("-t".into());
        args.push(["yes", "no", "maybe", "ONLY"][totals - 1].into());
    }
    if columns {
        args.push("-C".into());
    }
    let at = args.len();
    write_files(ctx, &m, &mut args);
    let tell = |t: usize, maybe: bool| t == 0 || (t == 2 && maybe);
    // groups: label and values
    let mut groups: Vec<(String, Vec<Vec<u8>>)> = Vec::new();
    let mut any_file = false;
    for (i, t) in m.tables.iter().enumerate() {
        if m.bytes[i].is_empty() {
            continue;
        }
        any_file = true;
        if columns {
            let first = t.header.clone().unwrap_or_else(|| t.rows.first().map_or(Vec::new(), |r| (1..=r.len()).map(|k| format!("c{k}")).collect()));
            for h in &first {
                if !groups.iter().any(|g| g.0 == *h) {
                    groups.push((h.clone(), Vec::new()));
                }
            }
            for r in &t.rows {
                for (k, v) in r.iter().enumerate() {
                    let h = first.get(k).cloned().unwrap_or_else(|| format!("c{}", k + 1));
                    if !groups.iter().any(|g| g.0 == h) {
                        groups.push((h.clone(), Vec::new()));
                    }
                    groups.iter_mut().find(|g| g.0 == h).unwrap().1.push(v.clone());
                }
            }
        } else if !t.rows.is_empty() {
            groups.push((args[at + i].clone(), t.lines()));
        }
    }
    let n_groups = if columns { groups.len() } else { m.tables.len() };
    let show_file = tell(file_tri, n_groups > 1 && !only);
    let show_total = tell(total_tri, n_groups > 1) || only;
    let show_head = tell(head_tri, aggs.len() > 1 || show_file) && (columns || any_file);
    let mut want: Vec<(Option<String>, Vec<f64>)> = Vec::new();
    let mut total = vec![0.0; aggs.len()];
    for (label, vals) in &groups {
        let mut row = Vec::new();
        for (i, a) in aggs.iter().enumerate() {
            let Some(v) = a.1.value(vals) else { return ok(false, 0, String::new) };
            total[i] += v;
            row.push(v);
        }
        if !only {
            want.push((show_file.then(|| label.clone()), row));
        }
    }
    if show_total {
        want.push((show_file.then(|| "totals".to_string()), total));
    }
    let o = cdx(ctx, &args, None);
    let fail = |why: &str| {
        Err(format!(
            "{}\nfiles: {}\n{why}\nwanted {} rows {:?}",
            o.describe(),
            m.bytes.iter().map(|b| format!("\"{}\"", show(b))).collect::<Vec<_>>().join(" "),
            if show_head { "a header and" } else { "" },
            want
        ))
    };
    if o.code != 0 {
        return fail("should succeed");
    }
    let mut body: &[u8] = &o.out;
    if show_head {
        let mut h: Vec<String> = Vec::new();
        if show_file {
            h.push(if columns { "column".into() } else { file_name });
        }
        h.extend(aggs.iter().map(|a| a.0.clone()));
        let hl = header_line(&h);
        match body.strip_prefix(&hl[..]) {
            Some(b) => body = b,
            None => return fail(&format!("header should be \"{}\"", show(&hl))),
        }
    }
    let lines: Vec<&[u8]> = if body.is_empty() { Vec::new() } else { body.strip_suffix(b"\n").unwrap_or(body).split(|c| *c == b'\n').collect() };
    if lines.len() != want.len() || (!body.is_empty() && body.last() != Some(&b'\n')) {
        return fail("wrong number of rows");
    }
    for (l, w) in lines.iter().zip(&want) {
        let cells: Vec<&[u8]> = l.split(|c| *c == b'\t').collect();
        let lab = usize::from(w.0.is_some());
        if cells.len() != w.1.len() + lab || w.0.as_ref().is_some_and(|x| x.as_bytes() != cells[0]) || !cells[lab..].iter().zip(&w.1).all(|(c, v)| num_ok(c, *v)) {
            return fail(&format!("row \"{}\"", show(l)));
        }
    }
    ok(groups.iter().filter(|g| g.1.len() > 1).count() > 0 && want.len() > 1, (&m.bytes, &args[..at]), || o.cmd())
}

pub fn cat_prop() -> Prop {
    Prop {
        id: "C15",
        rule: "non-trivial: several files with lines, a missing final newline, or lines removed or not numbered",
        arms: vec![Arm { name: "plain", quick: 6_000, thorough: 100_000, f: cat_plain }, Arm { name: "number", quick: 6_000, thorough: 100_000, f: cat_number }, Arm { name: "edges", quick: 4_000, thorough: 100_000, f: cat_edges }],
    }
}
pub fn paste_prop() -> Prop {
    Prop { id: "C14", rule: "non-trivial: at least two files, at least one line, valid header", arms: vec![Arm { name: "paste", quick: 10_000, thorough: 200_000, f: paste }] }
}
pub fn wc_prop() -> Prop {
    Prop { id: "C20", rule: "non-trivial: a group with several lines, and several rows", arms: vec![Arm { name: "wc", quick: 10_000, thorough: 200_000, f: wc }] }
}

// ------------------------------------------------------------------ transpose

fn transpose(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let ragged = s.chance(1, 3);
    let (mut t, _) = table(s, &TableOpt { max_rows: 20, max_cols: 7, ragged, header: 50 });
    // without a header, the first line tells the number of columns
    let width = t.header.as_ref().map_or_else(|| t.rows.iter().map(Vec::len).max().unwrap_or(0), Vec::len);
    if t.header.is_none() && !t.rows.is_empty() {
        t.rows[0].resize(width, b"z".to_vec());
    }
    let mut args = vec!["transpose".to_string()];
    let head = s.chance(1, 3);
    if head {
        args.push((*s.pick(&["-h", "--head"])).into());
    }
    let mut max = usize::MAX;
    if s.chance(1, 3) {
        max = s.range(0, t.rows.len() + 2);
        args.push("-n".into());
        args.push(max.to_string());
    }
    let nl = s.chance(3, 4);
    let bytes = t.bytes_nl(nl);
    args.push(ctx.file("f", &bytes));
    let used = &t.rows[..t.rows.len().min(max)];
    let mut want: Vec<Vec<Cell>> = Vec::new();
    for c in 0..width {
        let mut row: Vec<Cell> = Vec::new();
        if let Some(h) = &t.header {
            row.push(h[c].clone().into_bytes());
        }
        row.extend(used.iter().map(|r| r.get(c).cloned().unwrap_or_default()));
        want.push(row);
    }
    let mut exp = Vec::new();
    if head && !bytes.is_empty() {
        exp.extend(b" CDX\t");
    }
    for r in &want {
        exp.extend(join_cells(r, b'\t'));
        exp.push(b'\n');
    }
    let o = cdx(ctx, &args, None);
    if o.code != 0 || o.out != exp {
        return Err(format!("{}\nfile: \"{}\"\nwanted \"{}\"", o.describe(), show(&bytes), show(&exp)));
    }
    // and back again
    if t.header.is_none() && !head && !used.is_empty() && !bad_first(&o.out) {
        let f = ctx.file("g", &o.out);
        let b = cdx(ctx, &["transpose".to_string(), f], None);
        let mut back = Vec::new();
        for r in used {
            let mut r = r.clone();
            r.resize(width, Vec::new());
            back.extend(join_cells(&r, b'\t'));
            back.push(b'\n');
        }
        if b.code != 0 || b.out != back {
            return Err(format!("transposing twice: {}\nfile: \"{}\"\nwanted \"{}\"", b.describe(), show(&o.out), show(&back)));
        }
    }
    ok(width > 1 && used.len() > 1, (&t, max, head), || o.cmd())
}

// ------------------------------------------------------------------ sample

fn sample(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let mode = s.usize(3);
    let ragged = s.coin();
    let mut m = multi(s, 3, 12, 50, ragged);
    // number the lines, so that they can be told apart, and make some files longer
    for i in 0..m.tables.len() {
        if m.tables[i].rows.is_empty() {
            continue;
        }
        let n = match s.weighted(&[3, 2, 1]) {
            0 => m.tables[i].rows.len(),
            1 => s.range(1, 60),
            _ => s.range(1, 700),
        };
        let rows = &mut m.tables[i].rows;
        rows.resize(n.max(1), vec![b"more".to_vec()]);
        for (k, r) in rows.iter_mut().enumerate() {
            r[0] = format!("f{i}l{}", k + 1).into_bytes();
        }
        let nl = s.chance(2, 3);
        m.bytes[i] = m.tables[i].bytes_nl(nl);
    }
    let mut args = vec!["sample".to_string()];
    let max = m.tables.iter().map(|t| t.rows.len()).max().unwrap();
    let mut select: Vec<(usize, usize)> = Vec::new();
    let (mut by, mut from, mut to, mut k) = (1, 1, usize::MAX, 0);
    match mode {
        0 => {
            by = match s.weighted(&[8, 1]) {
                0 => s.range(1, 6.max(max / 3)),
                _ => usize::MAX - s.usize(3),
            };
            let mut spec = by.to_string();
            if s.chance(2, 3) {
                from = s.range(1, max + 1);
                spec.push_str(&format!(",{from}"));
                if s.coin() {
                    to = s.range(1, max + 3);
                    spec.push_str(&format!(",{to}"));
                }
            }
            args.push((*s.pick(&["-f", "--for"])).into());
            args.push(spec);
        }
        1 => {
            let mut parts = Vec::new();
            for _ in 0..s.range(1, 3) {
                let a = s.range(0, max + 2);
                if s.coin() {
                    parts.push(a.to_string());
                    select.push((a, a));
                } else {
                    let b = s.range(a, max + 3);
                    parts.push(format!("{a}-{b}"));
                    select.push((a, b));
                }
            }
            args.push((*s.pick(&["-r", "--range"])).into());
            args.push(parts.join(","));
        }
        _ => {
            k = if s.coin() { s.range(2, 8) } else { s.range(2, 60) };
            args.push((*s.pick(&["-s", "--sample"])).into());
            args.push(k.to_string());
        }
    }
    write_files(ctx, &m, &mut args);
    let o = cdx(ctx, &args, None);
    let fail = |why: String| {
        Err(format!(
            "{}\nfiles with {:?} lines, header {}\n{why}",
            o.describe(),
            m.tables.iter().map(|t| t.rows.len()).collect::<Vec<_>>(),
            m.tables[0].header.is_some()
        ))
    };
    if o.code != 0 {
        return fail("should succeed".into());
    }
    let mut body: &[u8] = &o.out;
    if m.bytes.iter().zip(&m.tables).any(|(b, t)| !b.is_empty() && t.header.is_some()) {
        match body.strip_prefix(&m.tables[0].head()[..]) {
            Some(b) => body = b,
            None => return fail("the header is missing".into()),
        }
    }
    if mode < 2 {
        let mut want = Vec::new();
        for t in &m.tables {
            for (i, l) in t.lines().iter().enumerate() {
                let n = i + 1;
                let yes = if mode == 0 { n >= from && n <= to && (n - from) % by == 0 } else { select.iter().any(|(a, b)| n >= *a && n <= *b) };
                if yes {
                    want.extend(l);
                }
            }
        }
        if body != want {
            return fail(format!("wanted \"{}\"", show(&want)));
        }
        return ok(!want.is_empty() && max > 2, (&m.bytes, &args[1..3]), || o.cmd());
    }
    for t in &m.tables {
        let lines = t.lines();
        let n = lines.len();
        let mut pos: Vec<usize> = Vec::new();
        for _ in 0..n.min(k) {
            let start = pos.last().map_or(0, |p| p + 1);
            match (start..n).find(|p| body.starts_with(&lines[*p])) {
                Some(p) => {
                    body = &body[lines[p].len()..];
                    pos.push(p);
                }
                None => return fail(format!("after {pos:?} (lines from 0) comes \"{}\", which is no later line of the file", show(body))),
            }
        }
        if n == 0 {
            continue;
        }
        if pos[0] != 0 || *pos.last().unwrap() != n - 1 {
            return fail(format!("{pos:?} does not hold first and last line"));
        }
        if n > k {
            let gap = pos.windows(2).map(|w| w[1] - w[0]).max().unwrap();
            if gap * (k - 1) > 2 * (n - 1) {
                return fail(format!("{pos:?} has a gap of more than twice the average"));
            }
        }
    }
    if !body.is_empty() {
        return fail(format!("extra lines \"{}\"", show(body)));
    }
    ok(max > k, (&m.bytes, k), || o.cmd())
}
pub fn transpose_prop() -> Prop {
    Prop { id: "C16", rule: "non-trivial: at least two columns and two lines", arms: vec![Arm { name: "transpose", quick: 8_000, thorough: 150_000, f: transpose }] }
}
pub fn sample_prop() -> Prop {
    Prop { id: "C17", rule: "non-trivial: some lines are selected, from more lines than that", arms: vec![Arm { name: "sample", quick: 10_000, thorough: 200_000, f: sample }] }
}
