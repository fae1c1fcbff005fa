//! C30: the commands agree with one another
use super::grep::line_matcher;
use crate::engine::*;
use crate::gen::*;
use crate::model::*;
use crate::run::*;

type R<T> = Result<T, String>;
/// runs cdx on this as stdin
fn on(ctx: &mut Ctx, args: &[&str], input: &[u8]) -> R<Vec<u8>> {
    Ok(cdx_ok(ctx, args, Some(input))?.out)
}
fn same(law: &str, input: &[u8], a: &[u8], b: &[u8]) -> R<()> {
    if a == b {
        Ok(())
    } else {
        Err(format!("{law}\n  input  \"{}\"\n  one    \"{}\"\n  other  \"{}\"", show(input), show(a), show(b)))
    }
}
fn split(t: &[u8], head: bool) -> (Vec<u8>, Vec<Vec<u8>>) {
    let mut v: Vec<Vec<u8>> = t.split_inclusive(|c| *c == b'\n').map(<[u8]>::to_vec).collect();
    if head && !v.is_empty() {
        let h = v.remove(0);
        (h, v)
    } else {
        (Vec::new(), v)
    }
}
struct Case {
    t: Table,
    ks: Vec<Kind>,
    bytes: Vec<u8>,
}
/// a table with the same number of columns in each line, and no cell that makes a file another kind of file
fn case(s: &mut Src, max_rows: usize, header: u64) -> Case {
    let (mut t, ks) = table(s, &TableOpt { max_rows, max_cols: 5, ragged: false, header });
    if t.rows.is_empty() {
        t.rows = rows(s, &ks, 1, false);
    }
    for r in &mut t.rows {
        for c in r.iter_mut() {
            if bad_first(c) {
                *c = b"q".to_vec();
            }
        }
    }
    let bytes = t.bytes();
    Case { t, ks, bytes }
}
impl Case {
    fn head(&self) -> bool {
        self.t.header.is_some()
    }
    fn names(&self) -> Vec<String> {
        self.t.header.clone().unwrap_or_else(|| (0..self.ks.len()).map(|i| format!("c{}", i + 1)).collect())
    }
}

/// sort, sort -u, sort -c, sort -m, verify and uniq with the same keys
fn order(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let c = case(s, 40, 50);
    let mut keys = keys(s, c.t.header.as_deref(), &c.ks, Some(c.ks.len()));
    if keys.is_empty() {
        keys.push(whole_key());
        keys[0].spec = ",".into();
    }
    let k: Vec<&str> = keys.iter().flat_map(|k| vec!["-k", k.spec.as_str()]).collect();
    let w = |v: &[&'static str]| -> Vec<String> { v.iter().map(|x| x.to_string()).chain(k.iter().map(|x| x.to_string())).collect() };
    let run = |ctx: &mut Ctx, v: &[&'static str], input: &[u8]| -> R<Vec<u8>> { Ok(cdx_ok(ctx, &w(v), Some(input))?.out) };
    let sorted = run(ctx, &["sort"], &c.bytes)?;
    same("sorting changes nothing in a sorted file", &c.bytes, &sorted, &run(ctx, &["sort"], &sorted)?)?;
    same("sort -c accepts what sort writes", &sorted, b"", &run(ctx, &["sort", "-c"], &sorted)?)?;
    run(ctx, &["verify", "-s"], &sorted)?;
    let unsorted = sorted != c.bytes;
    if unsorted {
        let o = cdx(ctx, &w(&["sort", "-c"]), Some(&c.bytes));
        let p = cdx(ctx, &w(&["verify", "-s"]), Some(&c.bytes));
        if o.code != 1 || p.code != 1 {
            return Err(format!("sorting changes this, so neither should accept it:\n{}\n{}\n  input \"{}\"\n  sorted \"{}\"", o.describe(), p.describe(), show(&c.bytes), show(&sorted)));
        }
    }
    let uniq = run(ctx, &["sort", "-u"], &c.bytes)?;
    same("uniq of the sorted file is sort -u", &c.bytes, &uniq, &run(ctx, &["uniq"], &sorted)?)?;
    run(ctx, &["verify", "-u"], &uniq)?;
    let o = cdx(ctx, &w(&["verify", "-u"]), Some(&sorted));
    if (o.code == 0) != (uniq == sorted) || o.crashed() {
        return Err(format!("verify -u should accept a sorted file exactly if sort -u leaves nothing out: {}\n  input \"{}\"\n  unique \"{}\"", o.describe(), show(&sorted), show(&uniq)));
    }
    // in parts
    let n = s.usize(c.t.rows.len() + 1);
    let (h, lines) = split(&c.bytes, c.head());
    let part = |v: &[Vec<u8>]| [h.clone(), cat(v)].concat();
    let (a, b) = (part(&lines[..n]), part(&lines[n..]));
    let (fa, fb) = (run(ctx, &["sort"], &a)?, run(ctx, &["sort"], &b)?);
    if !a.is_empty() && !b.is_empty() {
        let mut m = w(&["sort", "-m"]);
        m.push(ctx.file("a", &fa));
        m.push(ctx.file("b", &fb));
        same("merging the sorted parts is sorting the whole", &c.bytes, &sorted, &cdx_ok(ctx, &m, None)?.out)?;
    }
    let counts = run(ctx, &["uniq", "-c", "cnt,end"], &sorted)?;
    let total: usize = split(&counts, c.head()).1.iter().map(|l| std::str::from_utf8(l.rsplit(|c| *c == b'\t').next().unwrap_or(b"")).unwrap_or("").trim().parse::<usize>().unwrap_or(1 << 40)).sum();
    if total != lines.len() {
        return Err(format!("the counts of uniq {} should add up to {}:\n  \"{}\"\n  from \"{}\"", k.join(" "), lines.len(), show(&counts), show(&sorted)));
    }
    ok(unsorted && lines.len() > 2, (&c.t, &keys), || format!("keys {} of \"{}\"", k.join(" "), show(&c.bytes)))
}

/// cgrep, cgrep -v, --or, verify and expressions
fn select(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let c = case(s, 30, 50);
    let names = c.names();
    let all: Vec<Vec<u8>> = c.t.lines();
    let mut fresh = 0;
    let p = line_matcher(s, ctx, &names, &all, &mut fresh).spec;
    let q = line_matcher(s, ctx, &names, &all, &mut fresh).spec;
    let yes = on(ctx, &["cgrep", "-p", &p], &c.bytes)?;
    let no = on(ctx, &["cgrep", "-v", "-p", &p], &c.bytes)?;
    let (h, lines) = split(&c.bytes, c.head());
    let ((hy, y), (hn, n)) = (split(&yes, c.head()), split(&no, c.head()));
    if hy != h || hn != h {
        return Err(format!("cgrep -p '{p}' changes the header of \"{}\"", show(&c.bytes)));
    }
    let (mut i, mut j) = (0, 0);
    for l in &lines {
        // equal lines go the same way
        if i < y.len() && y[i] == *l {
            i += 1;
        } else if j < n.len() && n[j] == *l {
            j += 1;
        } else {
            return Err(format!("cgrep -p '{p}' and cgrep -v -p '{p}' should select every line once:\n  \"{}\"\n  \"{}\"\n  from \"{}\"", show(&yes), show(&no), show(&c.bytes)));
        }
    }
    if i != y.len() || j != n.len() {
        return Err(format!("cgrep -p '{p}' and cgrep -v -p '{p}' select more than there is:\n  \"{}\"\n  \"{}\"\n  from \"{}\"", show(&yes), show(&no), show(&c.bytes)));
    }
    if !y.is_empty() {
        on(ctx, &["verify", "-p", &p], &yes)?;
    }
    let o = cdx(ctx, &["verify", "-p", &p], Some(&c.bytes));
    if o.crashed() || (o.code == 0) != n.is_empty() {
        return Err(format!("verify should accept a file exactly if cgrep -v selects nothing: {}\n  from \"{}\"", o.describe(), show(&c.bytes)));
    }
    let both = on(ctx, &["cgrep", "-p", &p, "-p", &q], &c.bytes)?;
    let either = on(ctx, &["cgrep", "-o", "-p", &p, "-p", &q], &c.bytes)?;
    let neither = on(ctx, &["cgrep", "-v", "-o", "-p", &p, "-p", &q], &c.bytes)?;
    let not_both = on(ctx, &["cgrep", "-v", "-p", &p, "-p", &q], &c.bytes)?;
    let law = |x: &str| format!("{x}: p '{p}' q '{q}'");
    if !y.is_empty() {
        same(&law("cgrep p | cgrep q is cgrep p q"), &c.bytes, &both, &on(ctx, &["cgrep", "-p", &q], &yes)?)?;
    }
    if !n.is_empty() {
        same(&law("cgrep -v p | cgrep -v q is cgrep -v --or p q"), &c.bytes, &neither, &on(ctx, &["cgrep", "-v", "-p", &q], &no)?)?;
    }
    let count = |x: &[u8]| split(x, c.head()).1.len();
    if count(&both) + count(&not_both) != lines.len() || count(&either) + count(&neither) != lines.len() {
        return Err(format!("{}\n  from \"{}\"", law("the lines that match and the lines that do not should be all lines"), show(&c.bytes)));
    }
    let nontrivial = !y.is_empty() && !n.is_empty();
    ok(nontrivial, (&c.t, &p, &q), || format!("p '{p}' q '{q}' on \"{}\"", show(&c.bytes)))
}

/// cut, paste, transpose
fn columns(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let c = case(s, 25, 60);
    let n = c.ks.len();
    let names = c.names();
    // every column is either on the left or on the right
    let left: Vec<usize> = (0..n).filter(|_| s.coin()).collect();
    let spec = |s: &mut Src, v: &[usize]| -> String { v.iter().map(|i| if s.coin() && c.head() { names[*i].clone() } else { (i + 1).to_string() }).collect::<Vec<_>>().join(",") };
    let t = &c.bytes;
    same("cutting all columns changes nothing", t, t, &on(ctx, &["cut", "-f", "1-"], t)?)?;
    same("cat changes nothing", t, t, &on(ctx, &["cat"], t)?)?;
    if !left.is_empty() && left.len() < n {
        let l = spec(s, &left);
        let neg: String = left.iter().map(|i| format!("~{}", i + 1)).collect::<Vec<_>>().join(",");
        let right: Vec<usize> = (0..n).filter(|i| !left.contains(i)).collect();
        let r = spec(s, &right);
        let a = on(ctx, &["cut", "-f", &l], t)?;
        let b = on(ctx, &["cut", "-f", &r], t)?;
        same(&format!("what is left without {neg} is {r}"), t, &b, &on(ctx, &["cut", "-f", &neg], t)?)?;
        let ab = on(ctx, &["cut", "-f", &l, "-f", &r], t)?;
        let (fa, fb) = (ctx.file("a", &a), ctx.file("b", &b));
        same(&format!("paste of cut {l} and cut {r} is cut of both"), t, &ab, &cdx_ok(ctx, &["paste", &fa, &fb], None)?.out)?;
        // and back to where they were
        let pos: Vec<usize> = left.iter().chain(&right).copied().collect();
        let back: Vec<usize> = (0..n).map(|i| pos.iter().position(|x| *x == i).unwrap()).collect();
        let back: String = back.iter().map(|i| (i + 1).to_string()).collect::<Vec<_>>().join(",");
        same(&format!("cut {l},{r} | cut {back} changes nothing"), t, t, &on(ctx, &["cut", "-f", &back], &ab)?)?;
    }
    // without a header
    let (_, lines) = split(t, c.head());
    let plain = cat(&lines);
    let first = c.t.rows[0].iter().all(Vec::is_empty);
    if !first && n > 1 {
        let x = on(ctx, &["transpose"], &plain)?;
        same("transpose twice changes nothing", &plain, &plain, &on(ctx, &["transpose"], &x)?)?;
        // one under the other is one beside the other
        let k = s.usize(lines.len() + 1);
        if k > 0 && k < lines.len() {
            let a = on(ctx, &["transpose"], &cat(&lines[..k]))?;
            let b = on(ctx, &["transpose"], &cat(&lines[k..]))?;
            let (fa, fb) = (ctx.file("a", &a), ctx.file("b", &b));
            same(&format!("the transposed file is the paste of its transposed parts ({k} lines and the rest)"), &plain, &x, &cdx_ok(ctx, &["paste", "--dups", "allow", &fa, &fb], None)?.out)?;
        }
    }
    ok(!left.is_empty() && left.len() < n && c.t.rows.len() > 1, (&c.t, &left), || format!("left {left:?} of \"{}\"", show(t)))
}

/// binsearch, join and cgrep on a sorted file
fn lookup(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let mut c = case(s, 40, 50);
    let col = 0;
    for r in &mut c.t.rows {
        if s.chance(1, 2) {
            r[col] = s.pick(&[&b"a"[..], b"b", b"ab", b"aa", b"A", b"", b"a b", b"~"]).to_vec();
        }
    }
    let input = c.t.bytes();
    let sorted = on(ctx, &["sort", "-k", "1"], &input)?;
    let (h, lines) = split(&sorted, c.head());
    let of = |l: &Vec<u8>| field(l, 0).to_vec();
    let key = if s.chance(1, 5) { b"aab".to_vec() } else { of(s.pick(&lines)) };
    let mut what = 0;
    let f = ctx.file("s", &sorted);
    if let Ok(k) = String::from_utf8(key) {
        if !k.starts_with('-') && !k.is_empty() && !k.contains('\0') {
            let a = cdx_ok(ctx, &["binsearch", "-k", "1", "--", &k, &f], None)?.out;
            let esc = ctx.file("pat", format!("{k}\n").as_bytes());
            let b = on(ctx, &["cgrep", "-p", &format!("1,file-exact,{esc}")], &sorted)?;
            // no header for nothing
            let (x, y) = (split(&a, c.head()).1, split(&b, c.head()).1);
            same(&format!("binsearch '{k}' finds what cgrep finds"), &sorted, &cat(&x), &cat(&y))?;
            what = x.len();
        }
    }
    // lines whose key is in the other file, and the others
    let mut keys: Vec<Vec<u8>> = lines.iter().map(of).filter(|_| s.coin()).collect();
    if s.coin() {
        keys.push(b"zzz".to_vec());
    }
    keys.sort();
    keys.dedup();
    if !keys.is_empty() && keys[0] != b"" {
        let mut other = if c.head() { b" CDX\tkk\n".to_vec() } else { Vec::new() };
        for k in &keys {
            other.extend(k);
            other.push(b'\n');
        }
        let g = ctx.file("k", &other);
        let rest = ctx.path("rest");
        let _ = std::fs::remove_file(&rest);
        let n = c.ks.len();
        let o = cdx_ok(ctx, &["join", "-k", "1", "-o", &format!("1.1-{n}"), "-a", &format!("1,{rest}"), &f, &g], None)?;
        let (hy, y) = split(&o.out, c.head());
        let more = std::fs::read(&rest).unwrap_or_default();
        let (hn, no) = split(&more, c.head());
        let want: Vec<Vec<u8>> = lines.iter().filter(|l| keys.contains(&of(l))).cloned().collect();
        let not: Vec<Vec<u8>> = lines.iter().filter(|l| !keys.contains(&of(l))).cloned().collect();
        if y != want || no != not || !y.is_empty() && hy != h || !no.is_empty() && hn != h {
            return Err(format!("{}\n  and --also \"{}\"\n  should be the lines of \"{}\"\n  with a key in \"{}\", and the others", o.describe(), show(&more), show(&sorted), show(&other)));
        }
        what += 1;
    }
    ok(what > 1 && lines.len() > 2, &c.t, || format!("\"{}\"", show(&sorted)))
}

/// aggregators of uniq, and of wc per column; counts of the whole and of the parts
fn totals(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let c = case(s, 30, 60);
    let names = c.names();
    let n = c.ks.len();
    let agg = *s.pick(&["count", "sum", "min", "max", "mean", "amax,chars", "asum,swords", "min,num", "max,len", "prefix", "suffix", "merge", "merge,D:;", "merge,sort.uniq", "merge,count", "amean,chars", "amin,awords", "asum,utf8.chars", "max,float", "min,lower"]);
    // a group of all lines
    let with = if c.head() {
        let (h, l) = split(&c.bytes, true);
        let mut v = h[..h.len() - 1].to_vec();
        v.extend(b"\tallofit\n");
        for x in l {
            v.extend(&x[..x.len() - 1]);
            v.extend(b"\t1\n");
        }
        v
    } else {
        let (_, l) = split(&c.bytes, false);
        l.iter().flat_map(|x| [&x[..x.len() - 1], b"\t1\n"].concat()).collect()
    };
    let col = s.usize(n);
    let by_uniq = on(ctx, &["uniq", "-k", &(n + 1).to_string(), "--agg-post", &format!("res,{},{agg}", col + 1)], &with)?;
    let u = split(&by_uniq, c.head()).1;
    let last = u.last().map(|l| l[..l.len() - 1].rsplit(|c| *c == b'\t').next().unwrap_or(b"").to_vec());
    let by_wc = on(ctx, &["wc", "-C", "-a", &format!("res,{agg}"), "-t", "no", "-h", "no", "-f", "yes"], &c.bytes)?;
    let w = split(&by_wc, false).1;
    let mut want = names[col].as_bytes().to_vec();
    want.push(b'\t');
    want.extend(last.unwrap_or_default());
    want.push(b'\n');
    if u.len() != 1 || w.len() != n || w[col] != want {
        return Err(format!("aggregator '{agg}' of column {} of \"{}\"\n  uniq: \"{}\"\n  wc:   \"{}\"", col + 1, show(&c.bytes), show(&by_uniq), show(&by_wc)));
    }
    // the whole and the parts
    let (h, lines) = split(&c.bytes, c.head());
    let k = s.usize(lines.len() + 1);
    let part = |v: &[Vec<u8>]| [h.clone(), cat(v)].concat();
    let (fa, fb) = (ctx.file("a", &part(&lines[..k])), ctx.file("b", &part(&lines[k..])));
    let flags = ["-l", "-b", "-w"];
    let one = on(ctx, &["wc", "-h", "no", flags[0], flags[1], flags[2]], &c.bytes)?;
    let two = cdx_ok(ctx, &["wc", "-h", "no", "-t", "only", flags[0], flags[1], flags[2], &fa, &fb], None)?.out;
    same("the total of the parts is the count of the whole", &c.bytes, &one, &two)?;
    ok(lines.len() > 1, (&c.t, agg, col), || format!("'{agg}' of column {} of \"{}\"", col + 1, show(&c.bytes)))
}

/// an expression as a column, as a pattern, as a key and as a matcher
fn values(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let nc = s.range(1, 4);
    let names: Vec<String> = names(s, nc);
    let mut t = Table { header: Some(names.clone()), rows: Vec::new() };
    for _ in 0..s.range(1, 12) {
        t.rows.push((0..nc).map(|_| s.irange(-5, 9).to_string().into_bytes()).collect());
    }
    fn expr(s: &mut Src, names: &[String], depth: usize) -> String {
        if depth == 0 || s.chance(1, 4) {
            return match s.weighted(&[10, 5, 1]) {
                0 => s.pick(names).clone(),
                1 => s.range(0, 5).to_string(),
                _ => "0.00000000001".into(),
            };
        }
        let a = expr(s, names, depth - 1);
        let b = expr(s, names, depth - 1);
        match s.usize(4) {
            0 => format!("({a}){}({b})", s.pick(&["+", "-", "*"])),
            1 => format!("{a}{}{b}", s.pick(&["+", "-", "*", "/"])),
            2 => format!("({a}){}({b})", s.pick(&["<", ">", "<=", ">=", "==", "!="])),
            _ => format!("{}({a},{b})", s.pick(&["max", "min"])),
        }
    }
    let e = expr(s, &names, 2);
    let input = t.bytes();
    let with = on(ctx, &["cut", "-f", "1-", "-e", &format!("xres:{e}")], &input)?;
    let a = on(ctx, &["cgrep", "-p", &format!(",expr,{e}")], &input)?;
    let b = on(ctx, &["cgrep", "-p", "xres,not.regex,^-?0$"], &with)?;
    let b = on(ctx, &["cut", "-f", &format!("1-{nc}")], &b)?;
    same(&format!("the lines where {e} is not 0"), &input, &a, &b)?;
    let n = split(&a, true).1.len();
    // (as text, a division by zero is not a number)
    if !with.windows(3).any(|w| w == b"NaN" || w == b"inf") {
        let a = on(ctx, &["sort", "-k", &format!(",expr,{e}")], &input)?;
        let b = on(ctx, &["sort", "-k", "xres,float"], &with)?;
        let b = on(ctx, &["cut", "-f", &format!("1-{nc}")], &b)?;
        same(&format!("the lines sorted by {e}"), &input, &a, &b)?;
    }
    ok(n > 0 && n < t.rows.len(), (&t, &e), || format!("{e} on \"{}\"", show(&input)))
}

pub fn prop() -> Prop {
    let a = |name, quick, f| Arm { name, quick, thorough: quick * 20, f };
    Prop {
        id: "C30",
        rule: "non-trivial, by law: the input is not in order already; some lines match and some do not; the columns are divided in two; the key is found; several lines",
        arms: vec![a("order", 450, order as fn(&mut Src, &mut Ctx) -> CaseResult), a("select", 450, select), a("columns", 450, columns), a("lookup", 800, lookup), a("totals", 700, totals), a("values", 600, values)],
    }
}
