//! C11: every way to provide a file is the same; C22: failures are reported
use crate::engine::*;
use crate::gen::*;
use crate::model::*;
use crate::run::*;

fn crc32(b: &[u8]) -> u32 {
    let mut c = !0u32;
    for x in b {
        c ^= u32::from(*x);
        for _ in 0..8 {
            c = if c & 1 == 1 { (c >> 1) ^ 0xedb8_8320 } else { c >> 1 };
        }
    }
    !c
}
/// one gzip member, made of stored blocks
fn member(s: &mut Src, b: &[u8]) -> Vec<u8> {
    member_of(s, b, false)
}
fn member_of(s: &mut Src, b: &[u8], single: bool) -> Vec<u8> {
    let name = s.chance(1, 3);
    let mut v = vec![0x1f, 0x8b, 8, if name { 8 } else { 0 }, 1, 2, 3, 4, 0, 255];
    if name {
        v.extend(b"name.txt\0");
    }
    let mut parts: Vec<&[u8]> = Vec::new();
    let mut rest = b;
    loop {
        let n = if !single && s.chance(1, 3) { s.usize(rest.len() + 1) } else { rest.len() }.min(65535);
        parts.push(&rest[..n]);
        rest = &rest[n..];
        if rest.is_empty() {
            break;
        }
    }
    for (i, p) in parts.iter().enumerate() {
        v.push(u8::from(i + 1 == parts.len()));
        v.extend((p.len() as u16).to_le_bytes());
        v.extend((!(p.len() as u16)).to_le_bytes());
        v.extend(*p);
    }
    v.extend(crc32(b).to_le_bytes());
    v.extend((b.len() as u32).to_le_bytes());
    v
}
/// compressed by the real thing
fn gzip(ctx: &Ctx, b: &[u8], level: usize) -> Vec<u8> {
    let f = ctx.file("togz", b);
    let o = std::process::Command::new("/usr/bin/gzip").arg(format!("-{level}")).arg("-c").arg("-n").arg(f).output().expect("gzip");
    assert!(o.status.success());
    ctx.rm("togz");
    o.stdout
}
/// several members, some of them empty, each compressed in one of two ways
fn gz(s: &mut Src, ctx: &Ctx, b: &[u8]) -> Vec<u8> {
    let mut v = Vec::new();
    let mut rest = b;
    let nm = s.weighted(&[0, 4, 2, 2]);
    for i in 0..nm {
        let n = if i + 1 == nm { rest.len() } else { s.usize(rest.len() + 1) };
        let (a, r) = rest.split_at(n);
        rest = r;
        if s.coin() {
            v.extend(member(s, a));
        } else {
            let level = s.range(1, 9);
            v.extend(gzip(ctx, a, level));
        }
    }
    v
}
/// as a command line argument
fn literal(s: &mut Src, b: &[u8]) -> Option<String> {
    let mut v = b"<<".to_vec();
    for &c in b {
        match c {
            0 => return None,
            b'\n' if s.chance(3, 4) => v.extend(b"\\n"),
            b'\t' if s.chance(3, 4) => v.extend(b"\\t"),
            b' ' if s.coin() => v.extend(b"\\s"),
            b'\\' => v.extend(b"\\\\"),
            c => v.push(c),
        }
    }
    if v.len() > 100_000 {
        return None;
    }
    String::from_utf8(v).ok()
}

/// (command, number of files, writes the file as it is, reads all of the file)
struct Tool {
    args: Vec<String>,
    files: usize,
    identity: bool,
    all: bool,
}
fn tool(s: &mut Src, rect: bool) -> Tool {
    let v: &[(&[&str], usize, bool, bool)] = &[
        (&["cat"], 1, true, true),
        (&["cat", "-b"], 1, false, true),
        (&["cgrep", "-v", "-p", "1,exact,no such value"], 1, true, true),
        (&["cut", "-f", "1-"], 1, true, true),
        (&["cut", "-f", "1"], 1, false, true),
        (&["sort"], 1, false, true),
        (&["sort", "-k", "1,num"], 1, false, true),
        (&["sort", "-k", "1", "-u"], 1, false, true),
        (&["sort", "-a"], 1, false, true),
        (&["sort", "-m"], 2, false, true),
        (&["sort", "-m", "-A"], 2, false, true),
        (&["sort", "-k", "1"], 2, false, true),
        (&["sort", "-C", "1000000"], 1, false, true),
        (&["uniq", "-k", "1"], 1, false, true),
        (&["uniq", "-k", "1", "-c", "number_of"], 1, false, true),
        (&["wc", "-l", "-b", "-w", "-f", "no"], 1, false, true),
        (&["wc", "-C"], 1, false, true),
        (&["sample", "-r", "1-99999999"], 1, true, true),
        (&["sample", "-r", "2-3,5"], 1, false, false),
        (&["sample", "-s", "4"], 1, false, true),
        (&["transpose"], 1, false, true),
        (&["paste", "-e", "Late", "-D", "Allow"], 2, false, true),
        (&["join", "-k", "1"], 2, false, false),
        (&["verify"], 1, false, false),
        (&["cat"], 2, false, true),
        (&["cgrep", "-v", "-p", "1,exact,no such value"], 2, false, true),
    ];
    let (a, n, i, all) = *s.pick(v);
    Tool { args: a.iter().map(|x| (*x).to_string()).collect(), files: n, identity: i && (rect || a[0] != "cut"), all }
}
fn data(s: &mut Src, ctx: &Ctx) -> (Table, Table, bool) {
    let ragged = s.chance(1, 5);
    let (mut t, ks) = table(s, &TableOpt { max_rows: 12, max_cols: 4, ragged, header: 50 });
    let mut u = more(s, &t, &ks, 12, ragged);
    for x in [&mut t, &mut u] {
        match s.weighted(&[8, 2, 2, 1]) {
            0 => {}
            // a long line
            1 if !x.rows.is_empty() => {
                let r = s.usize(x.rows.len());
                let n = *s.pick(&[4096usize, 8192, 16384, 65536]) + s.usize(5) - 2;
                let c = s.usize(x.rows[r].len());
                x.rows[r][c].extend(vec![b'q'; n]);
            }
            // many lines
            2 if !x.rows.is_empty() => {
                let n = s.range(200, 2000);
                let base = x.rows.clone();
                for i in 0..n {
                    let mut r = base[i % base.len()].clone();
                    let l = r.len();
                    r[l - 1].extend(i.to_string().as_bytes());
                    x.rows.push(r);
                }
            }
            // the end of the file close to the end of a buffer
            _ if !x.rows.is_empty() => {
                let want = *s.pick(&[8192usize, 16384, 32768, 65536]) + s.usize(5) - 2;
                let have = x.bytes().len();
                if want > have {
                    let r = x.rows.len() - 1;
                    let c = s.usize(x.rows[r].len());
                    x.rows[r][c].extend(vec![b'z'; want - have]);
                }
            }
            _ => {}
        }
    }
    let _ = ctx;
    (t, u, ragged)
}
fn rect(t: &Table) -> bool {
    let n = t.header.as_ref().map_or_else(|| t.rows.first().map_or(0, Vec::len), Vec::len);
    t.rows.iter().all(|r| r.len() == n)
}

fn same(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let (t, u, _) = data(s, ctx);
    let tl = tool(s, rect(&t));
    let (b1, b2) = (t.bytes(), u.bytes());
    let mut args = tl.args.clone();
    args.push("--".into());
    args.push(ctx.file("f", &b1));
    if tl.files == 2 {
        args.push(ctx.file("g", &b2));
    }
    let o = cdx(ctx, &args, None);
    if o.crashed() {
        return Err(format!("{}\nfiles: \"{}\" \"{}\"", o.describe(), show(&b1), show(&b2)));
    }
    if tl.identity && (o.code != 0 || o.out != b1) {
        return Err(format!("{}\nfile: \"{}\"\nthe output should be the input", o.describe(), show(&b1)));
    }
    // now one of the files in another way
    let which = s.usize(tl.files);
    let b = if which == 0 { &b1 } else { &b2 };
    let at = args.len() - tl.files + which;
    let mut chunks = Vec::new();
    let mut stdin = None;
    let mut nontrivial = o.out.len() > 1;
    // without the final newline
    let mut body = b.clone();
    let rows = if which == 0 { &t.rows } else { &u.rows };
    if s.chance(1, 3) && !rows.is_empty() && !body.ends_with(b"\n\n") && body != b"\n" {
        body.pop();
    }
    let how = s.weighted(&[1, 2, 3, 4, 2, 3]);
    match how {
        0 => {
            args[at] = ctx.file("h", &body);
            nontrivial &= body.len() != b.len();
        }
        1 => {
            args[at] = "-".into();
            stdin = Some(body);
        }
        2 => {
            args[at] = "-".into();
            chunks = (0..s.range(1, 3)).map(|_| (*s.pick(&[1usize, 2, 3, 5, 7, 4, 16, 100, 4096])).max(body.len() / 100)).collect();
            stdin = Some(body);
        }
        3 => {
            let z = gz(s, ctx, &body);
            args[at] = ctx.file(s.pick(&["h", "h.gz"]), &z);
        }
        4 => {
            let z = gz(s, ctx, &body);
            if s.coin() {
                chunks = vec![(*s.pick(&[1usize, 2, 3, 9, 100])).max(z.len() / 100)];
            }
            args[at] = "-".into();
            stdin = Some(z);
        }
        _ => match literal(s, &body) {
            Some(l) => args[at] = l,
            None => nontrivial = false,
        },
    }
    let p = cdx_with(ctx, &args, stdin.as_deref(), &chunks, &To::Pipe);
    for f in ["h", "h.gz"] {
        ctx.rm(f);
    }
    if o.code != p.code || o.out != p.out {
        return Err(format!("{}\nbut the same file in another way (stdin in pieces of {chunks:?}):\n{}\nstdin: \"{}\"\nfiles: \"{}\" \"{}\"", o.describe(), p.describe(), show(&stdin.unwrap_or_default()), show(&b1), show(&b2)));
    }
    ok(nontrivial, (&b1, &b2, &args), || p.cmd())
}

/// a file whose size and line ends lie close to the ends of buffers
fn at_edges(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let body = edges(s);
    let mut full = body.clone();
    if !full.ends_with(b"\n") {
        full.push(b'\n');
    }
    let lines: Vec<&[u8]> = full.split_inclusive(|c| *c == b'\n').collect();
    let (args, want): (&[&str], Vec<u8>) = match s.usize(9) {
        0 => (&["cgrep", "-v", "-p", "1,exact,no such value"], full.clone()),
        1 => (&["cut", "-f", "1-"], full.clone()),
        2 => (&["sample", "-r", "1-99999999"], full.clone()),
        3 => (&["wc", "-l", "-b", "-f", "no", "-h", "no"], format!("{}\t{}\n", lines.len(), full.len()).into_bytes()),
        4 => {
            let mut l = lines.clone();
            l.sort_by_key(|x| &x[..x.len() - 1]);
            (&["sort"], l.concat())
        }
        5 => {
            let mut l = lines.clone();
            l.sort_by_key(|x| std::cmp::Reverse(&x[..x.len() - 1]));
            (&["sort", "-u", "-k", "1,rev"], {
                l.dedup();
                l.concat()
            })
        }
        6 => {
            let mut l = lines.clone();
            l.dedup();
            (&["uniq"], l.concat())
        }
        7 => (&["cat", "-e"], lines.iter().enumerate().flat_map(|(i, l)| [&l[..l.len() - 1], format!("\t{}\n", i + 1).as_bytes()].concat()).collect()),
        _ => (&["cat"], full.clone()),
    };
    let mut args: Vec<String> = args.iter().map(|x| (*x).to_string()).collect();
    // wc counts a number of bytes that is written in short format
    if args[0] == "wc" {
        args.extend(["-F".to_string(), "plain".into()]);
    }
    args.push("--".into());
    let (mut chunks, mut stdin) = (Vec::new(), None);
    match s.weighted(&[3, 1, 1, 1]) {
        0 => args.push(ctx.file("f", &body)),
        1 => {
            args.push("-".into());
            stdin = Some(body.clone());
        }
        2 => {
            args.push("-".into());
            chunks = vec![*s.pick(&[8usize, 1024, 4096, 8192, 16384]) + s.usize(3) - 1];
            stdin = Some(body.clone());
        }
        _ => {
            let z = gz(s, ctx, &body);
            args.push(ctx.file("f", &z));
        }
    }
    let o = cdx_with(ctx, &args, stdin.as_deref(), &chunks, &To::Pipe);
    if o.code != 0 || o.out != want {
        return Err(format!("{}\nstdin in pieces of {chunks:?}\nfile \"{}\"\nexpected \"{}\"", o.describe(), show(&body), show(&want)));
    }
    ok(lines.len() > 1, (&body, &args), || format!("{} with {} bytes in {} lines", o.cmd(), body.len(), lines.len()))
}

/// any text as a literal argument
fn literals(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    const A: [&str; 14] = ["\\", "\\", "n", "t", "s", " ", "\t", "\n", "a", "<", "é", "\"", "r", "0"];
    let n = s.range(1, 14);
    let body: String = (0..n).map(|_| *s.pick(&A)).collect();
    let Some(l) = literal(s, body.as_bytes()) else { return ok(false, 0, String::new) };
    let mut want = body.clone();
    if !want.ends_with('\n') {
        want.push('\n');
    }
    let mut args: Vec<String> = match s.usize(4) {
        0 => vec!["cat".into()],
        1 => vec!["cgrep".into(), "-v".into(), "-p".into(), "1,exact,no such value".into()],
        2 => vec!["sample".into(), "-r".into(), "1-99".into()],
        _ => vec!["sort".into(), "-k".into(), "1,equal".into()],
    };
    args.push(l);
    let o = cdx(ctx, &args, None);
    if o.code != 0 || o.out != want.as_bytes() {
        return Err(format!("{}\nthe literal stands for \"{}\"", o.describe(), show(body.as_bytes())));
    }
    ok(body.contains('\\'), (&body, &args), || o.cmd())
}

/// input that cannot be read completely is an error
fn broken(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let (t, u, _) = data(s, ctx);
    let tl = tool(s, rect(&t));
    if !tl.all {
        return ok(false, 0, String::new);
    }
    let mut files = vec![t.bytes()];
    if tl.files == 2 {
        files.push(u.bytes());
    }
    let which = s.usize(files.len());
    let mut args = tl.args.clone();
    args.push("--".into());
    for (i, b) in files.iter().enumerate() {
        args.push(ctx.file(&format!("f{i}"), b));
    }
    let at = args.len() - files.len() + which;
    let b = &files[which];
    let what;
    match s.weighted(&[4, 4, 1, 1]) {
        0 => {
            // truncated
            let z = if s.coin() || b.is_empty() {
                member(s, b)
            } else {
                let level = s.range(1, 9);
                gzip(ctx, b, level)
            };
            let n = s.range(3, z.len() - 1);
            what = format!("gzip file of {} bytes truncated to {n}", z.len());
            args[at] = ctx.file("bad", &z[..n]);
        }
        1 => {
            // damaged, after a good member
            let mut z = Vec::new();
            if s.chance(1, 3) {
                let n = s.usize(b.len() + 1);
                z.extend(member(s, &b[..n]));
            }
            let start = z.len();
            let m = member_of(s, b, true);
            let n = m.len();
            z.extend(m);
            // within the data or the trailer
            let lo = 8 + if b.len() > 65535 { 0 } else { b.len().min(2000) };
            let k = s.range(n - lo, n - 1);
            z[start + k] ^= 1 << s.usize(8);
            what = format!("gzip member with byte {k} of {n} damaged");
            args[at] = ctx.file("bad", &z);
        }
        2 => {
            what = "no such file".to_string();
            args[at] = ctx.path("missing");
        }
        _ => {
            what = "a directory".to_string();
            let d = ctx.path("adir");
            let _ = std::fs::create_dir(&d);
            args[at] = d;
        }
    }
    let o = cdx(ctx, &args, None);
    ctx.rm("bad");
    if o.code != 1 || o.timeout || (o.err.is_empty()) {
        return Err(format!("{what}, but {}\nfiles: {}", o.describe(), files.iter().map(|b| format!("\"{}\"", show(b))).collect::<Vec<_>>().join(" ")));
    }
    ok(true, (&files, &args, what), || o.cmd())
}

/// output that cannot be written is an error
fn full(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let (t, u, _) = data(s, ctx);
    let tl = tool(s, rect(&t));
    let (b1, b2) = (t.bytes(), u.bytes());
    let mut args = tl.args.clone();
    args.push("--".into());
    args.push(ctx.file("f", &b1));
    if tl.files == 2 {
        args.push(ctx.file("g", &b2));
    }
    match s.usize(20) {
        0 => args = vec!["filegen".into(), "-n".into(), s.range(0, 3000).to_string(), "-c".into(), (*s.pick(&["grid", "count,7", "expr,line*col"])).into()],
        1 => args = vec!["calc".into(), "<<1+1\\n2*3\\n".into()],
        2 => {
            // every line is equal to the value
            let n = s.range(1, 3000);
            args = vec!["binsearch".into(), "-k".into(), "1".into(), "val".into(), ctx.file("b", &b"val\tx\n".repeat(n))];
        }
        _ => {}
    }
    let o = cdx(ctx, &args, None);
    if o.crashed() {
        return Err(o.describe());
    }
    if s.chance(1, 4) {
        // the reader goes away: not an error, but no reason to crash
        let n = s.usize(o.out.len() + 1);
        let p = cdx_with(ctx, &args, None, &[], &To::Close(n));
        if p.crashed() || p.code != o.code || p.out != o.out[..n] {
            return Err(format!("closing the pipe after {n} bytes:\n{}\nwithout that: {}", p.describe(), o.describe()));
        }
        return ok(n < o.out.len(), (&b1, &b2, &args, n), || p.cmd());
    }
    let p = cdx_with(ctx, &args, None, &[], &To::File("/dev/full".into()));
    let want = if o.out.is_empty() { o.code } else { 1 };
    if p.timeout || p.code != want || (!o.out.is_empty() && p.err.is_empty()) {
        return Err(format!("writing to a full device: {}\nshould exit with {want}; files: \"{}\" \"{}\"", p.describe(), show(&b1), show(&b2)));
    }
    ok(!o.out.is_empty(), (&b1, &b2, &args), || p.cmd())
}
/// the files join writes
fn full_join(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let (mut t, ks) = table(s, &TableOpt { max_rows: 12, max_cols: 3, ragged: false, header: 50 });
    let mut u = more(s, &t, &ks, 12, false);
    t.rows.sort();
    u.rows.sort();
    if t.rows.is_empty() || u.rows.is_empty() || bad_first(&t.lines()[0]) || bad_first(&u.lines()[0]) {
        return ok(false, 0, String::new);
    }
    let mut args: Vec<String> = ["join", "-k", "1", "-f", "OUT", "-a", "1,NO1", "-a", "2,NO2", "-o", "1.1"].iter().map(|x| (*x).to_string()).collect();
    let names = [("OUT", ctx.path("out")), ("NO1", ctx.path("no1")), ("NO2", ctx.path("no2"))];
    for a in &mut args {
        for (x, y) in &names {
            *a = a.replace(x, y);
        }
    }
    args.push(ctx.file("f", &t.bytes()));
    args.push(ctx.file("g", &u.bytes()));
    let o = cdx(ctx, &args, None);
    if o.code != 0 {
        return ok(false, 0, String::new);
    }
    let which = s.usize(3);
    let len = std::fs::metadata(&names[which].1).map_or(0, |m| m.len());
    for a in &mut args {
        *a = a.replace(&names[which].1, "/dev/full");
    }
    let p = cdx(ctx, &args, None);
    for n in ["out", "no1", "no2"] {
        ctx.rm(n);
    }
    let want = i32::from(len > 0);
    if p.code != want || p.timeout {
        return Err(format!("{}\nshould exit with {want}", p.describe()));
    }
    ok(len > 0, (t.bytes(), u.bytes(), which), || p.cmd())
}

/// no command needs temporary files for small inputs
fn no_tmp(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let (t, u, _) = data(s, ctx);
    let tl = tool(s, rect(&t));
    let (b1, b2) = (t.bytes(), u.bytes());
    let mut args = tl.args.clone();
    args.push("--".into());
    args.push(ctx.file("f", &b1));
    if tl.files == 2 {
        args.push(ctx.file("g", &b2));
    }
    let o = cdx(ctx, &args, None);
    let p = cdx_with(ctx, &args, None, &[], &To::NoTmp);
    if p.crashed() || p.code != o.code || p.out != o.out {
        return Err(format!("without a directory for temporary files: {}\nwith it: {}\nfiles: \"{}\" \"{}\"", p.describe(), o.describe(), show(&b1), show(&b2)));
    }
    ok(!o.out.is_empty(), (&b1, &b2, &args), || p.cmd())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C11",
            rule: "the command writes something and the other way differs from the plain file",
            arms: vec![Arm { name: "same", quick: 3000, thorough: 60000, f: same }, Arm { name: "edges", quick: 5_000, thorough: 150_000, f: at_edges }, Arm { name: "literal", quick: 3_000, thorough: 60_000, f: literals }],
        },
        Prop {
            id: "C22",
            rule: "the input is damaged, or the output is not empty",
            arms: vec![
                Arm { name: "broken", quick: 2000, thorough: 40000, f: broken },
                Arm { name: "full", quick: 2000, thorough: 40000, f: full },
                Arm { name: "join-files", quick: 600, thorough: 10000, f: full_join },
                Arm { name: "no-tmp", quick: 1000, thorough: 20000, f: no_tmp },
            ],
        },
    ]
}
