//! C29: it does not matter how a command line is spelled
use crate::engine::*;
use crate::run::*;

/// short, long, values (none: a flag), group (options of one group keep their order), once (repeating a flag changes nothing)
struct Opt(&'static str, &'static str, &'static [&'static str], u8, bool);
struct Tool {
    name: &'static str,
    files: (usize, usize),
    opts: &'static [Opt],
    /// put in front of the files
    pos: &'static [&'static str],
}
const KEY: &[&str] = &["1", "two", "1,num", "2,rev", "3,float", "1,len.rev", "one,lower", "3,num.rev"];
const PAT: &[&str] = &["1,exact,a", "two,prefix,b", "3,infix,1", "[1-2],case.exact,A", "one,not.glob,a*", ",length,1,9", "3,regex,^[0-9]*$", ",expr,three>2"];
const FLAG: &[&str] = &[];
const TEXT: &[&str] = &["t", "n,q", "bt", "t;-", "qt"];
const TOOLS: &[Tool] = &[
    Tool { name: "binsearch", files: (1, 2), pos: &["a", "b", "aa", "zz", ""], opts: &[Opt("k", "key", &["1", "one", ""], 0, false), Opt("H", "filename", &["name", "x:1", "q:2"], 1, false), Opt("C", "context", &["1", "2,0", "1.2", "0.1,2.3"], 2, false), Opt("s", "sub-delim", &[",", ";"], 3, false)] },
    Tool { name: "cat", files: (0, 3), pos: &[], opts: &[Opt("p", "pad", &["Yes", "No", "End"], 0, false), Opt("r", "remove", &["exact,", "prefix,a", "infix,b"], 1, false), Opt("s", "skip", &["prefix,b", "infix,1"], 2, false), Opt("n", "number", &["x,5", "n", "num,-3,end", "q,1,begin"], 3, false), Opt("b", "begin", FLAG, 3, true), Opt("e", "end", FLAG, 3, true)] },
    Tool { name: "cgrep", files: (0, 3), pos: &[], opts: &[Opt("p", "pattern", PAT, 0, false), Opt("p", "pattern", PAT, 0, false), Opt("o", "or", FLAG, 1, true), Opt("v", "invert", FLAG, 2, true), Opt("l", "location", &["bytes", "x:line", "name.1,q:line"], 3, false)] },
    Tool { name: "cut", files: (0, 2), pos: &[], opts: &[Opt("f", "fields", &["1", "two,one", "~1", "2-", "x:3"], 0, false), Opt("g", "group", &[".g:1-2", ",h:3,1"], 0, false), Opt("e", "expr", &["e:three*2", "sum:three+1"], 0, false), Opt("c", "composite", &["k:a^{two}b", "m:^1^2"], 0, false), Opt("D", "dups", &["Fail", "Allow", "Numeric"], 1, false)] },
    Tool { name: "filegen", files: (0, 0), pos: &[], opts: &[Opt("n", "lines", &["3", "0", "12"], 0, false), Opt("c", "column", &["grid", "count,5", "null", "expr,line*col"], 1, false), Opt("m", "multi", &["2,grid", "3,count,7"], 1, false), Opt("h", "with-header", FLAG, 2, true)] },
    Tool { name: "join", files: (2, 2), pos: &[], opts: &[Opt("a", "also", &["1,@", "2,@"], 0, false), Opt("k", "key", &["1", "one"], 1, false), Opt("o", "output", &["1.1-3,2.2", "2.one,1.three", "1.two"], 2, false)] },
    Tool { name: "paste", files: (0, 3), pos: &[], opts: &[Opt("e", "end", &["Exact", "Early", "Late"], 0, false), Opt("d", "default", &["zz", "q,1", "y,3"], 1, false), Opt("l", "last", FLAG, 2, true), Opt("r", "rename", &["one.uno,two.dos", "three.x"], 3, false), Opt("R", "rename-sloppy", FLAG, 4, true), Opt("D", "dups", &["Allow", "Numeric", "Fail"], 5, false)] },
    Tool { name: "sample", files: (0, 1), pos: &[], opts: &[Opt("f", "for", &["2", "2,1", "1,2,5"], 0, false), Opt("s", "sample", &["3", "5"], 0, false), Opt("r", "range", &["1-2,4", "3", "2-"], 0, false)] },
    Tool { name: "sort", files: (0, 3), pos: &[], opts: &[Opt("k", "key", KEY, 0, false), Opt("k", "key", KEY, 0, false), Opt("u", "unique", FLAG, 1, true), Opt("m", "merge", FLAG, 2, true), Opt("c", "check", FLAG, 3, true), Opt("C", "Check", &["2", "9"], 3, false), Opt("a", "alt-sort", FLAG, 4, true), Opt("A", "alt-merge", FLAG, 5, true)] },
    Tool { name: "transpose", files: (0, 1), pos: &[], opts: &[Opt("h", "head", FLAG, 0, true), Opt("n", "lines", &["2", "5", "100"], 1, false)] },
    Tool { name: "uniq", files: (0, 1), pos: &[], opts: &[Opt("a", "agg", &["three,sum", "3,max,num", "two,merge"], 0, false), Opt("", "agg-pre", &["x,3,count", "y,two,min"], 0, false), Opt("", "agg-post", &["z,3,mean", "w,two,prefix"], 0, false), Opt("k", "key", KEY, 1, false), Opt("c", "count", &["n", "n,begin", "cnt,end"], 2, false), Opt("w", "which", &["First", "Last", "min,3,num", "Max,2"], 3, false)] },
    Tool { name: "verify", files: (0, 2), pos: &[], opts: &[Opt("r", "report", &["1", "3", "50"], 0, false), Opt("f", "first", &["LT,b", "GE,a", "==a"], 1, false), Opt("l", "last", &["GT,a", "NE,b", "<=c"], 2, false), Opt("k", "key", KEY, 3, false), Opt("s", "sort", FLAG, 4, true), Opt("u", "unique", FLAG, 6, true), Opt("p", "pattern", PAT, 5, false)] },
    Tool { name: "wc", files: (0, 3), pos: &[], opts: &[Opt("a", "agg", &["x,count", "y,amax,chars"], 0, false), Opt("l", "lines", FLAG, 0, false), Opt("b", "bytes", FLAG, 0, false), Opt("c", "chars", FLAG, 0, false), Opt("w", "words", FLAG, 0, false), Opt("f", "file", &["yes", "no", "maybe", "yes,name"], 1, false), Opt("h", "with-header", &["yes", "no", "maybe"], 2, false), Opt("t", "total", &["yes", "no", "maybe", "only"], 3, false), Opt("F", "format", &["plain", "float", "power2", "p10"], 4, false), Opt("C", "columns", FLAG, 5, true)] },
];
/// the same thing under another name, as the help says
fn shortcut(tool: &str, long: &str) -> Option<(&'static str, &'static str)> {
    match (tool, long) {
        ("cat", "begin") => Some(("number", "number,1,begin")),
        ("cat", "end") => Some(("number", "number,1,end")),
        ("wc", "lines") => Some(("agg", "lines,count")),
        ("wc", "bytes") => Some(("agg", "bytes,asum,chars")),
        ("wc", "chars") => Some(("agg", "chars,asum,utf8.chars")),
        ("wc", "words") => Some(("agg", "words,asum,swords")),
        _ => None,
    }
}
const ENUMS: &[&str] = &["cat pad", "cut dups", "paste end", "paste dups", "uniq which", "wc file", "wc with-header", "wc total"];

#[derive(Clone, Debug, Hash)]
struct Given {
    short: &'static str,
    long: &'static str,
    value: Option<String>,
    group: u8,
    once: bool,
}
fn other_case(s: &mut Src, v: &str) -> String {
    v.chars().map(|c| if s.coin() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect()
}
fn spelling(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let t = s.pick(TOOLS);
    let mut given: Vec<Given> = Vec::new();
    for _ in 0..s.weighted(&[1, 3, 5, 4, 2, 1]) {
        let o = s.pick(t.opts);
        let value = if o.2.is_empty() { None } else { Some(s.pick(o.2).replace('@', &ctx.path("also"))) };
        given.push(Given { short: o.0, long: o.1, value, group: o.3, once: o.4 });
    }
    for _ in 0..s.weighted(&[5, 1, 1]) {
        let io = *s.pick(&["text-in", "text-out"]);
        given.push(Given { short: "", long: io, value: Some((*s.pick(TEXT)).to_string()), group: if io == "text-in" { 100 } else { 101 }, once: false });
    }
    // the files
    let nf = s.range(t.files.0, t.files.1);
    let head = s.chance(2, 3);
    let mut files = Vec::new();
    let mut datas = Vec::new();
    let data = |s: &mut Src| {
        let mut rows: Vec<String> = (0..s.size(0, 6, 40))
            .map(|_| format!("{}\t{}\t{}\n", s.pick(&["a", "b", "aa", "A", "c", ""]), s.pick(&["b", "bb", "x y", "B", "\"q\""]), s.pick(&["1", "2", "10", "3.5", "-1"])))
            .collect();
        if s.chance(2, 3) {
            rows.sort();
        }
        format!("{}{}", if head { " CDX\tone\ttwo\tthree\n" } else { "" }, rows.concat())
    };
    for i in 0..nf {
        let d = data(s);
        files.push(ctx.file(&format!("f{i}"), d.as_bytes()));
        datas.push(d);
    }
    let stdin = if nf == 0 && t.files.1 > 0 { Some(data(s)) } else { None };
    let pos: Vec<String> = if t.pos.is_empty() { vec![] } else { vec![(*s.pick(t.pos)).to_string()] };
    // plainly
    let mut a = vec![t.name.to_string()];
    for g in &given {
        a.push(if g.short.is_empty() { format!("--{}", g.long) } else { format!("-{}", g.short) });
        a.extend(g.value.clone());
    }
    a.push("--".into());
    a.extend(pos.iter().cloned());
    a.extend(files.iter().cloned());
    // in another way
    let mut v = given.clone();
    let mut how = 0;
    // options of different groups change places
    for _ in 0..s.usize(6) {
        if v.len() > 1 {
            let i = s.usize(v.len() - 1);
            if v[i].group != v[i + 1].group {
                v.swap(i, i + 1);
                how += 1;
            }
        }
    }
    // each an option with its value, which stay together
    let mut b: Vec<Vec<String>> = Vec::new();
    let mut i = 0;
    while i < v.len() {
        let mut g = v[i].clone();
        i += 1;
        if let Some(x) = shortcut(t.name, g.long) {
            if s.chance(1, 3) {
                g.short = if t.name == "cat" { "n" } else { "a" };
                g.long = x.0;
                g.value = Some(x.1.to_string());
                how += 1;
            }
        }
        if ENUMS.contains(&format!("{} {}", t.name, g.long).as_str()) && s.coin() {
            let x = g.value.unwrap_or_default();
            let (a, b) = x.find(',').map_or((x.as_str(), ""), |i| x.split_at(i));
            let a = match (t.name, a) {
                ("wc", "yes") => *s.pick(&["yes", "true", "1", "on"]),
                ("wc", "no") => *s.pick(&["no", "false", "0", "off"]),
                ("wc", "maybe") => *s.pick(&["maybe", "sometimes"]),
                _ => a,
            };
            g.value = Some(format!("{}{b}", other_case(s, a)));
            how += 1;
        }
        if g.once && g.value.is_none() && s.chance(1, 4) {
            b.push(vec![format!("--{}", g.long)]);
            how += 1;
        }
        let long = g.short.is_empty() || s.coin();
        how += usize::from(long && !g.short.is_empty());
        match (&g.value, long) {
            (None, true) => b.push(vec![format!("--{}", g.long)]),
            (None, false) => {
                // flags in one word, the last of them may have a value
                let mut w = vec![format!("-{}", g.short)];
                while i < v.len() && !v[i].short.is_empty() && s.chance(2, 3) {
                    w[0].push_str(v[i].short);
                    how += 1;
                    i += 1;
                    if let Some(x) = &v[i - 1].value {
                        if s.coin() && !x.is_empty() && !x.starts_with('=') {
                            w[0].push_str(x);
                        } else {
                            w.push(x.clone());
                        }
                        break;
                    }
                }
                b.push(w);
            }
            (Some(x), true) => {
                if s.coin() || x.starts_with('-') {
                    b.push(vec![format!("--{}={x}", g.long)]);
                } else {
                    b.push(vec![format!("--{}", g.long), x.clone()]);
                }
            }
            (Some(x), false) => match s.usize(3) {
                0 if !x.is_empty() && !x.starts_with('=') => b.push(vec![format!("-{}{x}", g.short)]),
                1 => b.push(vec![format!("-{}={x}", g.short)]),
                _ => b.push(vec![format!("-{}", g.short), x.clone()]),
            },
        }
    }
    // files between the options
    let mut words: Vec<String> = Vec::new();
    let mut rest: Vec<String> = pos.iter().chain(&files).cloned().collect();
    let spread = s.coin();
    for o in b {
        if spread && !rest.is_empty() && s.chance(1, 3) {
            words.push(rest.remove(0));
            how += 1;
        }
        words.extend(o);
    }
    if s.coin() {
        words.push("--".into());
    }
    words.extend(rest);
    if t.files.1 > 0 && nf == 0 && s.coin() {
        words.push("-".into());
        how += 1;
    }
    words.insert(0, t.name.to_string());
    let also = ctx.path("also");
    let mut run = |args: &[String]| {
        let _ = std::fs::remove_file(&also);
        let o = cdx(ctx, args, stdin.as_deref().map(str::as_bytes));
        let x = std::fs::read(&also).ok();
        (o, x)
    };
    let (o, x) = run(&a);
    let (p, y) = run(&words);
    if o.crashed() && o.code != 2 || o.code != p.code || o.out != p.out || x != y || o.timeout || p.timeout {
        return Err(format!("{}\nand\n{}\nshould be the same (also: {:?} {:?}); files {datas:?} stdin {stdin:?}", o.describe(), p.describe(), x.map(|x| show(&x)), y.map(|x| show(&x))));
    }
    ok(o.code == 0 && how > 0 && given.len() > 1, (&a, &words, &datas), || format!("{} is {}", o.cmd(), p.cmd()))
}
/// an option that the tool does not have, or a value no one could use, is refused before anything is read or written
fn refused(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let t = s.pick(TOOLS);
    let also = ctx.path("also");
    let mut opts: Vec<Vec<String>> = Vec::new();
    for _ in 0..s.weighted(&[2, 3, 3, 1]) {
        let o = s.pick(t.opts);
        if o.0.is_empty() || s.coin() {
            opts.push(vec![format!("--{}", o.1)]);
        } else {
            opts.push(vec![format!("-{}", o.0)]);
        }
        if !o.2.is_empty() {
            opts.last_mut().unwrap().push(s.pick(o.2).replace('@', &also));
        }
    }
    let (bad, at_end): (Vec<String>, bool) = match s.usize(4) {
        // no such option
        0 => {
            let w = *s.pick(&["--nosuch", "--no-such=1", "-Z", "-@", "--keyy", "--text-inn", "--Lines", "--outputs"]);
            (vec![w.to_string()], false)
        }
        // a flag with a value, or nothing where a value belongs
        1 => {
            let o = s.pick(t.opts);
            if o.2.is_empty() {
                (vec![format!("--{}=x", o.1)], false)
            } else {
                (vec![format!("--{}", o.1)], true)
            }
        }
        // a word that is not one of the choices
        2 => {
            let c: &[&str] = match t.name {
                "cat" => &["--pad=maybe", "--pad=", "-pYess", "--pad=Ye"],
                "cut" => &["--dups=never", "-DFai", "--dups=Numeric9"],
                "paste" => &["--end=never", "--dups=x", "-eExac", "--end=Lately"],
                "wc" => &["--total=often", "--file=perhaps", "-hye", "--with-header=y3s"],
                "sort" => &["-C", "--Check=x", "--Check=-1", "-C1.5"],
                "transpose" => &["--lines=many", "-n-1", "--lines=3x"],
                "verify" => &["--report=x", "--first=XX,a", "--last=a", "-rx"],
                "filegen" => &["--lines=x", "--column=nosuch", "--multi=x,grid", "-n1.5"],
                "sample" => &["--sample=x", "--range=x", "--for=a", "--range=3-1-2"],
                "uniq" => &["--which=middle", "--agg=three,nosuch", "--count=n,middle", "-w"],
                "cgrep" => &["--pattern=1,nosuch,a", "--pattern=x", "--location=nosuch", "-p"],
                "join" => &["--also=1", "--output=x.y.z", "--also=", "-a"],
                _ => &["--context=x", "--context=1,2,3,4", "-Cx.1", "--context=-1"],
            };
            let w = *s.pick(c);
            (vec![w.to_string()], w.len() == 2)
        }
        _ => (vec![s.pick(&["--text-in", "--text-out"]).to_string()], true),
    };
    if t.files.1 == 0 && s.chance(1, 4) {
        opts.push(vec!["stray".into()]);
    }
    let mut words = vec![t.name.to_string()];
    let mut rest: Vec<String> = t.pos.first().iter().map(|x| x.to_string()).collect();
    let data = b" CDX\tone\ttwo\tthree\na\tb\t1\nb\tc\t2\n";
    for i in 0..t.files.1.min(2) {
        rest.push(ctx.file(&format!("f{i}"), data));
    }
    if at_end {
        // (clap lets the last of several go without)
        let same = |w: &str| t.opts.iter().any(|o| [format!("-{}", o.0), format!("--{}", o.1)].iter().any(|x| x == w) && [format!("-{}", o.0), format!("--{}", o.1)].contains(&bad[0]));
        opts.retain(|o| !same(&o[0]));
        words.extend(rest);
        words.extend(opts.into_iter().flatten());
        words.extend(bad);
    } else {
        let k = s.usize(opts.len() + 1);
        opts.insert(k, bad);
        words.extend(opts.into_iter().flatten());
        words.extend(rest);
    }
    if s.chance(1, 30) {
        // no such command
        words[0] = match s.usize(4) {
            0 => t.name.to_uppercase(),
            1 => t.name[..t.name.len() - 1].to_string(),
            2 => format!("{}s", t.name),
            _ => (*s.pick(&["grep", "nosuch", "", "-"])).to_string(),
        };
    }
    let _ = std::fs::remove_file(&also);
    let o = cdx(ctx, &words, Some(data));
    if o.code == 0 || o.crashed() && o.code != 2 || o.timeout || o.left || !o.out.is_empty() || o.err.is_empty() || std::path::Path::new(&also).exists() {
        return Err(format!("{}\nshould have been refused, before anything was written", o.describe()));
    }
    ok(true, &words, || o.cmd())
}

pub fn prop() -> Prop {
    Prop {
        id: "C29",
        rule: "non-trivial: at least two options, a spelling that differs in at least one way, and the command succeeds; or a line that has something to refuse",
        arms: vec![Arm { name: "spelling", quick: 6_000, thorough: 150_000, f: spelling }, Arm { name: "refused", quick: 2_000, thorough: 30_000, f: refused }],
    }
}
