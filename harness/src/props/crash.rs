//! C27: nothing crashes
use crate::engine::*;
use crate::gen::*;
use crate::run::*;

struct Tool {
    name: &'static str,
    files: (usize, usize),
    /// option and values; options without a value have none
    opts: &'static [(&'static str, &'static [&'static str])],
}
pub const KEYS: &[&str] = &[
    "1", "2", "+1", "one", "two", "3", "1,rev", "2,float", "one,num", "2,numeric", "1,lower", "1,length", "2,ip", ",plain", ",lower.rev", "1,equal", ",expr,c1+c2", ",expr.rev,two+three", "1,num.rev", "2.3,float", "1,strict", "1,first.float", "one,trailing", "two,first,float",
    "1,max.float", "1,random", "2,random.rev", ",random",
];
pub const PATS: &[&str] = &[
    "1,exact,a", "two,,foo", "one,exact,^aaa^bbb", "1,regex,a.*b", "1,glob,a*", "2,prefix,x", "1,suffix,b", "1,infix,ab", "1,length,3", "1,length,1,5", "2,range,<a>b", "1,range,LE,5,LT,9", "1,empty", "1,blank", "1,float", "1,ip", "1,number", "1,integer", "1-3,exact,a", "any,1-2,exact,b",
    "all,1-2,exact,b", "atleast,2,1-3,exact,a", "atmost,1%,1-3,exact,a", ",expr,c1>2", ",expr,three<two", "one,or.case,^aaa^bbb", "one,and.case,^aaa^bbb", "1,not.exact,a", "1,case.prefix,A", "1,utf8.length,1", "1,file-exact,f0", "1,cidr,10.0.0.0/8", "1,hash", "1,slash", "1,comment,abc", "1,yes",
    "1,no", "1,trim.exact,a", "1,null.exact,a", "1,range,float,<1>5", "1,in-col,2", "1,exact-col,2", "~2,exact,a", "(glob,o*),exact,a", "*,exact,a",
];
pub const COLS: &[&str] = &[
    "1", "2-3", "-", "1-", "~2", "one", "two-three", "+1", "+2-+1", "1,1", "(glob,t*)", "(range,<t>f)", "~(glob,t*)", "<o>p", "name:1", "stuff:1,junk:two,three:3-", "2+lower", "1+utf8.upper,3", "1+bytes,3,2-4,42", "one+normspace", "1+from_base64", "1+to_base64", "~1,~2", "1-2,~2", "two:one,one:two",
    "@f0", "^.:2", "1+select.1.2", "1+chars,2",
];
pub const TEXT: &[&str] = &["ntb", "ntq", "xt", "yt", "n", "m", "mtpn", "m,bn", "ntbn_", "rtqn", "stpn~", "itqx"];
pub const AGGS: &[&str] = &["sum", "mean", "min", "max", "count", "merge", "merge,D,..max_parts:5", "merge,sort.uniq", "asum,chars", "amin,length", "expr,x,1,x*c2", "first", "last", "prefix,5", "suffix,2", "variance", "amax,swords", "amean,awords", "avg", "aavg,chars", "amean,regex", "minimum", "maximum", "mean,plain.3", "sum,power2"];
const TOOLS: &[Tool] = &[
    Tool { name: "sort", files: (0, 3), opts: &[("-k", KEYS), ("-u", &[]), ("-m", &[]), ("-c", &[]), ("-C", &["1", "3", "0"]), ("-a", &[]), ("-A", &[]), ("-k", KEYS)] },
    Tool { name: "uniq", files: (0, 1), opts: &[("-k", KEYS), ("-a", &["1,sum", "two,mean", "one,min", "2,count", "3,merge"]), ("--agg-pre", &["x,1,sum", "three_sum,three,sum", ",expr,x,1,x*c2"]), ("--agg-post", &["y,2,merge,sort.uniq", "five,three,merge,D,..max_parts:5", "z,1,asum,chars"]), ("-c", &["n", "TheCount,end", "count,last", ",", "n,begin"]), ("-w", &["First", "last", "min,three", "max,2,float", "Min"])] },
    Tool { name: "cut", files: (0, 2), opts: &[("-f", COLS), ("-g", &[".group:1-3", ",group:3,1", ".thing:3,1", "x:2"]), ("-e", &["foo:max([1-4])", "n:c1+2", "x:plain,c1*c2", "y:if(c1>1,2,3)", "z:[one]/[two]", "w:3!", "v:-2^2"]), ("-c", &["stuff:abc^{two}def", "x:^1^2", "y:^{one}", "z:^^", "q:^{1}lit"]), ("-D", &["Fail", "Allow", "Numeric"])] },
    Tool { name: "cgrep", files: (0, 2), opts: &[("-p", PATS), ("-p", PATS), ("-o", &[]), ("-v", &[]), ("-l", &["name.1,line,bytes", "name", "line", "a:line,b:bytes", "name.2.tail:x"]), ("--show-const", &[]), ("--show-func", &[])] },
    Tool { name: "cat", files: (0, 3), opts: &[("-p", &["yes", "no", "end"]), ("-r", &["empty", "blank", "comment,abc", "hash", "slash", "exact,a", "regex,^a"]), ("-s", &["empty", "blank", "prefix,a"]), ("-n", &["spoo,27,end", "n", "n,5", "n,-3,begin", ",,"]), ("-b", &[]), ("-e", &[])] },
    Tool { name: "paste", files: (1, 3), opts: &[("-e", &["exact", "early", "late"]), ("-d", &["zzz", "zzz,3-4", "q,one", ",", "x,~2"]), ("-l", &[]), ("-r", &["one.uno,two.dos", "one.x", "a.b,c.d"]), ("-R", &[]), ("-D", &["Fail", "Allow", "Numeric"])] },
    Tool { name: "join", files: (2, 2), opts: &[("-k", KEYS), ("-k", KEYS), ("-o", &["1.1,2.2", "2.1-3,~2,1.3,1.1", "1.-", "2.one", "1.1-2,2.3", "x"]), ("-a", &["1,o1", "2,o2", "1,-"]), ("-f", &["o3", "-"])] },
    Tool { name: "binsearch", files: (2, 3), opts: &[("-k", KEYS), ("-H", &["f:1", "name:1", "x", "a:2.tail"]), ("-C", &["1,2", "1.2,2.1", "0,0", "3", "1.0,5"]), ("-s", &[",", ":", "t"])] },
    Tool { name: "verify", files: (0, 2), opts: &[("-r", &["1", "5", "0"]), ("-f", &["LT,a", "GE,0", "EQ,x", "LE,5,GT,1"]), ("-l", &["LT,zzz", "GE,0", "NE,x"]), ("-k", KEYS), ("-s", &[]), ("-u", &[]), ("-p", PATS)] },
    Tool { name: "sample", files: (0, 2), opts: &[("-f", &["1", "2,1", "3,1,9", "1,2,3"]), ("-s", &["3", "5", "0", "100"]), ("-r", &["1-5,42,95-106", "2", "3-", "-3", "5-2", "1,1"])] },
    Tool { name: "wc", files: (0, 3), opts: &[("-a", &["x,count", "b,asum,chars", "n,min,length", "w,asum,swords"]), ("-l", &[]), ("-b", &[]), ("-c", &[]), ("-w", &[]), ("-f", &["yes", "no", "maybe", "yes,name", "no,x"]), ("-h", &["yes", "no", "maybe"]), ("-t", &["yes", "no", "maybe", "only"]), ("-F", &["plain", "float.3", "power2", "p10", "short.2"]), ("-C", &[])] },
    Tool { name: "transpose", files: (0, 1), opts: &[("-h", &[]), ("-n", &["1", "3", "0", "100"])] },
    Tool { name: "calc", files: (1, 3), opts: &[("-f", &["plain", "float.3", "power2", "short"])] },
    Tool { name: "tabs", files: (1, 3), opts: &[("-e", &[])] },
    Tool { name: "filegen", files: (0, 0), opts: &[("-c", &["grid", "count,5", "expr,float,line^col", "decimal,-NN.N", "normal,1,2,plain.2", "null"]), ("-m", &["3,expr,line*col", "2,grid"]), ("-h", &[])] },
];

pub fn mutate(s: &mut Src, v: &str, all: &[&str]) -> String {
    const SOUP: [&str; 45] = [
        ",", ".", "-", "+", ":", "~", "^", "(", ")", "[", "]", "{", "}", "<", ">", "0", "1", "9", "99999999999999999999", "65536", "4294967296", "", " ", "é", "*", "%", "=", "!", "@", "\\", "\"", "'", "a", "one", "rev", "float", "expr", "\t", "1e999", "_", "|", "#", "€", "😀", "D",
    ];
    let mut c: Vec<char> = v.chars().collect();
    for _ in 0..s.weighted(&[0, 5, 3, 1]) {
        match s.usize(7) {
            0 if !c.is_empty() => {
                let i = s.usize(c.len());
                c.remove(i);
            }
            1 => {
                let i = s.usize(c.len() + 1);
                let t: Vec<char> = s.pick(&SOUP).chars().collect();
                c.splice(i..i, t);
            }
            2 if !c.is_empty() => {
                let i = s.usize(c.len());
                c.truncate(i);
            }
            3 if !c.is_empty() => {
                let i = s.usize(c.len());
                let t: Vec<char> = s.pick(&SOUP).chars().collect();
                c.splice(i..=i, t);
            }
            4 => {
                // a piece of another value
                let o: Vec<char> = s.pick(all).chars().collect();
                let (a, b) = (s.usize(o.len() + 1), s.usize(c.len() + 1));
                c.truncate(b);
                c.extend(&o[a..]);
            }
            5 if c.len() > 1 => {
                let (i, j) = (s.usize(c.len()), s.usize(c.len()));
                c.swap(i, j);
            }
            _ => {
                // repeat a part
                if !c.is_empty() {
                    let i = s.usize(c.len());
                    let t = c[i..].to_vec();
                    c.extend(t);
                }
            }
        }
    }
    c.into_iter().filter(|c| *c != '\0').collect()
}
/// Where a number asks for that much output, keep it to three digits.
pub fn tame(v: &str) -> String {
    let mut o = String::new();
    let mut n = 0;
    for c in v.chars() {
        if n > 0 && "kmgtpezy".contains(c.to_ascii_lowercase()) {
            continue; // three giga-columns
        }
        n = if c.is_ascii_digit() { n + 1 } else { 0 };
        if n <= 3 {
            o.push(c);
        }
    }
    o
}
/// hostile contents
fn data(s: &mut Src) -> Vec<u8> {
    let max_rows = if s.chance(1, 8) { 60 } else { 6 };
    let (t, _) = table(s, &TableOpt { max_rows, max_cols: 4, ragged: false, header: 60 });
    let mut b = if s.coin() { b" CDX\tone\ttwo\tthree\naaa\t1\t2\nbbb\t-3.5\txyz\nccc\t\t10.0.0.1\n".to_vec() } else { t.bytes() };
    const BITS: [&[u8]; 22] = [
        b"\t", b"\n", b"\0", b"\xff", b" CDX\t", b" CDX", b"\r", b"\"", b"\\", b"\xc3", b"9999999999999999999999", b"-", b"1e400", b"nan", b"\n\n", b"\t\t\t", b" ", b"inf", b"\xf0\x9f\x98\x80", b"0.0.0.0", b"-0", b",",
    ];
    for _ in 0..s.weighted(&[2, 3, 3, 2, 1]) {
        match s.usize(6) {
            0 | 1 => {
                let i = s.usize(b.len() + 1);
                let t = s.pick(&BITS).to_vec();
                b.splice(i..i, t);
            }
            2 if !b.is_empty() => {
                let i = s.usize(b.len());
                b.truncate(i);
            }
            3 if !b.is_empty() => {
                let i = s.usize(b.len());
                let j = s.range(i, b.len() - 1);
                b.drain(i..j);
            }
            4 if !b.is_empty() => {
                let i = s.usize(b.len());
                b[i] = s.below(256) as u8;
            }
            _ => {
                let i = s.usize(b.len() + 1);
                let n = *s.pick(&[9usize, 300, 5000, 70000]);
                let c = *s.pick(&[b'x', b'1', b'\t', b'\n', b'-', b'"', b'.', 0]);
                let n = if c == b'\t' || c == b'\n' { n.min(300) } else { n };
                b.splice(i..i, vec![c; n]);
            }
        }
    }
    b
}
fn run_tool(s: &mut Src, ctx: &mut Ctx, spoil: bool) -> CaseResult {
    let t = s.pick(TOOLS);
    let mut args: Vec<String> = vec![t.name.into()];
    let nopt = s.weighted(&[1, 5, 3, 2]);
    let mut spoiled = false;
    for i in 0..nopt {
        let (o, vals) = s.pick(t.opts);
        let o = if (s.chance(1, 14) && i == 0) || vals.is_empty() && s.chance(1, 6) { if s.coin() { "--text-in" } else { "--text-out" } } else { *o };
        let vals: &[&str] = if o.starts_with("--text") { TEXT } else { vals };
        args.push(o.into());
        if !vals.is_empty() {
            let mut v = s.pick(vals).to_string();
            if o == "-a" && s.coin() && t.name != "join" {
                v = format!("1,{}", s.pick(AGGS));
            }
            if spoil && s.chance(3, 4) {
                spoiled = true;
                let more: Vec<&str> = [vals, AGGS].concat();
                let w = mutate(s, &v, &more);
                v = if ["filegen", "cut", "join", "paste"].contains(&t.name) { tame(&w) } else { w };
                if t.name == "join" {
                    v = v.replace('/', "");
                }
                if v.starts_with('-') && v.len() > 1 {
                    v.remove(0);
                }
            }
            args.push(v);
        }
    }
    let n = s.range(t.files.0, t.files.1.max(t.files.0));
    let mut bodies: Vec<Vec<u8>> = Vec::new();
    if n > 0 {
        args.push("--".into());
    }
    let mut stdin = None;
    for i in 0..n {
        if t.name == "calc" {
            const E: [&str; 16] = [
                "1+2", "plain,3*4", "sin(1)", "float.2,1/3", "5!", "-2^3", "max(1,2,3)", "(1+2)*3", "1<2", "pow(2,10)", "if(1>2,3,4)", "atan2(1,2)", "avg(1,2,-3)", "1e308*10", "2*pi", "-(-(3))",
            ];
            let mut b = String::new();
            for _ in 0..s.range(1, 4) {
                let e = s.pick(&E).to_string();
                b.push_str(&if spoil || s.coin() { mutate(s, &e, &E) } else { e });
                b.push('\n');
            }
            ctx.file(&format!("f{i}"), b.as_bytes());
            args.push(format!("f{i}"));
            bodies.push(b.into_bytes());
            continue;
        }
        if t.name == "binsearch" && i == 0 {
            let v = s.pick(&["aaa", "1", "2,b", "", "a:b", "é", "1e5", "10.0.0.1"]).to_string();
            args.push(if spoil { mutate(s, &v, &["x", "1,2"]) } else { v });
            continue;
        }
        let b = data(s);
        if i == 0 && s.chance(1, 8) && !["binsearch", "tabs"].contains(&t.name) {
            args.push("-".into());
            stdin = Some(b.clone());
        } else {
            ctx.file(&format!("f{i}"), &b);
            args.push(format!("f{i}"));
        }
        bodies.push(b);
    }
    if n == 0 && t.files.1 > 0 {
        let b = data(s);
        stdin = Some(b.clone());
        bodies.push(b);
    }
    let o = cdx_with(ctx, &args, stdin.as_deref(), &[], &To::Close(1 << 20));
    if t.name == "join" || spoil {
        for e in std::fs::read_dir(&ctx.dir).into_iter().flatten().flatten() {
            let _ = std::fs::remove_file(e.path());
        }
    }
    let usage = o.code == 2 && o.err.starts_with(b"error:");
    if o.crashed() && !usage {
        return Err(format!("{}\nfiles {}", o.describe(), bodies.iter().map(|f| format!("\"{}\"", show(f))).collect::<Vec<_>>().join(" ")));
    }
    ok(if spoil { spoiled } else { o.code == 0 && !o.out.is_empty() }, (&args, &bodies), || o.cmd())
}
fn specs(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    run_tool(s, ctx, true)
}
fn files(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    run_tool(s, ctx, false)
}
pub fn prop() -> Prop {
    Prop {
        id: "C27",
        rule: "data arm non-trivial: the command succeeds and writes something; spec arm non-trivial: at least one option value was changed at random",
        arms: vec![Arm { name: "files", quick: 15_000, thorough: 300_000, f: files }, Arm { name: "specs", quick: 30_000, thorough: 600_000, f: specs }],
    }
}
