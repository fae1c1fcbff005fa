//! The parts of C03 and C21 that need only the commands
use crate::engine::*;
use crate::gen::*;
use crate::model::*;
use crate::run::*;
use std::cmp::Ordering;

pub const COMP_RULE: &str = "non-trivial: at least one pair of the generated lines is strictly ordered";
/// the commands agree on how two lines compare
pub fn comp_cli(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let nc = s.range(1, 3);
    let ks = kinds(s, nc);
    let header = names(s, nc);
    let n = s.range(2, 3);
    let t = Table { header: Some(header.clone()), rows: rows(s, &ks, n, false) };
    let mut keys = keys(s, Some(&header), &ks, Some(nc));
    if keys.is_empty() {
        keys.push(whole_key());
    }
    let lines = t.lines();
    let ords: Vec<Ordering> = lines.windows(2).map(|w| cmp_keys(&keys, &w[0], &w[1])).collect();
    let name = ctx.file("f", &t.bytes());
    let mut run = |cmd: &[&str]| {
        let mut args: Vec<String> = cmd.iter().map(|x| x.to_string()).collect();
        for k in &keys {
            args.push("-k".into());
            args.push(k.spec.clone());
        }
        args.push("--".into());
        args.push(name.clone());
        cdx(ctx, &args, None)
    };
    let tell = |o: &Out, why: &str| Err(format!("{}\nfile \"{}\": {why}; the lines compare {ords:?}", o.describe(), show(&t.bytes())));
    let sorted = ords.iter().all(|o| *o != Ordering::Greater);
    let strict = ords.iter().all(|o| *o == Ordering::Less);
    for (cmd, want) in [(&["sort", "-c"][..], sorted), (&["sort", "-c", "-u"][..], strict), (&["verify", "-s"][..], sorted), (&["verify", "-u"][..], strict)] {
        let o = run(cmd);
        if o.code != if want { 0 } else { 1 } || o.crashed() {
            return tell(&o, if want { "this is in order" } else { "this is not in order" });
        }
    }
    let o = run(&["uniq"]);
    let mut want = t.head();
    want.extend(&lines[0]);
    for (l, c) in lines[1..].iter().zip(&ords) {
        if *c != Ordering::Equal {
            want.extend(l);
        }
    }
    if o.code != 0 || o.out != want {
        return tell(&o, &format!("wanted \"{}\"", show(&want)));
    }
    ok(ords.iter().any(|o| *o != Ordering::Equal), (&t, &keys), || o.cmd())
}

pub const NUM_RULE: &str = "ints: more than three digits or a suffix; floats: a fraction or an exponent; print: not zero; commands: always";
/// numbers read from and written to text by commands
pub fn num_cli(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    // signed integers, with suffixes
    let n = s.range(1, 12);
    let mut args: Vec<String> = ["filegen", "-n", "1"].iter().map(|x| x.to_string()).collect();
    let mut want = Vec::new();
    for _ in 0..n {
        let neg = s.chance(1, 3);
        let d = digits(s, 1, 12);
        let (suf, mul) = match s.usize(6) {
            0 => ("k", 1000i128),
            1 => ("K", 1024),
            2 => ("m", 1_000_000),
            3 => ("M", 1 << 20),
            _ => ("", 1),
        };
        args.push("-c".into());
        args.push(format!("count,{}{d}{suf}", if neg { "-" } else { "" }));
        let v = (d.parse::<i128>().unwrap() * mul).min(isize::MAX as i128);
        want.push((if neg { -v } else { v }).to_string());
    }
    let want = format!("{}\n", want.join("\t"));
    let o = cdx(ctx, &args, None);
    if o.code != 0 || o.out != want.as_bytes() {
        return Err(format!("{}\nwanted \"{want}\"", o.describe()));
    }
    // decimals, read and written in some format
    let mut rows = Vec::new();
    let mut vals = Vec::new();
    for _ in 0..s.range(1, 20) {
        let mut t = format!("{}{}", if s.chance(1, 3) { "-" } else { "" }, digits(s, 1, 9));
        if s.coin() {
            t += &format!(".{}", digits(s, 1, 6));
        }
        if s.chance(1, 3) {
            t += &format!("e{}", s.irange(-9, 9));
        }
        vals.push(t.parse::<f64>().unwrap());
        rows.push(vec![t.into_bytes()]);
    }
    let t = Table { header: None, rows };
    let p = s.range(0, 6);
    let e = 0.500_000_1 * 10f64.powi(-(p as i32));
    let (fmt, rel, abs) = match s.usize(6) {
        0 => ("short".to_string(), 1e-13, 0.0),
        1 => ("plain".to_string(), 1e-13, 0.0),
        2 => ("float".to_string(), 1e-13, 0.0),
        3 => (format!("plain.{p}"), 1e-13, e),
        4 => (format!("float.{p}"), e, 0.0),
        _ => (format!("short.{p}"), e, e),
    };
    let o = cdx(ctx, &["calc".to_string(), "-f".into(), fmt.clone(), ctx.file("f", &t.bytes())], None);
    let txt = String::from_utf8_lossy(&o.out).to_string();
    let got: Vec<&str> = txt.lines().collect();
    let tell = |why: String| Err(format!("{}\nfile \"{}\": {why}", o.describe(), show(&t.bytes())));
    if o.code != 0 || got.len() != vals.len() {
        return tell("should succeed".into());
    }
    for (g, v) in got.iter().zip(&vals) {
        match g.parse::<f64>() {
            Ok(x) if (x - v).abs() <= rel * v.abs() + abs => {}
            _ => return tell(format!("{v} is shown as \"{g}\"")),
        }
    }
    ok(true, (&t, &fmt, &args), || o.cmd())
}

pub const REG_RULE: &str = "threads: some lookup, and more than one thread or a registration; commands: at least two methods in one command";
/// the standard methods by all their names, in commands that use several of them
pub fn names_cli(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let n = s.size(1, 5, 20);
    let (args, file, want): (Vec<String>, &str, String) = match s.usize(5) {
        // aggregators
        0 => {
            let mut a = vec!["uniq".to_string(), "-k".into(), "1".into()];
            let mut w = String::new();
            for i in 0..n {
                let (name, v) = *s.pick(&[("min", "1"), ("minimum", "1"), ("max", "3"), ("maximum", "3"), ("count", "3"), ("sum", "6"), ("mean", "2"), ("avg", "2"), ("merge", "3,1,2"), ("asum,chars", "3"), ("aavg,chars", "1"), ("amean,awords", "1"), ("amax,swords", "1"), ("amin,chars", "1"), ("prefix", ""), ("suffix", "")]);
                a.extend(["--agg-post".to_string(), format!("x{i},2,{name}")]);
                w.push('\t');
                w.push_str(v);
            }
            (a, "a\t3\na\t1\na\t2\n", format!("a\t3{w}\n"))
        }
        // comparators that say that the lines are in order
        1 => {
            let mut a = vec!["sort".to_string(), "-c".into()];
            for _ in 0..n {
                a.extend(["-k".to_string(), format!("1,{}", s.pick(&["num", "numeric", "float", "len", "length", "plain", "lower", "ip", "equal", "", "NUMERIC", "Lower"]))]);
            }
            (a, "1.5\n1.6\n2.5\n", String::new())
        }
        // matchers
        2 => {
            let mut a = vec!["cgrep".to_string()];
            for _ in 0..n {
                a.extend(["-p".to_string(), format!("1,{}", s.pick(&["infix,bc", "substr,bc", "substring,bc", "prefix,a", "suffix,d", "exact,abcd", "glob,a*", "regex,^a", "not.empty,", "not.blank,", "length,4,4", "case.exact,ABCD"]))]);
            }
            (a, "abcd\n\n", "abcd\n".to_string())
        }
        // transforms
        3 => {
            let mut spec = "1".to_string();
            let mut up = false;
            for _ in 0..n {
                let t = *s.pick(&["lower", "lowercase", "upper", "uppercase", "normspace", "utf8.lower", "lower.utf8", "utf8.upper"]);
                spec.push('+');
                spec.push_str(t);
                if t != "normspace" {
                    up = t.contains("upper");
                } else if spec == "1+normspace" {
                    up = false;
                }
            }
            (vec!["cut".to_string(), "-f".into(), spec], "a b\n", if up { "A B\n".to_string() } else { "a b\n".to_string() })
        }
        // generators
        _ => {
            let mut a = vec!["filegen".to_string(), "-n".into(), "1".into()];
            let mut w = Vec::new();
            for i in 0..n {
                let (g, v) = *s.pick(&[("null", ""), ("count,5", "5"), ("expr,line*7", "7")]);
                let (g, v) = if s.chance(1, 3) { ("grid".to_string(), format!("1_{}", i + 1)) } else { (g.to_string(), v.to_string()) };
                a.extend(["-c".to_string(), g]);
                w.push(v);
            }
            (a, "", format!("{}\n", w.join("\t")))
        }
    };
    let mut args = args;
    if args[0] != "filegen" {
        args.push(ctx.file("f", file.as_bytes()));
    }
    let o = cdx(ctx, &args, None);
    if o.code != 0 || o.out != want.as_bytes() {
        return Err(format!("{}\nfile \"{}\" wanted \"{}\"", o.describe(), show(file.as_bytes()), show(want.as_bytes())));
    }
    ok(n > 1, &args, || o.cmd())
}
