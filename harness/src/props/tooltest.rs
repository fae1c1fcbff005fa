//! C23: tooltest reports exactly the tests that fail
use crate::engine::*;
use crate::run::*;

/// lines, none of which starts with a #
fn body(s: &mut Src, binary: bool) -> Vec<u8> {
    const L: [&str; 12] = ["abc", "", " two words", "a\tb", "ABC", "é$TMP", "x#y", "\\n", "a,b", "abc\r", "0", "abcd"];
    let mut v = Vec::new();
    for _ in 0..s.weighted(&[2, 5, 4, 2]) {
        v.extend(s.pick(&L).as_bytes());
        if binary && s.chance(1, 4) {
            v.extend([b'z', 0xff, 0, 0x80, b'\x1f']);
        }
        v.push(b'\n');
    }
    if !v.is_empty() && s.chance(1, 4) {
        v.pop();
    }
    v
}
/// something else, which can be written down as well
fn other(s: &mut Src, b: &[u8]) -> Vec<u8> {
    let mut v = b.to_vec();
    match s.usize(6) {
        0 if v.ends_with(b"\n") => {
            v.pop();
        }
        1 | 0 => v.extend(if v.is_empty() || v.ends_with(b"\n") { b"q\n".to_vec() } else { b"\n".to_vec() }),
        2 if v.contains(&b'a') => {
            let i = v.iter().position(|c| *c == b'a').unwrap_or(0);
            v[i] = b'A';
        }
        3 if v.contains(&b'\n') => {
            let i = v.iter().position(|c| *c == b'\n').unwrap_or(0);
            v.drain(..=i);
        }
        4 => {
            v.splice(0..0, b"new\n".to_vec());
        }
        _ => v.clear(),
    }
    if v == b {
        v.extend(b"x");
    }
    v
}
/// the body of a section ; a body without final newline needs a #nonewline, unless it is the last thing in the file
fn put(o: &mut Vec<u8>, b: &[u8]) {
    o.extend(b);
    if !b.is_empty() && !b.ends_with(b"\n") {
        o.extend(b"\n#nonewline\n");
    }
}
/// as the argument of printf
fn oct(b: &[u8]) -> String {
    b.iter().map(|c| format!("\\{c:03o}")).collect()
}
/// a matcher, and whether it matches
fn matcher(s: &mut Src, b: &[u8]) -> (String, bool) {
    let pats: &[&str] = &["abc", "ab", "a", "cd", "ABC", "0", "x#y", "two"];
    let p = *s.pick(pats);
    let pb = p.as_bytes();
    match s.usize(6) {
        0 => ("empty".into(), b.is_empty()),
        1 => (format!("prefix,{p}"), b.starts_with(pb)),
        2 => (format!("infix,{p}"), b.windows(pb.len()).any(|w| w == pb)),
        3 => (format!("suffix,{p}"), b.ends_with(pb)),
        4 => (format!("exact,{p}"), b == pb),
        _ => {
            let n = b.len();
            let k = if s.coin() { n } else { s.usize(8) };
            (format!("length,{k},{k}"), n == k)
        }
    }
}

struct T {
    text: Vec<u8>,
    pass: bool,
    stdin: Vec<u8>,
    out: Vec<u8>,
    err: Vec<u8>,
    ins: Vec<(String, Vec<u8>)>,
    /// the test does run
    runs: bool,
    why: &'static str,
}

fn one(s: &mut Src, ctx: &Ctx, i: usize, keep: bool) -> T {
    let stdin = body(s, true);
    let own = body(s, false);
    let mut out = Vec::new();
    let err = if s.chance(1, 2) { body(s, false) } else { Vec::new() };
    let code = *s.pick(&[0, 0, 0, 1, 2, 127, 255]);
    let names = ["in", "a", "b.txt", "stdin2"];
    let nin = s.weighted(&[4, 3, 2]);
    let ins: Vec<(String, Vec<u8>)> = (0..nin).map(|k| (names[k].to_string(), body(s, true))).collect();
    let nout = s.weighted(&[4, 3, 2]);
    let mut outs: Vec<(String, Vec<u8>)> = (0..nout).map(|k| (["o", "out.1"][k].to_string(), body(s, false))).collect();
    // a file that is changed
    if s.chance(1, 6) && !ins.is_empty() && !keep {
        outs.push((ins[0].0.clone(), body(s, false)));
    }
    let mut script = String::from("T=$1\n");
    if s.chance(1, 3) && std::str::from_utf8(&stdin).is_ok() {
        script.push_str("cat\n");
        out.extend(&stdin);
    }
    if let Some(f) = ins.first() {
        if s.chance(1, 3) && std::str::from_utf8(&f.1).is_ok() {
            script.push_str(&format!("cat ${{T}}{}\n", f.0));
            out.extend(&f.1);
        }
    }
    if !own.is_empty() && (out.is_empty() || out.ends_with(b"\n")) {
        script.push_str(&format!("printf '{}'\n", oct(&own)));
        out.extend(&own);
    }
    if !err.is_empty() {
        script.push_str(&format!("printf '{}' >&2\n", oct(&err)));
    }
    for (n, b) in &outs {
        script.push_str(&format!("printf '{}' > ${{T}}{n}\n", oct(b)));
    }
    // what the test says
    let (mut xcode, mut xout, mut xerr, mut xouts) = (code, out.clone(), err.clone(), outs.clone());
    let mut pass = true;
    let mut runs = true;
    let mut why = "";
    let mut command = format!("sh {} $TMP", ctx.path(&format!("plan{i}.sh")));
    match s.usize(8) {
        0 => {
            let n = s.range(1, 8);
            command.push_str(&" $TMP".repeat(n));
            script.insert_str(0, &format!("test $# = {} || exit 99\nfor x; do test \"$x\" = \"$1\" || exit 98; done\n", n + 1));
        }
        1 => command = command.replace(' ', "\t"),
        2 => {
            command.push_str(" a b$TMP");
            script.insert_str(0, "test $# = 3 || exit 99\ntest \"$3\" = \"b$1\" || exit 98\n");
        }
        _ => {}
    }
    let mut bogus = None;
    let mut die = false;
    match s.usize(26) {
        0 => {
            xcode = *s.pick(&[0, 1, 2, 3, 128]);
            pass = xcode == code;
            why = "status";
        }
        1 | 2 => {
            xout = other(s, &out);
            pass = false;
            why = "stdout";
        }
        3 | 4 => {
            xerr = other(s, &err);
            pass = false;
            why = "stderr";
        }
        5 | 6 if !xouts.is_empty() => {
            let k = s.usize(xouts.len());
            xouts[k].1 = other(s, &xouts[k].1);
            pass = false;
            why = "outfile";
        }
        7 => {
            xouts.push(("missing".into(), if s.coin() { Vec::new() } else { body(s, false) }));
            pass = false;
            why = "outfile is missing";
        }
        8 if !xouts.is_empty() && !ins.iter().any(|f| f.0 == xouts[xouts.len() - 1].0) => {
            xouts.pop();
            pass = keep;
            why = "unexpected file";
        }
        9 => {
            // also one that looks like one of the others
            let mut all: Vec<String> = ins.iter().chain(&outs).map(|x| x.0.clone()).collect();
            all.extend(["left".to_string(), "stdin".into(), "stdout".into(), "stderr".into()]);
            let mut n = s.pick(&all).clone();
            match s.usize(4) {
                0 => n.push('x'),
                1 => n.insert(0, 'x'),
                2 => n = "x".repeat(n.len()),
                _ => n = n.to_uppercase(),
            }
            script.push_str(&format!("printf x > ${{T}}{n}\n"));
            pass = keep;
            why = "unexpected file";
        }
        10 => {
            script.push_str("mkdir ${T}leftdir\nprintf x > ${T}leftdir/f\n");
            pass = keep;
            why = "unexpected directory";
        }
        11 if !ins.is_empty() && !keep => {
            // removing an input is not an error in itself
            let k = s.usize(ins.len());
            if !outs.iter().any(|o| o.0 == ins[k].0) {
                script.push_str(&format!("rm ${{T}}{}\n", ins[k].0));
                why = "removes a file";
            }
        }
        12 => {
            die = true;
            pass = false;
            why = "signal";
        }
        13 => {
            bogus = Some(*s.pick(&["#bogus", "text", "#", "#comment"]));
            pass = false;
            runs = false;
            why = "bad line";
        }
        14 => {
            command = "no-such-command $TMP".into();
            pass = false;
            runs = false;
            why = "no such command";
        }
        _ => {}
    }
    script.push_str(&if die { "kill -9 $$\n".to_string() } else { format!("exit {code}\n") });
    ctx.file(&format!("plan{i}.sh"), script.as_bytes());
    // the sections, in any order
    let mut sections: Vec<Vec<u8>> = vec![format!("#command {command}\n").into_bytes()];
    if !stdin.is_empty() || s.chance(1, 4) {
        let mut v = b"#stdin\n".to_vec();
        put(&mut v, &stdin);
        sections.push(v);
    }
    for (tag, b) in [("#stdout", &xout), ("#stderr", &xerr)] {
        let real = if tag == "#stdout" { &out } else { &err };
        let mut v = format!("{tag}\n").into_bytes();
        if s.chance(1, 5) && why != &tag[1..] {
            let (m, yes) = matcher(s, real);
            v = format!("{tag}{}{m}\n", s.pick(&[" ", "  "])).into_bytes();
            if !yes {
                pass = false;
            }
        } else if b.is_empty() && s.coin() {
            v.clear();
        } else {
            put(&mut v, b);
        }
        if !v.is_empty() {
            sections.push(v);
        }
    }
    if xcode != 0 || s.chance(1, 4) {
        sections.push(format!("#status {xcode}\n").into_bytes());
    }
    for (n, b) in &ins {
        let mut v = format!("#infile {n}\n").into_bytes();
        put(&mut v, b);
        sections.push(v);
    }
    for (n, b) in &xouts {
        let mut v = format!("#outfile {n}\n").into_bytes();
        if s.chance(1, 5) && why != "outfile" {
            let real = outs.iter().find(|o| o.0 == *n).map(|o| o.1.clone());
            let (m, yes) = matcher(s, &real.clone().unwrap_or_default());
            v = format!("#outfile {n} {m}\n").into_bytes();
            if real.is_none() || !yes {
                pass = false;
            }
        } else {
            put(&mut v, b);
        }
        sections.push(v);
    }
    let mut text = Vec::new();
    if let Some(b) = bogus {
        // in front, so that it is not part of a body
        text.extend(format!("{b}\n").into_bytes());
    }
    while !sections.is_empty() {
        if s.chance(1, 5) {
            text.extend(b"# a comment\n");
        }
        let k = s.usize(sections.len());
        text.extend(sections.remove(k));
    }
    // a file that does not end in a newline
    if s.chance(1, 6) && !text.ends_with(b"\n\n") {
        let last = text[..text.len() - 1].iter().rposition(|c| *c == b'\n').map_or(0, |x| x + 1);
        if text[last..].starts_with(b"#") {
            text.pop();
        }
    }
    T { text, pass, stdin, out, err, ins, runs, why }
}
fn verdict(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let keep = s.chance(1, 6);
    let n = if keep { 1 } else { s.range(1, 5) };
    let tmp = ctx.path("ttmp");
    let _ = std::fs::remove_dir_all(&tmp);
    let mut tests: Vec<(String, Option<T>)> = Vec::new();
    for i in 0..n {
        let name = ctx.path(&format!("t{i}.test"));
        if s.chance(1, 20) {
            let _ = std::fs::remove_file(&name);
            tests.push((name, None));
            continue;
        }
        let t = one(s, ctx, i, keep);
        ctx.file(&format!("t{i}.test"), &t.text);
        tests.push((name, Some(t)));
    }
    let mut args: Vec<String> = vec!["tooltest".into(), "-b".into(), s.pick(&["/bin", "/bin/"]).to_string()];
    if keep {
        args.push("-t".into());
        args.push(tmp.clone());
    }
    if s.chance(1, 5) {
        args.push("-v".into());
    }
    args.extend(tests.iter().map(|t| t.0.clone()));
    let before = list(ctx);
    let o = cdx(ctx, &args, None);
    let say = |m: &str| {
        Err(format!(
            "{m}\n{}\n{}",
            o.describe(),
            tests
                .iter()
                .enumerate()
                .map(|(i, t)| format!(
                    "{} ({}): \"{}\" plan \"{}\"",
                    t.0,
                    t.1.as_ref().map_or("does not exist".to_string(), |t| format!("{} {}", if t.pass { "passes" } else { "fails" }, t.why)),
                    t.1.as_ref().map_or(String::new(), |t| show(&t.text)),
                    show(&std::fs::read(ctx.path(&format!("plan{i}.sh"))).unwrap_or_default()),
                ))
                .collect::<Vec<_>>()
                .join("\n")
        ))
    };
    if o.crashed() {
        return say("crash");
    }
    let errs = String::from_utf8_lossy(&o.err).to_string();
    let mut npass = 0;
    for t in &tests {
        let pass = t.1.as_ref().is_some_and(|t| t.pass);
        npass += usize::from(pass);
        let reported = errs.contains(&format!("Test {} failed", t.0));
        if reported == pass {
            return say(&format!("{} should {} be reported as failed", t.0, if pass { "not" } else { "" }));
        }
    }
    let want = format!("{n} test run, {npass} pass, {} failed\n", n - npass);
    if o.out != want.as_bytes() || o.code != i32::from(npass != n) {
        return say(&format!("expected {want:?} and status {}", i32::from(npass != n)));
    }
    if keep {
        if let Some(t) = tests[0].1.as_ref().filter(|t| t.runs) {
            for (f, b) in t.ins.iter().map(|x| (x.0.as_str(), &x.1)).chain([("stdin", &t.stdin), ("stdout", &t.out), ("stderr", &t.err)]) {
                if std::fs::read(format!("{tmp}/{f}")).ok().as_ref() != Some(b) {
                    return say(&format!("{f} in {tmp} is not what it should be"));
                }
            }
        }
        let _ = std::fs::remove_dir_all(&tmp);
    } else if list(ctx) != before {
        return say("files left over");
    }
    let nontrivial = tests.iter().filter(|t| t.1.as_ref().is_some_and(|t| !t.text.is_empty())).count() > 0 && (n > 1 || keep || npass == 0);
    let texts: Vec<_> = tests.iter().map(|t| t.1.as_ref().map(|t| t.text.clone())).collect();
    ok(nontrivial, &texts, || {
        format!("{n} tests, {npass} pass; the first: \"{}\" {}", texts[0].as_ref().map_or(String::new(), |t| show(t)), tests[0].1.as_ref().map_or("", |t| t.why))
    })
}
fn list(ctx: &Ctx) -> Vec<std::ffi::OsString> {
    let mut v: Vec<_> = std::fs::read_dir(&ctx.dir).map(|d| d.flatten().map(|e| e.file_name()).collect()).unwrap_or_default();
    v.sort();
    v
}

pub fn prop() -> Prop {
    Prop {
        id: "C23",
        rule: "a batch of more than one test, or a test with a persistent directory, or a single test that has to fail",
        arms: vec![Arm { name: "verdict", quick: 1500, thorough: 60000, f: verdict }],
    }
}
