//! C28: the registries of named methods, used from several threads in a fresh process
use crate::engine::*;
use crate::model::*;
use crate::run::*;
use cdx::agg::{Agg, AggMaker, Counter};
use cdx::comp::{CompMaker, Compare, Item};
use cdx::matcher::{Match, MatchMaker};
use cdx::prelude::*;
use cdx::textgen::{Gen, GenMaker, Where};
use cdx::trans::{Trans, TransMaker};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;
use std::sync::atomic::{AtomicUsize, Ordering as AO};

// ---- what a method does, as a text
const PAIRS: [(&[u8], &[u8]); 6] = [(b"a", b"B"), (b"10", b"9"), (b"1.5", b"1.25"), (b"b", b"aa"), (b"2.0.0.1", b"10.0.0.1"), (b"A", b"a")];
const TARGETS: [&[u8]; 5] = [b"", b"abc", b"xab", b"b", b" "];
fn ord_char(o: Ordering) -> char {
    match o {
        Ordering::Less => '<',
        Ordering::Equal => '=',
        Ordering::Greater => '>',
    }
}
fn trit(id: usize, i: usize) -> Ordering {
    [Ordering::Less, Ordering::Equal, Ordering::Greater][id / 3usize.pow(i as u32) % 3]
}
/// registries: 0 compare, 1 match, 2 aggregate, 3 count, 4 transform, 5 generate
const NREG: usize = 6;
fn custom_sig(reg: usize, id: usize) -> String {
    match reg {
        0 => (0..PAIRS.len()).map(|i| ord_char(trit(id, i))).collect(),
        1 => (0..TARGETS.len()).map(|i| if id >> i & 1 == 1 { '1' } else { '0' }).collect(),
        3 => (1000 + id).to_string(),
        _ => format!("X{id}"),
    }
}
struct Builtin(&'static str, &'static str, &'static str);
fn builtins(reg: usize) -> Vec<Builtin> {
    let m = |x: Method| -> &'static str { Box::leak(PAIRS.iter().map(|(a, b)| ord_char(x.cmp(a, b))).collect::<String>().into_boxed_str()) };
    match reg {
        0 => vec![
            Builtin("plain", "", m(Method::Plain)),
            Builtin("numeric", "", m(Method::Numeric)),
            Builtin("float", "", m(Method::Float)),
            Builtin("length", "", m(Method::Length)),
            Builtin("lower", "", m(Method::Lower)),
            Builtin("ip", "", m(Method::Ip)),
            Builtin("equal", "", m(Method::Equal)),
        ],
        1 => vec![
            Builtin("prefix", "a", "01000"),
            Builtin("suffix", "b", "00110"),
            Builtin("infix", "b", "01110"),
            Builtin("exact", "abc", "01000"),
            Builtin("empty", "", "10000"),
            Builtin("blank", "", "10001"),
            Builtin("glob", "a*", "01000"),
        ],
        2 => vec![
            Builtin("min", "", "1"),
            Builtin("max", "", "3"),
            Builtin("count", "", "3"),
            Builtin("sum", "", "6"),
            Builtin("mean", "", "2"),
            Builtin("merge", "", "3,1,2"),
            Builtin("asum", "awords", "3"),
            Builtin("amax", "awords", "1"),
        ],
        3 => vec![Builtin("chars", "", "3"), Builtin("swords", "", "2"), Builtin("awords", "", "2")],
        4 => vec![
            Builtin("lower", "", " ab  c"),
            Builtin("upper", "", " AB  C"),
            Builtin("normspace", "", "Ab c"),
            Builtin("to_base64", "", "IEFiICBj"),
            Builtin("bytes", "1-3", " Ab"),
        ],
        _ => vec![Builtin("null", "", ""), Builtin("grid", "", "2_3"), Builtin("count", "5", "6"), Builtin("expr", "line*col", "6")],
    }
}
fn std_aliases(areg: usize) -> &'static [(&'static str, &'static str)] {
    match areg {
        0 => &[("num", "numeric"), ("len", "length")],
        1 => &[("substr", "infix"), ("substring", "infix")],
        2 => &[("minimum", "min"), ("maximum", "max"), ("avg", "mean")],
        4 => &[("lowercase", "lower"), ("uppercase", "upper")],
        _ => &[],
    }
}
fn reserved(reg: usize) -> &'static [&'static str] {
    match reg {
        0 => &["rev", "strict", "trail", "low"],
        1 => &["utf8", "not", "trim", "null", "case", "and", "or"],
        4 => &["utf8"],
        _ => &[],
    }
}
/// names that may be given another meaning, without an effect on other registries
fn free(reg: usize) -> &'static [&'static str] {
    match reg {
        0 => &["n1", "n2", "n3", "numeric", "ip"],
        1 => &["n1", "n2", "n3", "infix", "glob"],
        2 => &["n1", "n2", "n3", "mean", "max"],
        3 => &["n1", "n2", "n3", "chars", "swords"],
        4 => &["n1", "n2", "n3", "lower", "to_base64"],
        _ => &["n1", "n2", "n3", "null", "grid"],
    }
}
fn free_alias(areg: usize) -> &'static [&'static str] {
    match areg {
        0 => &["a1", "a2", "num", "n3", "float"],
        1 => &["a1", "a2", "substr", "n3", "suffix"],
        2 => &["a1", "a2", "avg", "n3", "sum"],
        4 => &["a1", "a2", "lowercase", "n3", "upper"],
        _ => &["a1", "a2", "n3", "null"],
    }
}
const fn alias_reg(reg: usize) -> usize {
    if reg == 3 {
        2
    } else {
        reg
    }
}

// ---- in the child
struct Mine(usize);
impl Compare for Mine {
    fn comp(&self, left: &[u8], right: &[u8]) -> Ordering {
        PAIRS.iter().position(|p| p.0 == left && p.1 == right).map_or(Ordering::Equal, |i| trit(self.0, i))
    }
    fn equal(&self, left: &[u8], right: &[u8]) -> bool {
        self.comp(left, right) == Ordering::Equal
    }
    fn fill_cache(&self, _item: &mut Item, _value: &[u8]) {}
    fn set(&mut self, _value: &[u8]) {}
    fn comp_self(&self, _right: &[u8]) -> Ordering {
        Ordering::Equal
    }
    fn equal_self(&self, _right: &[u8]) -> bool {
        true
    }
}
impl Match for Mine {
    fn smatch(&self, buff: &str) -> bool {
        self.umatch(buff.as_bytes())
    }
    fn umatch(&self, buff: &[u8]) -> bool {
        TARGETS.iter().position(|t| *t == buff).is_some_and(|i| self.0 >> i & 1 == 1)
    }
}
impl Agg for Mine {
    fn add(&mut self, _data: &[u8]) {}
    fn result(&mut self, w: &mut dyn Write, _fmt: NumFormat) -> Result<()> {
        write!(w, "X{}", self.0)?;
        Ok(())
    }
    fn reset(&mut self) {}
}
impl Counter for Mine {
    fn counter(&mut self, _data: &[u8]) -> usize {
        1000 + self.0
    }
}
impl Trans for Mine {
    fn trans(&mut self, _src: &[u8], _cont: &TextLine, dst: &mut Vec<u8>) -> Result<()> {
        write!(dst, "X{}", self.0)?;
        Ok(())
    }
}
impl Gen for Mine {
    fn write(&mut self, w: &mut dyn Write, _loc: &Where) -> Result<()> {
        write!(w, "X{}", self.0)?;
        Ok(())
    }
}
fn text_line(l: &[u8]) -> TextLine {
    let mut t = TextLine::new();
    t.raw().extend_from_slice(l);
    t.raw().push(b'\n');
    t.split(&TextFileMode::default());
    t
}
fn look(reg: usize, how: &str, name: &str, pat: &str) -> Result<String> {
    let spec = if pat.is_empty() && how != "2" { name.to_string() } else { format!("{name},{pat}") };
    let mut out = Vec::new();
    Ok(match reg {
        0 if how == "1" => {
            let mut c = CompMaker::make_line_comp_parts("", name, pat)?;
            PAIRS.iter().map(|(a, b)| ord_char(c.comp.comp_lines(a, b, b'\t', 0, 0))).collect()
        }
        0 => {
            let c = CompMaker::make_comp(&spec)?;
            PAIRS.iter().map(|(a, b)| ord_char(c.comp(a, b))).collect()
        }
        1 if how == "1" => {
            let mut m = MatchMaker::make_line3("", name, pat)?;
            TARGETS.iter().map(|t| if m.ok(&text_line(t)) { '1' } else { '0' }).collect()
        }
        1 => {
            let m = MatchMaker::make(&spec)?;
            TARGETS.iter().map(|t| if m.umatch(t) { '1' } else { '0' }).collect()
        }
        2 => {
            let a = AggMaker::make(&spec)?;
            for v in [b"3", b"1", b"2"] {
                a.borrow_mut().add(v);
            }
            a.borrow_mut().result(&mut out, NumFormat::default())?;
            String::from_utf8_lossy(&out).to_string()
        }
        3 => AggMaker::make_counter(&spec)?.counter(b"a b").to_string(),
        4 => {
            let mut t = TransMaker::make(&spec)?;
            t.trans.trans(b" Ab  c", &text_line(b"q"), &mut out)?;
            String::from_utf8_lossy(&out).to_string()
        }
        _ => {
            let mut g = GenMaker::make(&spec)?;
            g.gen.write(&mut out, &Where { col: 3, line: 2 })?;
            String::from_utf8_lossy(&out).to_string()
        }
    })
}
fn leak(s: &str) -> &'static str {
    Box::leak(s.to_string().into_boxed_str())
}
fn push(reg: usize, name: &str, id: usize) -> Result<()> {
    let n = leak(name);
    match reg {
        0 => CompMaker::push(n, "mine", move |_| Ok(Box::new(Mine(id)))),
        1 => MatchMaker::push(n, "mine", move |_, _| Ok(Box::new(Mine(id)))),
        2 => AggMaker::push(n, "mine", move |_| Ok(Rc::new(RefCell::new(Mine(id))))),
        3 => AggMaker::push_counter(n, "mine", move |_, _| Ok(Box::new(Mine(id)))),
        4 => TransMaker::push(n, "mine", move |_, _| Ok(Box::new(Mine(id)))),
        _ => GenMaker::push(n, "mine", move |_| Ok(Box::new(Mine(id)))),
    }
}
fn alias(reg: usize, old: &str, new: &str) -> Result<()> {
    let (o, n) = (leak(old), leak(new));
    match reg {
        0 => CompMaker::add_alias(o, n),
        1 => MatchMaker::add_alias(o, n),
        2 | 3 => AggMaker::add_alias(o, n),
        4 => TransMaker::add_alias(o, n),
        _ => GenMaker::add_alias(o, n),
    }
}
/// runs the program on stdin
pub fn child() {
    let mut txt = String::new();
    std::io::stdin().read_to_string(&mut txt).expect("program");
    // ops[thread][round]
    let mut ops: Vec<Vec<Vec<Vec<String>>>> = Vec::new();
    for l in txt.lines() {
        let f: Vec<String> = l.split('\t').map(str::to_string).collect();
        let (t, r): (usize, usize) = (f[0].parse().unwrap(), f[1].parse().unwrap());
        while ops.len() <= t {
            ops.push(Vec::new());
        }
        while ops[t].len() <= r {
            ops[t].push(Vec::new());
        }
        if f.len() > 2 {
            ops[t][r].push(f[2..].to_vec());
        }
    }
    let n = ops.len();
    let rounds = ops.iter().map(Vec::len).max().unwrap_or(0);
    let gate = AtomicUsize::new(0);
    let res: Vec<Vec<Vec<String>>> = std::thread::scope(|sc| {
        let hs: Vec<_> = ops
            .iter()
            .map(|mine| {
                let gate = &gate;
                sc.spawn(move || {
                    let mut out = Vec::new();
                    for r in 0..rounds {
                        gate.fetch_add(1, AO::SeqCst);
                        let mut spins = 0u32;
                        while gate.load(AO::SeqCst) < n * (r + 1) {
                            spins += 1;
                            if spins > 2000 {
                                std::thread::yield_now();
                            } else {
                                std::hint::spin_loop();
                            }
                        }
                        let mut o = Vec::new();
                        for op in mine.get(r).map_or(&[][..], |v| v) {
                            let reg: usize = op[1].parse().unwrap();
                            let done = |r: Result<()>| if r.is_ok() { "ok".to_string() } else { "err".to_string() };
                            o.push(match op[0].as_str() {
                                "M" => match look(reg, &op[2], &op[3], &op[4]) {
                                    Ok(x) => format!("={x}"),
                                    Err(_) => "err".into(),
                                },
                                "P" => done(push(reg, &op[2], op[3].parse().unwrap())),
                                _ => done(alias(reg, &op[2], &op[3])),
                            });
                        }
                        out.push(o);
                    }
                    out
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_default()).collect()
    });
    for (t, x) in res.iter().enumerate() {
        for (r, y) in x.iter().enumerate() {
            for (i, z) in y.iter().enumerate() {
                println!("{t}\t{r}\t{i}\t{z}");
            }
        }
    }
    for r in 0..NREG {
        println!("@@{r}");
        match r {
            0 => CompMaker::help(),
            1 => MatchMaker::help(),
            2 => AggMaker::help(),
            4 => TransMaker::help(),
            5 => GenMaker::help(),
            _ => {}
        }
    }
    println!("@@end");
}

// ---- in the parent
#[derive(Clone, Debug, Hash)]
enum Op {
    Make { reg: usize, how: usize, name: String, pat: String },
    Push { reg: usize, name: String, id: usize },
    Alias { reg: usize, old: String, new: String },
}
fn op(s: &mut Src, reg: usize, ids: &mut usize) -> Op {
    let b = builtins(reg);
    let anames: Vec<String> = std_aliases(alias_reg(reg)).iter().map(|x| x.0.to_string()).collect();
    match s.weighted(&[6, 2, 1]) {
        0 => {
            let how = s.usize(3);
            let (name, pat) = match s.weighted(&[4, 3, 2]) {
                0 => {
                    let x = s.pick(&b);
                    (x.0.to_string(), x.1.to_string())
                }
                1 => ((*s.pick(free(reg))).to_string(), String::new()),
                _ => {
                    let mut v = anames;
                    v.extend(free_alias(alias_reg(reg)).iter().map(|x| (*x).to_string()));
                    (s.pick(&v).clone(), String::new())
                }
            };
            // what a builtin wants to be given, whichever it is
            let pat = if pat.is_empty() && reg == 1 { "b".to_string() } else { pat };
            Op::Make { reg, how, name, pat }
        }
        1 => {
            *ids += 1;
            let name = if s.chance(1, 10) && !reserved(reg).is_empty() { *s.pick(reserved(reg)) } else { *s.pick(free(reg)) };
            Op::Push { reg, name: name.to_string(), id: *ids }
        }
        _ => {
            let mut v: Vec<String> = b.iter().map(|x| x.0.to_string()).collect();
            v.extend(free(reg).iter().map(|x| (*x).to_string()));
            let old = s.pick(&v).clone();
            let new = if s.chance(1, 10) && !reserved(alias_reg(reg)).is_empty() { *s.pick(reserved(alias_reg(reg))) } else { *s.pick(free_alias(alias_reg(reg))) };
            Op::Alias { reg, old, new: new.to_string() }
        }
    }
}
/// what the builtin does with this pattern ; None if we do not say
fn builtin_sig(reg: usize, name: &str, pat: &str) -> Option<String> {
    builtins(reg).iter().find(|b| b.0 == name && (b.1 == pat || reg == 0)).map(|b| format!("={}", b.2))
}
/// a value : Std is the builtin
#[derive(Clone, PartialEq, Debug)]
enum Val {
    None,
    Std,
    Mine(usize),
}
type Poss<T> = Vec<T>;
fn threads(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let nt = s.range(1, 8);
    let nr = s.range(1, 4);
    let mut ids = 0;
    let mut prog: Vec<Vec<Vec<Op>>> = vec![vec![Vec::new(); nr]; nt];
    // concentrate on one registry now and then
    let focus = if s.chance(2, 3) { Some(s.usize(NREG)) } else { None };
    for r in 0..nr {
        for p in &mut prog {
            for _ in 0..s.weighted(&[1, 4, 3, 2]) {
                let reg = focus.unwrap_or_else(|| s.usize(NREG));
                let reg = if focus == Some(2) && s.chance(1, 4) { 3 } else { reg };
                p[r].push(op(s, reg, &mut ids));
            }
        }
    }
    let mut txt = String::new();
    for (t, p) in prog.iter().enumerate() {
        for (r, ops) in p.iter().enumerate() {
            txt.push_str(&format!("{t}\t{r}\n"));
            for o in ops {
                txt.push_str(&match o {
                    Op::Make { reg, how, name, pat } => format!("{t}\t{r}\tM\t{reg}\t{how}\t{name}\t{pat}\n"),
                    Op::Push { reg, name, id } => format!("{t}\t{r}\tP\t{reg}\t{name}\t{id}\n"),
                    Op::Alias { reg, old, new } => format!("{t}\t{r}\tA\t{reg}\t{old}\t{new}\n"),
                });
            }
        }
    }
    let me = std::env::current_exe().expect("own name");
    let cdx_bin = std::mem::replace(&mut ctx.bin, me.into());
    let o = cdx(ctx, &["registry-child"], Some(txt.as_bytes()));
    ctx.bin = cdx_bin;
    let say = |m: String| Err(format!("{m}\nprogram (thread, round, operation):\n{txt}-> exit {} {} stdout \"{}\" stderr \"{}\"", o.code, if o.timeout { "TIMEOUT" } else { "" }, show(&o.out), show(&o.err)));
    let out = String::from_utf8_lossy(&o.out).to_string();
    if o.code != 0 || o.timeout || !out.ends_with("@@end\n") {
        return say("the program did not end as it should".into());
    }
    let (results, help) = out.split_once("@@0\n").unwrap_or((&out, ""));
    let mut got: BTreeMap<(usize, usize, usize), String> = BTreeMap::new();
    for l in results.lines() {
        let f: Vec<&str> = l.splitn(4, '\t').collect();
        if f.len() == 4 {
            got.insert((f[0].parse().unwrap_or(99), f[1].parse().unwrap_or(99), f[2].parse().unwrap_or(99)), f[3].to_string());
        }
    }
    // possible values now
    let mut items: BTreeMap<(usize, String), Poss<Val>> = BTreeMap::new();
    let mut names: BTreeMap<(usize, String), Poss<Option<String>>> = BTreeMap::new();
    for r in 0..NREG {
        for b in builtins(r) {
            items.insert((r, b.0.to_string()), vec![Val::Std]);
        }
        for a in std_aliases(r) {
            names.insert((r, a.0.to_string()), vec![Some(a.1.to_string())]);
        }
    }
    // the comparator "" and whatever else has an effect on others stays what it is
    let mut lookups = 0;
    let mut writes = 0;
    for r in 0..nr {
        // writes of this round: (thread, index, value)
        let mut wi: BTreeMap<(usize, String), Vec<(usize, usize, Val)>> = BTreeMap::new();
        let mut wn: BTreeMap<(usize, String), Vec<(usize, usize, Option<String>)>> = BTreeMap::new();
        for (t, p) in prog.iter().enumerate() {
            for (i, o) in p[r].iter().enumerate() {
                let Some(g) = got.get(&(t, r, i)) else { return say(format!("no result of {t} {r} {i}")) };
                let (bad, what) = match o {
                    Op::Make { .. } => continue,
                    Op::Push { reg, name, id } => {
                        let bad = reserved(*reg).contains(&name.as_str());
                        if !bad {
                            wi.entry((*reg, name.clone())).or_default().push((t, i, Val::Mine(*id)));
                        }
                        (bad, format!("adding {name} to {reg}"))
                    }
                    Op::Alias { reg, old, new } => {
                        let bad = reserved(alias_reg(*reg)).contains(&new.as_str());
                        if !bad {
                            wn.entry((alias_reg(*reg), new.clone())).or_default().push((t, i, Some(old.clone())));
                        }
                        (bad, format!("alias {new} for {old} in {reg}"))
                    }
                };
                writes += 1;
                if (g == "err") != bad {
                    return say(format!("{what} should {}", if bad { "be refused" } else { "succeed" }));
                }
            }
        }
        fn poss<T: Clone>(before: Poss<T>, w: Option<&Vec<(usize, usize, T)>>, t: usize, i: usize) -> Poss<T> {
            let Some(w) = w else { return before };
            let mut v: Vec<T> = match w.iter().filter(|x| x.0 == t && x.1 < i).last() {
                Some(x) => vec![x.2.clone()],
                None => before,
            };
            v.extend(w.iter().filter(|x| x.0 != t).map(|x| x.2.clone()));
            v
        }
        for (t, p) in prog.iter().enumerate() {
            for (i, o) in p[r].iter().enumerate() {
                let Op::Make { reg, name, pat, .. } = o else { continue };
                let g = &got[&(t, r, i)];
                let nk = (alias_reg(*reg), name.clone());
                let targets = poss(names.get(&nk).cloned().unwrap_or_else(|| vec![None]), wn.get(&nk), t, i);
                let mut all = Vec::new();
                let mut open = false;
                for tg in &targets {
                    let n = tg.clone().unwrap_or_else(|| name.clone());
                    let ik = (*reg, n.clone());
                    for v in poss(items.get(&ik).cloned().unwrap_or_else(|| vec![Val::None]), wi.get(&ik), t, i) {
                        match v {
                            Val::None => all.push("err".to_string()),
                            Val::Mine(id) => all.push(format!("={}", custom_sig(*reg, id))),
                            Val::Std => match builtin_sig(*reg, &n, pat) {
                                Some(x) => all.push(x),
                                None => open = true,
                            },
                        }
                    }
                    // from now on it is known
                    if targets.len() == 1 && !wn.contains_key(&nk) && !wi.contains_key(&ik) && !open {
                        if let Some(v) = items.get_mut(&ik) {
                            if v.len() > 1 {
                                v.retain(|x| match x {
                                    Val::None => g == "err",
                                    Val::Mine(id) => *g == format!("={}", custom_sig(*reg, *id)),
                                    Val::Std => true,
                                });
                            }
                        }
                    }
                }
                lookups += 1;
                if !open && !all.contains(g) {
                    return say(format!("thread {t} round {r} operation {i}: {name} in registry {reg} should be one of {all:?}, was {g:?}"));
                }
            }
        }
        for (k, w) in wi {
            let v = (0..nt).filter_map(|t| w.iter().filter(|x| x.0 == t).last().map(|x| x.2.clone())).collect();
            items.insert(k, v);
        }
        for (k, w) in wn {
            let v = (0..nt).filter_map(|t| w.iter().filter(|x| x.0 == t).last().map(|x| x.2.clone())).collect();
            names.insert(k, v);
        }
    }
    // everything is listed once
    let mut reg = 0;
    let mut seen: BTreeMap<(usize, String), usize> = BTreeMap::new();
    for l in help.lines() {
        if let Some(x) = l.strip_prefix("@@") {
            reg = x.parse().unwrap_or(99);
            continue;
        }
        if let Some(w) = l.split_whitespace().next() {
            if !l.starts_with(' ') {
                *seen.entry((reg, w.to_string())).or_default() += 1;
            }
        }
    }
    for (r, n) in items.keys() {
        let in_help = alias_reg(*r);
        // n1 and the like may be an aggregator and a counter, and count is also explained
        let want = if in_help == 2 && n.starts_with('n') { usize::from(items.contains_key(&(2, n.clone()))) + usize::from(items.contains_key(&(3, n.clone()))) } else { 1 };
        if n != "count" && n != "null" && seen.get(&(in_help, n.clone())).copied().unwrap_or(0) != want {
            return say(format!("the list of methods of registry {r} should have {want} {n}"));
        }
    }
    ok(lookups > 0 && (nt > 1 || writes > 0), &prog, || format!("{nt} threads, {nr} rounds: {}", show(txt.as_bytes())))
}

pub fn prop() -> Prop {
    Prop {
        id: "C28",
        rule: crate::libs::REG_RULE,
        arms: vec![Arm { name: "threads", quick: 5000, thorough: 100_000, f: threads }, Arm { name: "commands", quick: 2000, thorough: 40_000, f: crate::libs::names_cli }],
    }
}
