//! C27: the parsers of the option values, in process and so many times faster
use crate::crash::{mutate, tame, AGGS, COLS, KEYS, PATS, TEXT};
use crate::engine::*;
use cdx::column::*;
use cdx::prelude::*;

fn line(s: &mut Src) -> Vec<u8> {
    const CELLS: [&[u8]; 24] = [
        b"", b"a", b"1", b"aaa", b"-3.5", b"10.0.0.1", b"xyz", b"\xff", b"\xc3\xa9", b"A b", b"1e400", b"nan", b"-", b"99999999999999999999", b"1,2,3", b"one", b" ", b"0", b"TWFu", b"=", b"-0", b"\xf0\x9f\x98\x80x", b"1.2.3", b"bbb5",
    ];
    let n = s.weighted(&[1, 2, 3, 6, 2]);
    let mut l = Vec::new();
    for i in 0..n {
        if i > 0 {
            l.push(b'\t');
        }
        l.extend_from_slice(s.pick(&CELLS));
    }
    l.push(b'\n');
    l
}
fn text_line(l: &[u8]) -> TextLine {
    let mut t = TextLine::new();
    t.raw().extend_from_slice(l);
    t.split(&TextFileMode::default());
    t
}
fn pick_spec(s: &mut Src, all: &[&str]) -> String {
    let v = s.pick(all).to_string();
    if s.chance(1, 8) {
        return v;
    }
    let mut o = mutate(s, &v, all);
    if s.chance(1, 4) {
        // one more
        let w = s.pick(all).to_string();
        let w = mutate(s, &w, all);
        o = format!("{o}{}{w}", s.pick(&[",", ".", "", ":", "+"]));
    }
    tame(&o)
}
fn parsers(s: &mut Src, _ctx: &mut Ctx) -> CaseResult {
    const EXPRS: &[&str] = &[
        "1+2", "c1*c2", "sin(1)", "one/two", "5!", "-2^3", "max(1,2,3)", "(1+2)*3", "c1<c2", "pow(2,10)", "if(c1>2,3,4)", "atan2(1,2)", "avg(1,2,-3)", "1e308*10", "2*pi", "-(-(3))", "plain,1+c3", "float.3,[one]+[two]", "max([1-3])", "x:c1", "1,2", "c1==c2", "c1&&c2||!c3", "fact(3)",
    ];
    const GENS: &[&str] = &["grid", "count,5", "expr,float,line^col", "decimal,-NN.N", "normal,1,2,plain.2", "null", "expr,line*col", "decimal,NNN", "count,-7", "normal"];
    const GROUPS: &[&str] = &[".group:1-3", ",group:3,1", ".thing:3,1", "x:2", " a:-", "\tb:~1"];
    const COMPS: &[&str] = &["stuff:abc^{two}def", "x:^1^2", "y:^{one}", "z:^^", "q:^{1}lit", "w:^(1)", "v:a^1b^2c^3d"];
    const FMTS: &[&str] = &["plain", "float.3", "power2", "p10", "short.2", "plain.12", "float", "s", "f.0", "power10.4"];
    const VALS: &[&str] = &["zzz", "zzz,3-4", "q,one", ",", "x,~2", ",,x", "a,1,b"];
    const LOCS: &[&str] = &["name.1,line,bytes", "name", "line", "a:line,b:bytes", "name.2.tail:x", "bytes"];
    const CHECKS: &[&str] = &["LT,a", "GE,0", "EQ,x", "LE,5,GT,1", "NE,x", "lt,1,float", "GT,1,num"];
    const NAMES: &[&str] = &["one.uno,two.dos", "one.x", "a.b,c.d"];
    let ml = line(s);
    let nl = line(s);
    let (tl, tn) = (text_line(&ml), text_line(&nl));
    let head: Vec<&str> = (*s.pick(&[&["one", "two", "three"][..], &["one"], &["c1", "c2", "c3", "c4"], &["two", "one", "two_three", "x", "a"]])).to_vec();
    let mut hs = StringLine::new();
    hs.fake(head.len(), b'\t');
    let mut w = Writer::new(TextFileMode::default());
    let mut h = ColumnHeader::new();
    let mut out: Vec<u8> = Vec::new();
    let which = s.usize(16);
    let spec;
    // the answer, if it is taken at all: only a panic is a failure
    let took: bool = match which {
        0 | 1 => {
            spec = pick_spec(s, KEYS);
            let val = line(s);
            (|| -> Result<()> {
                let mut c = LineCompList::new();
                c.add(&spec)?;
                c.lookup(&head)?;
                c.used_cols(0);
                c.comp_lines(&ml, &nl);
                c.equal_lines(&ml, &nl);
                c.comp_cols(&tl, &tn);
                c.equal_cols(&tl, &tn);
                let mut it = cdx::comp::Item::new();
                c.fill_cache_cols(&mut it, &tl);
                c.fill_cache_line(&mut it, &ml);
                c.set(&val[..val.len() - 1], b'\t')?;
                c.comp_self_cols(&tl);
                c.equal_self_cols(&tl);
                c.comp_self_line(&ml);
                c.equal_self_line(&ml);
                Ok(())
            })()
            .is_ok()
        }
        2..=4 => {
            spec = pick_spec(s, PATS);
            (|| -> Result<()> {
                let mut m = LineMatcherList::new();
                m.push(&spec)?;
                m.lookup(&head)?;
                m.ok(&tl);
                m.ok(&tn);
                Ok(())
            })()
            .is_ok()
        }
        5 => {
            spec = pick_spec(s, PATS);
            let p = spec.split_once(',').map_or(spec.as_str(), |x| x.1);
            cdx::matcher::MatchMaker::make(p).map(|m| m.umatch(&ml[..ml.len() - 1])).is_ok()
        }
        6..=11 => {
            let kind = if which < 9 { which - 6 } else { s.usize(5) };
            let r: Result<Box<dyn ColumnFun>> = match kind {
                0 | 1 => {
                    spec = pick_spec(s, COLS);
                    ColumnSet::from_spec(&spec).map(|c| Box::new(ReaderColumns::new(c)) as Box<dyn ColumnFun>)
                }
                2 => {
                    spec = pick_spec(s, GROUPS);
                    ColumnClump::from_spec(&spec).map(|c| Box::new(c) as Box<dyn ColumnFun>)
                }
                3 => {
                    let e = pick_spec(s, EXPRS);
                    spec = if s.chance(3, 4) { format!("n:{e}") } else { e };
                    ColumnExpr::new(&spec).map(|c| Box::new(c) as Box<dyn ColumnFun>)
                }
                _ => {
                    spec = pick_spec(s, COMPS);
                    CompositeColumn::new(&spec).map(|c| Box::new(c) as Box<dyn ColumnFun>)
                }
            };
            (|| -> Result<()> {
                w.push(r?);
                w.lookup(&head)?;
                w.add_names(&mut h, &hs)?;
                w.write(&mut out, &tl)?;
                w.write(&mut out, &tn)
            })()
            .is_ok()
        }
        12 | 13 => {
            let a = pick_spec(s, AGGS);
            let kind = s.usize(3);
            spec = match (kind, s.usize(4)) {
                (0, 3) | (_, 3) => a,
                (0, _) => format!("2,{a}"),
                (_, 2) => format!("x,,{a}"),
                _ => format!("x,1,{a}"),
            };
            (|| -> Result<()> {
                let mut l = LineAggList::new();
                match kind {
                    0 => l.push_replace(&spec)?,
                    1 => l.push_prefix(&spec)?,
                    _ => l.push_append(&spec)?,
                }
                l.lookup(&head)?;
                l.fill(&mut w, &hs)?;
                w.lookup(&head)?;
                w.add_names(&mut h, &hs)?;
                l.add(&tl);
                l.add(&tn);
                w.write(&mut out, &tl)?;
                l.reset();
                w.write(&mut out, &tn)
            })()
            .is_ok()
        }
        14 => {
            spec = pick_spec(s, EXPRS);
            (|| -> Result<()> {
                let (f, e) = cdx::expr::parse_fmt_expr(NumFormat::default(), &spec);
                let mut x = Expr::new(e)?;
                let d = if x.lookup(&head).is_ok() { x.eval(&tl) } else { Expr::new(e)?.eval_plain()? };
                f.print(d, &mut out)
            })()
            .is_ok()
        }
        _ => match s.usize(7) {
            0 => {
                spec = pick_spec(s, GENS);
                (|| -> Result<()> {
                    let mut g = GenList::new();
                    g.push(&spec)?;
                    g.write(&mut out, b'\t')?;
                    g.write(&mut out, b'\t')
                })()
                .is_ok()
            }
            1 => {
                spec = pick_spec(s, FMTS);
                NumFormat::new(&spec).and_then(|f| f.print(*s.pick(&[0.0, -1.5, 1e300, f64::NAN, f64::INFINITY, 123456789.125, 1e-300]), &mut out)).is_ok()
            }
            2 => {
                spec = pick_spec(s, TEXT);
                (|| -> Result<()> {
                    let t = TextFileMode::new(&spec)?;
                    let mut r = &ml[..];
                    let mut x = TextLine::new();
                    t.read_line(&mut r, x.raw())?;
                    x.split(&t);
                    t.write(&mut out, x.get(0))
                })()
                .is_ok()
            }
            3 => {
                spec = pick_spec(s, VALS);
                (|| -> Result<()> {
                    let mut v = ScopedValues::new();
                    v.add(&spec, ',')?;
                    v.lookup(&head)?;
                    for i in 0..head.len() + 1 {
                        v.get(i);
                    }
                    Ok(())
                })()
                .is_ok()
            }
            4 => {
                spec = pick_spec(s, LOCS);
                (|| -> Result<()> {
                    let mut v = FileLocList::new();
                    v.push(&spec)?;
                    v.add(&mut h)
                })()
                .is_ok()
            }
            5 => {
                spec = pick_spec(s, CHECKS);
                cdx::util::CheckLine::new(&spec).is_ok()
            }
            _ => {
                spec = pick_spec(s, NAMES);
                (|| -> Result<()> {
                    h.rename(&spec)?;
                    for x in &head {
                        h.push(x)?;
                    }
                    h.check_rename()
                })()
                .is_ok()
            }
        },
    };
    ok(took, (which, &spec, &ml), || format!("kind {which} spec {spec} line {}", show(&ml)))
}
pub fn prop() -> Prop {
    let mut p = crate::crash::prop();
    p.rule = "data arm non-trivial: the command succeeds and writes something; spec arm non-trivial: at least one option value was changed at random; parser arm non-trivial: the value is accepted and used";
    p.arms.push(Arm { name: "parsers", quick: 400_000, thorough: 20_000_000, f: parsers });
    p
}
