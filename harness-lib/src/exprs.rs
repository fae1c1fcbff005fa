//! C18: expressions, evaluated on many lines
use crate::engine::*;
use crate::expr::{self, expr as gen_expr, same, Cols};
use crate::gen::*;
use crate::model::*;
use cdx::expr::Expr;
use cdx::prelude::*;

/// one expression, looked up once or twice, and its value for lines in any order, read in two ways
fn exprs(s: &mut Src, _ctx: &mut Ctx) -> CaseResult {
    let nc = s.range(1, 5);
    let ks: Vec<Kind> = (0..nc).map(|_| *s.pick(&[Kind::Int, Kind::Float, Kind::Int, Kind::Float, Kind::Word])).collect();
    let h = names(s, nc);
    let hdr: Vec<&str> = h.iter().map(String::as_str).collect();
    let ragged = s.chance(1, 4);
    let n = s.range(1, 5);
    let t = Table { header: None, rows: rows(s, &ks, n, ragged) };
    let d = s.size(1, 4, 7);
    let e = gen_expr(s, d, &Cols { n: nc, header: Some(&h), names: false });
    let text = e.text(s);
    let mut x = Expr::new(&text).map_err(|e| format!("{text}: {e}"))?;
    for _ in 0..s.range(1, 2) {
        x.lookup(&hdr).map_err(|e| format!("{text} of {h:?}: {e}"))?;
    }
    let delim = *s.pick(b"\t,;");
    for r in &t.rows {
        let cells: Vec<f64> = (0..nc).map(|c| r.get(c).map_or(0.0, |x| ref_f64(x))).collect();
        let Some(want) = e.eval(&cells) else { continue };
        let mut l = TextLine::new();
        l.raw().extend(join_cells(r, b'\t'));
        l.raw().push(b'\n');
        l.split(&TextFileMode::default());
        let mut got = vec![x.eval(&l)];
        if !r.iter().any(|c| c.contains(&delim)) {
            let mut b = join_cells(r, delim);
            b.push(b'\n');
            got.push(x.eval_line(&b, delim));
        }
        for g in got {
            if !same(format!("{g:?}").as_bytes(), want, 0.0) {
                return Err(format!("{text} of {h:?} = \"{}\": {g:?}, expected {want:?}", show(&join_cells(r, b'\t'))));
            }
        }
    }
    ok(e.size() > 1, (&text, &t.rows), || format!("{text} of {h:?} = \"{}\"", show(&t.bytes())))
}

pub fn prop() -> Prop {
    let mut p = expr::prop();
    p.arms.push(Arm { name: "lines", quick: 50_000, thorough: 1_000_000, f: exprs });
    p
}
