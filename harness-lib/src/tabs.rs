//! C26: tabs shows files within the screen
use crate::engine::*;
use crate::tabs_cli::*;
use cdx::tabs::{show2, Rect};
use cdx::util::TextFileMode;

fn rect(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let f = file(s);
    let b = bytes(&f);
    let (w, h) = match s.usize(4) {
        0 => (s.range(1, 30), s.range(1, 10)),
        1 => (s.range(1, 300), s.range(1, 70)),
        2 => (80, 24),
        _ => (s.range(0, 8), s.range(1, 4)),
    };
    let name = ctx.file("f", &b);
    let mut v = vec!["old".to_string()];
    let r = show2(&name, &Rect::new(w, h), &mut v, &TextFileMode::default());
    let what = || format!("file \"{}\" in {w} x {h}", show(&b));
    let r = r.map_err(|e| format!("{} fails: {e}", what()))?;
    if b.is_empty() {
        return ok(false, 0, String::new);
    }
    let (l, tot) = want(&f, w, h);
    if v != l || r != tot {
        return Err(format!("{}\n  shows    {v:?} width {r}\n  expected {l:?} width {tot}", what()));
    }
    let nc = f.1.iter().map(Vec::len).max().unwrap_or(0).max(f.0.as_ref().map_or(0, Vec::len));
    if let Some(x) = v.iter().find(|x| width(x) > w && nc <= w) {
        return Err(format!("{}: {x:?} does not fit", what()));
    }
    ok(v.len() > 1 && nc > 1, (&b, w, h), what)
}

pub fn prop() -> Prop {
    Prop {
        id: "C26",
        rule: RULE,
        arms: vec![Arm { name: "rect", quick: 40_000, thorough: 1_000_000, f: rect }, Arm { name: "command", quick: 1500, thorough: 30_000, f: command }],
    }
}
