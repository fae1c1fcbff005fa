//! C19: chains of transforms, applied to many values
use crate::cut::{self, apply, chain, text_value, tr_spec};
use crate::engine::*;
use cdx::prelude::TextLine;
use cdx::trans::TransList;

/// one chain, used again and again: what it was used for before does not matter
fn chains(s: &mut Src, _ctx: &mut Ctx) -> CaseResult {
    let chain = chain(s);
    let spec = chain.iter().map(|x| tr_spec(s, x)).collect::<Vec<_>>().join("+");
    let mut made = TransList::new(&spec).map_err(|e| format!("{spec}: {e}"))?;
    made.lookup(&["a", "b"]).map_err(|e| format!("{spec}: {e}"))?;
    let line = TextLine::new();
    let n = s.range(1, 6);
    let mut values = Vec::new();
    let mut changed = false;
    for _ in 0..n {
        let v = text_value(s);
        let mut want = Some(v.clone());
        for t in &chain {
            want = want.and_then(|x| apply(t, &x));
        }
        let got = made.trans(&v, &line).map(<[u8]>::to_vec);
        match (&got, &want) {
            (Ok(g), Some(w)) if g == w => {}
            (Err(_), None) => {}
            _ => return Err(format!("{spec} of \"{}\", after {:?}: {:?}, expected {:?}", show(&v), values, got.map(|x| show(&x)).map_err(|e| e.to_string()), want.map(|x| show(&x)))),
        }
        changed |= want.as_ref() != Some(&v);
        values.push(show(&v));
    }
    ok(changed, (&spec, &values), || format!("{spec} of {values:?}"))
}

pub fn prop() -> Prop {
    let mut p = cut::props().into_iter().find(|p| p.id == "C19").unwrap();
    p.arms.push(Arm { name: "chains", quick: 200_000, thorough: 4_000_000, f: chains });
    p
}
