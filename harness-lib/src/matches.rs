//! C10: matchers, asked about many values
use crate::engine::*;
use crate::gen::*;
use crate::grep::{self, matcher};
use cdx::matcher::MatchMaker;

fn special(s: &mut Src) -> Vec<u8> {
    let x: &[u8] = s.pick(&[&b"  # x"[..], b" // y", b"  ", b"1.2.3.4", b"256.1.1.1", b"001.02.3.045", b"1.1.1.1.1", b"-12", b"1.5e3", b"", b" a ", b"-.5", b"1.", b"\xc2\xa0b\xe2\x80\x83", b"\xc4\xb0x", b"y\xc4\xb0", b"\xc3\x89t\xc3\xa9", b"aBcDefgHijKlMNopqRstuVWxyZ0123456789AbC"]);
    x.to_vec()
}

/// a value like another
fn near(s: &mut Src, v: &[u8]) -> Vec<u8> {
    let mut v = v.to_vec();
    match s.usize(6) {
        0 => v.extend(special(s)),
        1 => {
            let mut x = special(s);
            x.extend(&v);
            v = x;
        }
        2 if !v.is_empty() => {
            v.remove(s.usize(v.len()));
        }
        3 => v.make_ascii_uppercase(),
        4 if !v.is_empty() => {
            let i = s.usize(v.len());
            v[i] = *s.pick(b"ab1. -#");
        }
        _ => v.insert(s.usize(v.len() + 1), *s.pick(b"ab1. -#")),
    }
    v
}

fn matches(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let nk = s.range(1, 3);
    let ks = kinds(s, nk);
    let mut samples: Vec<Vec<u8>> = Vec::new();
    for _ in 0..s.range(1, 4) {
        let k = *s.pick(&ks);
        samples.push(if s.chance(1, 3) { special(s) } else { value(s, k) });
    }
    let m = matcher(s, ctx, &samples);
    let made = MatchMaker::make(&m.spec).map_err(|e| format!("{}: {e}", m.spec))?;
    let mut values = samples;
    for _ in 0..s.range(1, 6) {
        let v = s.pick(&values).clone();
        values.push(near(s, &v));
    }
    let (mut yes, mut no) = (0, 0);
    for v in &values {
        if m.is_utf8() && std::str::from_utf8(v).is_err() {
            continue;
        }
        let want = m.eval(v);
        let got = made.do_match(v).map_err(|e| format!("{} of \"{}\": {e}", m.spec, show(v)))?;
        if got != want || made.do_match_safe(v) != want {
            return Err(format!("{} of \"{}\": {got}, expected {want}", m.spec, show(v)));
        }
        if want {
            yes += 1;
        } else {
            no += 1;
        }
    }
    ok(yes > 0 && no > 0, (&m.spec, &values), || format!("{} of {:?}", m.spec, values.iter().map(|v| show(v)).collect::<Vec<_>>()))
}

pub fn prop() -> Prop {
    let mut p = grep::prop();
    p.rule = "grep: some lines are selected and some are not; values: some values match and some do not";
    p.arms.push(Arm { name: "values", quick: 8_000, thorough: 150_000, f: matches });
    p
}
