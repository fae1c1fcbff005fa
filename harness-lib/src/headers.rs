//! C13: headers of several files
use crate::engine::*;
use crate::header::headers_cli;
use cdx::util::{HeaderChecker, HeaderMode};

const MODES: [(&str, HeaderMode); 6] = [
    ("match", HeaderMode::Match),
    ("require", HeaderMode::Require),
    ("strip", HeaderMode::Strip),
    ("none", HeaderMode::None),
    ("trust", HeaderMode::Trust),
    ("ignore", HeaderMode::Ignore),
];

/// a history of first lines, in every mode
fn modes(s: &mut Src, _ctx: &mut Ctx) -> CaseResult {
    let (name, mode) = *s.pick(&MODES);
    let parsed: HeaderMode = if s.coin() { name.to_string() } else { name.to_ascii_uppercase() }.parse().map_err(|e| format!("mode {name}: {e}"))?;
    if parsed != mode {
        return Err(format!("mode {name} is {parsed:?}"));
    }
    let mut c = HeaderChecker::from_mode(mode);
    let n = s.range(1, 6);
    let mut hist: Vec<&[u8]> = Vec::new();
    let mut head: Option<&[u8]> = None;
    let mut verdicts = 0;
    for i in 0..n {
        let l: &[u8] = *s.pick(&[&b" CDX\ta\tb\n"[..], b" CDX\ta\tb\n", b" CDX\ta\tb\n", b" CDX\tb\ta\n", b" CDX\ta\n", b" CDX,a,b\n", b"plain\tline\n", b"plain\tline\n", b"\n", b"CDX\ta\n"]);
        hist.push(l);
        let cdx = l.starts_with(b" CDX");
        // Some(true): write it
        let want: Option<bool> = match mode {
            HeaderMode::Match if i == 0 => Some(true),
            HeaderMode::Match => {
                if cdx && head == Some(l) {
                    Some(false)
                } else if !cdx && head.is_none() {
                    Some(true)
                } else {
                    None
                }
            }
            HeaderMode::Require if i == 0 => cdx.then_some(true),
            HeaderMode::Require => (cdx && head == Some(l)).then_some(false),
            HeaderMode::Strip => Some(!cdx),
            HeaderMode::None => (!cdx).then_some(true),
            HeaderMode::Trust => Some(i == 0 || !cdx),
            HeaderMode::Ignore => Some(true),
        };
        if i == 0 && cdx {
            head = Some(l);
        }
        let got = c.check(l, "file");
        if got.as_ref().ok() != want.as_ref() {
            return Err(format!("mode {name}, first lines {:?}: the last gives {:?}, expected {want:?}", hist.iter().map(|h| show(h)).collect::<Vec<_>>(), got.map_err(|e| e.to_string())));
        }
        if want.is_none() {
            break;
        }
        verdicts += 1;
    }
    ok(verdicts >= 2, (name, &hist), || format!("{name}: {:?}", hist.iter().map(|h| show(h)).collect::<Vec<_>>()))
}

pub fn prop() -> Prop {
    Prop {
        id: "C13",
        rule: "files: at least two non-empty files, and at least one header or empty file; modes: at least two accepted lines",
        arms: vec![
            Arm { name: "files", quick: 12_000, thorough: 200_000, f: headers_cli },
            Arm { name: "modes", quick: 50_000, thorough: 500_000, f: modes },
        ],
    }
}
