//! C12: lines written and read by a TextFileMode
use crate::engine::*;
use crate::text::{self, enc, spec, Mode, DEFAULT};
use cdx::prelude::*;
use std::io::BufReader;

fn cell(s: &mut Src, special: &[u8]) -> Vec<u8> {
    let n = s.weighted(&[2, 4, 4, 3, 3, 2, 2, 1, 1]);
    (0..n)
        .map(|_| match s.weighted(&[4, 4, 1]) {
            0 => *s.pick(b"abnrt0 "),
            1 => *s.pick(special),
            _ => s.usize(256) as u8,
        })
        .collect()
}

/// what is written, or encoded in any other way, is read again
fn lines(s: &mut Src, _ctx: &mut Ctx) -> CaseResult {
    let (sp, f) = spec(s, DEFAULT);
    let mode = TextFileMode::new(&sp).map_err(|e| format!("{sp}: {e}"))?;
    let special = [f.delim, f.eol, b'"', b'\\', b'\n', b'\t', b'\r', f.delim, f.eol];
    let n = s.size(1, 4, 12);
    let mut file = Vec::new();
    let mut want: Vec<Vec<Vec<u8>>> = Vec::new();
    let mut raw: Vec<Vec<u8>> = Vec::new();
    let mut hard = false;
    for _ in 0..n {
        let nc = s.size(1, 3, 9);
        let cells: Vec<Vec<u8>> = (0..nc).map(|_| cell(s, &special)).collect();
        let start = file.len();
        let mut row = Vec::new();
        for (i, c) in cells.iter().enumerate() {
            if i > 0 {
                file.push(f.delim);
            }
            hard |= c.iter().any(|x| special.contains(x));
            let bad = c.iter().any(|x| *x == f.delim || *x == f.eol);
            if (f.mode == Mode::Plain && bad) || s.coin() {
                mode.write(&mut file, c).map_err(|e| format!("{sp}: {e}"))?;
            } else {
                let e = enc(s, f, c);
                file.extend(e);
            }
            row.push(if f.mode == Mode::Plain { c.iter().map(|x| if *x == f.delim || *x == f.eol { f.repl } else { *x }).collect() } else { c.clone() });
        }
        file.push(f.eol);
        want.push(row);
        raw.push(file[start..].to_vec());
    }
    if raw.last().unwrap().len() > 1 && s.chance(1, 3) {
        file.pop();
    }
    let cap = *s.pick(&[1usize, 2, 3, 7, 64, 8192]);
    let mut rd = BufReader::with_capacity(cap, &file[..]);
    let mut line = TextLine::new();
    let mut copy = TextLine::new();
    for (w, r) in want.iter().zip(&raw) {
        let eof = mode.read_line(&mut rd, line.raw()).map_err(|e| format!("{sp}: {e}"))?;
        if eof {
            return Err(format!("{sp}: \"{}\" ends before {w:?}", show(&file)));
        }
        mode.split(&mut line);
        copy.assign(&line);
        for l in [&line, &copy] {
            let got: Vec<&[u8]> = l.iter().collect();
            if got != *w || l.len() != w.len() || l.line() != r || l.line_nl() != &r[..r.len() - 1] || !l.get(w.len()).is_empty() {
                return Err(format!("{sp}: in \"{}\", the line \"{}\" reads as {:?} of \"{}\", expected {:?}", show(&file), show(r), got.iter().map(|x| show(x)).collect::<Vec<_>>(), show(l.line()), w.iter().map(|x| show(x)).collect::<Vec<_>>()));
            }
        }
    }
    if !mode.read_line(&mut rd, line.raw()).map_err(|e| format!("{sp}: {e}"))? {
        return Err(format!("{sp}: \"{}\" has more than {} lines", show(&file), want.len()));
    }
    ok(hard, (&sp, &file), || format!("{sp}: \"{}\"", show(&file)))
}

pub fn prop() -> Prop {
    let mut p = text::prop();
    p.rule = "some value needs quoting or escaping (convert, verbatim, lines), or the output has several columns (delim)";
    p.arms.push(Arm { name: "lines", quick: 200_000, thorough: 4_000_000, f: lines });
    p
}
