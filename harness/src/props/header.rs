//! C13: headers of several files
use crate::engine::*;
use crate::model::*;
use crate::run::*;

/// one input file: header line if any, and lines
#[derive(Clone, Hash, Debug)]
struct F {
    /// names, or None
    head: Option<Vec<String>>,
    lines: Vec<Vec<u8>>,
    nl: bool,
}
impl F {
    fn empty(&self) -> bool {
        self.head.is_none() && self.lines.is_empty()
    }
    fn bytes(&self) -> Vec<u8> {
        let mut v = self.head.as_ref().map_or(Vec::new(), |h| header_line(h));
        for l in &self.lines {
            v.extend(l);
        }
        if !self.nl && self.lines.last().is_some_and(|l| l.len() > 1) {
            v.pop();
        }
        v
    }
}
fn valid(h: &[String]) -> bool {
    h.iter().all(|n| n.chars().next().is_some_and(char::is_alphabetic) && n.chars().all(|c| c.is_alphanumeric() || c == '_'))
}
const SETS: [&[&str]; 7] = [&["a", "bb"], &["bb", "a"], &["a", "b"], &["a", "bb", "c"], &["a", "bB"], &["a"], &["é9", "x_1"]];
fn head_names(s: &mut Src) -> Vec<String> {
    if s.chance(2, 3) {
        return s.pick(&SETS).iter().map(|x| (*x).to_string()).collect();
    }
    let n = s.size(1, 9, 60);
    (0..n).map(|i| format!("{}{i}", *s.pick(&["a", "name_of_a_column_", "é", "B"]))).collect()
}
/// a header much like another
fn vary(s: &mut Src, h: &[String]) -> Vec<String> {
    let mut v = h.to_vec();
    let i = s.usize(v.len());
    match s.usize(6) {
        0 => v[i].push('x'),
        1 => {
            v.pop();
        }
        2 => v.push("more".into()),
        3 => {
            let j = s.usize(v.len());
            v.swap(i, j);
        }
        4 => v[i] = if v[i] == v[i].to_uppercase() { v[i].to_lowercase() } else { v[i].to_uppercase() },
        _ => {
            v[i].pop();
            if v[i].is_empty() {
                v[i].push('q');
            }
        }
    }
    if v.is_empty() {
        v.push("only".into());
    }
    v
}
const BAD: [&[&str]; 5] = [&["1a", "b"], &["a", "b-c"], &["a", ""], &["", "b"], &["a", "_b"]];

const TOOLS: [&str; 7] = ["cat", "cat-number", "cgrep", "cut", "sort", "merge", "sample"];

pub const RULE: &str = "files: at least two non-empty files, and at least one header or empty file";
pub fn headers_cli(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let n = s.size(1, 5, 40);
    let main: Option<Vec<String>> = match s.weighted(&[6, 3, 1]) {
        0 => Some(head_names(s)),
        1 => None,
        _ => Some(s.pick(&BAD).iter().map(|x| (*x).to_string()).collect()),
    };
    let differ = s.weighted(&[2, 1]) == 0;
    let mut files: Vec<F> = Vec::new();
    for _ in 0..n {
        let mut head = main.clone();
        if differ && s.chance(1, 4) {
            head = match s.weighted(&[3, 2, 1]) {
                0 => Some(match &main {
                    Some(m) if s.coin() => vary(s, m),
                    _ => head_names(s),
                }),
                1 => None,
                _ => Some(s.pick(&BAD).iter().map(|x| (*x).to_string()).collect()),
            };
        }
        let nl = s.range(0, 3);
        let mut lines: Vec<Vec<u8>> = (0..nl).map(|_| format!("{}\t{}\n", *s.pick(&["p", "q", "", "r"]), *s.pick(&["1", "2", ""])).into_bytes()).collect();
        lines.sort();
        if s.chance(1, 8) {
            head = None;
            lines.clear();
        }
        files.push(F { head, lines, nl: s.coin() });
    }
    let tool = *s.pick(&TOOLS);
    let mut args: Vec<String> = match tool {
        "cat" => vec!["cat"],
        "cat-number" => vec!["cat", "--end"],
        "cgrep" => vec!["cgrep"],
        "cut" => vec!["cut", "-f", "1"],
        "sort" => vec!["sort"],
        "merge" => vec!["sort", "--merge"],
        _ => vec!["sample", "--range", "1-99"],
    }
    .into_iter()
    .map(str::to_string)
    .collect();
    for (i, f) in files.iter().enumerate() {
        args.push(ctx.file(&format!("f{i}"), &f.bytes()));
    }
    // cut compares what it would write
    let eff = |h: &Option<Vec<String>>| -> Option<Vec<String>> { if tool == "cut" { h.as_ref().map(|v| v[..1].to_vec()) } else { h.clone() } };
    let live: Vec<&F> = files.iter().filter(|f| !f.empty()).collect();
    let good = live.iter().all(|f| eff(&f.head) == eff(&live[0].head) && eff(&f.head).is_none_or(|h| valid(&h)));
    // an invalid name in a column that cut does not look at
    if tool == "cut" && live.iter().any(|f| f.head.as_ref().is_some_and(|h| !valid(h) && valid(&h[..1]))) {
        return ok(false, 0, String::new);
    }
    let o = cdx(ctx, &args, None);
    let what = || format!("{}\nfiles: {}", o.describe(), files.iter().map(|f| format!("\"{}\"", show(&f.bytes()))).collect::<Vec<_>>().join(" "));
    if good {
        let mut want = Vec::new();
        if let Some(h) = live.first().and_then(|f| eff(&f.head)) {
            let mut h = h;
            if tool == "cat-number" {
                h.push("number".into());
            }
            want.extend(header_line(&h));
        }
        let mut lines: Vec<Vec<u8>> = files.iter().flat_map(|f| f.lines.clone()).collect();
        match tool {
            "sort" | "merge" => lines.sort(),
            "cut" => {
                for l in &mut lines {
                    *l = field(l, 0).to_vec();
                    l.push(b'\n');
                }
            }
            "cat-number" => {
                for (i, l) in lines.iter_mut().enumerate() {
                    l.pop();
                    l.extend(format!("\t{}\n", i + 1).bytes());
                }
            }
            _ => {}
        }
        want.extend(lines.concat());
        if o.code != 0 || o.out != want {
            return Err(format!("{}\nwanted \"{}\"", what(), show(&want)));
        }
    } else {
        let heads = o.out.windows(4).filter(|w| w == b" CDX").count();
        if o.code != 1 || o.err.is_empty() || heads > 1 {
            return Err(format!("{}\nwanted an error, as headers do not agree or are invalid", what()));
        }
    }
    ok(live.len() >= 2 && (live.iter().any(|f| f.head.is_some()) || files.len() > live.len()), (&files, tool), || format!("{tool} {}", show(&files.iter().map(F::bytes).collect::<Vec<_>>().join(&b'|'))))
}
