//! C21: numbers in text
use crate::engine::*;
use cdx::prelude::*;

fn gen_int(s: &mut Src) -> String {
    let n = match s.weighted(&[4, 3, 2]) {
        0 => s.range(1, 3),
        1 => s.range(1, 18),
        _ => s.range(18, 40),
    };
    (0..n).map(|_| (b'0' + s.usize(10) as u8) as char).collect()
}
const SUF2: &str = "KMGTPEZY";
const SUF10: &str = "kmgtpezy";

fn suffix(s: &mut Src) -> (String, u128) {
    if s.chance(1, 3) {
        let i = s.usize(8);
        if s.coin() {
            (SUF2[i..=i].to_string(), 1024u128.pow(i as u32 + 1))
        } else {
            (SUF10[i..=i].to_string(), 1000u128.pow(i as u32 + 1))
        }
    } else {
        (String::new(), 1)
    }
}

/// integers: the value of the prefix, saturated, and the rest of the text
fn ints(s: &mut Src, _ctx: &mut Ctx) -> CaseResult {
    let sign = *s.pick(&["", "", "+", "-"]);
    let d = if s.chance(1, 20) { String::new() } else { gen_int(s) };
    let (suf, mul) = if d.is_empty() { (String::new(), 1) } else { suffix(s) };
    let junk = *s.pick(&["", "", "x", "x.", " 1", ",2", "é", "B", "b", "i", "D", "Q"]);
    let txt = format!("{sign}{d}{suf}{junk}");
    let mag = d.bytes().fold(0u128, |a, c| a.saturating_mul(10).saturating_add(u128::from(c - b'0')).min(u128::from(u64::MAX))).saturating_mul(mul);
    let (wu, ru) = if d.is_empty() || sign == "-" { (0u128, txt.as_str()) } else { (mag.min(usize::MAX as u128), junk) };
    let wi: i128 = if sign == "-" { -(mag.min(isize::MAX as u128) as i128) } else { mag.min(isize::MAX as u128) as i128 };
    let (wi, ri) = if d.is_empty() { (0, txt.as_str()) } else { (wi, junk) };
    let (gu, gru) = txt.to_usize();
    let (gi, gri) = txt.to_isize();
    let (bu, bru) = txt.as_bytes().to_usize();
    if gu as u128 != wu || gru != ru || bu != gu || bru != gru.as_bytes() {
        return Err(format!("\"{txt}\" as unsigned is {gu} rest \"{gru}\" ({bu} as bytes), expected {wu} rest \"{ru}\""));
    }
    if gi as i128 != wi || gri != ri {
        return Err(format!("\"{txt}\" as signed is {gi} rest \"{gri}\", expected {wi} rest \"{ri}\""));
    }
    let whole = txt.to_usize_whole(txt.as_bytes(), "test");
    if whole.is_ok() != ru.is_empty() {
        return Err(format!("\"{txt}\" as a whole unsigned number: {whole:?}, rest is \"{ru}\""));
    }
    ok(d.len() > 3 || mul > 1, &txt, || format!("\"{txt}\" = {wu}, {wi}"))
}

fn close(a: f64, b: f64) -> bool {
    a == b || (a.is_nan() && b.is_nan()) || (a - b).abs() <= 1e-15 * b.abs() || (b.abs() < 1e-300 && (a - b).abs() < 1e-310)
}

/// decimals
fn floats(s: &mut Src, _ctx: &mut Ctx) -> CaseResult {
    let sign = *s.pick(&["", "", "+", "-"]);
    let int = if s.chance(1, 6) { String::new() } else { let mut t = gen_int(s); t.truncate(25); t };
    let frac = match s.weighted(&[3, 3, 1]) {
        0 => String::new(),
        1 => { let mut t = gen_int(s); t.truncate(15); format!(".{t}") }
        _ => ".".to_string(),
    };
    if int.is_empty() && frac.len() < 2 {
        return ok(false, 0, String::new);
    }
    let exp = match s.weighted(&[4, 2, 1, 1]) {
        0 => String::new(),
        1 => format!("{}{}", *s.pick(&["e", "E"]), s.irange(-30, 30)),
        2 => format!("e+{}", s.range(0, 20)),
        _ => format!("e{}", *s.pick(&["400", "-400", "99999999999", "-99999999999", "308", "-300"])),
    };
    let (suf, mul) = suffix(s);
    let junk = *s.pick(&["", "", "x", "x.", " 1", "é", "B", "b", "i", "D", "Q"]);
    let txt = format!("{sign}{int}{frac}{exp}{suf}{junk}");
    let std = format!("{}0{int}{}{}{exp}", if sign == "-" { "-" } else { "" }, frac, if frac == "." { "0" } else { "" });
    let want = std.parse::<f64>().map_err(|e| format!("generator: {std}: {e}"))? * mul as f64;
    let (got, rest) = txt.to_f64();
    let (gb, _) = txt.as_bytes().to_f64();
    if !close(got, want) || rest != junk || gb.to_bits() != got.to_bits() {
        return Err(format!("\"{txt}\" is {got} rest \"{rest}\", expected {want} rest \"{junk}\""));
    }
    let whole = txt.to_f64_whole(txt.as_bytes(), "test");
    if whole.is_ok() != junk.is_empty() {
        return Err(format!("\"{txt}\" as a whole number: {whole:?}"));
    }
    ok(!frac.is_empty() || !exp.is_empty(), &txt, || format!("\"{txt}\" = {want}"))
}

/// what is printed reads back as the same number, to the precision of the format
fn print(s: &mut Src, _ctx: &mut Ctx) -> CaseResult {
    let v = match s.weighted(&[3, 3, 2, 1]) {
        0 => s.irange(-3000, 3000) as f64,
        1 => s.irange(-1_000_000_000, 1_000_000_000) as f64 / *s.pick(&[1.0, 7.0, 1000.0, 1e9]),
        2 => s.irange(-999, 999) as f64 * 10f64.powi(s.irange(-12, 22) as i32),
        _ => *s.pick(&[0.0, 999.4, 999.5, 999.6, 1000.0, 1023.0, 1024.0, 1e6, 1e24, 1e27, 0.0001, 0.00009, 999.0 * 1024.0, 998.9 * 1e6]),
    };
    let prec = s.range(0, 6);
    let (spec, rel, abs) = match s.weighted(&[2, 2, 2, 1, 1, 1, 2, 2]) {
        0 => ("short".to_string(), 1e-13, 0.0),
        1 => ("plain".to_string(), 1e-13, 0.0),
        2 => ("float".to_string(), 1e-13, 0.0),
        3 => (format!("plain.{prec}"), 1e-13, 0.5000001 * 10f64.powi(-(prec as i32))),
        4 => (format!("float.{prec}"), 0.5000001 * 10f64.powi(-(prec as i32)), 0.0),
        5 => (format!("short.{prec}"), 0.5000001 * 10f64.powi(-(prec as i32)), 0.5000001 * 10f64.powi(-(prec as i32))),
        // values below 1.1 times the unit print as 1
        6 => ((*s.pick(&["power2", "p2", "P2"])).to_string(), 0.0911, 0.5),
        _ => ((*s.pick(&["power10", "p10"])).to_string(), 0.0911, 0.5),
    };
    let f = NumFormat::new(&spec).map_err(|e| format!("format {spec}: {e}"))?;
    let mut w: Vec<u8> = Vec::new();
    f.print(v, &mut w).map_err(|e| format!("print {v} as {spec}: {e}"))?;
    let (back, rest) = w.to_f64();
    if !rest.is_empty() || (back - v).abs() > rel * v.abs() + abs {
        return Err(format!("{v} printed as {spec} is \"{}\", which reads as {back}", show(&w)));
    }
    ok(v != 0.0, (v.to_bits(), &spec), || format!("{v} as {spec} is \"{}\"", show(&w)))
}

pub fn prop() -> Prop {
    Prop {
        id: "C21",
        rule: crate::libs::NUM_RULE,
        arms: vec![
            Arm { name: "ints", quick: 100_000, thorough: 3_000_000, f: ints },
            Arm { name: "floats", quick: 100_000, thorough: 3_000_000, f: floats },
            Arm { name: "print", quick: 100_000, thorough: 3_000_000, f: print },
            Arm { name: "commands", quick: 600, thorough: 20_000, f: crate::libs::num_cli },
        ],
    }
}
