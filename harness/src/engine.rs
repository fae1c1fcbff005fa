//! Property-based testing engine.
//!
//! A case is generated from a *choice sequence*: every random decision a generator takes is one
//! number drawn through `Src`.  A failing case is shrunk by editing its choice sequence (deleting
//! and lowering choices) and re-running generator plus oracle, so that every property shrinks
//! without a hand-written shrinker, and the minimal choice sequence is the replay file.

use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

/// SplitMix64
#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        Self(seed)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
}

/// The source of every random decision of a generator.
pub struct Src {
    replay: Option<Vec<u64>>,
    pos: usize,
    rng: Rng,
    pub record: Vec<u64>,
}
impl Src {
    pub fn random(seed: u64) -> Self {
        Self { replay: None, pos: 0, rng: Rng::new(seed), record: Vec::new() }
    }
    pub fn replay(choices: &[u64]) -> Self {
        Self { replay: Some(choices.to_vec()), pos: 0, rng: Rng::new(0), record: Vec::new() }
    }
    /// uniform in 0..n ; 0 is the simplest choice
    pub fn below(&mut self, n: u64) -> u64 {
        if n <= 1 {
            return 0;
        }
        let v = match &self.replay {
            Some(r) => {
                let v = r.get(self.pos).copied().unwrap_or(0);
                self.pos += 1;
                v % n
            }
            None => self.rng.next() % n,
        };
        self.record.push(v);
        v
    }
    pub fn usize(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// inclusive range
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.usize(hi - lo + 1)
    }
    /// mostly in the range, rarely beyond it
    pub fn size(&mut self, lo: usize, hi: usize, far: usize) -> usize {
        if self.chance(1, 30) {
            self.range(hi, far)
        } else {
            self.range(lo, hi)
        }
    }
    pub fn irange(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo + 1) as u64) as i64
    }
    /// true with probability num/den. `false` is the simplest choice
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }
    pub fn coin(&mut self) -> bool {
        self.chance(1, 2)
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        let i = self.usize(v.len());
        &v[i]
    }
    /// a weighted index, first is the simplest
    pub fn weighted(&mut self, w: &[u64]) -> usize {
        let tot: u64 = w.iter().sum();
        let mut x = self.below(tot);
        for (i, y) in w.iter().enumerate() {
            if x < *y {
                return i;
            }
            x -= y;
        }
        0
    }
}

/// A case that was run and passed
pub struct Ok_ {
    /// does it exercise the interesting behaviour, by the stated rule
    pub nontrivial: bool,
    /// identity of the case
    pub digest: u64,
    /// printable form
    pub sample: String,
}
pub type CaseResult = Result<Ok_, String>;

pub fn ok(nontrivial: bool, what: impl Hash, sample: impl FnOnce() -> String) -> CaseResult {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    what.hash(&mut h);
    Ok(Ok_ { nontrivial, digest: h.finish(), sample: if nontrivial { sample() } else { String::new() } })
}

/// per-thread context
pub struct Ctx {
    pub dir: PathBuf,
    pub bin: PathBuf,
    pub thorough: bool,
    pub spawned: u64,
    /// counts up within a case
    pub serial: std::cell::Cell<usize>,
}
impl Ctx {
    pub fn path(&self, name: &str) -> String {
        self.dir.join(name).to_string_lossy().to_string()
    }
    pub fn file(&self, name: &str, data: &[u8]) -> String {
        let p = self.dir.join(name);
        std::fs::write(&p, data).expect("write scratch file");
        p.to_string_lossy().to_string()
    }
    /// a name no other file of this case has
    pub fn unique(&self, name: &str) -> String {
        self.serial.set(self.serial.get() + 1);
        format!("{name}_{}", self.serial.get())
    }
    pub fn rm(&self, name: &str) {
        let _ = std::fs::remove_file(self.dir.join(name));
    }
}

pub type CaseFn = fn(&mut Src, &mut Ctx) -> CaseResult;

/// one generator + oracle
pub struct Arm {
    pub name: &'static str,
    pub quick: usize,
    pub thorough: usize,
    pub f: CaseFn,
}
pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub arms: Vec<Arm>,
}

fn mix(a: u64, b: u64) -> u64 {
    Rng::new(a ^ b.wrapping_mul(0xd6e8_feb8_6659_fd93)).next()
}
fn hash_str(s: &str) -> u64 {
    // FNV-1a, stable over versions
    let mut h = 0xcbf2_9ce4_8422_2325_u64;
    for b in s.bytes() {
        h = (h ^ u64::from(b)).wrapping_mul(0x0100_0000_01b3);
    }
    h
}

thread_local! {
    static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

/// Run one case, turning panics of the code under test into failures
fn run_case(f: CaseFn, src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    ctx.serial.set(0);
    match catch_unwind(AssertUnwindSafe(|| f(src, ctx))) {
        Ok(r) => r,
        Err(_) => {
            let m = LAST_PANIC.with(|x| x.borrow().clone());
            // a command line the system refuses says nothing about the code under test
            if m.contains("ArgumentListTooLong") {
                return ok(false, 0, String::new);
            }
            Err(format!("panic: {m}"))
        }
    }
}

/// Shrink a failing choice sequence
fn shrink(f: CaseFn, ctx: &mut Ctx, start: Vec<u64>, msg: String, limit: Duration, beat: &AtomicU64) -> (Vec<u64>, String) {
    let t0 = Instant::now();
    let mut best = start;
    let mut best_msg = msg;
    let mut try_one = |cand: &[u64], best: &mut Vec<u64>, best_msg: &mut String| -> bool {
        beat.fetch_add(1, Ordering::Relaxed);
        let mut s = Src::replay(cand);
        if let Err(m) = run_case(f, &mut s, ctx) {
            let rec = s.record;
            // strictly simpler, in shortlex order
            if rec.len() < best.len() || (rec.len() == best.len() && rec < *best) {
                *best = rec;
                *best_msg = m;
                return true;
            }
        }
        false
    };
    loop {
        let before = best.clone();
        // delete chunks
        let mut size = (best.len() / 2).max(1);
        while size >= 1 {
            let mut i = best.len();
            while i > 0 {
                if t0.elapsed() > limit {
                    return (best, best_msg);
                }
                i = i.saturating_sub(size);
                if i >= best.len() {
                    continue;
                }
                let mut cand = best.clone();
                let end = (i + size).min(cand.len());
                cand.drain(i..end);
                let _ = try_one(&cand, &mut best, &mut best_msg);
                if i == 0 {
                    break;
                }
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // lower values, and delete an element of a list whose length is at i
        let mut i = 0;
        while i < best.len() {
            if t0.elapsed() > limit {
                return (best, best_msg);
            }
            if best[i] > 0 {
                let mut cand = best.clone();
                cand[i] = 0;
                if !try_one(&cand, &mut best, &mut best_msg) {
                    // binary search down
                    let mut lo = 0;
                    while i < best.len() && lo + 1 < best[i] {
                        if t0.elapsed() > limit {
                            return (best, best_msg);
                        }
                        let mid = lo + (best[i] - lo) / 2;
                        let mut cand = best.clone();
                        cand[i] = mid;
                        if !try_one(&cand, &mut best, &mut best_msg) {
                            lo = mid;
                        }
                    }
                    if i < best.len() && best[i] > 0 {
                        let mut cand = best.clone();
                        cand[i] -= 1;
                        let _ = try_one(&cand, &mut best, &mut best_msg);
                    }
                    // lower the length and remove following choices
                    for k in 1..12 {
                        if i < best.len() && best[i] > 0 && i + 1 + k <= best.len() {
                            let mut cand = best.clone();
                            cand[i] -= 1;
                            cand.drain(i + 1..i + 1 + k);
                            if try_one(&cand, &mut best, &mut best_msg) {
                                break;
                            }
                        }
                    }
                }
            }
            i += 1;
        }
        if best == before {
            return (best, best_msg);
        }
    }
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// printable form of bytes
pub fn show(b: &[u8]) -> String {
    let mut s: String = b.iter().flat_map(|c| std::ascii::escape_default(*c)).map(char::from).collect();
    if s.len() > 600 {
        let keep: String = s.chars().take(560).collect();
        s = format!("{keep}...({} bytes)", b.len());
    }
    s
}

fn verif_dir() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()))
}

struct Failure {
    arm: usize,
    case: usize,
    choices: Vec<u64>,
    msg: String,
}

fn write_replay(prop: &Prop, arm: &str, choices: &[u64], msg: &str) -> PathBuf {
    let dir = verif_dir().join("evidence").join("replay");
    let _ = std::fs::create_dir_all(&dir);
    let body = format!(
        "{{\"property\":{},\"arm\":{},\"choices\":{:?},\"message\":{}}}\n",
        json_str(prop.id),
        json_str(arm),
        choices,
        json_str(msg)
    );
    let path = dir.join(format!("{}-{}-{:016x}.json", prop.id, arm, hash_str(&format!("{choices:?}"))));
    let _ = std::fs::write(&path, body);
    path
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let m = format!("{info}");
        LAST_PANIC.with(|x| *x.borrow_mut() = m);
    }));
}

pub fn make_ctx(root: &Path, n: usize, thorough: bool) -> Ctx {
    let dir = root.join(format!("t{n}"));
    std::fs::create_dir_all(&dir).expect("scratch dir");
    Ctx {
        dir,
        bin: PathBuf::from(std::env::var("CDX_BIN").unwrap_or_else(|_| "/repo/target/debug/cdx".into())),
        thorough,
        serial: std::cell::Cell::new(0), spawned: 0,
    }
}

/// Replay one file. Exit status.
pub fn replay(prop: &Prop, arm: &str, choices: &[u64], root: &Path) -> i32 {
    let Some(a) = prop.arms.iter().find(|a| a.name == arm) else {
        eprintln!("no arm {arm}");
        return 2;
    };
    let mut ctx = make_ctx(root, 0, false);
    let mut s = Src::replay(choices);
    match run_case(a.f, &mut s, &mut ctx) {
        Ok(o) => {
            println!("replay passes: {}", o.sample);
            0
        }
        Err(m) => {
            println!("replay fails: {m}");
            let p = write_replay(prop, arm, choices, &m);
            println!("VIOLATION property={} replay={}", prop.id, p.display());
            1
        }
    }
}

/// Run all arms of a property. Returns exit status.
pub fn run(prop: &Prop, tier: &str, seed: u64, root: &Path, only: Option<&str>, scale: f64) -> i32 {
    let t0 = Instant::now();
    let thorough = tier == "thorough";
    let nthreads = std::thread::available_parallelism().map_or(8, std::num::NonZero::get).min(16);
    let mut work: Vec<(usize, usize)> = Vec::new();
    let counts: Vec<usize> = prop
        .arms
        .iter()
        .map(|a| {
            if only.is_some_and(|o| o != a.name) {
                return 0;
            }
            // `quick` is about five seconds of work, except where noted
            let n = if thorough { a.thorough } else if matches!(prop.id, "C11" | "C27") { a.quick } else { a.quick * 4 };
            ((n as f64 * scale).ceil() as usize).max(usize::from(n > 0))
        })
        .collect();
    // interleave the arms, so that all make progress
    let maxc = counts.iter().copied().max().unwrap_or(0);
    if maxc > 0 {
        let mut done = vec![0usize; counts.len()];
        for step in 1..=maxc {
            for (a, c) in counts.iter().enumerate() {
                let want = (step * c).div_ceil(maxc);
                while done[a] < want.min(*c) {
                    work.push((a, done[a]));
                    done[a] += 1;
                }
            }
        }
    }
    let next = AtomicUsize::new(0);
    let stop = AtomicBool::new(false);
    let fails: Mutex<Vec<Failure>> = Mutex::new(Vec::new());
    let digests: Mutex<HashSet<u64>> = Mutex::new(HashSet::new());
    let samples: Mutex<Vec<(usize, usize, String)>> = Mutex::new(Vec::new());
    let evals = AtomicU64::new(0);
    let spawned = AtomicU64::new(0);
    let all_done = AtomicBool::new(false);
    let current: Vec<Mutex<Option<(usize, usize, Instant)>>> = (0..nthreads).map(|_| Mutex::new(None)).collect();
    let case_seed = |a: usize, c: usize| mix(mix(seed, hash_str(prop.id)), mix(hash_str(prop.arms[a].name), c as u64));

    std::thread::scope(|sc| {
        for t in 0..nthreads {
            let (next, stop, fails, digests, samples, evals, spawned, work, current, case_seed) =
                (&next, &stop, &fails, &digests, &samples, &evals, &spawned, &work, &current, &case_seed);
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(sc, move || {
                    let mut ctx = make_ctx(root, t, thorough);
                    let mut mine: Vec<u64> = Vec::new();
                    let mut my_samples: Vec<(usize, usize, String)> = Vec::new();
                    let mut per_arm = vec![0usize; prop.arms.len()];
                    loop {
                        let i = next.fetch_add(1, Ordering::Relaxed);
                        if i >= work.len() || stop.load(Ordering::Relaxed) {
                            break;
                        }
                        let (a, c) = work[i];
                        *current[t].lock().unwrap() = Some((a, c, Instant::now()));
                        let mut s = Src::random(case_seed(a, c));
                        let r = run_case(prop.arms[a].f, &mut s, &mut ctx);
                        *current[t].lock().unwrap() = None;
                        evals.fetch_add(1, Ordering::Relaxed);
                        match r {
                            Ok(o) => {
                                if o.nontrivial {
                                    mine.push(o.digest ^ hash_str(prop.arms[a].name));
                                    if per_arm[a] < 2 {
                                        per_arm[a] += 1;
                                        my_samples.push((a, c, o.sample));
                                    }
                                }
                            }
                            Err(m) => {
                                fails.lock().unwrap().push(Failure { arm: a, case: c, choices: s.record, msg: m });
                                stop.store(true, Ordering::Relaxed);
                            }
                        }
                    }
                    spawned.fetch_add(ctx.spawned, Ordering::Relaxed);
                    digests.lock().unwrap().extend(mine);
                    samples.lock().unwrap().extend(my_samples);
                })
                .expect("spawn");
        }
        // watchdog: an in-process case that never ends is a violation as well
        let (current, all_done, next, work, stop) = (&current, &all_done, &next, &work, &stop);
        let case_seed = &case_seed;
        sc.spawn(move || loop {
            std::thread::sleep(Duration::from_millis(50));
            let mut busy = false;
            for c in current {
                let v = *c.lock().unwrap();
                if let Some((a, case, when)) = v {
                    busy = true;
                    if when.elapsed() > Duration::from_secs(120) {
                        let msg = format!("case did not finish within 120 s (arm {} case {case} seed {seed})", prop.arms[a].name);
                        // regenerate is not possible without hanging; the replay file names the seed
                        let p = write_replay(prop, prop.arms[a].name, &[], &format!("{msg} case_seed={}", case_seed(a, case)));
                        println!("{msg}");
                        println!("VIOLATION property={} replay={}", prop.id, p.display());
                        let _ = std::io::stdout().flush();
                        std::process::exit(1);
                    }
                }
            }
            if all_done.load(Ordering::Relaxed) {
                break;
            }
            if !busy && (next.load(Ordering::Relaxed) >= work.len() || stop.load(Ordering::Relaxed)) {
                break;
            }
        });
    });
    all_done.store(true, Ordering::Relaxed);

    let mut fails = fails.into_inner().unwrap();
    fails.sort_by_key(|f| (f.arm, f.case));
    let mut violations = 0;
    let mut lines = Vec::new();
    let mut seen_arm = HashSet::new();
    for f in &fails {
        if !seen_arm.insert(f.arm) {
            continue;
        }
        violations += 1;
        let mut ctx = make_ctx(root, 0, thorough);
        let beat = AtomicU64::new(0);
        let limit = Duration::from_secs(if thorough { 120 } else { 40 });
        let fun = prop.arms[f.arm].f;
        // shrink in a thread with a big stack
        let (choices, msg) = std::thread::scope(|sc| {
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(sc, || shrink(fun, &mut ctx, f.choices.clone(), f.msg.clone(), limit, &beat))
                .expect("spawn")
                .join()
                .unwrap_or_else(|_| (f.choices.clone(), f.msg.clone()))
        });
        println!(
            "{} arm={} case={} shrunk from {} to {} choices in {} runs:\n  {}",
            prop.id,
            prop.arms[f.arm].name,
            f.case,
            f.choices.len(),
            choices.len(),
            beat.load(Ordering::Relaxed),
            msg
        );
        let p = write_replay(prop, prop.arms[f.arm].name, &choices, &msg);
        lines.push(format!("VIOLATION property={} replay={}", prop.id, p.display()));
    }
    let mut samples = samples.into_inner().unwrap();
    samples.sort();
    let distinct = digests.into_inner().unwrap().len();
    let mut picked: Vec<String> = Vec::new();
    for a in 0..prop.arms.len() {
        for (_, _, s) in samples.iter().filter(|s| s.0 == a).take(2) {
            let s: String = s.chars().take(400).collect();
            picked.push(json_str(&format!("[{}] {}", prop.arms[a].name, s)));
        }
    }
    let wall = t0.elapsed().as_secs_f64();
    let ev = format!(
        "{{\"property\":{},\"tier\":{},\"seed\":{},\"level\":\"exploration\",\"coverage\":{{\"evaluations\":{},\"distinct_nontrivial\":{},\"rule\":{},\"samples\":[{}],\"arms\":{{{}}},\"processes_spawned\":{}}},\"wall_s\":{:.3},\"violations\":{}}}\n",
        json_str(prop.id),
        json_str(tier),
        seed,
        evals.load(Ordering::Relaxed),
        distinct,
        json_str(prop.rule),
        picked.join(","),
        prop.arms.iter().zip(&counts).map(|(a, c)| format!("{}:{}", json_str(a.name), c)).collect::<Vec<_>>().join(","),
        spawned.load(Ordering::Relaxed),
        wall,
        violations
    );
    let evdir = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&evdir);
    std::fs::write(evdir.join(format!("{}.json", prop.id)), ev).expect("write evidence");
    println!(
        "{} {} seed={} evaluations={} distinct_nontrivial={} processes={} wall={:.1}s violations={}",
        prop.id,
        tier,
        seed,
        evals.load(Ordering::Relaxed),
        distinct,
        spawned.load(Ordering::Relaxed),
        wall,
        violations
    );
    for l in &lines {
        println!("{l}");
    }
    i32::from(violations > 0)
}

/// command line: ID TIER | replay FILE | list ; options --arm NAME --scale X
pub fn main(props: &[Prop]) {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let opt = |name: &str| args.iter().position(|a| a == name).and_then(|i| args.get(i + 1)).cloned();
    let root = PathBuf::from(std::env::var("VERIF_SCRATCH").unwrap_or_else(|_| "/tmp/vh-scratch".into()));
    std::fs::create_dir_all(&root).expect("scratch");
    if std::env::var("VH_VERBOSE").is_err() {
        install_panic_hook();
    }
    if args.first().map(String::as_str) == Some("list") {
        for p in props {
            println!("{} {}", p.id, p.arms.iter().map(|a| a.name).collect::<Vec<_>>().join(" "));
        }
        return;
    }
    if args.first().map(String::as_str) == Some("replay") {
        let txt = std::fs::read_to_string(&args[1]).expect("replay file");
        let get = |k: &str| {
            let i = txt.find(&format!("\"{k}\":\"")).expect("field") + k.len() + 4;
            txt[i..].split('"').next().unwrap_or("").to_string()
        };
        let i = txt.find("\"choices\":[").expect("choices") + 11;
        let choices: Vec<u64> = txt[i..].split(']').next().unwrap_or("").split(',').filter_map(|x| x.trim().parse().ok()).collect();
        let id = get("property");
        let p = props.iter().find(|p| p.id == id).expect("property");
        std::process::exit(replay(p, &get("arm"), &choices, &root));
    }
    let id = args.first().cloned().unwrap_or_default();
    let tier = args.get(1).cloned().unwrap_or_else(|| "quick".into());
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|x| x.parse().ok()).unwrap_or(1);
    let Some(p) = props.iter().find(|p| p.id == id) else {
        eprintln!("no such property {id}");
        std::process::exit(2);
    };
    let scale = opt("--scale").and_then(|x| x.parse().ok()).unwrap_or(1.0);
    std::process::exit(run(p, &tier, seed, &root, opt("--arm").as_deref(), scale));
}
