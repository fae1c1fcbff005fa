//! Run the cdx binary built from the working tree
use crate::engine::{show, Ctx};
use std::io::{Read, Write};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

pub struct Out {
    pub code: i32,
    pub out: Vec<u8>,
    pub err: Vec<u8>,
    pub timeout: bool,
    /// temporary files were left behind
    pub left: bool,
    pub args: Vec<String>,
}
impl Out {
    pub fn cmd(&self) -> String {
        format!("cdx {}", self.args.iter().map(|a| format!("'{}'", show(a.as_bytes()))).collect::<Vec<_>>().join(" "))
    }
    /// did the program die in an uncontrolled way
    pub fn crashed(&self) -> bool {
        self.timeout || self.left || !(self.code == 0 || self.code == 1)
    }
    pub fn describe(&self) -> String {
        format!(
            "{} -> {}{} stdout=\"{}\" stderr=\"{}\"",
            self.cmd(),
            if self.timeout { "TIMEOUT".to_string() } else { format!("exit {}", self.code) },
            if self.left { " (temporary files left)" } else { "" },
            show(&self.out),
            show(&self.err)
        )
    }
}

extern "C" {
    fn kill(pid: i32, sig: i32) -> i32;
}

const LIMIT: Duration = Duration::from_secs(60);

pub fn cdx<S: AsRef<str>>(ctx: &mut Ctx, args: &[S], stdin: Option<&[u8]>) -> Out {
    cdx_with(ctx, args, stdin, &[], &To::Pipe)
}

/// where does stdout go
pub enum To {
    Pipe,
    /// opened for writing
    File(String),
    /// close the pipe after this many bytes
    Close(usize),
    /// as Pipe, but there is no directory for temporary files
    NoTmp,
}

/// chunks: write stdin in pieces of these sizes, pausing in between
pub fn cdx_with<S: AsRef<str>>(ctx: &mut Ctx, args: &[S], stdin: Option<&[u8]>, chunks: &[usize], to: &To) -> Out {
    ctx.spawned += 1;
    let args: Vec<String> = args.iter().map(|s| s.as_ref().to_string()).collect();
    let mut c = Command::new(&ctx.bin);
    c.args(&args)
        .current_dir(&ctx.dir)
        .env_clear()
        .env("PATH", "/usr/bin:/bin")
        .env("TMPDIR", if matches!(to, To::NoTmp) { ctx.path("nodir") } else { ctx.path("") })
        .env("RUST_BACKTRACE", "0")
        .stdin(if stdin.is_some() { Stdio::piped() } else { Stdio::null() })
        .stdout(match to {
            To::File(f) => Stdio::from(std::fs::OpenOptions::new().write(true).open(f).expect("open stdout")),
            _ => Stdio::piped(),
        })
        .stderr(Stdio::piped());
    let mut tries = 0;
    let mut child = loop {
        match c.spawn() {
            Ok(x) => break x,
            // short of processes or memory for a moment
            Err(e) if tries < 20 && e.kind() != std::io::ErrorKind::ArgumentListTooLong && e.kind() != std::io::ErrorKind::NotFound => {
                tries += 1;
                std::thread::sleep(Duration::from_millis(100));
            }
            Err(e) => panic!("spawn cdx: {e:?}"),
        }
    };
    let t0 = Instant::now();
    let so = child.stdout.take();
    let mut se = child.stderr.take().unwrap();
    let si = child.stdin.take();
    let mut out = Vec::new();
    let mut err = Vec::new();
    let pid = child.id();
    let done = std::sync::atomic::AtomicBool::new(false);
    let mut timeout = false;
    std::thread::scope(|sc| {
        if let (Some(mut w), Some(data)) = (si, stdin) {
            if !chunks.is_empty() {
                sc.spawn(move || {
                    let mut rest = data;
                    for n in chunks.iter().cycle() {
                        if rest.is_empty() {
                            break;
                        }
                        let n = rest.len().min((*n).max(1));
                        if w.write_all(&rest[..n]).is_err() {
                            break;
                        }
                        rest = &rest[n..];
                        std::thread::sleep(Duration::from_micros(300));
                    }
                });
            } else if data.len() <= 32 * 1024 {
                let _ = w.write_all(data);
                drop(w);
            } else {
                sc.spawn(move || {
                    let _ = w.write_all(data);
                });
            }
        }
        let d = &done;
        let k = sc.spawn(move || {
            while !d.load(std::sync::atomic::Ordering::Relaxed) {
                std::thread::park_timeout(Duration::from_millis(500));
                if t0.elapsed() > LIMIT {
                    unsafe {
                        kill(pid as i32, 9);
                    }
                    return true;
                }
            }
            false
        });
        let e = &mut err;
        let h = sc.spawn(move || {
            let _ = (&mut se).take(1 << 24).read_to_end(e);
        });
        if let Some(mut so) = so {
            if let To::Close(n) = to {
                let _ = (&mut so).take(*n as u64).read_to_end(&mut out);
            } else {
                let _ = (&mut so).take(1 << 27).read_to_end(&mut out);
                if out.len() == 1 << 27 {
                    // no generated case writes that much: it would go on for ever
                    unsafe {
                        kill(pid as i32, 9);
                    }
                }
            }
        }
        let _ = h.join();
        done.store(true, std::sync::atomic::Ordering::Relaxed);
        k.thread().unpark();
        timeout = k.join().unwrap_or(false);
    });
    let st = child.wait().expect("wait");
    use std::os::unix::process::ExitStatusExt;
    let code = st.code().unwrap_or_else(|| 128 + st.signal().unwrap_or(0));
    let mut left = false;
    for e in std::fs::read_dir(&ctx.dir).into_iter().flatten().flatten() {
        if e.file_name().to_string_lossy().starts_with(".tmp") {
            left = true;
            let _ = std::fs::remove_dir_all(e.path());
        }
    }
    Out { code, out, err, timeout, left, args }
}

/// run, and require success
pub fn cdx_ok<S: AsRef<str>>(ctx: &mut Ctx, args: &[S], stdin: Option<&[u8]>) -> Result<Out, String> {
    let o = cdx(ctx, args, stdin);
    if o.code != 0 || o.timeout || o.left {
        Err(format!("unexpected failure: {}", o.describe()))
    } else {
        Ok(o)
    }
}
