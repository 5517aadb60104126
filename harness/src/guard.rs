//! The checks run in a child process, so that an abort, a stack overflow, runaway
//! memory or a call that never returns is observed too, pinned to the case that
//! causes it and confirmed by running that case alone.
use std::fs::File;
use std::io::{BufRead, BufReader};
use std::os::unix::fs::FileExt;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::OnceLock;
use std::time::{Duration, Instant};

#[repr(C)]
struct Rlimit {
    cur: u64,
    max: u64,
}
extern "C" {
    fn setrlimit(res: i32, r: *const Rlimit) -> i32;
    fn _exit(code: i32) -> !;
}
const RLIMIT_CPU: i32 = 0;
const RLIMIT_CORE: i32 = 4;
const RLIMIT_AS: i32 = 9;

static SLOTS: OnceLock<Option<File>> = OnceLock::new();
static T0: OnceLock<Instant> = OnceLock::new();
static SINCE: [AtomicU64; 64] = [const { AtomicU64::new(0) }; 64];
const HANG: i32 = 97;

/// worker `t` starts a case (seed 0: it is idle)
pub fn mark(t: usize, driver: usize, seed: u64) {
    let now = T0.get_or_init(Instant::now).elapsed().as_millis() as u64 + 1;
    SINCE[t].store(if seed == 0 { 0 } else { now }, Ordering::Relaxed);
    let f = SLOTS.get_or_init(|| {
        std::env::var("FMON_SLOTS").ok().and_then(|p| File::options().write(true).open(p).ok())
    });
    if let Some(f) = f {
        let mut b = [0u8; 16];
        b[..8].copy_from_slice(&(driver as u64 + 1).to_le_bytes());
        b[8..].copy_from_slice(&seed.to_le_bytes());
        let _ = f.write_at(&b, t as u64 * 16);
    }
}

/// in the child: end the process when one case does not come to an end
pub fn watchdog(limit: Duration) {
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_secs(1));
        let now = T0.get_or_init(Instant::now).elapsed().as_millis() as u64 + 1;
        for s in &SINCE {
            let b = s.load(Ordering::Relaxed);
            if b != 0 && now.saturating_sub(b) > limit.as_millis() as u64 {
                unsafe { _exit(HANG) }
            }
        }
    });
}

fn limits(c: &mut Command, mem: u64, cpu: Option<u64>) {
    unsafe {
        c.pre_exec(move || {
            setrlimit(RLIMIT_CORE, &Rlimit { cur: 0, max: 0 });
            setrlimit(RLIMIT_AS, &Rlimit { cur: mem, max: mem });
            if let Some(s) = cpu {
                setrlimit(RLIMIT_CPU, &Rlimit { cur: s, max: s + 5 });
            }
            Ok(())
        });
    }
}

pub struct Died {
    pub driver: usize,
    pub seed: u64,
    pub how: String,
}
pub enum End {
    Code(i32),
    Died(Died),
    Unexplained(String),
}

fn how(code: Option<i32>, sig: Option<i32>) -> String {
    match (code, sig) {
        (Some(HANG), _) | (_, Some(24)) => "a call does not return (or a bounded exchange does not end)".into(),
        (_, Some(6)) => "the process aborts (SIGABRT: memory exhausted, stack overflow or a panic that cannot unwind)".into(),
        (_, Some(s)) => format!("the process is killed by signal {s}"),
        (c, _) => format!("the process exits with {c:?}"),
    }
}

/// run `exe args` as a supervised child; `drivers` names its drivers in order
pub fn supervise(exe: &str, args: &[String], envs: &[(String, String)], drivers: &[&str], thorough: bool) -> End {
    let slots = std::env::temp_dir().join(format!("fmon-slots-{}-{}", std::process::id(), args[0]));
    let _ = std::fs::write(&slots, [0u8; 64 * 16]);
    let mut c = Command::new(exe);
    c.args(args).env("FMON_CHILD", "1").env("FMON_SLOTS", &slots).stdout(Stdio::piped());
    for (k, v) in envs {
        c.env(k, v);
    }
    limits(&mut c, 20 << 30, None);
    let mut ch = match c.spawn() {
        Ok(c) => c,
        Err(e) => return End::Unexplained(format!("cannot start {exe}: {e}")),
    };
    for l in BufReader::new(ch.stdout.take().unwrap()).lines().map_while(Result::ok) {
        println!("{l}");
    }
    let st = ch.wait().unwrap();
    let raw = std::fs::read(&slots).unwrap_or_default();
    let _ = std::fs::remove_file(&slots);
    if let Some(c) = st.code() {
        if c <= 2 {
            return End::Code(c);
        }
    }
    let first = how(st.code(), st.signal());
    println!("  {first}; looking for the case responsible");
    let mut cand: Vec<(usize, u64)> = raw
        .chunks_exact(16)
        .map(|b| (u64::from_le_bytes(b[..8].try_into().unwrap()), u64::from_le_bytes(b[8..].try_into().unwrap())))
        .filter(|x| x.0 > 0 && x.1 > 0)
        .map(|x| (x.0 as usize - 1, x.1))
        .collect();
    cand.sort();
    cand.dedup();
    // every candidate runs alone, with its own limits, all of them side by side
    let mut runs = vec![];
    for (d, s) in cand {
        let Some(name) = drivers.get(d) else { continue };
        let mut c = Command::new(exe);
        c.args(["case", &args[0], name, &s.to_string(), if thorough { "thorough" } else { "quick" }])
            .env("FMON_CHILD", "1")
            .stdout(Stdio::null());
        limits(&mut c, 3 << 30, Some(if thorough { 1500 } else { 100 }));
        if let Ok(ch) = c.spawn() {
            runs.push((d, s, ch));
        }
    }
    let mut died = None;
    for (d, s, mut ch) in runs {
        let Ok(st) = ch.wait() else { continue };
        if st.signal().is_some_and(|s| s != 9) && died.is_none() {
            died = Some(Died { driver: d, seed: s, how: how(st.code(), st.signal()) });
        }
    }
    match died {
        Some(d) => End::Died(d),
        None => End::Unexplained(first),
    }
}
