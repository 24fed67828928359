//! Runs the cases of a property on all cores, survives whatever the code under test does, shrinks
//! failures, and writes replay and evidence files.
//!
//! `check` is a supervisor: the cases run in a child process, so that an abort, a stack overflow or
//! a hang of the code under test is seen and traced back to a case.

use crate::engine::{Ctx, Res, Src, Stop, shrink};
use crate::props::{self, Prop};
use crate::regress;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::path::{Path, PathBuf};
use std::process::{Command, exit};
use std::sync::Mutex;
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

pub const HOLDS: i32 = 0;
pub const BROKEN: i32 = 1;
pub const ERROR: i32 = 2;
const HANG: i32 = 77;
/// Stack of the threads that run cases: the default of Rust's own threads.
const STACK: usize = 2 << 20;
/// Wall time after which a single case is taken for a hang and re-run alone under a CPU limit.
const SUSPECT: u64 = 90;
/// What `crash` answers when no case dies alone.
const UNCONFIRMED: i32 = 78;
const CPU_LIMIT: u32 = 60;

fn env(k: &str) -> Option<String> {
    std::env::var(k).ok().filter(|v| !v.is_empty())
}
fn root() -> PathBuf {
    env("FFCHECK_ROOT").map(PathBuf::from).unwrap_or_else(|| "/verif".into())
}
pub fn seed() -> u64 {
    env("VERIF_SEED").and_then(|s| s.trim().parse::<i64>().ok()).unwrap_or(1) as u64
}
fn tier() -> &'static str {
    if env("VERIF_TIER").as_deref() == Some("thorough") { "thorough" } else { "quick" }
}
fn cases(p: &Prop) -> u64 {
    let n = if tier() == "thorough" { p.thorough } else { p.quick };
    match env("FFCHECK_CASES").and_then(|s| s.parse().ok()) {
        Some(n) => n,
        None => n,
    }
}
fn threads() -> usize {
    env("FFCHECK_THREADS").and_then(|s| s.parse().ok()).unwrap_or_else(|| {
        std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(16)
    })
}
/// The random stream of a property under the run's seed.
fn stream(p: &Prop) -> u64 {
    crate::engine::mix(seed(), crate::engine::hash_bytes(0, p.id.as_bytes()))
}

fn dir_from(var: &str, fallback: &[&str]) -> PathBuf {
    if let Some(d) = env(var) {
        return d.into();
    }
    for f in fallback {
        let d = Path::new(f).join(format!("ffcheck-{}", std::process::id()));
        if std::fs::create_dir_all(&d).is_ok() {
            return d;
        }
    }
    panic!("HARNESS: no scratch directory");
}
/// A scratch directory, memory-backed where possible.
pub fn scratch() -> PathBuf {
    static D: std::sync::OnceLock<PathBuf> = std::sync::OnceLock::new();
    D.get_or_init(|| dir_from("FFCHECK_SCRATCH", &["/dev/shm", "/tmp"])).clone()
}
/// A scratch directory on the disk.
pub fn disk_scratch() -> PathBuf {
    static D: std::sync::OnceLock<PathBuf> = std::sync::OnceLock::new();
    D.get_or_init(|| dir_from("FFCHECK_DISK", &["/tmp", "/dev/shm"])).clone()
}

thread_local! {
    static PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}

pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|i| {
        crate::alloc::disarm();
        let m = i
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| i.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "(no message)".into());
        let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = Some((m, l)));
    }));
}

/// Runs `f` on a thread with a stack of `size` bytes: an overflow ends the process.
pub fn on_small_stack<T: Send>(size: usize, f: impl FnOnce() -> T + Send) -> T {
    let r = std::thread::scope(|s| {
        let call = || catch_unwind(AssertUnwindSafe(f)).map_err(|p| (p, PANIC.with(|p| p.borrow_mut().take())));
        std::thread::Builder::new().stack_size(size).spawn_scoped(s, call).expect("HARNESS: cannot start a thread").join()
    });
    match r.expect("HARNESS: a thread is lost") {
        Ok(v) => v,
        Err((p, m)) => {
            PANIC.with(|p| *p.borrow_mut() = m);
            std::panic::resume_unwind(p)
        }
    }
}

pub enum Out {
    Pass,
    Discard(&'static str),
    Fail(String),
    /// The machinery itself went wrong.
    Broken(String),
}

/// Runs one case; nothing escapes.
pub fn run_case(run: fn(&mut Src, &mut Ctx) -> Res, src: &mut Src, ctx: &mut Ctx) -> Out {
    match catch_unwind(AssertUnwindSafe(|| run(src, ctx))) {
        Ok(Ok(())) => Out::Pass,
        Ok(Err(Stop::Discard(d))) => Out::Discard(d),
        Ok(Err(Stop::Fail(m))) => Out::Fail(m),
        Err(p) if p.is::<crate::readers::OverBudget>() => Out::Discard("reads more than this check follows"),
        Err(_) => {
            let (m, l) = PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
            // Paths of this crate are relative, those of its dependencies are not.
            if m.starts_with("HARNESS:") || l.starts_with("src/") {
                Out::Broken(format!("{m} at {l}"))
            } else {
                Out::Fail(format!("panic: {m} at {l}"))
            }
        }
    }
}

// ---------------------------------------------------------------------------------------- output

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 || c as u32 == 0x7F => write!(o, "\\u{:04x}", c as u32).unwrap(),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn clip(s: &str) -> String {
    if s.chars().count() > 1500 { s.chars().take(1500).collect::<String>() + "..." } else { s.into() }
}

#[derive(Default)]
struct Tally {
    evaluations: u64,
    passed: u64,
    discards: BTreeMap<&'static str, u64>,
    labels: BTreeMap<String, u64>,
    nontrivial: u64,
    keys: Vec<u64>,
    execs: u64,
}

struct Failure {
    index: String,
    message: String,
    choices: Vec<u64>,
    original: usize,
    sample: String,
    input: Option<Vec<u8>>,
    note: String,
}

fn write_replay(p: &Prop, f: &Failure) -> PathBuf {
    let dir = root().join("replays");
    std::fs::create_dir_all(&dir).expect("HARNESS: replays");
    let stem = format!("{}-seed{}-{}", p.id, seed(), f.index.replace([' ', '/'], "_"));
    let mut o = format!(
        "{{\n \"property\": {}, \"seed\": {}, \"tier\": {}, \"case\": {},\n \"message\": {},\n \"described\": {},\n \"note\": {},\n",
        js(p.id), seed() as i64, js(tier()), js(&f.index), js(&clip(&f.message)), js(&clip(&f.sample)), js(&f.note)
    );
    if let Some(b) = &f.input {
        let bin = dir.join(format!("{stem}.bin"));
        let _ = std::fs::write(&bin, b);
        writeln!(o, " \"input_file\": {}, \"input_length\": {},", js(&bin.display().to_string()), b.len()).unwrap();
    }
    let c: Vec<String> = f.choices.iter().map(|c| c.to_string()).collect();
    write!(
        o,
        " \"shrunk_from\": {}, \"choices\": [{}],\n \"run\": {}\n}}\n",
        f.original,
        c.join(","),
        js(&format!("./check.sh {} replay {}", p.id, dir.join(format!("{stem}.json")).display()))
    )
    .unwrap();
    let path = dir.join(format!("{stem}.json"));
    std::fs::write(&path, o).expect("HARNESS: replay file");
    path
}

fn write_evidence(p: &Prop, t: &Tally, samples: &[String], regressions: u64, wall: f64, violations: u64) {
    let dir = root().join("evidence");
    std::fs::create_dir_all(&dir).expect("HARNESS: evidence");
    let mut keys = t.keys.clone();
    keys.sort_unstable();
    keys.dedup();
    let total = (p.enumerated)();
    let map = |m: &BTreeMap<String, u64>| {
        m.iter().map(|(k, v)| format!("{}: {v}", js(k))).collect::<Vec<_>>().join(", ")
    };
    let discards: BTreeMap<String, u64> = t.discards.iter().map(|(k, v)| (k.to_string(), *v)).collect();
    let enumerated = if total > 0 {
        format!("\n  \"enumerated\": {{\"dimension_size\": {total}, \"covered\": {}}},", total.min(t.evaluations))
    } else {
        String::new()
    };
    let o = format!(
        "{{\n \"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {}, \"passed\": {}, \"nontrivial\": {}, \"distinct_nontrivial\": {}, \"calls_of_the_code_under_test\": {}, \"saved_regression_cases\": {},{}\n  \"discarded\": {{{}}},\n  \"labels\": {{{}}},\n  \"rule\": {},\n  \"samples\": [{}]\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.2}, \"violations\": {}\n}}\n",
        js(p.id), js(tier()), seed() as i64,
        t.evaluations, t.passed, t.nontrivial, keys.len(), t.execs, regressions, enumerated,
        map(&discards), map(&t.labels), js(p.rule),
        samples.iter().map(|s| js(&clip(s))).collect::<Vec<_>>().join(",\n   "),
        p.assumptions.iter().map(|s| js(s)).collect::<Vec<_>>().join(", "),
        wall, violations
    );
    std::fs::write(dir.join(format!("{}.json", p.id)), o).expect("HARNESS: evidence file");
}

fn report(p: &Prop, f: &Failure) -> i32 {
    let path = write_replay(p, f);
    println!("{} case {}: {}", p.id, f.index, clip(&f.message));
    if !f.sample.is_empty() {
        println!("  {}", clip(&f.sample));
    }
    println!("VIOLATION property={} replay={}", p.id, path.display());
    BROKEN
}

// ---------------------------------------------------------------------------------------- worker

struct Slot {
    /// Case index plus one, zero when idle.
    case: AtomicU64,
    /// Milliseconds since the start of the run.
    since: AtomicU64,
}

/// Runs all cases in this process.
pub fn worker(p: &'static Prop) -> i32 {
    quiet_panics();
    let start = Instant::now();
    let n = cases(p);
    let s = stream(p);
    let nt = threads();
    let inflight = env("FFCHECK_INFLIGHT").map(|f| {
        let f = std::fs::File::create(f).expect("HARNESS: in-flight file");
        f.set_len(8 * nt as u64).expect("HARNESS: in-flight file");
        f
    });

    // Saved regression cases first.
    let regs = regress::cases(p.id);
    for (what, case) in &regs {
        let r = catch_unwind(AssertUnwindSafe(case));
        let m = match r {
            Ok(Ok(())) => continue,
            Ok(Err(m)) => m,
            Err(_) => {
                let (m, l) = PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
                format!("panic: {m} at {l}")
            }
        };
        let f = Failure {
            index: format!("regression {what}"), message: m, choices: vec![], original: 0,
            sample: what.to_string(), input: None, note: "a saved case, see harness/src/regress.rs".into(),
        };
        let t = Tally { evaluations: 1, ..Tally::default() };
        write_evidence(p, &t, &[what.to_string()], regs.len() as u64, start.elapsed().as_secs_f64(), 1);
        return report(p, &f);
    }

    // On a slow machine, the quick tier ends with fewer cases rather than not at all.
    let limit = Duration::from_secs(if env("VERIF_TIER").as_deref() == Some("thorough") { 6 * 3600 } else { 400 });
    let slots: Vec<Slot> = (0..nt).map(|_| Slot { case: AtomicU64::new(0), since: AtomicU64::new(0) }).collect();
    let next = AtomicU64::new(0);
    let worst = AtomicU64::new(u64::MAX);
    let failure: Mutex<Option<(u64, String, Vec<u64>)>> = Mutex::new(None);
    let broken: Mutex<Option<String>> = Mutex::new(None);
    let tally: Mutex<Tally> = Mutex::new(Tally::default());
    let done = AtomicU64::new(0);

    std::thread::scope(|sc| {
        for tid in 0..nt {
            let (slots, next, worst, failure, broken, tally, done, inflight) =
                (&slots, &next, &worst, &failure, &broken, &tally, &done, &inflight);
            std::thread::Builder::new()
                .stack_size(STACK)
                .spawn_scoped(sc, move || {
                    let mut t = Tally::default();
                    'all: loop {
                        let a = next.fetch_add(64, Ordering::Relaxed);
                        if a >= n || a > worst.load(Ordering::Relaxed) || start.elapsed() > limit {
                            break;
                        }
                        for i in a..(a + 64).min(n) {
                            if i > worst.load(Ordering::Relaxed) {
                                break 'all;
                            }
                            slots[tid].since.store(start.elapsed().as_millis() as u64, Ordering::Relaxed);
                            slots[tid].case.store(i + 1, Ordering::Relaxed);
                            if let Some(f) = inflight {
                                let _ = f.write_at(&(i + 1).to_le_bytes(), 8 * tid as u64);
                            }
                            let mut src = Src::random(s, i);
                            let mut ctx = Ctx::default();
                            let o = run_case(p.run, &mut src, &mut ctx);
                            t.evaluations += 1;
                            t.execs += ctx.execs;
                            match o {
                                Out::Pass => {
                                    t.passed += 1;
                                    if ctx.nontrivial {
                                        t.nontrivial += 1;
                                        t.keys.push(ctx.key);
                                    }
                                    for l in ctx.labels {
                                        *t.labels.entry(l).or_default() += 1;
                                    }
                                }
                                Out::Discard(d) => *t.discards.entry(d).or_default() += 1,
                                Out::Fail(m) => {
                                    let mut f = failure.lock().unwrap();
                                    if f.as_ref().is_none_or(|f| i < f.0) {
                                        *f = Some((i, m, src.rec.clone()));
                                        worst.fetch_min(i, Ordering::Relaxed);
                                    }
                                    break 'all;
                                }
                                Out::Broken(m) => {
                                    broken.lock().unwrap().get_or_insert(format!("case {i}: {m}"));
                                    worst.store(0, Ordering::Relaxed);
                                    break 'all;
                                }
                            }
                        }
                    }
                    slots[tid].case.store(0, Ordering::Relaxed);
                    if let Some(f) = inflight {
                        let _ = f.write_at(&0u64.to_le_bytes(), 8 * tid as u64);
                    }
                    let mut g = tally.lock().unwrap();
                    g.evaluations += t.evaluations;
                    g.passed += t.passed;
                    g.nontrivial += t.nontrivial;
                    g.execs += t.execs;
                    g.keys.extend(t.keys);
                    for (k, v) in t.discards {
                        *g.discards.entry(k).or_default() += v;
                    }
                    for (k, v) in t.labels {
                        *g.labels.entry(k).or_default() += v;
                    }
                    drop(g);
                    done.fetch_add(1, Ordering::Relaxed);
                })
                .expect("HARNESS: cannot start a thread");
        }
        // The watchdog.
        let suspect = env("FFCHECK_SUSPECT").and_then(|s| s.parse().ok()).unwrap_or(SUSPECT);
        while done.load(Ordering::Relaxed) < nt as u64 {
            std::thread::sleep(Duration::from_millis(20));
            let now = start.elapsed().as_millis() as u64;
            for s in &slots {
                let c = s.case.load(Ordering::Relaxed);
                if c > 0 && now.saturating_sub(s.since.load(Ordering::Relaxed)) > suspect * 1000 {
                    eprintln!("{}: case {} does not end", p.id, c - 1);
                    if let Some(f) = env("FFCHECK_HUNG") {
                        let _ = std::fs::write(f, (c - 1).to_string());
                    }
                    exit(HANG);
                }
            }
        }
    });

    if let Some(m) = broken.into_inner().unwrap() {
        eprintln!("{}: the check itself failed: {m}", p.id);
        return ERROR;
    }
    let t = tally.into_inner().unwrap();
    let failure = failure.into_inner().unwrap();
    let mut samples = Vec::new();
    if failure.is_none() {
        // Described on a thread like the others.
        samples = on_thread(move || sample_cases(p, s, n, 10));
    }
    let wall = start.elapsed().as_secs_f64();
    let code = match failure {
        None => {
            write_evidence(p, &t, &samples, regs.len() as u64, wall, 0);
            HOLDS
        }
        Some((i, m, rec)) => {
            let f = on_thread(move || shrink_failure(p, i, m, rec));
            match f {
                Ok(f) => {
                    write_evidence(p, &t, &[f.sample.clone()], regs.len() as u64, wall, 1);
                    return report(p, &f);
                }
                Err(m) => {
                    eprintln!("{}: {m}", p.id);
                    ERROR
                }
            }
        }
    };
    let d: u64 = t.discards.values().sum();
    eprintln!(
        "{}: {} cases, {} non-trivial, {} discarded, {} calls, {:.1} s",
        p.id, t.evaluations, t.nontrivial, d, t.execs, wall
    );
    // A generator that mostly discards would leave the property untested.
    if code == HOLDS && t.evaluations > 1000 && d * 2 > t.evaluations {
        eprintln!("{}: more than half of the cases were discarded: {:?}", p.id, t.discards);
        return ERROR;
    }
    code
}

fn on_thread<T: Send + 'static>(f: impl FnOnce() -> T + Send + 'static) -> T {
    std::thread::Builder::new().stack_size(STACK).spawn(f).expect("HARNESS: thread").join().expect("HARNESS: thread")
}

fn sample_cases(p: &Prop, s: u64, n: u64, want: u64) -> Vec<String> {
    let mut v = Vec::new();
    for k in 0..want.min(n) {
        let a = k * (n / want.min(n));
        for i in a..(a + 40).min(n) {
            let mut src = Src::random(s, i);
            let mut ctx = Ctx { want_sample: true, ..Ctx::default() };
            if let Out::Pass = run_case(p.run, &mut src, &mut ctx) {
                if ctx.nontrivial {
                    v.push(format!("case {i}: {} [{}]", ctx.sample, ctx.labels.join(", ")));
                    break;
                }
            }
        }
    }
    v
}

fn shrink_failure(p: &Prop, i: u64, m: String, rec: Vec<u64>) -> Result<Failure, String> {
    let original = rec.len();
    let attempt = |c: &[u64]| {
        let mut src = Src::replay(c);
        let mut ctx = Ctx::default();
        match run_case(p.run, &mut src, &mut ctx) {
            Out::Fail(m) => Some((m, src.rec)),
            _ => None,
        }
    };
    let mut note = String::new();
    let (choices, message) = match attempt(&rec) {
        None => {
            if m.contains("detection process ended") {
                return Err(format!("case {i} failed once but not again: {m}"));
            }
            note = "the case does not fail when run again on its own: the answer depends on earlier calls".into();
            (rec, m)
        }
        Some(_) => {
            let t = Instant::now();
            let (best, _) = shrink(
                rec,
                |c| {
                    // Shrinking ends early when the cases are slow.
                    if t.elapsed() > Duration::from_secs(60) { None } else { attempt(c).map(|x| x.1) }
                },
                20_000,
            );
            let m = attempt(&best).map(|x| x.0).unwrap_or(m);
            (best, m)
        }
    };
    let mut src = Src::replay(&choices);
    let mut ctx = Ctx { want_sample: true, ..Ctx::default() };
    let _ = run_case(p.run, &mut src, &mut ctx);
    Ok(Failure { index: i.to_string(), message, choices, original, sample: ctx.sample, input: ctx.input, note })
}

// ------------------------------------------------------------------------------------ supervisor

fn fatal(signal: i32) -> bool {
    // SIGILL, SIGTRAP, SIGABRT, SIGBUS, SIGFPE, SIGSEGV
    [4, 5, 6, 7, 8, 11].contains(&signal)
}

/// Runs one case in a process of its own under a CPU limit; returns the signal that ended it.
fn isolated(id: &str, choices: &Path) -> (Option<i32>, Option<i32>) {
    let exe = std::env::current_exe().expect("HARNESS: own path");
    let st = Command::new("sh")
        .arg("-c")
        .arg(format!("ulimit -c 0; ulimit -t {CPU_LIMIT}; exec \"$0\" one {id} \"$1\""))
        .arg(exe)
        .arg(choices)
        .stdout(std::process::Stdio::null())
        .stderr(std::process::Stdio::null())
        .status()
        .expect("HARNESS: cannot start a process");
    (st.code(), st.signal())
}

/// Re-runs the choices in the file (one number per line, or `index N`).
pub fn one(p: &'static Prop, file: &str) -> i32 {
    quiet_panics();
    let s = std::fs::read_to_string(file).expect("HARNESS: choices file");
    on_thread(move || {
        let mut ctx = Ctx::default();
        let choices: Vec<u64>;
        let mut src = match s.trim().strip_prefix("index ") {
            Some(i) => Src::random(stream(p), i.parse().expect("HARNESS: index")),
            None => {
                choices = s.split_whitespace().map(|x| x.parse().expect("HARNESS: choice")).collect();
                return code(run_case(p.run, &mut Src::replay(&choices), &mut ctx));
            }
        };
        code(run_case(p.run, &mut src, &mut ctx))
    })
}
fn code(o: Out) -> i32 {
    match o {
        Out::Fail(m) => {
            println!("{m}");
            BROKEN
        }
        Out::Broken(m) => {
            eprintln!("{m}");
            ERROR
        }
        _ => HOLDS,
    }
}

/// The choices of a case, without running the property to its end: the generator may be what leads
/// to the crash, so a process records them as far as it gets.
fn recorded(p: &'static Prop, i: u64, dir: &Path) -> Option<Vec<u64>> {
    let f = dir.join("trace");
    let exe = std::env::current_exe().ok()?;
    let _ = Command::new("sh")
        .arg("-c")
        .arg(format!("ulimit -c 0; ulimit -t {CPU_LIMIT}; exec \"$0\" trace {} {i} \"$1\"", p.id))
        .arg(exe)
        .arg(&f)
        .stdout(std::process::Stdio::null())
        .stderr(std::process::Stdio::null())
        .status();
    let s = std::fs::read(&f).ok()?;
    Some(s.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect())
}
pub fn trace(p: &'static Prop, i: u64, file: &str) -> i32 {
    quiet_panics();
    let f = std::fs::File::create(file).expect("HARNESS: trace file");
    on_thread(move || {
        let mut src = Src::random(stream(p), i);
        src.trace = Some(f);
        code(run_case(p.run, &mut src, &mut Ctx::default()))
    })
}

fn crash(p: &'static Prop, indices: &[u64], dir: &Path, hang: bool) -> i32 {
    let file = dir.join("choices");
    for &i in indices {
        std::fs::write(&file, format!("index {i}")).expect("HARNESS: scratch");
        let (code, sig) = isolated(p.id, &file);
        let dies = |sig: Option<i32>| match sig {
            Some(24) => hang,
            Some(s) => !hang && fatal(s),
            None => false,
        };
        if !dies(sig) {
            eprintln!("{}: case {i} alone ends with code {code:?}, signal {sig:?}", p.id);
            continue;
        }
        if hang && p.id != "C01" && p.id != "C05" {
            eprintln!("{}: case {i} does not end within {CPU_LIMIT} s of CPU time; undecided here, termination is decided by C05", p.id);
            return ERROR;
        }
        let message = if hang {
            format!("detection does not end within {CPU_LIMIT} s of CPU time")
        } else {
            format!("the process is killed by signal {} (abort, stack overflow or failed allocation)", sig.unwrap())
        };
        let mut choices = recorded(p, i, dir).unwrap_or_default();
        let original = choices.len();
        if !hang {
            let t = Instant::now();
            let (best, _) = shrink(
                choices,
                |c| {
                    if t.elapsed() > Duration::from_secs(60) {
                        return None;
                    }
                    let s: Vec<String> = c.iter().map(|x| x.to_string()).collect();
                    std::fs::write(&file, s.join("\n")).ok()?;
                    dies(isolated(p.id, &file).1).then(|| c.to_vec())
                },
                2000,
            );
            choices = best;
        }
        let f = Failure {
            index: i.to_string(), message, choices, original, sample: String::new(), input: None,
            note: "the process running the case died; the choices regenerate it".into(),
        };
        let t = Tally { evaluations: i + 1, ..Tally::default() };
        write_evidence(p, &t, &[f.message.clone()], 0, 0.0, 1);
        return report(p, &f);
    }
    eprintln!("{}: the process running the cases died, but no case does so alone", p.id);
    UNCONFIRMED
}

pub fn check(id: &str) -> i32 {
    let Some(p) = props::find(id) else {
        eprintln!("unknown property {id}");
        return ERROR;
    };
    // A configuration that does not build is reported by the script in this file.
    let _ = std::fs::remove_file(root().join("evidence").join(format!("{id}.json")));
    if let Some(m) = env("FFCHECK_BUILD_FAILURE") {
        let f = Failure {
            index: "build".into(), message: m, choices: vec![], original: 0, sample: String::new(), input: None,
            note: "building the crate with this configuration fails while the full configuration builds".into(),
        };
        write_evidence(p, &Tally { evaluations: 1, ..Tally::default() }, &[f.message.clone()], 0, 0.0, 1);
        return report(p, &f);
    }
    let (mem, disk) = (scratch(), disk_scratch());
    let own = |d: &Path, v: &str| if env(v).is_none() { Some(d.to_path_buf()) } else { None };
    let cleanup = [own(&mem, "FFCHECK_SCRATCH"), own(&disk, "FFCHECK_DISK")];
    let inflight = mem.join("inflight");
    let hung = mem.join("hung");
    // Drivers and other children share the process group; the memory of all of them is bounded by the sandbox.
    let run = |suspect: u64| {
        let st = Command::new(std::env::current_exe().expect("HARNESS: own path"))
            .args(["worker", id])
            .env("FFCHECK_SCRATCH", &mem)
            .env("FFCHECK_DISK", &disk)
            .env("FFCHECK_INFLIGHT", &inflight)
            .env("FFCHECK_HUNG", &hung)
            .env("FFCHECK_SUSPECT", suspect.to_string())
            .status()
            .expect("HARNESS: cannot start the worker");
        match (st.code(), st.signal()) {
            (Some(HANG), _) => match std::fs::read_to_string(&hung).ok().and_then(|s| s.parse().ok()) {
                Some(i) => crash_env(p, &[i], &mem, &disk, true),
                None => ERROR,
            },
            (Some(c), _) => c,
            (None, Some(s)) if fatal(s) => {
                let b = std::fs::read(&inflight).unwrap_or_default();
                let mut v: Vec<u64> = b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).filter(|&x| x > 0).map(|x| x - 1).collect();
                v.sort_unstable();
                eprintln!("{id}: signal {s} while running cases {v:?}");
                crash_env(p, &v, &mem, &disk, false)
            }
            (None, s) => {
                eprintln!("{id}: the process running the cases was ended by signal {s:?}");
                ERROR
            }
        }
    };
    // Once more where it may have been the machine (a case that did not get to run for long).
    let code = match run(SUSPECT) {
        UNCONFIRMED => run(3 * SUSPECT),
        code => code,
    };
    let code = if code == UNCONFIRMED { ERROR } else { code };
    for d in cleanup.into_iter().flatten() {
        let _ = std::fs::remove_dir_all(d);
    }
    code
}

fn crash_env(p: &'static Prop, v: &[u64], mem: &Path, disk: &Path, hang: bool) -> i32 {
    // The isolated processes use the same scratch directories.
    unsafe {
        std::env::set_var("FFCHECK_SCRATCH", mem);
        std::env::set_var("FFCHECK_DISK", disk);
    }
    crash(p, v, mem, hang)
}

/// Re-runs a replay file: the `choices` in it.
pub fn replay(file: &str) -> i32 {
    quiet_panics();
    let s = std::fs::read_to_string(file).expect("HARNESS: cannot read the replay file");
    let field = |k: &str| s.split(&format!("\"{k}\": ")).nth(1).map(|x| x.to_string());
    let id: String = field("property").and_then(|x| x.split('"').nth(1).map(|s| s.to_string())).expect("HARNESS: no property");
    let p = props::find(&id).expect("HARNESS: unknown property");
    let case = field("case").and_then(|x| x.split('"').nth(1).map(|s| s.to_string())).unwrap_or_default();
    if let Some(r) = case.strip_prefix("regression ") {
        for (what, c) in regress::cases(p.id) {
            if what == r {
                return match c() {
                    Ok(()) => HOLDS,
                    Err(m) => {
                        println!("{m}");
                        BROKEN
                    }
                };
            }
        }
    }
    let list = field("choices").and_then(|x| x.split(['[', ']']).nth(1).map(|s| s.to_string())).expect("HARNESS: no choices");
    let choices: Vec<u64> = list.split(',').filter_map(|x| x.trim().parse().ok()).collect();
    on_thread(move || {
        let mut ctx = Ctx { want_sample: true, ..Ctx::default() };
        let o = run_case(p.run, &mut Src::replay(&choices), &mut ctx);
        println!("{}", ctx.sample);
        let c = code(o);
        println!("{}", if c == BROKEN { "the property is broken by this case" } else { "this case passes" });
        c
    })
}
