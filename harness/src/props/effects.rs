//! Detection leaves nothing behind and does not depend on its surroundings.

use crate::detect::{self, name};
use crate::engine::{Ctx, Res, Src};
use crate::gens::hostile;
use crate::tables::signature_model;
use crate::{alloc, discard, fail};
use file_format::FileFormat;
use std::cell::RefCell;
use std::collections::HashMap;
use std::io::{Cursor, Read, Write};
use std::os::unix::fs::{MetadataExt, PermissionsExt};
use std::os::unix::net::UnixStream;
use std::os::unix::process::CommandExt;
use std::path::{Path, PathBuf};
use std::process::{Child, Command};

// ------------------------------------------------------------------------ the observed process

unsafe extern "C" {
    fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
}

#[derive(Clone, PartialEq, Debug)]
struct State {
    descriptors: usize,
    threads: usize,
    children: bool,
    printed: u64,
    directory: Option<PathBuf>,
    environment: u64,
    /// Files in the places where programs put theirs.
    files: usize,
}

/// Number of files below a directory.
fn below(p: &Path, depth: u32) -> usize {
    std::fs::read_dir(p).map_or(0, |d| {
        d.flatten().map(|e| 1 + if depth > 0 && e.file_type().is_ok_and(|t| t.is_dir()) { below(&e.path(), depth - 1) } else { 0 }).sum()
    })
}

fn entries(p: &str) -> usize {
    std::fs::read_dir(p).map(|d| d.count()).unwrap_or(0)
}

fn state() -> State {
    use std::os::unix::ffi::OsStrExt;
    let _ = std::io::stdout().flush();
    let environment = std::env::vars_os().fold(7, |h, (k, v)| {
        h ^ crate::engine::hash_bytes(crate::engine::hash_bytes(1, k.as_bytes()), v.as_bytes())
    });
    // Standard output and error share a file.
    let printed = [1, 2].map(|n| std::fs::metadata(format!("/proc/self/fd/{n}")).map_or(0, |m| m.len()));
    State {
        descriptors: entries("/proc/self/fd"),
        threads: entries("/proc/self/task"),
        children: unsafe { waitpid(-1, std::ptr::null_mut(), 1 /* WNOHANG */) } >= 0,
        printed: printed[0] + printed[1],
        directory: std::env::current_dir().ok(),
        environment,
        files: std::env::var_os("FFCHECK_OWN").map_or(0, |p| below(Path::new(&p), 3)),
    }
}

fn call(mode: u8, b: &[u8], p: &Path) -> Result<FileFormat, std::io::Error> {
    match mode {
        0 => Ok(FileFormat::from_bytes(b)),
        1 => FileFormat::from_reader(Cursor::new(b.to_vec())),
        2 => FileFormat::from_file(p),
        _ => std::fs::File::open(p).and_then(FileFormat::from_reader),
    }
}

/// What one call leaves behind: heap memory, descriptors, threads.
fn growth(mode: u8, b: &[u8], p: &Path) -> [isize; 3] {
    let s = state();
    let (_, net) = alloc::remaining(|| drop(call(mode, b, p)));
    let t = state();
    [net, t.descriptors as isize - s.descriptors as isize, t.threads as isize - s.threads as isize]
}

/// Whether calls go on leaving something behind: nothing does after a thousand of them, unless it leaks.
fn leak(mode: u8, b: &[u8], p: &Path) -> Option<String> {
    let what = ["bytes of heap memory", "file descriptors", "threads"];
    for varied in [false, true] {
        if varied && mode >= 2 && std::env::var_os("FFCHECK_NO_WRITING").is_some() {
            return None;
        }
        let mut v = b.to_vec();
        let mut late = [0isize; 3];
        let mut rounds = 1100;
        let start = std::time::Instant::now();
        let mut i = 0u32;
        while i < rounds {
            i += 1;
            if varied {
                v.truncate(b.len());
                v.extend_from_slice(&i.to_be_bytes());
                if mode >= 2 && std::fs::write(p, &v).is_err() {
                    return None;
                }
            }
            let g = growth(mode, &v, p);
            for k in 0..3 {
                // Tables that double their size grow at least once in this part.
                if i > rounds / 2 {
                    late[k] += g[k];
                }
            }
            // Few are enough to tell, and too many would end the process.
            if i == 20 && (g[1] > 0 || g[2] > 0) || i == 100 && start.elapsed().as_secs() > 2 {
                rounds = 2 * i + 100;
                late = [0; 3];
            }
        }
        for k in 0..3 {
            if late[k] >= 90 {
                return Some(format!("goes on leaving {} behind: {} in the last {} calls", what[k], late[k], rounds / 2));
            }
        }
    }
    None
}

fn answer(tx: &mut UnixStream, s: &str) {
    let mut m = (s.len() as u32).to_le_bytes().to_vec();
    m.extend_from_slice(s.as_bytes());
    if tx.write_all(&m).is_err() {
        std::process::exit(0);
    }
}

/// Requests come and answers go over standard input, which is a socket.
pub fn subject() {
    use std::os::fd::AsFd;
    let own = std::io::stdin().as_fd().try_clone_to_owned().expect("HARNESS: no socket");
    let mut io = UnixStream::from(own);
    let mut b = Vec::new();
    loop {
        let mut h = [0u8; 9];
        if io.read_exact(&mut h).is_err() {
            return;
        }
        let mode = h[0];
        let (n, m) = (u32::from_le_bytes(h[1..5].try_into().unwrap()) as usize, u32::from_le_bytes(h[5..9].try_into().unwrap()) as usize);
        b.resize(n, 0);
        let mut p = vec![0; m];
        if io.read_exact(&mut b).is_err() || io.read_exact(&mut p).is_err() {
            return;
        }
        let p = PathBuf::from(String::from_utf8_lossy(&p).into_owned());
        if mode >= 2 {
            if let Err(e) = std::fs::File::open(&p) {
                answer(&mut io, &format!("unusable {e:?}"));
                continue;
            }
        }
        let s = state();
        let (r, net) = alloc::remaining(|| call(mode, &b, &p).map_err(|e| e.kind()));
        let t = state();
        let r = r.map_or_else(|k| format!("{k:?}"), name);
        let fixed = |s: &State| State { descriptors: 0, threads: 0, ..s.clone() };
        let mut note = String::new();
        if fixed(&s) != fixed(&t) {
            note = if s.files != t.files {
                format!("leaves {} files in the temporary, home or working directory", t.files as i64 - s.files as i64)
            } else if s.printed != t.printed {
                format!("prints {} bytes", t.printed as i64 - s.printed as i64)
            } else {
                format!("changes the state of the process from {s:?} to {t:?}")
            };
        } else if net > 0 || t.descriptors > s.descriptors || t.threads > s.threads {
            note = leak(mode, &b, &p).unwrap_or_else(|| "settles".into());
        }
        answer(&mut io, &format!("{r} {note}"));
    }
}

// ---------------------------------------------------------------------------------- the check

const SURROUNDINGS: [&str; 8] = ["ordinary", "no environment", "odd environment", "own directory", "unprivileged", "few descriptors", "no writing", "vanished directory"];

struct Subject {
    child: Child,
    io: UnixStream,
    capture: PathBuf,
    own: PathBuf,
}

const VALUES: [&str; 8] = ["1", "0", "", "/nonexistent", "tr_TR.UTF-8", "zip", "trace", "4294967296"];

const LOCALES: [&str; 12] = [
    "C", "POSIX", "C.UTF-8", "en_US.UTF-8", "tr_TR.UTF-8", "de_DE.ISO-8859-1", "fr_FR@euro", "ja_JP.eucJP", "ja_JP.SJIS", "zh_CN.GB18030",
    "ru_RU.KOI8-R", "ar_EG.UTF-8",
];
/// Different environments with everything set.
const VARIANTS: u64 = 24;

/// A value for an environment variable: a usual one, or a word that is new in the code under test.
fn value(name: &str, variant: u64) -> String {
    let mut h = crate::engine::hash_bytes(3 + variant, name.as_bytes()) as usize;
    let mut pick = |n: usize| {
        let i = h % n;
        h /= n;
        i
    };
    let words: Vec<String> =
        crate::dict::dict().words.iter().filter(|w| !w.contains(&0)).map(|w| String::from_utf8_lossy(w).into_owned()).filter(|w| w.len() < 60).collect();
    let locale = name == "LANG" || name == "LANGUAGE" || name.starts_with("LC_");
    if !words.is_empty() && pick(2) == 0 {
        let w = &words[pick(words.len())];
        return if locale && pick(2) == 0 { format!("de_DE.{w}") } else { w.clone() };
    }
    let usual: &[&str] = if locale { &LOCALES } else { &VALUES };
    usual[pick(usual.len())].to_string()
}

/// Words in the sources of the code under test that could name environment variables: as in a
/// fuzzer's dictionary.
fn dictionary() -> &'static [String] {
    static D: std::sync::OnceLock<Vec<String>> = std::sync::OnceLock::new();
    D.get_or_init(|| {
        let mut v: Vec<String> = [
            "LANG", "LANGUAGE", "LC_ALL", "LC_CTYPE", "TZ", "RUST_LOG", "RUST_BACKTRACE", "TMPDIR", "TEMP", "HOME", "DEBUG", "FILE_FORMAT", "MAGIC",
            "PATH", "USER", "CI", "NO_COLOR", "TERM", "MIME", "XDG_CACHE_HOME", "XDG_CONFIG_HOME", "XDG_DATA_DIRS", "CARGO_MANIFEST_DIR",
        ]
        .map(String::from)
        .to_vec();
        for e in std::fs::read_dir(crate::dict::SOURCES).into_iter().flatten().flatten() {
            let t = std::fs::read(e.path()).unwrap_or_default();
            for w in t.split(|&b| b == b'"') {
                if (3..60).contains(&w.len()) && w.iter().all(|b| b.is_ascii_uppercase() || b.is_ascii_digit() || *b == b'_') && !w[0].is_ascii_digit() {
                    v.push(String::from_utf8_lossy(w).into_owned());
                }
            }
        }
        v.truncate(2000);
        v
    })
}

impl Subject {
    fn spawn(kind: usize, variant: u64) -> Option<Self> {
        let exe = std::env::current_exe().expect("HARNESS: no executable");
        let capture = crate::runner::scratch().join(format!("printed-{}-{:?}-{kind}-{variant}", std::process::id(), std::thread::current().id()));
        let out = std::fs::File::create(&capture).ok()?;
        let (ours, theirs) = UnixStream::pair().ok()?;
        let own = crate::runner::scratch().join(format!("own-{}-{:?}-{kind}-{variant}", std::process::id(), std::thread::current().id()));
        let _ = std::fs::remove_dir_all(&own);
        std::fs::create_dir(&own).ok()?;
        let limits = match kind {
            4 => "-u 0",
            5 => "-n 16; ulimit -s 512",
            6 => "-f 0",
            _ => "",
        };
        let mut c = if limits.is_empty() {
            let mut c = Command::new(&exe);
            c.arg("subject");
            c
        } else {
            let mut c = Command::new("sh");
            c.arg("-c").arg(format!("ulimit {limits}; exec \"$0\" subject")).arg(&exe);
            c
        };
        c.stdin(std::os::fd::OwnedFd::from(theirs)).stdout(out.try_clone().ok()?).stderr(out);
        match kind {
            0 => {
                for k in ["TMPDIR", "HOME", "XDG_CACHE_HOME", "XDG_DATA_HOME", "XDG_CONFIG_HOME", "XDG_STATE_HOME", "XDG_RUNTIME_DIR"] {
                    c.env(k, &own);
                }
                c.current_dir(&own);
            }
            1 => {
                c.env_clear().current_dir("/");
            }
            2 => {
                for k in dictionary() {
                    c.env(k, value(k, variant));
                }
            }
            3 => {
                c.current_dir(crate::runner::scratch());
            }
            4 => {
                c.uid(65_534).gid(65_534).current_dir("/");
            }
            _ => {}
        }
        if kind == 6 {
            c.env("FFCHECK_NO_WRITING", "1");
        }
        // Set last: the dictionary may hold it.
        c.env("FFCHECK_OWN", &own);
        let gone = crate::runner::scratch().join(format!("gone-{}-{:?}", std::process::id(), std::thread::current().id()));
        if kind == 7 {
            let _ = std::fs::create_dir(&gone);
            c.current_dir(&gone);
        }
        let child = c.spawn().ok()?;
        if kind == 7 {
            let _ = std::fs::remove_dir(&gone);
        }
        Some(Subject { child, io: ours, capture, own })
    }

    fn ask(&mut self, mode: u8, b: &[u8], p: &str) -> Result<String, String> {
        let mut go = || -> std::io::Result<String> {
            let b = if mode < 2 { b } else { &[] };
            self.io.write_all(&[mode])?;
            self.io.write_all(&(b.len() as u32).to_le_bytes())?;
            self.io.write_all(&(p.len() as u32).to_le_bytes())?;
            self.io.write_all(b)?;
            self.io.write_all(p.as_bytes())?;
            let mut n = [0; 4];
            self.io.read_exact(&mut n)?;
            let mut s = vec![0; u32::from_le_bytes(n) as usize];
            self.io.read_exact(&mut s)?;
            Ok(String::from_utf8_lossy(&s).into_owned())
        };
        go().map_err(|_| {
            let st = self.child.wait();
            format!("{st:?}; {}", std::fs::read_to_string(&self.capture).unwrap_or_default())
        })
    }
}

impl Drop for Subject {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
        let _ = std::fs::remove_file(&self.capture);
        let _ = std::fs::remove_dir_all(&self.own);
    }
}

thread_local! {
    static SUBJECTS: RefCell<HashMap<(usize, u64), Option<Subject>>> = RefCell::new(HashMap::new());
}

/// A file of its own directory, with a time and mode of its own, in front of witnesses.
struct Scene {
    dir: PathBuf,
    file: PathBuf,
    seen: Vec<(String, u64, u32, i64, i64, i64, u64, u64)>,
}

fn seen(dir: &Path) -> Vec<(String, u64, u32, i64, i64, i64, u64, u64)> {
    let mut v: Vec<_> = std::fs::read_dir(dir)
        .into_iter()
        .flatten()
        .flatten()
        .filter_map(|e| {
            let m = e.metadata().ok()?;
            Some((e.file_name().to_string_lossy().into_owned(), m.len(), m.mode(), m.mtime(), m.ctime(), m.ctime_nsec(), m.nlink(), m.ino()))
        })
        .collect();
    v.sort();
    v
}

impl Scene {
    fn new(src: &mut Src, b: &[u8]) -> std::io::Result<Self> {
        let dir = crate::runner::scratch().join(format!("scene-{}-{:?}", std::process::id(), std::thread::current().id()));
        let _ = std::fs::remove_dir_all(&dir);
        std::fs::create_dir(&dir)?;
        let file = dir.join(*src.pick(&["content", "content.zip", "a b.txt"]));
        std::fs::write(&file, b)?;
        std::fs::write(dir.join("neighbour"), b"untouched")?;
        let f = std::fs::File::options().write(true).open(&file)?;
        f.set_modified(std::time::UNIX_EPOCH + std::time::Duration::from_secs(src.below(2_000_000_000)))?;
        std::fs::set_permissions(&file, std::fs::Permissions::from_mode(*src.pick(&[0o644, 0o444, 0o666, 0o755])))?;
        std::fs::set_permissions(&dir, std::fs::Permissions::from_mode(*src.pick(&[0o755, 0o555])))?;
        let seen = seen(&dir);
        Ok(Scene { dir, file, seen })
    }
}

impl Drop for Scene {
    fn drop(&mut self) {
        let _ = std::fs::set_permissions(&self.dir, std::fs::Permissions::from_mode(0o755));
        let _ = std::fs::remove_dir_all(&self.dir);
    }
}

pub fn c28(src: &mut Src, ctx: &mut Ctx) -> Res {
    let mut kind = src.weighted(&[4, 1, 3, 1, 1, 1, 1, 1]);
    let mut variant = if kind == 2 { src.below(VARIANTS) } else { 0 };
    let mode = src.below(4) as u8;
    // Rarely, a container whose telling parts are spread over up to 48 MiB.
    let large = src.chance(1, 1000);
    let f = if large {
        src.mid = Some(48 << 20);
        let k = *src.pick(&[0usize, 1, 2, 3, 4, 5, 6, 7, 8]);
        let m = crate::gens::CONTAINERS[k].1(src, ctx);
        src.mid = None;
        m?.file
    } else {
        hostile::any(src, ctx, None)?.file
    };
    if f.len() > if large { 80 << 20 } else { 1 << 20 } {
        discard!("too large");
    }
    if large {
        ctx.label("large");
    }
    let b = f.to_vec();
    ctx.file(&f);
    ctx.nontrivial |= signature_model(&b).iter().any(|m| crate::tables::family(m).is_some());
    ctx.execs += 2;
    let want = detect::bytes(&b);
    let scene = if mode >= 2 { Some(Scene::new(src, &b).expect("HARNESS: cannot make a scratch file")) } else { None };
    let path = match &scene {
        Some(s) if kind == 3 => s.file.strip_prefix(crate::runner::scratch()).unwrap_or(&s.file).to_string_lossy().into_owned(),
        Some(s) => s.file.to_string_lossy().into_owned(),
        None => String::new(),
    };
    let got = SUBJECTS.with(|m| {
        let mut m = m.borrow_mut();
        if m.entry((kind, variant)).or_insert_with(|| Subject::spawn(kind, variant)).is_none() {
            (kind, variant) = (0, 0);
        }
        let s = m.entry((kind, variant)).or_insert_with(|| Subject::spawn(kind, variant));
        let Some(subject) = s else { return Err("HARNESS".into()) };
        let r = subject.ask(mode, &b, &path);
        if r.is_err() {
            m.remove(&(kind, variant));
        }
        r
    });
    ctx.label(SURROUNDINGS[kind]);
    ctx.label(["bytes", "reader", "file", "reader of a file"][mode as usize]);
    ctx.describe(|| format!("{} bytes starting {:02x?} ({want}) as {} in surroundings '{}' -> {got:?}", b.len(), f.prefix(24), ["bytes", "reader", "file", "reader of a file"][mode as usize], SURROUNDINGS[kind]));
    let at = SURROUNDINGS[kind];
    match &got {
        Err(e) if e == "HARNESS" => panic!("HARNESS: cannot start a process"),
        Err(e) => fail!("detection process ended ({at}), where the answer is {want}: {e}"),
        Ok(g) if g.starts_with("unusable") => discard!("the surroundings do not allow to open the file"),
        Ok(g) => {
            let (g, note) = g.split_once(' ').unwrap_or((g, ""));
            if g != want {
                fail!("reported as {want} ordinarily, as {g} in other surroundings ({at})");
            }
            match note {
                "" => {}
                "settles" => ctx.label("something settled"),
                n => fail!("detection of {} bytes ({want}, {at}) {n}", b.len()),
            }
            if let Some(s) = &scene {
                // What settles may have rewritten the file to find out.
                if note.is_empty() && seen(&s.dir) != s.seen || note.is_empty() && std::fs::read(&s.file).ok().as_deref() != Some(&b[..]) {
                    fail!("the file or its directory is changed: {:?} before, {:?} after", s.seen, seen(&s.dir));
                }
            }
        }
    }
    Ok(())
}
