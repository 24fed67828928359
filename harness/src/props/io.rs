//! Short reads, interruptions and failures.

use crate::detect::name;
use crate::engine::{Ctx, Res, Src};
use crate::{discard, fail};
use crate::gens::hostile;
use crate::readers::{Fault, OverBudget, Schedule, Stats, VReader};
use crate::tables::{Text, signature_model, text_model};
use crate::vfile::VFile;
use file_format::FileFormat;
use std::io::{Error, ErrorKind};

fn run(f: &VFile, s: Option<&Schedule>, fault: Option<Fault>, st: &mut Stats) -> Result<String, Error> {
    let mut r = VReader::new(f, st);
    r.schedule = s;
    r.fault = fault;
    FileFormat::from_reader(&mut r).map(name)
}

/// A schedule of at least one productive read.
fn schedule(src: &mut Src, len: u64) -> Schedule {
    let fast = len > 300_000;
    let mut v = match src.weighted(&[3, 3, 3, 2]) {
        0 => vec![if fast { 1000 } else { 1 }],
        1 => {
            let n = src.usize(1, 4);
            (0..n).map(|_| src.edgy(if fast { 500 } else { 1 }, 40_000) as u32).collect()
        }
        2 => vec![[36_869u32, 36_870, 32_767, 32_768, 8192, 8191, 4096, 13, 512][src.below(9) as usize].max(if fast { 500 } else { 1 })],
        _ => {
            let n = src.usize(1, 8);
            (0..n).map(|_| src.range(if fast { 500 } else { 1 }, 5000) as u32).collect()
        }
    };
    if src.chance(1, 3) {
        let k = src.usize(1, 3);
        for _ in 0..k {
            let p = src.usize(0, v.len());
            // Rarely many times in a row.
            let burst = if src.chance(1, 12) { src.usize(2, 40) } else { 1 };
            v.splice(p..p, std::iter::repeat_n(0, burst));
        }
    }
    Schedule(v, false)
}

pub fn c03(src: &mut Src, ctx: &mut Ctx) -> Res {
    let a = hostile::any(src, ctx, None)?;
    let f = a.file;
    ctx.file(&f);
    let s = schedule(src, f.len().min(40 << 20));
    let mut st = Stats::default();
    let want = match run(&f, None, None, &mut st) {
        Ok(w) => w,
        Err(e) => fail!("a reader that never fails was reported to fail: {e:?}"),
    };
    if st.bytes > 4 << 20 && s.0.iter().any(|&x| x < 500) {
        return Err(crate::engine::Stop::Discard("too slow in small steps"));
    }
    let mut st = Stats::default();
    let got = run(&f, Some(&s), None, &mut st);
    ctx.execs += 2;
    ctx.key ^= crate::engine::hash_bytes(7, &s.0.iter().flat_map(|x| x.to_le_bytes()).collect::<Vec<u8>>());
    ctx.nontrivial = st.short_reads + st.interrupts > 0;
    if st.interrupts > 0 {
        ctx.label("interrupted");
    }
    if st.short_reads > 0 {
        ctx.label("short reads");
    }
    ctx.describe(|| {
        format!("{} bytes starting {:02x?}, schedule {:?}: {} short reads, {} interruptions -> {want}", f.len(), f.prefix(16), s.0, st.short_reads, st.interrupts)
    });
    match got {
        Ok(g) if g == want => Ok(()),
        Ok(g) => fail!("reported as {want} when read at once, as {g} under the read schedule {:?} (0 = interrupted)", s.0),
        Err(e) => fail!("read schedule {:?} (0 = interrupted) makes detection fail: {e:?}; read at once it is {want}", s.0),
    }
}

const KINDS: [ErrorKind; 18] = [
    ErrorKind::Other, ErrorKind::UnexpectedEof, ErrorKind::InvalidData, ErrorKind::InvalidInput, ErrorKind::PermissionDenied,
    ErrorKind::TimedOut, ErrorKind::WouldBlock, ErrorKind::BrokenPipe, ErrorKind::ConnectionReset, ErrorKind::OutOfMemory,
    ErrorKind::NotFound, ErrorKind::ConnectionAborted, ErrorKind::NotConnected, ErrorKind::WriteZero, ErrorKind::Unsupported,
    ErrorKind::AlreadyExists, ErrorKind::AddrInUse, ErrorKind::ConnectionRefused,
];

/// EPERM, EIO, ENXIO, EBADF, EAGAIN, ENOMEM, EACCES, EFAULT, ENODEV, EISDIR, EINVAL, ESPIPE, EOVERFLOW, ENODATA,
/// EREMOTEIO, ESTALE.
const ERRNOS: [i32; 16] = [1, 5, 6, 9, 11, 12, 13, 14, 19, 21, 22, 29, 75, 61, 121, 116];

fn fault(src: &mut Src, at: u64) -> Fault {
    let mut f = Fault { at, persistent: false, kind: *src.pick(&KINDS), raw: None };
    f.persistent = src.bool();
    match src.weighted(&[4, 1, 2]) {
        0 => {}
        1 => f.raw = Some(0),
        _ => {
            let any = src.chance(1, 3).then(|| src.range(1, 133) as i32).filter(|&e| e != 4);
            f.raw = Some(any.unwrap_or_else(|| *src.pick(&ERRNOS)));
            f.kind = f.error().kind();
        }
    }
    f
}

pub fn c04(src: &mut Src, ctx: &mut Ctx) -> Res {
    if src.chance(1, 400) {
        return if src.chance(2, 3) { c04_open(src, ctx) } else { c04_pipe(src, ctx) };
    }
    // An intact container whose fields are read in small steps, or anything.
    let sweep = src.chance(1, 2);
    let f = if sweep {
        let k = src.cycle(crate::gens::CONTAINERS.len() as u64) as usize;
        crate::gens::CONTAINERS[k].1(src, ctx)?.file
    } else {
        hostile::any(src, ctx, None)?.file
    };
    ctx.file(&f);
    let sched = if sweep {
        let n = src.usize(1, 3);
        Some(Schedule((0..n).map(|_| src.edgy(1, 24) as u32).collect(), true))
    } else if src.chance(1, 2) {
        Some(schedule(src, u64::MAX))
    } else {
        None
    };
    let mut st = Stats::default();
    let mut want = run(&f, if sweep { None } else { sched.as_ref() }, None, &mut st);
    // Small steps only where little is read.
    let sched = if sweep && st.bytes > 400_000 { None } else { sched };
    if sweep && sched.is_some() {
        st = Stats::default();
        want = run(&f, sched.as_ref(), None, &mut st);
    }
    let want = match want {
        Ok(w) => w,
        Err(e) => fail!("a reader that never fails was reported to fail: {e:?}"),
    };
    // All calls when they are few, or some of them.
    let (ops, head) = (st.ops, st.head_ops);
    let all = if sweep { ops <= 100 } else { ops <= 24 && src.chance(1, 2) };
    let n = if all {
        ops
    } else if f.len() > 1 << 20 && !(sweep && sched.is_some()) {
        1
    } else if sweep {
        50
    } else {
        src.range(1, 12)
    };
    let model = signature_model(&f.prefix(36_870));
    let text = std::cell::OnceCell::new();
    let mut notes = String::new();
    for i in 0..n {
        let k = if all {
            i
        } else {
            match src.below(if ops > head { 5 } else { 3 }) {
                0 => src.below(ops.min(6)),
                1 => src.below(ops),
                3 | 4 => src.range(head, ops - 1),
                _ => ops - 1 - src.below(ops.min(6)),
            }
        };
        let fault = fault(src, k);
        let (kind, persistent) = (fault.kind, fault.persistent);
        let mut st = Stats::default();
        let got = run(&f, sched.as_ref(), Some(fault), &mut st);
        ctx.execs += 1;
        ctx.key ^= crate::engine::mix(k, kind as u64 * 2 + persistent as u64 + i * 64);
        ctx.nontrivial |= st.faulted;
        if i == 0 {
            ctx.label(if st.fault_in_head {
                "fault at the beginning of the stream"
            } else if st.faulted {
                "later fault"
            } else {
                "fault not reached"
            });
            notes = format!("call {k} fails with {kind:?}, persistent {persistent} -> {got:?}");
        }
        match got {
            Err(e) if st.faulted && e.kind() == kind => {}
            Err(e) => fail!("call {k} fails with {kind:?} but the error is {e:?}"),
            Ok(g) if st.fault_in_head => fail!("call {k} fails with {kind:?} while the beginning is read, but the answer is {g}"),
            Ok(g) => {
                let ok = g == want
                    || model.contains(&g.as_str())
                    || g == "ArbitraryBinaryData"
                    || g == "PlainText" && *text.get_or_init(|| text_model(&f)) != Text::No;
                if !ok {
                    fail!("call {k} of {ops} fails with {kind:?} (persistent: {persistent}): reported as {g}, without failure it is {want}, by signature {model:?}");
                }
            }
        }
    }
    ctx.label(if n > 1 { "several faults in turn" } else { "one fault" });
    ctx.execs += 1;
    ctx.describe(|| format!("{} bytes starting {:02x?} ({want}), {n} of {ops} calls fail in turn; {notes}", f.len(), f.prefix(16)));
    Ok(())
}

/// A stream that cannot be seeked at all: a pipe, as a reader and through its path.
fn c04_pipe(src: &mut Src, ctx: &mut Ctx) -> Res {
    use std::io::Write;
    use std::os::fd::AsRawFd;
    let f = hostile::any(src, ctx, None)?.file;
    if f.len() > 60_000 {
        discard!("too large for a pipe");
    }
    let b = f.to_vec();
    ctx.file(&f);
    ctx.label("pipe");
    ctx.nontrivial = true;
    let by_path = src.bool() && std::path::Path::new("/dev/fd/0").exists();
    let (rx, mut tx) = std::io::pipe().expect("HARNESS: no pipe");
    tx.write_all(&b).expect("HARNESS: the pipe is full");
    drop(tx);
    ctx.execs += 2;
    let want = crate::detect::bytes(&b);
    let got = if by_path {
        FileFormat::from_file(format!("/dev/fd/{}", rx.as_raw_fd()))
    } else {
        FileFormat::from_reader(std::fs::File::from(std::os::fd::OwnedFd::from(rx)))
    };
    ctx.describe(|| format!("{} bytes starting {:02x?} ({want}) in a pipe -> {got:?}", b.len(), f.prefix(16)));
    let model = signature_model(&f.prefix(36_870));
    match got.map(name) {
        Err(e) if e.raw_os_error() == Some(29) => Ok(()),
        Err(e) => fail!("a pipe cannot be seeked, but the error is {e:?}"),
        Ok(g) => {
            let ok = g == want
                || model.contains(&g.as_str())
                || !b.is_empty() && g == "ArbitraryBinaryData"
                || g == "PlainText" && text_model(&f) != Text::No;
            if ok { Ok(()) } else { fail!("{} bytes in a pipe are reported as {g}, in a file as {want}, by signature {model:?}", b.len()) }
        }
    }
}

/// Paths that cannot be opened or read.
fn c04_open(src: &mut Src, ctx: &mut Ctx) -> Res {
    use std::os::unix::fs::{PermissionsExt, symlink};
    static ONCE: std::sync::Once = std::sync::Once::new();
    let dir = crate::runner::scratch();
    ONCE.call_once(|| {
        // Several workers may share the directory.
        let _ = std::fs::write(dir.join("a file"), b"x");
        let _ = symlink(dir.join("nowhere"), dir.join("dangling"));
        let _ = symlink(dir.join("loop"), dir.join("loop"));
        let _ = std::os::unix::net::UnixListener::bind(dir.join("socket"));
        let _ = std::fs::create_dir(dir.join("empty.zip"));
    });
    let ways = 13;
    let way = src.below(ways);
    let path: std::path::PathBuf = match way {
        0 => dir.join(format!("missing-{}", src.below(1000))),
        1 => dir.clone(),
        2 => dir.join("no\0name"),
        3 => dir.join("x".repeat(src.usize(300, 5000))),
        4 => dir.join("a file/below"),
        5 => dir.join("a file/"),
        6 => "".into(),
        7 => dir.join("dangling"),
        8 => dir.join("loop"),
        9 => dir.join("socket"),
        10 => dir.join("empty.zip"),
        11 => dir.join(format!("missing-{}/a/b.txt", src.below(1000))),
        _ => dir.join("secret"),
    };
    ctx.label("open failure");
    ctx.nontrivial = true;
    ctx.key = crate::engine::hash_bytes(1, path.to_string_lossy().as_bytes());
    ctx.execs += 1;
    if way + 1 == ways {
        // Without permission: as another user.
        if std::fs::write(&path, b"PK\x03\x04").is_err() || std::fs::set_permissions(&path, std::fs::Permissions::from_mode(0)).is_err() {
            discard!("no file to forbid");
        }
        return c04_forbidden(&path, ctx);
    }
    // The expected kind is whatever the standard library reports for the same path.
    let Err(e) = std::fs::File::open(&path).and_then(|mut f| std::io::Read::read(&mut f, &mut [0; 16])) else {
        discard!("the path can be read");
    };
    let kind = e.kind();
    ctx.describe(|| format!("from_file on a path that fails with {kind:?}"));
    match FileFormat::from_file(&path) {
        Err(e) if e.kind() == kind => Ok(()),
        Err(e) => fail!("opening fails with {kind:?} but the error is {e:?}"),
        Ok(g) => fail!("opening or reading fails with {kind:?} but the answer is {g:?}"),
    }
}

/// Tries a path as an unprivileged user; the process prints what it got.
pub fn open_as_other(path: &str) {
    let want = std::fs::File::open(path).map(|_| ()).map_err(|e| e.kind());
    let got = FileFormat::from_file(path).map_err(|e| e.kind());
    println!("{want:?}\n{got:?}");
}

fn c04_forbidden(path: &std::path::Path, ctx: &mut Ctx) -> Res {
    use std::os::unix::process::CommandExt;
    let exe = std::env::current_exe().expect("HARNESS: no executable");
    let out = std::process::Command::new(exe).arg("open").arg(path).uid(65_534).gid(65_534).output();
    let text = match &out {
        Ok(o) if o.status.success() => String::from_utf8_lossy(&o.stdout).into_owned(),
        _ => discard!("no other user to be"),
    };
    let mut lines = text.lines();
    let (want, got) = (lines.next().unwrap_or(""), lines.next().unwrap_or(""));
    ctx.describe(|| format!("from_file without permission: {got}"));
    if !want.contains("PermissionDenied") {
        discard!("everything is permitted");
    }
    ctx.label("without permission");
    if got != "Err(PermissionDenied)" {
        fail!("opening is not permitted, but the answer is {got}");
    }
    Ok(())
}

/// Detection under call and byte budgets; Err is the budget message.
pub fn budgeted(f: &VFile, max_ops: u64, max_bytes: u64) -> (Result<Result<String, Error>, String>, Stats) {
    let mut st = Stats::default();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let mut r = VReader::new(f, &mut st);
        r.max_ops = max_ops;
        r.max_bytes = max_bytes;
        FileFormat::from_reader(&mut r).map(name)
    }));
    match r {
        Ok(v) => (Ok(v), st),
        Err(p) => match p.downcast::<OverBudget>() {
            Ok(o) => (Err(o.0), st),
            Err(p) => std::panic::resume_unwind(p),
        },
    }
}
