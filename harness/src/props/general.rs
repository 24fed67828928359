//! Robustness, agreement of entry points, resource bounds, features, metadata, families.

use super::signatures::allowed;
use crate::detect::{self, name};
use crate::engine::{Ctx, Res, Src};
use crate::gens::{endless, hostile};
use crate::tables::{FORMATS, signature_model};
use crate::variants::VARIANTS;
use crate::vfile::{Fill, VFile};
use crate::{alloc, fail};
use file_format::FileFormat;
use std::io::{BufReader, Cursor};

fn head_note(f: &VFile) -> String {
    format!("{} bytes starting {:02x?}", f.len(), f.prefix(32))
}

pub fn c01(src: &mut Src, ctx: &mut Ctx) -> Res {
    let f = if src.chance(1, 24) { endless::make(src, ctx) } else { hostile::any(src, ctx, None)?.file };
    ctx.file(&f);
    ctx.describe(|| head_note(&f));
    // A panic here is reported by the runner.
    if f.len() <= 4 << 20 {
        let b = f.to_vec();
        ctx.execs += 1;
        detect::bytes(&b);
        if src.chance(1, 4) {
            ctx.execs += 1;
            let c = *src.pick(&["umbrella-release", "none", "txt"]);
            if let Err(e) = detect::with_config(c, &b) {
                fail!("configuration {c}: {e}");
            }
        }
    }
    if f.len() > 4 << 20 || src.chance(1, 4) {
        ctx.execs += 1;
        let mut st = crate::readers::Stats::default();
        let mut r = crate::readers::VReader::new(&f, &mut st);
        // Endless work is judged by another property.
        r.max_ops = 5_000_000;
        r.max_bytes = MAX_BYTES;
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| FileFormat::from_reader(&mut r).map(name)));
        match r {
            Ok(Ok(_)) => {}
            Ok(Err(e)) => fail!("a reader that never fails was reported to fail: {e:?}"),
            Err(p) if p.is::<crate::readers::OverBudget>() => {}
            Err(p) => std::panic::resume_unwind(p),
        }
    }
    Ok(())
}

thread_local! {
    static SERIAL: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
}

pub fn on_file(dir: &std::path::Path, b: &[u8]) -> Result<String, String> {
    named_file(dir, b, None, 0)
}

/// Detection from a file with a given extension, behind a link, read-only, through various path types.
fn named_file(dir: &std::path::Path, b: &[u8], ext: Option<&std::ffi::OsStr>, way: u64) -> Result<String, String> {
    let mut n = std::ffi::OsString::from(format!("c02-{}-{:?}", std::process::id(), std::thread::current().id()));
    let link = dir.join(format!("link-{}", n.to_string_lossy()));
    if let Some(e) = ext {
        n.push(".");
        n.push(e);
    }
    let p = dir.join(&n);
    std::fs::write(&p, b).expect("HARNESS: cannot write a scratch file");
    let r = match way {
        1 => {
            let _ = std::fs::remove_file(&link);
            std::os::unix::fs::symlink(&p, &link).expect("HARNESS: cannot link a scratch file");
            let r = FileFormat::from_file(&link);
            let _ = std::fs::remove_file(&link);
            r
        }
        2 => FileFormat::from_file(p.as_os_str().to_os_string()),
        3 => match p.to_str() {
            Some(s) => FileFormat::from_file(s),
            None => FileFormat::from_file(p.as_path()),
        },
        4 => FileFormat::from_file(std::path::Path::new(dir).join(".").join(&n)),
        5 => {
            // As a reader, shared and mutable.
            let f = std::fs::File::open(&p).expect("HARNESS: cannot open a scratch file");
            FileFormat::from_reader(&f)
        }
        6 => {
            let f = std::fs::File::open(&p).expect("HARNESS: cannot open a scratch file");
            FileFormat::from_reader(Box::new(BufReader::new(f)))
        }
        _ => FileFormat::from_file(&p),
    };
    let _ = std::fs::remove_file(&p);
    r.map(name).map_err(|e| format!("{e:?}"))
}

/// An extension: that of some format, or any other.
fn extension(src: &mut Src) -> std::ffi::OsString {
    use std::os::unix::ffi::OsStringExt;
    if let Some(w) = crate::dict::word(src).filter(|w| w.len() < 100 && !w.contains(&0) && !w.contains(&b'/')) {
        return std::ffi::OsString::from_vec(w.to_vec());
    }
    match src.below(5) {
        0..=2 => FORMATS[src.below(FORMATS.len() as u64) as usize].ext.into(),
        3 => {
            let e = ["txt", "TXT", "md", "bin", "json", "log", "zip", "docx", "xml", "exe", "dll", "mp3", "mp4", "", "tar.gz"];
            (*src.pick(&e)).into()
        }
        _ => {
            let n = src.usize(1, 6);
            std::ffi::OsString::from_vec((0..n).map(|_| [b'a', b' ', 0xFF, b'.', 0xC3, b'\n', b'z'][src.below(7) as usize]).collect())
        }
    }
}

/// Files of the kernel, whose recorded size is not that of their content.
fn kernel_file(src: &mut Src, ctx: &mut Ctx) -> Res {
    let p = *src.pick(&[
        "/proc/version", "/proc/filesystems", "/proc/cmdline", "/proc/self/limits", "/proc/self/cmdline", "/proc/devices",
        "/sys/kernel/mm/transparent_hugepage/enabled", "/sys/devices/system/cpu/possible", "/proc/sys/kernel/ostype",
    ]);
    let Ok(b) = std::fs::read(p) else { return Err(crate::engine::Stop::Discard("no such kernel file")) };
    if signature_model(&b) != ["ArbitraryBinaryData"] && !signature_model(&b).is_empty() {
        return Err(crate::engine::Stop::Discard("kernel file with a signature"));
    }
    ctx.label("file with a recorded size that is not its length");
    ctx.key = crate::engine::hash_bytes(2, p.as_bytes());
    ctx.execs += 2;
    let want = detect::bytes(&b);
    ctx.describe(|| format!("{p}: {} bytes -> {want}", b.len()));
    let got = FileFormat::from_file(p).map(name);
    if std::fs::read(p).ok().as_ref() != Some(&b) {
        return Err(crate::engine::Stop::Discard("the kernel file has changed"));
    }
    match got {
        Ok(g) if g == want => Ok(()),
        g => fail!("from_bytes of the content of {p} gives {want}, from_file gives {g:?}"),
    }
}

/// Files with holes, up to many terabytes, as large as the file system allows.
fn sparse_file(src: &mut Src, ctx: &mut Ctx) -> Res {
    src.mid = Some(1 << *src.pick(&[32u32, 33, 34, 40, 42]));
    let k = *src.pick(&[0usize, 0, 1, 2, 3, 4, 5, 6, 7]);
    let m = crate::gens::CONTAINERS[k].1(src, ctx);
    src.mid = None;
    let mut f = m?.file;
    if src.chance(1, 4) {
        f.fill(src.edgy(1, 1 << 40), Fill::Byte(0));
    }
    f.sparse();
    if f.dense_len() > 8 << 20 {
        return Err(crate::engine::Stop::Discard("too large for a file"));
    }
    let p = crate::runner::scratch().join(format!("sparse-{}-{:?}", std::process::id(), std::thread::current().id()));
    if f.write_sparse(&p).is_err() {
        let _ = std::fs::remove_file(&p);
        return Err(crate::engine::Stop::Discard("too large for the file system"));
    }
    ctx.file(&f);
    ctx.nontrivial = true;
    ctx.label(if f.len() > u32::MAX as u64 { "sparse file of more than 4 GiB" } else { "sparse file" });
    ctx.execs += 2;
    let want = detect::virt(&f).map_err(|e| format!("{e:?}"));
    let got = FileFormat::from_file(&p).map(name).map_err(|e| format!("{e:?}"));
    let _ = std::fs::remove_file(&p);
    ctx.describe(|| format!("{} on a file system -> {got:?}", head_note(&f)));
    if got != want {
        fail!("a reader over {} bytes gives {want:?}, a file with the same content gives {got:?}", f.len());
    }
    Ok(())
}

/// Contents that resemble `b`: same head, same length, or a part of it.
fn sibling(src: &mut Src, b: &[u8]) -> Vec<u8> {
    let mut v = b.to_vec();
    let at = if b.is_empty() { 0 } else { [src.usize(0, b.len() - 1), src.usize(0, b.len().min(600) - 1), b.len().min(64), b.len().min(512)][src.below(4) as usize] };
    match src.below(5) {
        0 => v[at..].fill(0),
        1 => v[at..].fill(b'A'),
        2 => v.truncate(at),
        3 => v.extend(vec![0u8; src.usize(1, 5000)]),
        _ => {
            for x in v[at..].iter_mut() {
                *x = x.rotate_left(1) ^ 0x55;
            }
        }
    }
    v
}

pub fn c02(src: &mut Src, ctx: &mut Ctx) -> Res {
    if src.chance(1, 1000) {
        return kernel_file(src, ctx);
    }
    if src.chance(1, 150) {
        return sparse_file(src, ctx);
    }
    // Rarely, a container whose telling parts are spread over up to 96 MiB.
    let large = src.chance(1, 400);
    let f = if large {
        src.mid = Some(96 << 20);
        let k = [0usize, 0, 1, 2, 3, 4, 5, 6, 7, 8][src.below(10) as usize];
        let m = crate::gens::CONTAINERS[k].1(src, ctx);
        src.mid = None;
        m?.file
    } else {
        hostile::any(src, ctx, None)?.file
    };
    if f.len() > if large { 200 << 20 } else { 4 << 20 } {
        return Err(crate::engine::Stop::Discard("too large for a file"));
    }
    let b = f.to_vec();
    ctx.file(&f);
    if f.len() > 32 << 20 {
        ctx.label("more than 32 MiB");
    }
    let want = detect::bytes(&b);
    ctx.describe(|| format!("{} -> {want}", head_note(&f)));
    ctx.nontrivial |= signature_model(&b).iter().any(|m| crate::tables::family(m).is_some());
    let history = src.chance(1, 8);
    if history {
        ctx.label("history");
    }
    let mut check = |what: &str, got: Result<String, String>| -> Res {
        ctx.execs += 1;
        match got {
            Ok(g) if g == want => Ok(()),
            Ok(g) => fail!("from_bytes gives {want}, {what} gives {g}"),
            Err(e) => fail!("from_bytes gives {want}, {what} fails: {e}"),
        }
    };
    let e = |e: std::io::Error| format!("{e:?}");
    check("a second call", Ok(detect::bytes(&b)))?;
    check("conversion from a slice", Ok(name(FileFormat::from(b.as_slice()))))?;
    check("a cursor", FileFormat::from_reader(Cursor::new(b.as_slice())).map(name).map_err(e))?;
    if f.len() > 4 << 20 {
        check("a virtual reader", detect::virt(&f).map_err(e))?;
        return if src.chance(1, 6) { check("a file in memory", on_file(&crate::runner::scratch(), &b)) } else { Ok(()) };
    }
    check("from_bytes of a vector", Ok(name(FileFormat::from_bytes(b.clone()))))?;
    check("an owning cursor", FileFormat::from_reader(Cursor::new(b.clone())).map(name).map_err(e))?;
    let mut c = Cursor::new(b.as_slice());
    check("a cursor by reference", FileFormat::from_reader(&mut c).map(name).map_err(e))?;
    let cap = [8192usize, 1, 7, 100, 65_536][src.below(5) as usize];
    if cap > 50 || b.len() < 20_000 {
        check("a buffered cursor", FileFormat::from_reader(BufReader::with_capacity(cap, Cursor::new(b.as_slice()))).map(name).map_err(e))?;
    }
    check("a virtual reader", detect::virt(&f).map_err(e))?;
    match src.below(4) {
        0 | 1 => {
            let way = src.below(7);
            let ext = if src.bool() { Some(extension(src)) } else { None };
            let what = format!("a file in memory (extension {ext:?}, way {way})");
            check(&what, named_file(&crate::runner::scratch(), &b, ext.as_deref(), way))?
        }
        2 => check("a file on disk", on_file(&crate::runner::disk_scratch(), &b))?,
        _ => check("a release build", detect::with_config("umbrella-release", &b))?,
    }
    if history {
        // Histories: other contents in between do not matter.
        let n = src.usize(1, 5);
        let mut others = Vec::new();
        for _ in 0..n {
            if src.chance(2, 3) && b.len() <= 1 << 20 {
                others.push(sibling(src, &b));
                continue;
            }
            let o = hostile::any(src, &mut Ctx::default(), None)?.file;
            if o.len() <= 1 << 20 {
                others.push(o.to_vec());
            }
        }
        let first: Vec<String> = others.iter().map(|o| detect::bytes(o)).collect();
        check("a call after other contents", Ok(detect::bytes(&b)))?;
        for (o, w) in others.iter().zip(&first).rev() {
            let g = detect::bytes(o);
            if g != *w {
                fail!("the same {} bytes starting {:02x?} are reported as {w}, and as {g} after other calls", o.len(), &o[..o.len().min(32)]);
            }
        }
        check("a call after other contents", Ok(detect::bytes(&b)))?;
        // The same contents in another order: in another process, and in threads that start afresh.
        let afresh = src.chance(1, 4);
        for (o, w) in others.iter().zip(&first).rev() {
            let g = if afresh {
                std::thread::scope(|s| s.spawn(|| detect::bytes(o)).join().unwrap_or_else(|_| "a panic".into()))
            } else if o.is_empty() {
                continue;
            } else {
                detect::with_config("umbrella-release", o).unwrap_or_else(|e| e)
            };
            if g != *w {
                fail!("the same {} bytes starting {:02x?} are reported as {w}, and as {g} in another {}", o.len(), &o[..o.len().min(32)], if afresh { "thread" } else { "process" });
            }
        }
        // The same contents in one file, one after the other: with its number and its times kept,
        // and replaced by another file of that name.
        if src.chance(1, 2) {
            let replace = src.bool();
            let p = crate::runner::scratch().join(format!("c02-{}-{:?}-again", std::process::id(), std::thread::current().id()));
            let time = std::time::SystemTime::UNIX_EPOCH + std::time::Duration::from_secs(1_500_000_000);
            for (o, w) in others.iter().zip(&first).chain([(&b, &want)]).chain(others.iter().zip(&first)) {
                if replace {
                    let _ = std::fs::remove_file(&p);
                }
                std::fs::write(&p, o).expect("HARNESS: cannot write a scratch file");
                let f = std::fs::File::options().write(true).open(&p).expect("HARNESS: scratch file");
                f.set_times(std::fs::FileTimes::new().set_modified(time).set_accessed(time)).expect("HARNESS: times of a scratch file");
                drop(f);
                let g = FileFormat::from_file(&p).map_or_else(|e| format!("{e:?}"), name);
                if g != *w {
                    let _ = std::fs::remove_file(&p);
                    fail!("{} bytes starting {:02x?} are reported as {w}, and as {g} in a file that had another content before", o.len(), &o[..o.len().min(32)]);
                }
            }
            let _ = std::fs::remove_file(&p);
        }
        // Several contents at once.
        if src.chance(1, 4) {
            let got: Vec<Vec<String>> = std::thread::scope(|s| {
                let hs: Vec<_> = others.iter().map(|o| s.spawn(|| (0..8).map(|_| detect::bytes(o)).collect::<Vec<_>>())).collect();
                hs.into_iter().map(|h| h.join().unwrap_or_else(|_| vec!["a panic".into()])).collect()
            });
            for ((o, w), g) in others.iter().zip(&first).zip(got) {
                if let Some(g) = g.iter().find(|g| *g != w) {
                    fail!("the same {} bytes starting {:02x?} are reported as {w}, and as {g} while other contents are detected by other threads", o.len(), &o[..o.len().min(32)]);
                }
            }
        }
    }
    if src.chance(1, 64) {
        let got: Vec<String> = std::thread::scope(|s| {
            let hs: Vec<_> = (0..4).map(|_| s.spawn(|| detect::bytes(&b))).collect();
            hs.into_iter().map(|h| h.join().unwrap_or_else(|_| "a panic".into())).collect()
        });
        for g in got {
            check("a concurrent call", Ok(g))?;
        }
    }
    Ok(())
}

/// A container one of whose lengths or counts is large, in a stream long enough to hold as much.
fn lengthy(src: &mut Src, ctx: &mut Ctx) -> Result<VFile, crate::engine::Stop> {
    let k = src.below(crate::gens::CONTAINERS.len() as u64) as usize;
    let mut f = crate::gens::CONTAINERS[k].1(src, ctx)?.file;
    let wide: Vec<_> = f.fields.iter().copied().filter(|x| x.width >= 3).collect();
    // Two adjacent equal fields (a size before and after compression) at once.
    let twins: Vec<_> = wide
        .windows(2)
        .filter(|w| w[0].width == w[1].width && w[0].off + w[0].width as u64 == w[1].off)
        .filter(|w| f.slice(w[0].off, w[0].width as usize) == f.slice(w[1].off, w[1].width as usize))
        .map(|w| (w[0], w[1]))
        .collect();
    if !twins.is_empty() && src.bool() {
        let (a, b) = *src.pick(&twins);
        let top = 1 << [22, 24, 31][src.below(3) as usize];
        let v = src.edgy(1 << 20, top);
        hostile::set_field(&mut f, a, v);
        hostile::set_field(&mut f, b, v);
    } else if !wide.is_empty() {
        let fl = *src.pick(&wide);
        // A one-byte variable-width number cannot be large.
        let v = match src.below(3) {
            0 => src.edgy(1 << 20, 1 << 24),
            1 => src.edgy(1 << 20, 1 << 31),
            _ => src.edgy(1 << 20, 1 << 48),
        };
        hostile::set_field(&mut f, fl, v);
    }
    // An archive ends with its directory.
    if crate::gens::CONTAINERS[k].0 != "zip" {
        let n = src.edgy(1 << 24, 1 << 50);
        f.fill(n, Fill::Byte(src.below(2) as u8 * b'A'));
    }
    ctx.label("large length in a long stream");
    ctx.nontrivial = true;
    Ok(f)
}

/// A content for the resource bounds: endless streams (`endless` in 12), large lengths (`large` in
/// 12), or anything.
fn demanding(src: &mut Src, ctx: &mut Ctx, endless: u64, large: u64) -> Result<VFile, crate::engine::Stop> {
    match src.weighted(&[endless, large, 12 - endless - large]) {
        0 => return Ok(endless::make(src, ctx)),
        1 => return lengthy(src, ctx),
        _ => {}
    }
    let mut f = hostile::any(src, ctx, None)?.file;
    if src.chance(1, 2) {
        let n = src.edgy(1, 1 << 50);
        let fill = match src.below(3) {
            0 => Fill::Byte(0),
            1 => Fill::Byte(b'A'),
            _ => {
                let k = f.len().min(64) as usize;
                Fill::Repeat(f.slice(f.len() - k as u64, k))
            }
        };
        f.fill(n, fill);
    }
    Ok(f)
}

pub const MAX_CALLS: u64 = 300_000;
pub const MAX_BYTES: u64 = 256 << 20;

pub fn c05(src: &mut Src, ctx: &mut Ctx) -> Res {
    let f = demanding(src, ctx, 8, 1)?;
    ctx.file(&f);
    ctx.nontrivial |= f.len() > 1 << 20;
    let (r, st) = super::io::budgeted(&f, MAX_CALLS, MAX_BYTES);
    ctx.execs += 1;
    ctx.describe(|| format!("{}: {} calls, {} bytes read", head_note(&f), st.ops, st.bytes));
    ctx.label(match st.ops {
        0..=99 => "under 100 calls",
        100..=999 => "under 1,000 calls",
        1000..=9999 => "under 10,000 calls",
        _ => "at least 10,000 calls",
    });
    ctx.label(match st.bytes >> 20 {
        0 => "under 1 MiB read",
        1..=15 => "under 16 MiB read",
        16..=63 => "under 64 MiB read",
        _ => "at least 64 MiB read",
    });
    match r {
        Ok(Ok(_)) => Ok(()),
        Ok(Err(e)) => fail!("a reader that never fails was reported to fail: {e:?}"),
        Err(m) => fail!("detection exceeds its budget: {m}"),
    }
}

pub const MAX_HEAP: usize = 1 << 20;
/// Stack of the thread that makes the call: about five times what the pinned tree needs.
pub const MAX_STACK: usize = 512 << 10;

pub fn c06(src: &mut Src, ctx: &mut Ctx) -> Res {
    let f = demanding(src, ctx, 3, 6)?;
    ctx.file(&f);
    let ((r, st), u) = crate::runner::on_small_stack(MAX_STACK, || alloc::measure(|| super::io::budgeted(&f, MAX_CALLS * 4, MAX_BYTES)));
    ctx.execs += 1;
    drop(r);
    ctx.describe(|| format!("{}: peak {} bytes of heap, largest block {}, {} calls", head_note(&f), u.peak, u.largest, st.ops));
    ctx.label(match u.peak {
        0..=1023 => "under 1 KiB",
        1024..=16_383 => "under 16 KiB",
        16_384..=131_071 => "under 128 KiB",
        _ => "at least 128 KiB",
    });
    if u.peak > MAX_HEAP || u.largest > MAX_HEAP {
        fail!("heap use peaks at {} bytes, largest block {} bytes (allowed: {MAX_HEAP})", u.peak, u.largest);
    }
    Ok(())
}

/// The names of the readers, as in the feature names.
pub const READERS: [&str; 12] = ["asf", "cfb", "ebml", "exe", "id3v2", "mp4", "pdf", "rm", "sqlite3", "txt", "xml", "zip"];

/// Configurations besides the single readers: (name, readers).
pub fn configurations() -> Vec<(String, Vec<&'static str>)> {
    let mut v: Vec<(String, Vec<&'static str>)> = vec![
        ("none".into(), vec![]),
        ("umbrella".into(), READERS.to_vec()),
        ("all".into(), READERS.to_vec()),
    ];
    for r in READERS {
        v.push((r.into(), vec![r]));
        v.push((format!("no-{r}"), READERS.into_iter().filter(|x| *x != r).collect()));
    }
    // Random subsets are named by the check script.
    for s in std::env::var("FFCHECK_SUBSETS").unwrap_or_default().split_whitespace() {
        let rs: Vec<&'static str> = s.split('+').filter_map(|x| READERS.iter().find(|r| **r == x).copied()).collect();
        v.push((s.to_string(), rs));
    }
    v
}

pub fn c11(src: &mut Src, ctx: &mut Ctx) -> Res {
    let f = hostile::any(src, ctx, None)?.file;
    if f.len() > 1 << 20 {
        return Err(crate::engine::Stop::Discard("too large for the pipes"));
    }
    let b = f.to_vec();
    if b.is_empty() {
        return Err(crate::engine::Stop::Discard("empty"));
    }
    ctx.file(&f);
    thread_local! {
        static CONFIGS: Vec<(String, Vec<&'static str>)> = configurations();
    }
    let n = CONFIGS.with(|c| c.len()) as u64;
    let (cfg, readers) = CONFIGS.with(|c| c[src.below(n) as usize].clone());
    let ask = |c: &str, ctx: &mut Ctx| -> Result<String, crate::engine::Stop> {
        ctx.execs += 1;
        detect::with_config(c, &b).map_err(|e| crate::engine::Stop::Fail(format!("configuration {c}: {e}")))
    };
    let full = detect::bytes(&b);
    let sig = ask("none", ctx)?;
    let got = ask(&cfg, ctx)?;
    let fam = crate::tables::family(&sig).map(|f| f.1);
    let txt = readers.contains(&"txt");
    let want = match fam {
        // The signature settles it.
        None if sig != "ArbitraryBinaryData" => sig.clone(),
        // Nothing but text detection can apply.
        None => {
            if txt {
                ask("txt", ctx)?
            } else {
                sig.clone()
            }
        }
        Some(r) if readers.contains(&r) => {
            if txt {
                full.clone()
            } else {
                ask(r, ctx)?
            }
        }
        Some(_) => sig.clone(),
    };
    ctx.label(format!("config {}", if cfg.contains('+') { "random subset" } else { &cfg }));
    ctx.label(format!("family {}", fam.unwrap_or("-")));
    ctx.nontrivial = fam.is_some() || sig == "ArbitraryBinaryData" && full != sig;
    ctx.describe(|| format!("{} by signature {sig}; configuration {cfg} -> {got}", head_note(&f)));
    if got != want {
        fail!("by signature {sig}; configuration {cfg} gives {got}, must be {want} (all readers: {full})");
    }
    // The family's own reader agrees with the full configuration, up to the text fallback.
    if let Some(r) = fam {
        let own = ask(r, ctx)?;
        if own != full && !(own == "ArbitraryBinaryData" && full == "PlainText") {
            fail!("by signature {sig}; its reader alone gives {own}, all readers give {full}");
        }
    } else if sig == "ArbitraryBinaryData" {
        let t = ask("txt", ctx)?;
        if t != full {
            fail!("no signature; text detection alone gives {t}, all readers give {full}");
        }
    } else if full != sig {
        fail!("signature of {sig}, which has no reader, but all readers give {full}");
    }
    Ok(())
}

fn token(s: &str) -> bool {
    // RFC 6838 restricted-name.
    let b = s.as_bytes();
    !b.is_empty()
        && b.len() <= 127
        && b[0].is_ascii_alphanumeric()
        && b.iter().all(|c| c.is_ascii_alphanumeric() || b"!#$&-^_.+".contains(c))
}

fn well_formed(f: FileFormat) -> Res {
    let (n, m, e) = (f.name(), f.media_type(), f.extension());
    if n.is_empty() || n.trim() != n {
        fail!("{f:?} has the malformed name {n:?}");
    }
    if f.short_name().is_some_and(|s| s.is_empty() || s.trim() != s) {
        fail!("{f:?} has the malformed short name {:?}", f.short_name());
    }
    match m.split_once('/') {
        Some((a, b)) if token(a) && token(b) => {}
        _ => fail!("{f:?} has the malformed media type {m:?}"),
    }
    if e.is_empty() || e.starts_with('.') || e.contains(['/', ' ']) {
        fail!("{f:?} has the malformed extension {e:?}");
    }
    Ok(())
}

fn documented(v: &str, f: FileFormat) -> Res {
    let Some(d) = crate::tables::BY_VARIANT.get(v) else { return Ok(()) };
    if f.name() != d.name {
        fail!("{v} is named {:?}, documented as {:?}", f.name(), d.name);
    }
    if f.short_name() != d.short {
        fail!("{v} has the short name {:?}, documented as {:?}", f.short_name(), d.short);
    }
    if f.media_type() != d.media {
        fail!("{v} has the media type {:?}, documented as {:?}", f.media_type(), d.media);
    }
    if f.extension() != d.ext {
        fail!("{v} has the extension {:?}, documented as {:?}", f.extension(), d.ext);
    }
    if format!("{:?}", f.kind()) != d.kind {
        fail!("{v} is of kind {:?}, documented as {}", f.kind(), d.kind);
    }
    if f.to_string() != d.name || format!("{f:>3}").trim() != d.name {
        fail!("{v} displays as {:?}, its name is {:?}", f.to_string(), d.name);
    }
    Ok(())
}

pub fn c26(src: &mut Src, ctx: &mut Ctx) -> Res {
    let i = src.cycle(FORMATS.len() as u64) as usize;
    let (v, f) = VARIANTS[i];
    ctx.nontrivial = true;
    ctx.execs += 1;
    ctx.key = i as u64;
    if name(f) != v {
        fail!("variant {v} prints as {}", name(f));
    }
    documented(v, f)?;
    well_formed(f)?;
    // Unambiguous: against every other format.
    for (w, g) in VARIANTS {
        if w != v && g.name() == f.name() {
            fail!("{v} and {w} share the name {:?}", f.name());
        }
        if (w == v) != (g == f) {
            fail!("equality of {v} and {w} is wrong");
        }
    }
    if FileFormat::default() != FileFormat::ArbitraryBinaryData {
        fail!("the default format is {:?}", FileFormat::default());
    }
    ctx.describe(|| format!("{v}: {} / {:?} / {} / {} / {:?}", f.name(), f.short_name(), f.media_type(), f.extension(), f.kind()));
    // What detection reports.
    if src.chance(1, 2) {
        let a = hostile::any(src, ctx, None)?;
        ctx.file(&a.file);
        if a.file.len() <= 1 << 20 {
            ctx.execs += 1;
            let g = FileFormat::from_bytes(a.file.to_vec());
            documented(&name(g), g)?;
            well_formed(g)?;
            ctx.label("detected format");
        }
    }
    Ok(())
}

pub fn c27(src: &mut Src, ctx: &mut Ctx) -> Res {
    let mut f = hostile::any(src, ctx, None)?.file;
    if src.chance(1, 24) && f.len() < 1 << 40 {
        // Extended.
        ctx.label("extended");
        f.fill(src.edgy(1, 1 << 50), Fill::Byte([0, 0xFF, b'a'][src.below(3) as usize]));
    }
    ctx.file(&f);
    let got = match detect::any(&f) {
        Ok(g) => g,
        Err(e) => fail!("{e}"),
    };
    ctx.execs += 1;
    let model = signature_model(&f.prefix(36_870));
    ctx.describe(|| format!("{} by signature {model:?} -> {got}", head_note(&f)));
    let fam = model.iter().find_map(|m| crate::tables::family(m));
    ctx.label(match fam {
        Some(x) if got == x.0 => "the container itself",
        Some(x) if x.2.contains(&got.as_str()) => "a sub-format",
        Some(_) => "generic fallback",
        None if model.is_empty() => "no signature",
        None => "no reader",
    });
    if f.is_empty() {
        if got != "Empty" {
            fail!("an empty stream is reported as {got}");
        }
        return Ok(());
    }
    let a = allowed(&model, &f);
    if !a.contains(&got.as_str()) {
        // Formats unknown to the frozen catalogue are not judged.
        if crate::tables::BY_VARIANT.contains_key(got.as_str()) {
            fail!("by signature {model:?}, but reported as {got}");
        }
    }
    Ok(())
}
