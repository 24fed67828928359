//! Calling the code under test.

use crate::readers::{Stats, VReader};
use crate::vfile::VFile;
use file_format::FileFormat;
use std::io::{Cursor, Read, Write};
use std::os::fd::AsRawFd;
use std::os::unix::process::CommandExt;
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::time::Duration;

#[repr(C)]
struct PollFd {
    fd: i32,
    events: i16,
    revents: i16,
}
unsafe extern "C" {
    fn poll(fds: *mut PollFd, n: std::ffi::c_ulong, timeout: i32) -> i32;
    fn kill(pid: i32, signal: i32) -> i32;
}

pub fn name(f: FileFormat) -> String {
    format!("{f:?}")
}

/// Detection from bytes, with all reader features enabled.
pub fn bytes(b: &[u8]) -> String {
    name(FileFormat::from_bytes(b))
}

/// Detection through a well-behaved seekable reader over a virtual file.
pub fn virt(f: &VFile) -> Result<String, std::io::Error> {
    let mut st = Stats::default();
    FileFormat::from_reader(VReader::new(f, &mut st)).map(name)
}

/// Detection of a file of any size: from bytes when it is small, through a reader otherwise.
pub fn any(f: &VFile) -> Result<String, String> {
    if f.len() <= 4 << 20 {
        Ok(bytes(&f.to_vec()))
    } else {
        virt(f).map_err(|e| format!("from_reader failed with {e:?} on a reader that never fails"))
    }
}

pub fn cursor(b: &[u8]) -> Result<String, std::io::Error> {
    FileFormat::from_reader(Cursor::new(b)).map(name)
}

/// A detection process built with another configuration of the crate.
pub struct Driver {
    child: Child,
    tx: ChildStdin,
    rx: ChildStdout,
}

impl Driver {
    pub fn spawn(path: &str) -> Self {
        // In a group of its own, so that what it starts can be ended with it.
        let mut child = Command::new(path)
            .process_group(0)
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .unwrap_or_else(|e| panic!("HARNESS: cannot start driver {path}: {e}"));
        let tx = child.stdin.take().unwrap();
        let rx = child.stdout.take().unwrap();
        Driver { child, tx, rx }
    }
    /// Whether it has something to say within `limit`.
    fn answers(&self, limit: Duration) -> bool {
        let mut p = PollFd { fd: self.rx.as_raw_fd(), events: 1, revents: 0 };
        unsafe { poll(&mut p, 1, limit.as_millis() as i32) != 0 }
    }
    /// Seconds of processor time it has used.
    fn cpu(&self) -> f64 {
        let s = std::fs::read_to_string(format!("/proc/{}/stat", self.child.id())).unwrap_or_default();
        let t: Vec<f64> = s.rsplit(')').next().unwrap_or("").split_whitespace().skip(11).take(2).filter_map(|x| x.parse().ok()).collect();
        t.iter().sum::<f64>() / 100.0
    }
    /// Err: the driver died (the code under test aborted or panicked on this input).
    pub fn detect(&mut self, b: &[u8]) -> Result<String, String> {
        let mut msg = (b.len() as u32).to_le_bytes().to_vec();
        msg.extend_from_slice(b);
        self.exchange(&msg).map_err(|(m, _)| m)
    }
    fn exchange(&mut self, msg: &[u8]) -> Result<String, (String, Option<i32>)> {
        self.send(msg).and_then(|_| self.receive()).map_err(|e| {
            let st = self.child.wait();
            (format!("detection process ended: {e} ({st:?})"), st.ok().and_then(|s| s.code()))
        })
    }
    fn send(&mut self, msg: &[u8]) -> std::io::Result<()> {
        self.tx.write_all(msg)?;
        self.tx.flush()
    }
    fn receive(&mut self) -> std::io::Result<String> {
        let mut l = [0u8; 1];
        self.rx.read_exact(&mut l)?;
        let mut s = vec![0u8; l[0] as usize];
        self.rx.read_exact(&mut s)?;
        Ok(String::from_utf8_lossy(&s).into_owned())
    }
}

impl Drop for Driver {
    fn drop(&mut self) {
        unsafe { kill(-(self.child.id() as i32), 9) };
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

/// Where the check script put the drivers: `$FFCHECK_DRIVERS/<config>`.
pub fn driver_path(config: &str) -> String {
    let dir = std::env::var("FFCHECK_DRIVERS").expect("HARNESS: FFCHECK_DRIVERS is not set");
    format!("{dir}/{config}")
}

thread_local! {
    static DRIVERS: std::cell::RefCell<std::collections::HashMap<String, Driver>> =
        std::cell::RefCell::new(std::collections::HashMap::new());
}

/// Detection in the configuration `config` (this thread's driver process for it).
pub fn with_config(config: &str, b: &[u8]) -> Result<String, String> {
    DRIVERS.with(|d| {
        let mut d = d.borrow_mut();
        let drv = d.entry(config.to_string()).or_insert_with(|| Driver::spawn(&driver_path(config)));
        let r = drv.detect(b);
        if r.is_err() {
            d.remove(config);
        }
        r
    })
}

/// Detection on another machine (this thread's own). None: it gives up or takes too long (an emulator
/// is slow, and how slow depends on how the code is written).
pub fn emulated(target: &str, f: &VFile) -> Option<Result<String, String>> {
    use std::sync::atomic::{AtomicU32, Ordering};
    static GIVEN_UP: AtomicU32 = AtomicU32::new(0);
    static TOO_SLOW: AtomicU32 = AtomicU32::new(0);
    let fast = target.starts_with("wasm");
    if GIVEN_UP.load(Ordering::Relaxed) > 20 || !fast && TOO_SLOW.load(Ordering::Relaxed) > 20 {
        return None;
    }
    let pieces = f.pieces();
    let mut msg = (pieces.len() as u32).to_le_bytes().to_vec();
    for (len, bytes) in pieces {
        msg.extend(len.to_le_bytes());
        msg.extend((bytes.len() as u32).to_le_bytes());
        msg.extend(bytes);
    }
    DRIVERS.with(|d| {
        let mut d = d.borrow_mut();
        let key = format!("machine-{target}");
        let drv = d.entry(key.clone()).or_insert_with(|| Driver::spawn(&driver_path(&key)));
        let before = drv.cpu();
        let sent = drv.send(&msg);
        if sent.is_ok() && !drv.answers(Duration::from_secs(if fast { 60 } else { 30 })) {
            let used = drv.cpu() - before;
            d.remove(&key);
            if fast && used > 30.0 {
                return Some(Err(format!("detection does not end within {used} s of CPU time")));
            }
            TOO_SLOW.fetch_add(1, Ordering::Relaxed);
            return None;
        }
        match sent.and_then(|_| drv.receive()) {
            Ok(s) => Some(Ok(s)),
            Err(_) => {
                let code = drv.child.wait().ok().and_then(|s| s.code());
                d.remove(&key);
                match code {
                    // What a panic ends with.
                    Some(101) => Some(Err("detection panics".into())),
                    _ => {
                        GIVEN_UP.fetch_add(1, Ordering::Relaxed);
                        None
                    }
                }
            }
        }
    })
}
