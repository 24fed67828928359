//! Instrumented readers over virtual files.

use crate::vfile::VFile;
use std::io::{Error, ErrorKind, Read, Result, Seek, SeekFrom};

/// A legal schedule of read sizes and interruptions, given as a repeating list.
/// 0 = the read is interrupted (must be retried), n = at most n bytes are returned.
#[derive(Clone, Debug, Default)]
pub struct Schedule(pub Vec<u32>, /** Only after the first seek. */ pub bool);

#[derive(Clone, Debug)]
pub struct Fault {
    /// Index of the first failing operation (reads and seeks are counted together).
    pub at: u64,
    /// Whether every later operation fails too.
    pub persistent: bool,
    pub kind: ErrorKind,
    /// An error of the operating system instead of one of the kind above.
    pub raw: Option<i32>,
}

impl Fault {
    pub fn error(&self) -> Error {
        match self.raw {
            Some(0) => Error::from(self.kind),
            Some(n) => Error::from_raw_os_error(n),
            None => Error::new(self.kind, "injected fault"),
        }
    }
}

/// Payload of the panic raised when an operation budget is exceeded.
pub struct OverBudget(pub String);

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub ops: u64,
    pub reads: u64,
    pub seeks: u64,
    pub bytes: u64,
    /// Bytes delivered before the first seek.
    pub head_bytes: u64,
    /// Calls before the first seek.
    pub head_ops: u64,
    pub short_reads: u64,
    pub interrupts: u64,
    pub faulted: bool,
    /// The first fault hit a read before any seek while less than the signature window (or the
    /// stream, if shorter) had been delivered.
    pub fault_in_head: bool,
}

pub struct VReader<'a> {
    pub file: &'a VFile,
    pub pos: u64,
    pub schedule: Option<&'a Schedule>,
    pub fault: Option<Fault>,
    pub max_ops: u64,
    pub max_bytes: u64,
    sched_i: usize,
    pub stats: &'a mut Stats,
}

pub const WINDOW: u64 = 36_870;

impl<'a> VReader<'a> {
    pub fn new(file: &'a VFile, stats: &'a mut Stats) -> Self {
        VReader {
            file,
            pos: 0,
            schedule: None,
            fault: None,
            // Far beyond what detection needs; keeps a runaway run from exhausting the sandbox.
            max_ops: 60_000_000,
            max_bytes: 1 << 30,
            sched_i: 0,
            stats,
        }
    }
    fn op(&mut self, read: bool) -> Result<()> {
        let i = self.stats.ops;
        self.stats.ops += 1;
        if read && self.stats.seeks == 0 {
            self.stats.head_ops += 1;
        }
        if i >= self.max_ops || self.stats.bytes > self.max_bytes {
            std::panic::panic_any(OverBudget(format!(
                "{} reads, {} seeks, {} bytes read (limit: {} calls, {} bytes) on a stream of {} bytes",
                self.stats.reads, self.stats.seeks, self.stats.bytes, self.max_ops, self.max_bytes,
                self.file.len()
            )));
        }
        if let Some(f) = &self.fault {
            if i == f.at || (f.persistent && i > f.at) {
                if !self.stats.faulted {
                    self.stats.faulted = true;
                    self.stats.fault_in_head = read
                        && self.stats.seeks == 0
                        && self.stats.head_bytes < WINDOW.min(self.file.len());
                }
                return Err(f.error());
            }
        }
        Ok(())
    }
}

impl Read for VReader<'_> {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
        self.op(true)?;
        self.stats.reads += 1;
        let mut want = buf.len();
        if let Some(s) = self.schedule {
            if !s.0.is_empty() && !(s.1 && self.stats.seeks == 0) {
                let k = s.0[self.sched_i % s.0.len()];
                self.sched_i += 1;
                if k == 0 {
                    self.stats.interrupts += 1;
                    return Err(Error::new(ErrorKind::Interrupted, "interrupted"));
                }
                if (k as usize) < want {
                    want = k as usize;
                    self.stats.short_reads += 1;
                }
            }
        }
        let n = self.file.read_at(self.pos, &mut buf[..want]);
        self.pos += n as u64;
        self.stats.bytes += n as u64;
        if self.stats.seeks == 0 {
            self.stats.head_bytes += n as u64;
        }
        Ok(n)
    }
}

impl Seek for VReader<'_> {
    fn seek(&mut self, to: SeekFrom) -> Result<u64> {
        self.op(false)?;
        self.stats.seeks += 1;
        let p = match to {
            SeekFrom::Start(p) => Some(p),
            SeekFrom::End(d) => self.file.len().checked_add_signed(d),
            SeekFrom::Current(d) => self.pos.checked_add_signed(d),
        };
        match p {
            Some(p) => {
                self.pos = p;
                Ok(p)
            }
            None => Err(Error::new(ErrorKind::InvalidInput, "invalid seek")),
        }
    }
}
