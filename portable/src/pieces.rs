//! Contents come as pieces, so that long streams fit into any address space:
//!
//!     content: u32 number of pieces, pieces        (all numbers little-endian)
//!     piece:   u64 length, u32 n, n bytes          the n bytes repeated to that length
//!
//! The answer to each is the length-prefixed variant name. Contents of up to `BYTES` bytes are
//! given to `from_bytes`, too; if that answer differs, both are given, separated by a slash.

use file_format::FileFormat;
use std::io::{Error, ErrorKind, Read, Result, Seek, SeekFrom};

pub struct Piece {
    start: u64,
    len: u64,
    bytes: Vec<u8>,
}

struct Pieces<'a> {
    pieces: &'a [Piece],
    len: u64,
    pos: u64,
}

impl Read for Pieces<'_> {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
        let mut done = 0;
        while done < buf.len() && self.pos < self.len {
            let i = self.pieces.partition_point(|p| p.start <= self.pos) - 1;
            let p = &self.pieces[i];
            let n = p.bytes.len() as u64;
            let left = (p.start + p.len - self.pos).min((buf.len() - done) as u64) as usize;
            if n == 1 {
                buf[done..done + left].fill(p.bytes[0]);
                done += left;
                self.pos += left as u64;
            } else {
                let at = ((self.pos - p.start) % n) as usize;
                let k = left.min(p.bytes.len() - at);
                buf[done..done + k].copy_from_slice(&p.bytes[at..at + k]);
                done += k;
                self.pos += k as u64;
            }
        }
        Ok(done)
    }
}

impl Seek for Pieces<'_> {
    fn seek(&mut self, to: SeekFrom) -> Result<u64> {
        let p = match to {
            SeekFrom::Start(p) => Some(p),
            SeekFrom::Current(d) => self.pos.checked_add_signed(d),
            SeekFrom::End(d) => self.len.checked_add_signed(d),
        };
        match p {
            Some(p) => {
                self.pos = p;
                Ok(p)
            }
            None => Err(Error::from(ErrorKind::InvalidInput)),
        }
    }
}

pub fn content(rx: &mut impl Read) -> Result<Vec<Piece>> {
    let mut w = [0; 4];
    rx.read_exact(&mut w)?;
    let mut v = Vec::new();
    let mut start = 0;
    for _ in 0..u32::from_le_bytes(w) {
        let mut l = [0; 8];
        rx.read_exact(&mut l)?;
        rx.read_exact(&mut w)?;
        let len = u64::from_le_bytes(l);
        let mut bytes = vec![0; u32::from_le_bytes(w) as usize];
        rx.read_exact(&mut bytes)?;
        v.push(Piece { start, len, bytes });
        start += len;
    }
    Ok(v)
}

pub fn answer(pieces: &[Piece], bytes: u64) -> Vec<u8> {
    let len = pieces.last().map_or(0, |p| p.start + p.len);
    let mut s = match FileFormat::from_reader(Pieces { pieces, len, pos: 0 }) {
        Ok(f) => format!("{f:?}"),
        Err(e) => format!("{:?}", e.kind()),
    };
    if len <= bytes {
        let mut b = vec![0; len as usize];
        let mut r = Pieces { pieces, len, pos: 0 };
        if r.read_exact(&mut b).is_ok() {
            let t = format!("{:?}", FileFormat::from_bytes(&b));
            if t != s {
                s = format!("{s}/{t}");
            }
        }
    }
    let mut m = vec![s.len() as u8];
    m.extend_from_slice(s.as_bytes());
    m
}
