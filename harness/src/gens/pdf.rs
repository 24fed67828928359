//! PDF documents with and without Illustrator data.

use super::*;
use crate::engine::{Ctx, Src, Stop};

pub const MARKER: &[u8] = b"AIPrivateData";
const LIMIT: u64 = 32 << 20;

/// Places `marker` at `at` behind `head` in a body of `len` bytes that holds the marker nowhere else.
/// Positions are relative to the end of the head.
pub fn body(src: &mut Src, len: u64, marker: &[u8], at: Option<u64>) -> Result<VFile, Stop> {
    let m = marker.len() as u64;
    let mut f = VFile::new();
    let style = src.weighted(&[3, 2, 3, 2, 1]);
    match style {
        0 => f.fill(len, Fill::Byte(0)),
        1 => f.fill(len, Fill::Byte(src.below(256) as u8)),
        2 => {
            // Endless partial repetitions of the marker.
            let k = src.usize(1, marker.len() - 1);
            f.fill(len, Fill::Repeat(marker[..k].to_vec()))
        }
        3 => {
            let k = src.usize(1, marker.len() - 1);
            f.fill(len, Fill::Repeat(marker[k..].to_vec()))
        }
        _ => f.fill(len, Fill::Noise(src.below(1 << 16))),
    };
    // Near misses: fragments of the marker anywhere, also straddling boundaries.
    let n = src.usize(0, 4);
    for _ in 0..n {
        let p = src.below(len.max(1));
        let k = src.usize(1, marker.len() - 1);
        let mut frag = if src.bool() { marker[..k].to_vec() } else { marker[marker.len() - k..].to_vec() };
        if src.chance(1, 3) {
            frag = marker.to_vec();
            let i = src.usize(0, marker.len() - 1);
            frag[i] ^= 0x20;
        } else if src.chance(1, 3) {
            // What real files hold.
            let t: [&[u8]; 12] = [
                b"AIPDFPrivateData1", b"/AIMetaData 5 0 R", b"%AI5_FileFormat 14.0", b"%AI12_CompressedData", b"/Illustrator", b"AIPrivate",
                b"com.bohemiancoding.sketch", b"com.bohemiancoding.sketch2", b"com.bohemiancoding.Sketch3", b"CREATE TABLE", b"stream\r\n", b"%%EOF",
            ];
            frag = src.pick(&t).to_vec();
        }
        if p + frag.len() as u64 <= len {
            f.overlay(p, &frag);
        }
    }
    if let Some(at) = at {
        // Directly preceded by a partial repetition.
        if src.bool() {
            let k = src.usize(1, marker.len() - 1);
            if at >= k as u64 {
                f.overlay(at - k as u64, &marker[..k]);
            }
        }
        if at + m <= len {
            f.overlay(at, marker);
        }
    }
    Ok(f)
}

pub fn contains(f: &VFile, marker: &[u8]) -> bool {
    // Chunked search with overlap, byte by byte (independent of the code under test).
    let mut pos = 0u64;
    let step = 1 << 20;
    let mut buf = vec![0u8; step + marker.len()];
    while pos < f.len() {
        let n = f.read_at(pos, &mut buf);
        if search(&buf[..n], marker) {
            return true;
        }
        pos += step as u64;
    }
    false
}

pub fn search(h: &[u8], n: &[u8]) -> bool {
    let (first, rest) = (n[0], &n[1..]);
    let mut from = 0;
    while let Some(i) = h[from..].iter().position(|&b| b == first) {
        let p = from + i;
        if h.len() - p < n.len() {
            return false;
        }
        if &h[p + 1..p + n.len()] == rest {
            return true;
        }
        from = p + 1;
    }
    false
}

/// A position biased to chunk boundaries of any plausible size.
pub fn position(src: &mut Src, limit: u64, m: u64, deep: bool) -> u64 {
    let max = limit - m;
    let chunk = [32_768u64, 4096, 8192, 65_536, 1 << 20][src.weighted(&[8, 1, 1, 1, 1])];
    let k_max = if deep { limit / chunk } else { (limit / chunk).min(6) };
    let p = match src.weighted(&[6, 2, 1, 1]) {
        0 => {
            let k = src.range(0, k_max);
            (k * chunk + src.below(2 * m + 8)).saturating_sub(m + 4)
        }
        1 => src.below(k_max * chunk + 1),
        2 => src.below(64),
        _ => {
            if deep {
                max - src.below(40)
            } else {
                src.below(k_max * chunk + 1)
            }
        }
    };
    p.min(max)
}

pub fn make(src: &mut Src, ctx: &mut Ctx) -> Result<Made, Stop> {
    // Deep positions cost up to 32 MiB of search, so they are rarer.
    let deep = src.chance(1, 24);
    let present = src.chance(3, 5);
    let (len, at) = if present {
        let p = position(src, LIMIT, MARKER.len() as u64, deep);
        let tail = match src.below(3) {
            0 => 0,
            1 => src.below(100),
            _ => src.below(50_000),
        };
        (p + MARKER.len() as u64 + tail, Some(p))
    } else {
        (if deep { src.edgy(0, 40 << 20) } else { src.edgy(0, 200_000) }, None)
    };
    let b = body(src, len, MARKER, at)?;
    let mut f = VFile::from_bytes(*b"%PDF-");
    f.append(&b);
    if !present && contains(&f, MARKER) {
        return Err(Stop::Discard("marker by accident"));
    }
    if present && deep && src.chance(1, 4) {
        f.fill(src.edgy(1, 1 << 40), Fill::Byte(0));
    }
    let expect = if present { "AdobeIllustratorArtwork" } else { "PortableDocumentFormat" };
    ctx.label(if present { "pdf with marker" } else { "pdf without marker" });
    if let Some(p) = at {
        if (p % 32_768) + 13 > 32_768 {
            ctx.label("across a chunk boundary");
        }
        if p > 1 << 20 {
            ctx.label("deep marker");
        }
    }
    ctx.describe(|| format!("pdf: {} bytes, marker at {at:?} -> {expect}", f.len()));
    ctx.nontrivial = present || len > 32_768;
    finish(f, "PortableDocumentFormat", expect)
}
