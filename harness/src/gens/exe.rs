//! MZ executables.

use super::*;
use crate::engine::{Ctx, Src, Stop};

pub fn make(src: &mut Src, ctx: &mut Ctx) -> Result<Made, Stop> {
    let mut head = blob_with(src, 64, &SOUP);
    let mz = src.chance(5, 6);
    head[..2].copy_from_slice(if mz { b"MZ" } else { b"ZM" });
    let kind = src.cycle(8);
    // A complete extended header follows its signature.
    let mut ext = blob_with(src, 64, &SOUP);
    let (sig, expect): (&[u8], &str) = match kind {
        0 | 1 => (b"PE\0\0", "PortableExecutable"),
        2 => (b"LE", "LinearExecutable"),
        3 => (b"LX", "LinearExecutable"),
        4 => (b"NE", "NewExecutable"),
        5 => {
            let v: [&[u8]; 12] = [
                b"PE\0\x01", b"PE\x01\0", b"pe\0\0", b"\0PE\0", b"NX\0\0", b"EL\0\0", b"LF\0\0", b"MZ\0\0", b"EN\0\0", b"\0\0\0\0",
                b"le\0\0", b"ne\0\0",
            ];
            let new = crate::dict::word(src).filter(|w| {
                let w = [w, &[0; 4][..]].concat();
                (1..5).contains(&w.len().saturating_sub(4)) && !w.starts_with(b"PE\0\0") && ![b"LE", b"LX", b"NE"].iter().any(|s| w.starts_with(*s))
            });
            (new.unwrap_or(v[src.below(12) as usize]), "MsDosExecutable")
        }
        _ => (b"", "MsDosExecutable"),
    };
    ext[..sig.len()].copy_from_slice(sig);
    let mut expect = expect;
    if kind < 2 {
        let mut c = src.below(1 << 16) as u16;
        if src.bool() {
            c = [0, 0xDFFF, 0x2000, 0xFFFF, 0x0020, 0x0002, 0x1000, 0x4000][src.below(8) as usize];
        }
        ext[22..24].copy_from_slice(&c.to_le_bytes());
        if c & 0x2000 != 0 {
            expect = "DynamicLinkLibrary";
        }
    }
    let mut f;
    let off: u64;
    if kind >= 6 {
        // At or beyond the end.
        f = VFile::from_bytes(head);
        f.bytes(&payload(src, 500));
        if src.chance(1, 10) {
            f.fill(src.edgy(1, 1 << 31), Fill::Byte(0));
        }
        let len = f.len();
        off = match src.weighted(&[2, 1]) {
            0 => len + src.below(20).min(u32::MAX as u64 - len),
            _ => src.edgy(len, u32::MAX as u64),
        };
    } else if src.chance(1, 10) {
        // Inside the first header (tiny executables).
        off = src.range(2, 36);
        f = VFile::from_bytes(head);
        f.patch(off, &ext[..24]);
        f.bytes(&payload(src, 100));
    } else {
        off = match src.weighted(&[4, 3, 2]) {
            0 => 64 + src.below(200),
            1 => 64 + src.below(9000),
            _ => src.edgy(64, src.mid.unwrap_or(u32::MAX as u64)),
        };
        f = VFile::from_bytes(head);
        let gap = off - 64;
        if gap < 10_000 {
            f.bytes(&blob_with(src, gap as usize, &SOUP));
        } else {
            f.fill(gap, if src.bool() { Fill::Byte(0) } else { Fill::Noise(src.below(1 << 16)) });
        }
        let keep = if src.chance(1, 4) { src.usize(24, 64) } else { 64 };
        f.bytes(&ext[..keep]);
        f.bytes(&payload(src, 500));
    }
    f.patch(60, &(off as u32).to_le_bytes());
    f.fields.push(crate::vfile::Field { off: 60, width: 4, be: false, vint: false });
    ctx.label(format!("exe {expect}"));
    if off > 1 << 20 {
        ctx.label("far header");
    }
    if off < 64 {
        ctx.label("header inside the first header");
    }
    ctx.describe(|| format!("exe: {} kind {kind}, extended header at {off} of {} bytes -> {expect}", if mz { "MZ" } else { "ZM" }, f.len()));
    ctx.nontrivial = kind < 6;
    finish(f, "MsDosExecutable", expect)
}
