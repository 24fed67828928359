//! Practically endless streams that keep a reader busy: elements of size zero or minimal size
//! repeated for terabytes, counts at their maximum, offsets that point back at themselves.

use super::cfb::guid;
use super::*;
use crate::engine::{Ctx, Src};

fn tail(src: &mut Src) -> u64 {
    match src.below(4) {
        0 => src.edgy(1, 1 << 20),
        1 => src.edgy(1, 1 << 32),
        2 => src.edgy(1, 1 << 45),
        _ => src.edgy(1 << 40, 1 << 60),
    }
}

pub fn make(src: &mut Src, ctx: &mut Ctx) -> VFile {
    let kind = src.cycle(14);
    let mut f = VFile::new();
    let n = tail(src);
    let unit = |src: &mut Src, head: &[u8], max: usize| {
        let mut u = head.to_vec();
        let k = src.usize(0, max);
        u.extend(std::iter::repeat_n(0, k));
        u
    };
    let label = match kind {
        0 => {
            // MP4: boxes of any declared size, mostly tiny or self-referential.
            f.u32be(16).bytes(b"ftypisom\0\0\0\0");
            let ty: [&[u8]; 6] = [b"free", b"moov", b"trak", b"mdia", b"hdlr", b"mdat"];
            let mut u = Vec::new();
            let k = src.usize(1, 3);
            for _ in 0..k {
                let big = src.chance(1, 3);
                let s = if big { 1 } else { [0u32, 2, 7, 8, 9, 20, 28, 32, u32::MAX][src.below(9) as usize] };
                u.extend(s.to_be_bytes());
                u.extend_from_slice(src.pick(&ty));
                if big {
                    let v = [0u64, 1, 8, 15, 16, 17, 1 << 20, u64::MAX, i64::MAX as u64][src.below(9) as usize];
                    u.extend(v.to_be_bytes());
                }
                let z = src.usize(0, 24);
                u.extend(std::iter::repeat_n(0, z));
            }
            f.fill(n, Fill::Repeat(u));
            "mp4"
        }
        1 => {
            f.bytes(b"\x1A\x45\xDF\xA3\x80");
            let mut u = Vec::new();
            let k = src.usize(1, 4);
            let els: [&[u8]; 10] = [
                b"\xEC\x80", b"\xEC\x81\0", b"\xAE\x80", b"\xE0\xFF", b"\x86\x82V_", b"\x86\x80", b"\x53\xB8\x81\0",
                b"\x42\x82\x88matroska", b"\x18\x53\x80\x67\x01\xFF\xFF\xFF\xFF\xFF\xFF\xFF", b"\xEC\x08\0\0\0\0",
            ];
            for _ in 0..k {
                u.extend_from_slice(src.pick(&els));
            }
            f.fill(n, Fill::Repeat(u));
            "ebml"
        }
        2 | 3 => {
            f.bytes(&guid("75b22630-668e-11cf-a6d9-00aa0062ce6c")).u64le(u64::MAX);
            f.u32le(if src.chance(3, 4) { u32::MAX } else { src.below(70_000) as u32 }).bytes(&[1, 2]);
            if kind == 2 {
                let g = guid(["b7dc0791-a9b7-11cf-8ee6-00c00c205365", "1806d474-cadf-4509-a4ba-9aabcb96aae8"][src.below(2) as usize]);
                let mut u = g.to_vec();
                u.extend([0u64, 1, 23, 24, 25, 39, 40, 41, 24 + 24][src.below(9) as usize].to_le_bytes());
                let z = src.usize(0, 60);
                u.extend(std::iter::repeat_n(0, z));
                f.fill(n, Fill::Repeat(u));
            } else {
                // Extended content descriptions with as many descriptors as can be declared.
                let mut u = guid("d2d0a440-e307-11d2-97f0-00a0c95ea850").to_vec();
                let name = src.usize(0, 80);
                let val = src.usize(0, 40);
                let mut d = (name as u16).to_le_bytes().to_vec();
                d.extend(std::iter::repeat_n(b'n', name));
                d.extend([0, 0]);
                d.extend((val as u16).to_le_bytes());
                d.extend(std::iter::repeat_n(b'v', val));
                let listed = src.usize(32, 40);
                let size = 26 + d.len() * listed;
                let back = src.chance(1, 4);
                u.extend(if back { [0u64, 1, 24, 25, 26][src.below(5) as usize] } else { size as u64 }.to_le_bytes());
                u.extend(u16::MAX.to_le_bytes());
                for _ in 0..listed {
                    u.extend_from_slice(&d);
                }
                f.fill(n.max(1 << 20), Fill::Repeat(u));
            }
            "asf"
        }
        4 => {
            f.bytes(b".RMF\0\0\0\x12\0\0\0\0\0\0").u32be(u32::MAX);
            let ids: [&[u8]; 3] = [b"MDPR", b"PROP", b"\0\0\0\0"];
            let mut u = src.pick(&ids).to_vec();
            u.extend([0u32, 1, 7, 8, 9, 40, 50, u32::MAX][src.below(8) as usize].to_be_bytes());
            let u = unit(src, &u, 60);
            f.fill(n, Fill::Repeat(u));
            "rm"
        }
        5 | 6 => {
            // Tags without end, of minimal size or with any size and flags.
            let mut u = b"ID3\x04\0".to_vec();
            u.push([0u8, 0x10, 0x40, 0x50, 0xFF][src.below(5) as usize]);
            let z = if src.bool() { 0 } else { src.usize(0, 100) };
            u.extend([0, 0, 0, z as u8]);
            u.extend(std::iter::repeat_n(0, z));
            f.fill(n, Fill::Repeat(u));
            "id3v2"
        }
        7 => {
            f.bytes(b"%PDF-1.4");
            let fill = match src.below(4) {
                0 => Fill::Byte(0),
                1 => Fill::Repeat(b"AIPrivateDat".to_vec()),
                2 => Fill::Byte(b'a'),
                _ => Fill::Repeat(b"IPrivateData".to_vec()),
            };
            f.fill(n, fill);
            "pdf"
        }
        8 => {
            let mut h = b"SQLite format 3\0".to_vec();
            h.resize(100, 1);
            f.bytes(&h).fill(n, Fill::Repeat(b"com.bohemiancoding.sketch".to_vec()));
            "sqlite3"
        }
        9 => {
            f.bytes(b"<?xml version=\"1.0\"?>").fill(n, Fill::Repeat(b"<!-- <sv -->".to_vec()));
            "xml"
        }
        10 | 11 => {
            // ZIP: entry counts up to 2^64-1 over an endless central directory.
            f.bytes(b"PK\x03\x04").bytes(&[0; 40]);
            let mut u = b"PK\x01\x02".to_vec();
            u.resize(46, 0);
            let name = src.usize(0, 12);
            u[28] = name as u8;
            u.extend(std::iter::repeat_n(b'q', name));
            if src.chance(1, 4) {
                u = vec![0];
            }
            let at = f.len();
            f.fill(n, Fill::Repeat(u));
            if kind == 10 {
                let rec = f.len();
                let start = if src.bool() { at } else { src.below(f.len()) };
                f.bytes(b"PK\x06\x06").u64le(44).bytes(&[0; 12]);
                let c = src.edgy(0, u64::MAX - 1);
                f.u64le(c).u64le(c).u64le(0).u64le(start);
                f.bytes(b"PK\x06\x07").u32le(0).u64le(if src.chance(1, 8) { src.edgy(0, u64::MAX - 1) } else { rec }).u32le(1);
            }
            let start = if src.bool() { at } else { src.below(f.len()) };
            f.bytes(b"PK\x05\x06\0\0\0\0\xFF\xFF\xFF\xFF").u32le(0).u32le(start as u32).u16le(0);
            if src.chance(1, 4) {
                f.fill(src.edgy(1, 65_535), Fill::Repeat(b"PK\x05".to_vec()));
            }
            "zip"
        }
        12 => {
            let fill = match src.below(5) {
                0 => Fill::Byte(b'\n'),
                1 => Fill::Byte(b'a'),
                2 => Fill::Repeat("é".as_bytes().to_vec()),
                3 => Fill::Byte(0),
                _ => Fill::Repeat(b"line of text\r\n".to_vec()),
            };
            f.fill(n, fill);
            "text"
        }
        _ => {
            // Any signature in front of an endless stream.
            let s = &SIGS[src.below(SIGS.len() as u64) as usize];
            let mut b = vec![src.below(256) as u8; s.end];
            s.stamp(&mut b);
            f.bytes(&b).fill(n, if src.bool() { Fill::Byte(0) } else { Fill::Noise(3) });
            "any signature"
        }
    };
    ctx.label(format!("endless {label}"));
    ctx.describe(|| format!("endless {label}: {} bytes, starts {:02x?}", f.len(), f.prefix(96)));
    ctx.nontrivial = true;
    f
}
