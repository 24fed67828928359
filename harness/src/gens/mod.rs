//! Generators of well-formed containers, each with the answer that follows from how it was built.

use crate::engine::{Ctx, Src, Stop};
use crate::tables::{SIGS, signature_model};
use crate::vfile::{Fill, VFile, blob_with};

pub mod asf;
pub mod cfb;
pub mod ebml;
pub mod endless;
pub mod exe;
pub mod hostile;
pub mod id3v2;
pub mod mp4;
pub mod pdf;
pub mod rm;
pub mod sqlite3;
pub mod txt;
pub mod xml;
pub mod zip;

/// A generated content.
pub struct Made {
    pub file: VFile,
    /// The format of the content's signature.
    pub base: &'static str,
    /// The answer required with all readers enabled.
    pub expect: &'static str,
}

pub type Gen = fn(&mut Src, &mut Ctx) -> Result<Made, Stop>;

/// All container generators.
pub const CONTAINERS: [(&str, Gen); 11] = [
    ("zip", zip::make),
    ("cfb", cfb::make),
    ("ebml", ebml::make),
    ("mp4", mp4::make),
    ("asf", asf::make),
    ("rm", rm::make),
    ("exe", exe::make),
    ("id3v2", id3v2::make),
    ("pdf", pdf::make),
    ("sqlite3", sqlite3::make),
    ("xml", xml::make),
];

/// Fragments that resemble structures of many containers.
pub const SOUP: [&[u8]; 40] = [
    b"PK\x05\x06", b"PK\x06\x07", b"PK\x06\x06", b"PK\x01\x02", b"PK\x03\x04", b"PK", b"mimetype",
    b"word/document.xml", b"META-INF/MANIFEST.MF", b"moov", b"trak", b"mdia", b"hdlr", b"vide", b"soun",
    b"text", b"\x1A\x45\xDF\xA3", b"\x42\x82\x84webm", b"\x53\xB8\x81\x01", b"\x1F\x43\xB6\x75",
    b"\xAE\x80", b"\x86\x85V_VP8", b"\x86\x85A_AAC", b"ID3\x04\0\0\0\0\0\0", b"fLaC", b"\xFF\xFB\x90\x64",
    b"MDPR\0\0\0\x20", b"video/", b"audio/", b"AIPrivateData", b"AIPrivateDat", b"com.bohemiancoding.sketch",
    b"PE\0\0", b"NE", b"LE", b"<svg", b"<?xml", b"M\0a\0t\0O\0S\0T\0", b"\n", b"\0\0\0\0",
];

/// A payload of up to `max` bytes, sprinkled with fragments of container structures.
pub fn payload(src: &mut Src, max: usize) -> Vec<u8> {
    let n = src.len(max);
    blob_with(src, n, &SOUP)
}

/// A payload as a virtual file: mostly small and real, rarely huge and synthetic.
pub fn big_payload(src: &mut Src, max: usize, huge: u64) -> VFile {
    let mut f = VFile::new();
    let (huge, often) = match src.mid {
        Some(m) => (huge.min(m), 4),
        None => (huge, 24),
    };
    let exact = if max > 60 { crate::dict::length(src, 1 << 20) } else { None };
    if let Some(n) = exact {
        // Exactly that long, or with the header of the container's elements.
        f.fill(n.saturating_sub([0, 8, 24, 10, 12, 16, 20, 32][src.below(8) as usize]).max(1), Fill::Byte(0));
    } else if huge > 0 && src.chance(1, often) {
        let n = src.edgy(1, huge);
        let fill = match src.below(3) {
            0 => Fill::Byte(0),
            1 => Fill::Byte(src.below(256) as u8),
            _ => Fill::Noise(src.below(1 << 16)),
        };
        f.fill(n, fill);
    } else if max > 60 && src.chance(1, 24) {
        // Neither small nor huge: around the sizes of buffers.
        let n = src.edgy(1, 200_000);
        f.fill(n, if src.bool() { Fill::Byte(src.below(256) as u8) } else { Fill::Noise(src.below(1 << 16)) });
    } else {
        f.bytes(&payload(src, max));
    }
    f
}

/// Keeps only contents whose signature is `base` and nothing else.
pub fn finish(file: VFile, base: &'static str, expect: &'static str) -> Result<Made, Stop> {
    let m = signature_model(&file.prefix(36_870));
    if m != [base] {
        return Err(Stop::Discard("another signature is present by accident"));
    }
    Ok(Made { file, base, expect })
}

/// Overwrites the start of `f` with a signature of `base` chosen at random.
pub fn stamp_signature(src: &mut Src, f: &mut VFile, base: &str) {
    let all: Vec<usize> = (0..SIGS.len()).filter(|&i| SIGS[i].format == base).collect();
    let s = &SIGS[*src.pick(&all)];
    for (o, b) in &s.parts {
        f.patch(*o as u64, b);
    }
}
