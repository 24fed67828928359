//! The signature table.

use crate::detect;
use crate::engine::{Ctx, Res, Src};
use crate::gens::SOUP;
use crate::tables::{PAIRS, SIG_BYTES, SIGS, Text, family, signature_model, text_model};
use crate::vfile::{Fill, VFile, blob_with};
use crate::{discard, fail};

const WINDOW: usize = 36_870;

fn detect_in(config: Option<&str>, b: &[u8]) -> Result<String, String> {
    match config {
        Some(c) => detect::with_config(c, b),
        None => Ok(detect::bytes(b)),
    }
}

/// The answers allowed with readers: the signature's formats, their documented sub-formats, and the
/// generic fallback where a container is damaged.
pub fn allowed(model: &[&'static str], f: &VFile) -> Vec<&'static str> {
    let mut v: Vec<&'static str> = model.to_vec();
    let mut fallback = model.is_empty();
    for m in model {
        if let Some((_, _, subs)) = family(m) {
            v.extend(subs);
            fallback = true;
        }
    }
    if fallback {
        match text_model(f) {
            Text::Yes if model.is_empty() => v.push("PlainText"),
            Text::No => v.push("ArbitraryBinaryData"),
            Text::Open => v.extend(["PlainText", "ArbitraryBinaryData"]),
            Text::Yes => v.push("PlainText"),
        }
    }
    v
}

/// Checks the answers for `b` without and with readers against the signature model.
fn judge(b: &[u8], model: &[&'static str], src: &mut Src, ctx: &mut Ctx) -> Res {
    // Without readers the signature is the answer.
    if src.chance(7, 8) {
        ctx.execs += 1;
        match detect_in(Some("none"), b) {
            Ok(g) => {
                let ok = if model.is_empty() { g == "ArbitraryBinaryData" } else { model.contains(&g.as_str()) };
                if !ok {
                    fail!("without readers reported as {g}, must be {}", show(model));
                }
            }
            Err(e) => fail!("without readers: {e}"),
        }
    }
    ctx.execs += 1;
    let g = detect_in(None, b).unwrap();
    let f = VFile::from_bytes(b);
    let a = allowed(model, &f);
    if !a.contains(&g.as_str()) {
        fail!("with all readers reported as {g}, must be {}", show(&a));
    }
    Ok(())
}

fn show(m: &[&str]) -> String {
    match m {
        [] => "a generic format".into(),
        [x] => x.to_string(),
        _ if m.len() > 8 => format!("one of {:?}...", &m[..8]),
        _ => format!("one of {m:?}"),
    }
}

fn background(src: &mut Src, len: usize) -> Vec<u8> {
    blob_with(src, len, &SOUP)
}

fn length(src: &mut Src, end: usize) -> usize {
    if let Some(n) = crate::dict::length(src, 100_000) {
        return end.max(n as usize);
    }
    match src.weighted(&[3, 3, 3, 1, 1]) {
        0 => end,
        1 => end + src.usize(1, 40),
        2 => end + src.len(3000),
        3 => end.max(WINDOW - src.usize(0, 10)),
        _ => end.max(WINDOW + src.usize(0, 3000)),
    }
}

pub fn c07(src: &mut Src, ctx: &mut Ctx) -> Res {
    let i = src.cycle(SIGS.len() as u64) as usize;
    let s = &SIGS[i];
    let len = length(src, s.end);
    let mut b = background(src, len);
    s.stamp(&mut b);
    let f = VFile::from_bytes(b.as_slice());
    ctx.file(&f);
    ctx.nontrivial = true;
    let model = signature_model(&b);
    if model != [s.format] {
        discard!("another signature of at least equal length is present");
    }
    ctx.label(if len == s.end { "ends at the signature" } else { "longer" });
    if s.end > 4096 {
        ctx.label("far signature");
    }
    ctx.describe(|| format!("signature {i} of {} in {len} bytes", s.format));
    if src.chance(1, 16) {
        // The same beginning in a stream of any length.
        let mut f = f.clone();
        f.fill(src.edgy(WINDOW as u64, 1 << 60), Fill::Byte(src.below(256) as u8));
        ctx.execs += 1;
        let mut head = b.clone();
        head.resize(WINDOW.max(b.len()), f.slice(b.len() as u64, 1)[0]);
        if signature_model(&head) != [s.format] {
            discard!("another signature of at least equal length is present");
        }
        ctx.label("huge stream");
        match detect::any(&f) {
            Ok(g) if allowed(&model, &f).contains(&g.as_str()) => {}
            Ok(g) => fail!("in a stream of {} bytes reported as {g}, must be {}", f.len(), show(&allowed(&model, &f))),
            Err(e) => fail!("{e}"),
        }
    }
    judge(&b, &model, src, ctx)
}

pub fn c08(src: &mut Src, ctx: &mut Ctx) -> Res {
    let (a, c) = PAIRS[src.cycle(PAIRS.len() as u64) as usize];
    let (mut a, mut c) = (&SIGS[a as usize], &SIGS[c as usize]);
    if src.bool() {
        std::mem::swap(&mut a, &mut c);
    }
    let mut third = None;
    if src.chance(1, 4) {
        let t = &SIGS[src.below(SIGS.len() as u64) as usize];
        if t.compatible(a) && t.compatible(c) {
            third = Some(t);
        }
    }
    let end = a.end.max(c.end).max(third.map_or(0, |t| t.end));
    let len = length(src, end);
    let mut b = background(src, len);
    a.stamp(&mut b);
    c.stamp(&mut b);
    if let Some(t) = third {
        t.stamp(&mut b);
        ctx.label("three signatures");
    }
    let f = VFile::from_bytes(b.as_slice());
    ctx.file(&f);
    ctx.nontrivial = true;
    let model = signature_model(&b);
    ctx.label(if a.rank == c.rank { "equal length" } else { "different length" });
    let (ra, rc) = (a.positions().count(), c.positions().count());
    if a.positions().all(|p| c.byte_at(p).is_some()) && ra < rc || c.positions().all(|p| a.byte_at(p).is_some()) && rc < ra {
        ctx.label("one extends the other");
    }
    ctx.describe(|| format!("signatures of {} ({}) and {} ({}) in {len} bytes -> {model:?}", a.format, a.rank, c.format, c.rank));
    judge(&b, &model, src, ctx)
}

/// Beginnings of formats that are not supported, or not with these values.
const FOREIGN: [&[u8]; 72] = [
    b"MM\0+\0\x08\0\0", b"II+\0\x08\0\0\0", b"RIFX\0\0\0\x20MV93", b"RF64\xFF\xFF\xFF\xFFWAVEds64", b"RIFF\x20\0\0\0RMIDdata",
    b"RIFF\x20\0\0\0PAL data", b"FORM\0\0\0\x20ILBMBMHD", b"FORM\0\0\0\x20ANIMFORM", b"PK\x07\x08PK\x03\x04", b"PK00PK\x03\x04",
    b"PK\x01\x02", b"PK\x06\x06", b"MThx\0\0\0\x06", b"GIF88a", b"\x89PNG\r\n\x1A\r", b"\x89HDF\r\n\x1A\n", b"\x0E\x03\x13\x01",
    b"CDF\x01", b"CDF\x02", b"\xFE\xED\xFE\xED\0\0\0\x02", b"\xD0\xCF\x11\xE0\x0E\x11\xFC\x0D", b"\x0D\x44\x4F\x43", b"\xCE\xCE\xCE\xCE",
    b"MSWIM\0\0\0", b"MSCE\0\0\0\0", b"SZDD\x88\xF0\x27\x33", b"KWAJ\x88\xF0\x27\xD1", b"SQLite format 2\0", b"** This file contains an SQLite 2.1 database **",
    b"\0\0\0\x20ftypmp43", b"\0\0\0\x20ftypmp4a", b"\0\0\0\x20ftypisoc", b"\0\0\0\x20ftypdby1", b"\0\0\0\x20ftyp", b"\0\0\0\x20styp", b"\0\0\0\x08wide\0\0\0\x08mdat",
    b"\0\0\0\x08free\0\0\0\x08mdat", b"\0\0\0\x20moov\0\0\0\x18mvhd", b"\xFF\xF1\x50\x80", b"\xFF\xE0", b"\xFF\xFE<\0?\0x\0m\0l\0", b"\xFE\xFF\0<\0?\0x\0m\0l",
    b"<?XML version", b" <?xml version=\"1.0\"?>", b"\xEF\xBB\xBF\r\n<?xml version=\"1.0\"?>", b"\n%PDF-1.7", b"\xEF\xBB\xBF%PDF-1.7", b"%PDF\xE21.7",
    b"%!PS", b"%FDF-1.2", b"#!/usr/bin/env node\n", b"#!/bin/cat\n", b"<HEAD>", b"<!DOCTYPE svg", b"-----BEGIN CERTIFICATE----", b"-----BEGIN OPENSSH PUBLIC",
    b"\x7FELG", b"\x7FOLF", b"NE\0\0", b"PE\0\0", b"LX\0\0", b"ZM", b"\xCA\xFE\xD0\x0D", b"\x1F\x9E", b"\x1F\xA1",
    b"ID2\x03\0", b"TAG\0", b"fLaX", b"CWT", b"OggT\0\x02", b"\x1A\x45\xDF\xA4", b"3D\x11CEDriveImage",
];

/// What other formats end with, and how far before the end.
pub const TRAILERS: [(&[u8], usize); 12] = [
    (b"koly\0\0\0\x04\0\0\x02\0", 512), (b"conectix\0\0\0\x02\0\x01\0\0", 512), (b"TAG", 128), (b"TRUEVISION-XFILE.\0", 18),
    (b"APETAGEX\xD0\x07\0\0", 32), (b"PAR1", 4), (b"%%EOF\n", 6), (b"LYRICS200", 9), (b"\x55\xAA", 2),
    (b"PK\x05\x06\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0", 22), (b"ARROW1", 6), (b"3DI\x04\0\0\0\0\0\x10", 10),
];

/// What may stand before a signature by mistake.
pub const PREFIXES: [&[u8]; 16] = [
    b"\xEF\xBB\xBF", b"\xFF\xFE", b"\xFE\xFF", b"\xFF\xFE\0\0", b"\n", b"\r\n", b" ", b"\t", b"  \n\n", b"# comment\n", b"#", b"\0",
    b"\x1B%-12345X", b"/* */ ", b"\0\0\0\0", b"\xEF\xBB\xBF\xEF\xBB\xBF",
];

/// Sizes of well-known disk and cartridge images.
const IMAGE_SIZES: [u64; 16] = [
    901_120, 1_802_240, 174_848, 737_280, 1_474_560, 2_949_120, 143_360, 819_200, 1_228_800, 163_840, 368_640, 65_536, 262_144, 1 << 20, 4_700_372_992, 734_003_200,
];

/// Text that a careless comparison might take for a signature: other case, other encoding, other byte order.
fn transformed(src: &mut Src, b: &[u8]) -> Vec<u8> {
    let even = &b[..b.len() & !1];
    match src.below(7) {
        0 => b.to_ascii_lowercase(),
        1 => b.to_ascii_uppercase(),
        2 => b.iter().flat_map(|&x| [x, 0]).collect(),
        3 => b.iter().flat_map(|&x| [0, x]).collect(),
        4 => [0xFF, 0xFE].into_iter().chain(b.iter().flat_map(|&x| [x, 0])).collect(),
        5 => b.iter().rev().copied().collect(),
        _ => even.chunks(2).flat_map(|c| [c[1], c[0]]).collect(),
    }
}

pub fn c09(src: &mut Src, ctx: &mut Ctx) -> Res {
    // The changed position and its new value are enumerated; the rest of the content is random. One value in
    // five stands for the other ways to lack a signature.
    let (i, p) = SIG_BYTES[src.cycle(SIG_BYTES.len() as u64) as usize];
    let value = src.cycle(320) * 201 % 320;
    let s = &SIGS[i as usize];
    let mut stamped = vec![0; s.end];
    s.stamp(&mut stamped);
    let mut how = if value < 256 { 0 } else { 1 + (value - 256) / 8 };
    if value == u64::from(stamped[p as usize]) {
        how = 1;
    }
    let mut b;
    match how {
        0 => {
            let len = length(src, s.end);
            b = background(src, len);
            s.stamp(&mut b);
            b[p as usize] = value as u8;
            ctx.label("one byte changed");
        }
        1 | 2 => {
            b = background(src, s.end);
            s.stamp(&mut b);
            b.truncate(p as usize);
            ctx.label("cut inside the signature");
        }
        3 => {
            let n = src.len(2000);
            b = background(src, n);
            ctx.label("noise");
        }
        4 => {
            // The signature at another offset.
            let shift = match src.below(3) {
                0 => src.usize(1, 8),
                1 => *src.pick(&[9, 16, 20, 32, 60, 64, 100, 128, 255, 256, 510, 512, 1024, 2048, 4096, 16_384, 32_768]),
                _ => src.usize(1, 2000),
            };
            let n = s.end + shift + if src.bool() { src.len(100) } else { 0 };
            b = if src.bool() { background(src, n) } else { vec![*src.pick(&[0, 0xFF, b' ', b'\n']); n] };
            for (o, x) in &s.parts {
                b[o + shift..o + shift + x.len()].copy_from_slice(x);
            }
            ctx.label("moved");
        }
        5 => {
            // The signature after a byte order mark, white space or a comment.
            b = src.pick(&PREFIXES).to_vec();
            b.extend_from_slice(&stamped);
            let n = src.len(100);
            b.extend(background(src, n));
            ctx.label("after a prefix");
        }
        6 => {
            b = transformed(src, &stamped);
            let n = src.len(100);
            b.extend(background(src, n));
            ctx.label("other case or encoding");
        }
        7 => {
            b = src.pick(&FOREIGN).to_vec();
            let n = src.len(100);
            b.extend(background(src, n));
            ctx.label("unsupported format");
        }
        _ => {
            // All bytes equal, or what other formats end with.
            let len = length(src, 0);
            b = vec![*src.pick(&[0, 0, 0xFF, b' ', b'\n', b'A', 0x55, 0xE5, 0xF6]); len];
            if src.bool() {
                let (t, at) = src.pick(&TRAILERS);
                if src.bool() {
                    b = background(src, len);
                }
                let o = b.len().saturating_sub(*at);
                for (k, x) in t.iter().enumerate() {
                    if o + k < b.len() {
                        b[o + k] = *x;
                    }
                }
                ctx.label("trailer");
            } else {
                ctx.label("uniform");
            }
        }
    }
    let f = VFile::from_bytes(b.as_slice());
    ctx.file(&f);
    ctx.nontrivial = !matches!(how, 3 | 8) && !b.is_empty();
    ctx.describe(|| format!("signature {i} of {}, byte {p}, way {how}, {} bytes", s.format, b.len()));
    if b.is_empty() {
        ctx.execs += 2;
        for c in [Some("none"), None] {
            match detect_in(c, &b) {
                Ok(g) if g == "Empty" => {}
                Ok(g) => fail!("an empty stream is reported as {g}"),
                Err(e) => fail!("{e}"),
            }
        }
        return Ok(());
    }
    let model = signature_model(&b);
    ctx.label(if model.is_empty() { "no signature" } else { "another signature" });
    judge(&b, &model, src, ctx)
}

pub fn c10(src: &mut Src, ctx: &mut Ctx) -> Res {
    let i = src.cycle(2 * SIGS.len() as u64) as usize;
    let mut b = background(src, WINDOW);
    let mut name = "no signature";
    if i < SIGS.len() {
        SIGS[i].stamp(&mut b);
        name = SIGS[i].format;
    } else {
        // Certainly not text.
        b[0] = 0;
    }
    let model = signature_model(&b);
    if model.iter().any(|m| family(m).is_some()) {
        discard!("a format with a reader");
    }
    let f = VFile::from_bytes(b.as_slice());
    if model.is_empty() && text_model(&f) != Text::No {
        discard!("text");
    }
    // Two different continuations of the same window.
    let mut tails = Vec::new();
    for k in 0..2 {
        let mut t = f.clone();
        match if k == 0 { 0 } else { src.range(1, 6) } {
            0 => {}
            1 => {
                t.bytes(&blob_with(src, 1, &[]));
            }
            2 => {
                let n = src.len(5000);
                t.bytes(&background(src, n));
            }
            3 => {
                // A signature right at the border of the window.
                let s = &SIGS[src.below(SIGS.len() as u64) as usize];
                let mut x = vec![0; s.end];
                s.stamp(&mut x);
                t.bytes(&x);
            }
            4 => {
                t.fill(src.edgy(1, 1 << 60), Fill::Byte(src.below(256) as u8));
            }
            5 => {
                // The size of a disk or cartridge image.
                let n = *src.pick(&IMAGE_SIZES) + *src.pick(&[0, 0, 16, 512]);
                t.fill(n.saturating_sub(t.len()), Fill::Byte(*src.pick(&[0, 0xFF, 0xE5, 0x1A])));
            }
            _ => {
                // What other formats end with.
                let n = if src.bool() { src.edgy(0, 1 << 40) } else { src.edgy(0, 5000) };
                let (x, at) = src.pick(&TRAILERS);
                t.fill(n, Fill::Byte(0)).bytes(x).fill((at - x.len()) as u64, Fill::Byte(0));
            }
        }
        tails.push(t);
    }
    ctx.file(&tails[1]);
    ctx.nontrivial = tails[1].len() > WINDOW as u64;
    ctx.describe(|| format!("{name} in a full window, followed by {} more bytes", tails[1].len() - WINDOW as u64));
    if name != "no signature" && SIGS[i].end == WINDOW {
        ctx.label("signature ends at the window");
    }
    let mut got = Vec::new();
    for t in &tails {
        ctx.execs += 1;
        match detect::any(t) {
            Ok(g) => got.push(g),
            Err(e) => fail!("{e}"),
        }
    }
    if got[0] != got[1] {
        fail!("the first {WINDOW} bytes alone are {}, followed by other data {}", got[0], got[1]);
    }
    if model.len() == 1 && got[0] != model[0] {
        fail!("a full window with the signature of {} is reported as {}", model[0], got[0]);
    }
    Ok(())
}
