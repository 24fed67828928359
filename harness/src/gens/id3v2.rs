//! ID3v2 tags in front of audio data.

use super::*;
use crate::engine::{Ctx, Src, Stop};

pub fn synchsafe(v: u64) -> [u8; 4] {
    assert!(v < 1 << 28);
    [(v >> 21) as u8 & 0x7F, (v >> 14) as u8 & 0x7F, (v >> 7) as u8 & 0x7F, v as u8 & 0x7F]
}

pub fn make(src: &mut Src, ctx: &mut Ctx) -> Result<Made, Stop> {
    let n = match src.weighted(&[8, 4, 1]) {
        0 => 1,
        1 => src.usize(2, 5),
        _ => src.usize(1, 64),
    };
    // More than 4 GiB of tags.
    let far = n > 16 && src.mid.is_none() && src.bool();
    let mut f = VFile::new();
    let (mut ext_seen, mut foot_seen) = (false, false);
    for _ in 0..n {
        let major = [4u8, 3, 2][src.below(3) as usize];
        let mut flags = 0u8;
        if src.chance(1, 4) {
            flags |= 0x80;
        }
        if src.chance(1, 3) {
            // Extended header (2.3, 2.4); compression in 2.2.
            flags |= 0x40;
            ext_seen |= major > 2;
        }
        if major > 2 && src.chance(1, 8) {
            flags |= 0x20;
        }
        if major == 4 && src.chance(1, 3) {
            flags |= 0x10;
            foot_seen = true;
        }
        let mut body = VFile::new();
        if flags & 0x40 != 0 && major > 2 {
            if major == 3 {
                let crc = src.bool();
                body.u32be(if crc { 10 } else { 6 }).bytes(if crc { &[0x80, 0] } else { &[0, 0] }).bytes(&[0; 4]);
                if crc {
                    body.bytes(&[1, 2, 3, 4]);
                }
            } else {
                let extra = src.usize(0, 6);
                body.bytes(&synchsafe(6 + extra as u64)).bytes(&[1, 0]).bytes(&vec![0; extra]);
            }
        }
        if src.bool() {
            let text = payload(src, 60);
            if major > 2 {
                body.bytes(b"TIT2").bytes(&synchsafe(text.len() as u64)).bytes(&[0, 0]).bytes(&text);
            } else {
                body.bytes(b"TT2").bytes(&synchsafe(text.len() as u64)[1..]).bytes(&text);
            }
        }
        let rest = if far {
            let mut r = VFile::new();
            r.fill((1 << 28) - 1 - body.len() - if src.bool() { 0 } else { src.below(1 << 24) }, Fill::Byte(src.below(2) as u8 * b'I'));
            r
        } else if n > 8 { VFile::from_bytes(payload(src, 40)) } else { big_payload(src, 300, (1 << 28) - 1 - body.len()) };
        body.append(&rest);
        f.bytes(b"ID3").bytes(&[major, src.below(3) as u8, flags]).bytes(&synchsafe(body.len())).append(&body);
        if flags & 0x10 != 0 {
            f.bytes(b"3DI").bytes(&[major, 0, flags]).bytes(&synchsafe(body.len()));
        }
    }
    let kind = src.cycle(12);
    let mut audio = payload(src, 600);
    if audio.len() < 10 {
        audio.resize(10 + src.usize(0, 40), 0);
    }
    let expect = match kind {
        0 | 1 => {
            audio[..4].copy_from_slice(b"fLaC");
            "FreeLosslessAudioCodec"
        }
        2..=7 => {
            audio[0] = 0xFF;
            audio[1] = [0xE2, 0xE3, 0xF2, 0xF3, 0xFA, 0xFB][kind as usize - 2];
            "Mpeg12AudioLayer3"
        }
        8 => {
            let v: [&[u8]; 12] = [
                b"fLaX", b"FLAC", b"flac", b"\xFF\xF1", b"\xFF\xFD", b"\xFE\xFB", b"\xFB\xFF", b"OggS", b"RIFF", b"ID2\x03",
                b"3DI\x04", b"\0\0\0\0",
            ];
            let b = *src.pick(&v);
            audio[..b.len()].copy_from_slice(b);
            "Id3v2"
        }
        _ => "Id3v2",
    };
    if src.chance(1, 8) {
        // Only the beginning of the audio data, or nothing at all.
        audio.truncate(src.usize(0, 12));
        ctx.label("next to nothing behind the tags");
    }
    let sync = |a: &[u8]| a.len() >= 2 && a[0] == 0xFF && a[1] & 0xE6 == 0xE2;
    let expect = match expect {
        "FreeLosslessAudioCodec" if audio.len() < 4 => "Id3v2",
        "Mpeg12AudioLayer3" if audio.len() < 2 => "Id3v2",
        e => e,
    };
    if audio.starts_with(b"ID3") || (expect == "Id3v2" && (audio.starts_with(b"fLaC") || sync(&audio))) {
        return Err(Stop::Discard("audio data that is something else by accident"));
    }
    f.bytes(&audio);
    ctx.label(format!("id3v2 -> {expect}"));
    if f.len() > u32::MAX as u64 {
        ctx.label("beyond 4 GiB");
    }
    if ext_seen {
        ctx.label("extended header");
    }
    if foot_seen {
        ctx.label("footer");
    }
    if n > 1 {
        ctx.label("several tags");
    }
    if f.len() > 1 << 27 {
        ctx.label("huge tag");
    }
    ctx.describe(|| format!("id3v2: {n} tags, extended header {ext_seen}, footer {foot_seen}, {} bytes -> {expect}", f.len()));
    ctx.nontrivial = f.len() > 20;
    finish(f, "Id3v2", expect)
}
