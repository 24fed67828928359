//! Advanced Systems Format.

use super::cfb::{guid, utf16};
use super::*;
use crate::engine::{Ctx, Src, Stop};

pub fn make(src: &mut Src, ctx: &mut Ctx) -> Result<Made, Stop> {
    let stream = guid("b7dc0791-a9b7-11cf-8ee6-00c00c205365");
    let ecd = guid("d2d0a440-e307-11d2-97f0-00a0c95ea850");
    let audio_g = guid("f8699e40-5b4d-11cf-a8fd-00805f5c442b");
    let video_g = guid("bc19efc0-5b4d-11cf-a8fd-00805f5c442b");
    let others = [
        guid("8cabdca1-a947-11cf-8ee4-00c00c205365"), // file properties
        guid("5fbf03b5-a92e-11cf-8ee3-00c00c205365"), // header extension
        guid("86d15240-311d-11d0-a3a4-00a0c90348f6"), // codec list
        guid("75b22633-668e-11cf-a6d9-00aa0062ce6c"), // content description
        guid("1806d474-cadf-4509-a4ba-9aabcb96aae8"), // padding
        guid("b7dc0791-a9b7-11cf-8ee6-00c00c205366"), // near miss
        guid("d2d0a440-e307-11d2-97f0-00a0c95ea851"), // near miss
        guid("bc19efc0-5b4d-11cf-a8fd-00805f5c442b"), // a media type as an object
    ];
    let huge: u64 = if src.chance(1, 3) { [5 << 30, 1 << 54][src.below(2) as usize] } else { 0 };
    let n = match src.weighted(&[10, 2, 1]) {
        0 => src.usize(0, 8),
        1 => src.usize(0, 60),
        _ if src.bool() => 256 - src.usize(0, 3),
        _ => src.usize(61, 256),
    };
    let ecd_at = if src.chance(1, 2) { src.usize(0, n.max(1) - 1) } else { usize::MAX };
    let second = if src.chance(1, 6) { src.usize(0, n.max(1) - 1) } else { usize::MAX };
    let (mut video, mut audio, mut dvr) = (false, false, false);
    let mut body = VFile::new();
    let many = n > 60;
    for i in 0..n {
        if i == ecd_at || i == second {
            let listed = match src.weighted(&[6, 2, 1]) {
                0 => src.usize(0, 6),
                1 => src.usize(0, 32),
                _ => src.usize(33, 300),
            };
            let mut d = VFile::new();
            let dvr_at = if src.chance(1, 2) && listed > 0 { if listed > 32 && src.bool() { src.usize(32, (listed - 1).min(40)) } else { src.usize(0, listed.min(32) - 1) } } else { usize::MAX };
            for k in 0..listed {
                let mut name = if k == dvr_at {
                    dvr |= k < 32;
                    utf16(["DVR File Version", "DVR File Version\0"][src.below(2) as usize])
                } else {
                    let v = [
                        "WM/Title", "DVR File Versio", "DVR file version", "xDVR File Version", "Title\0", "", "WM/Picture",
                        "DVR FileVersion", " DVR File Version",
                    ];
                    let s = *src.pick(&v);
                    let s = crate::dict::text(src).filter(|w| !w.starts_with("DVR File Version")).unwrap_or(s);
                    if s.is_empty() || !src.chance(1, 12) { utf16(s) } else { b"DVR File Version".to_vec() }
                };
                if src.chance(1, 10) {
                    // Long names, also beyond any internal limit.
                    let extra = src.edgy(0, 400) as usize;
                    name.extend(utf16(&"m".repeat(extra)));
                    if src.chance(1, 20) {
                        name.resize(65_534, 0x41);
                    }
                }
                name.truncate(65_535);
                d.u16le(name.len() as u16).bytes(&name).u16le(src.below(7) as u16);
                let val = if src.chance(1, 40) { vec![0xFF; src.edgy(0, 65_535) as usize] } else { payload(src, 80) };
                d.u16le(val.len() as u16).bytes(&val);
            }
            let mut o = VFile::new();
            o.u16le(listed as u16).append(&d);
            if src.chance(1, 8) {
                o.bytes(&payload(src, 40));
            }
            body.bytes(&ecd).u64le(o.len() + 24).append(&o);
        } else if !many && src.chance(1, 2) || many && (src.chance(1, 60) || i == n - 1 && src.bool()) {
            let ty = match src.below(4) {
                0 => {
                    audio = true;
                    audio_g
                }
                1 => {
                    video = true;
                    video_g
                }
                2 => guid("59dacfc0-59e6-11d0-a3ac-00a0c90348f6"), // command
                _ => {
                    let mut g = if src.bool() { audio_g } else { video_g };
                    g[src.below(16) as usize] ^= 1 << src.below(8);
                    g
                }
            };
            let mut o = VFile::new();
            o.bytes(&ty).bytes(&guid("20fb5700-5b55-11cf-a8fd-00805f5c442b")).u64le(0);
            let ts = payload(src, 80);
            o.u32le(ts.len() as u32).u32le(0).u16le(src.below(128) as u16).u32le(0).bytes(&ts);
            body.bytes(&stream).u64le(o.len() + 24).append(&o);
        } else {
            let g = *src.pick(&others);
            let o = if many { VFile::new() } else { big_payload(src, 200, huge) };
            body.bytes(&g).u64le(o.len() + 24).append(&o);
        }
    }
    let mut f = VFile::new();
    f.bytes(&guid("75b22630-668e-11cf-a6d9-00aa0062ce6c")).u64le(30 + body.len()).u32le(n as u32);
    f.bytes(&[1, 2]).append(&body);
    // Data object and index objects.
    if src.chance(2, 3) {
        let p = big_payload(src, 300, huge);
        f.bytes(&guid("75b22636-668e-11cf-a6d9-00aa0062ce6c")).u64le(p.len() + 24).append(&p);
    }
    let expect = if dvr {
        "MicrosoftDigitalVideoRecording"
    } else if video {
        "WindowsMediaVideo"
    } else if audio {
        "WindowsMediaAudio"
    } else {
        "AdvancedSystemsFormat"
    };
    ctx.label(format!("asf {expect}"));
    if ecd_at < n && !dvr {
        ctx.label("extended description without DVR");
    }
    if f.len() > u32::MAX as u64 {
        ctx.label("beyond 4 GiB");
    }
    if many {
        ctx.label("many objects");
    }
    ctx.describe(|| format!("asf: {n} objects, extended description at {ecd_at:?}, {} bytes -> {expect}", f.len()));
    ctx.nontrivial = n > 0;
    finish(f, "AdvancedSystemsFormat", expect)
}
