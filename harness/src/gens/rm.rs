//! RealMedia files.

use super::*;
use crate::engine::{Ctx, Src, Stop};

pub fn make(src: &mut Src, ctx: &mut Ctx) -> Result<Made, Stop> {
    let n = match src.weighted(&[8, 2, 1]) {
        0 => src.usize(0, 8),
        1 => src.usize(0, 40),
        _ if src.bool() => 64 - src.usize(0, 2),
        _ => src.usize(41, 64),
    };
    let huge: u64 = if src.chance(1, 3) { u32::MAX as u64 - 1024 } else { 0 };
    let (mut video, mut audio) = (false, false);
    let mut body = VFile::new();
    let mut last_is_media = false;
    let mut streams = 0;
    // Often a single stream decides, and among many chunks often the very last one.
    let sparse = n > 8 && src.chance(2, 3);
    let only = if src.bool() { n.max(1) - 1 } else { src.usize(0, n.max(1) - 1) };
    for i in 0..n {
        last_is_media = false;
        if if sparse { i == only } else { src.chance(1, 2) } {
            let mimes = [
                "audio/x-pn-realaudio", "video/x-pn-realvideo", "audio/", "video/", "audio/x-ralf-mpeg4",
                "logical-fileinfo", "application/x-rn", "Audio/x", "audio", "xvideo/x", "", "text/x", " video/x",
            ];
            let mut m = match src.weighted(&[4, 2, 1]) {
                0 => mimes[src.below(5) as usize],
                1 => *src.pick(&mimes),
                // Any other media type.
                _ => crate::tables::FORMATS[src.below(crate::tables::FORMATS.len() as u64) as usize].media,
            }
            .as_bytes()
            .to_vec();
            if src.chance(1, 10) && m.ends_with(b"/") {
                m.resize(src.usize(6, 255), b'x');
            }
            if let Some(w) = crate::dict::word(src) {
                m = if src.bool() { w.to_vec() } else { [&m, w].concat() };
                m.truncate(255);
            }
            audio |= m.starts_with(b"audio/");
            video |= m.starts_with(b"video/");
            let mut o = VFile::new();
            o.u16be(0).u16be(i as u16);
            for _ in 0..7 {
                o.u32be(src.edgy(0, u32::MAX as u64) as u32);
            }
            let name_len = if src.bool() { src.len(255) } else { src.edgy(0, 255) as usize };
            let name = blob_with(src, name_len, &[b"video/", b"audio/", b"MDPR"]);
            o.u8(name.len() as u8).bytes(&name).u8(m.len() as u8).bytes(&m);
            let t = big_payload(src, 200, huge);
            o.u32be(t.len() as u32).append(&t);
            body.bytes(b"MDPR").u32be(o.len() as u32 + 8).append(&o);
            last_is_media = true;
            streams += 1;
        } else {
            let ids: [&[u8]; 6] = [b"PROP", b"CONT", b"DATA", b"INDX", b"MDPX", b"RMMD"];
            let id = *src.pick(&ids);
            let o = if n > 20 { VFile::from_bytes(vec![0; src.usize(0, 9)]) } else { big_payload(src, 200, huge) };
            body.bytes(id).u32be(o.len() as u32 + 8).append(&o);
        }
    }
    // Writers disagree on whether the count includes the file header itself; both are exact as long
    // as the last counted chunk is not a stream description.
    let counted = if n > 0 && !last_is_media && src.chance(1, 4) { n } else { n + 1 };
    let mut f = VFile::new();
    f.bytes(b".RMF\0\0\0\x12").u16be(src.below(2) as u16).u32be(src.below(1 << 32) as u32).u32be(counted as u32);
    f.append(&body);
    if src.chance(1, 2) {
        // Uncounted data that looks like more chunks.
        let p = big_payload(src, 300, huge);
        f.append(&p);
    }
    let expect = if video {
        "Realvideo"
    } else if audio {
        "Realaudio"
    } else {
        "Realmedia"
    };
    ctx.label(format!("rm {expect}"));
    if f.len() > u32::MAX as u64 {
        ctx.label("beyond 4 GiB");
    }
    if n >= 60 {
        ctx.label("many chunks");
    }
    ctx.describe(|| format!("rm: {n} chunks, {streams} streams, {} bytes -> {expect}", f.len()));
    ctx.nontrivial = streams > 0;
    finish(f, "Realmedia", expect)
}
