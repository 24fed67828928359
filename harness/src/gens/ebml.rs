//! EBML documents (Matroska, WebM and others).

use super::*;
use crate::engine::{Ctx, Src, Stop};

/// Encodes `v` as an EBML size in `w` bytes.
pub fn vint(v: u64, w: u32) -> Vec<u8> {
    assert!((1..=8).contains(&w) && v < (1u64 << (7 * w)) - 1);
    let x = v | 1u64 << (7 * w);
    x.to_be_bytes()[8 - w as usize..].to_vec()
}
/// The reserved "unknown size".
pub fn unknown(w: u32) -> Vec<u8> {
    let x = ((1u64 << (7 * w)) - 1) | 1u64 << (7 * w);
    x.to_be_bytes()[8 - w as usize..].to_vec()
}

struct W<'a, 'b> {
    src: &'a mut Src<'b>,
    /// Elements emitted so far, nested ones included.
    count: usize,
    wide: bool,
}

impl W<'_, '_> {
    fn size(&mut self, v: u64) -> Vec<u8> {
        let mut w = 1;
        while w < 8 && v >= (1u64 << (7 * w)) - 1 {
            w += 1;
        }
        if self.wide {
            w = self.src.range(w as u64, 8) as u32;
        }
        vint(v, w)
    }
    fn el(&mut self, out: &mut VFile, id: &[u8], body: &VFile) {
        self.count += 1;
        out.bytes(id);
        let s = self.size(body.len());
        let at = out.len();
        out.fields.push(crate::vfile::Field { off: at, width: s.len() as u8, be: true, vint: true });
        out.bytes(&s).append(body);
    }
    fn raw(&mut self, out: &mut VFile, id: &[u8], body: &[u8]) {
        let b = VFile::from_bytes(body);
        self.el(out, id, &b);
    }
    fn uint(&mut self, out: &mut VFile, id: &[u8], v: u64) {
        let mut w = (64 - v.leading_zeros()).div_ceil(8).max(1) as usize;
        if self.wide {
            w = self.src.usize(w, 8);
        }
        let b = v.to_be_bytes()[8 - w..].to_vec();
        self.raw(out, id, &b);
    }
    /// An element of no importance.
    fn junk(&mut self, out: &mut VFile, huge: u64) {
        let ids: [&[u8]; 12] = [
            b"\xEC", b"\xBF", b"\x11\x4D\x9B\x74", b"\x15\x49\xA9\x66", b"\x12\x54\xC3\x67", b"\x1C\x53\xBB\x6B",
            b"\x10\x43\xA7\x70", b"\x19\x41\xA4\x69", b"\x7B\xA9", b"\x2A\xD7\xB1", b"\x81", b"\x4D\x80",
        ];
        let id = *self.src.pick(&ids);
        let body = match id {
            // The checksum is always four bytes.
            b"\xBF" => VFile::from_bytes(vec![1, 2, 3, 4]),
            b"\x11\x4D\x9B\x74" | b"\x15\x49\xA9\x66" | b"\x12\x54\xC3\x67" if self.src.bool() => {
                // A master with a child.
                let mut m = VFile::new();
                let p = payload(self.src, 60);
                self.raw(&mut m, b"\x4D\xBB", &p);
                m
            }
            _ => big_payload(self.src, 200, huge),
        };
        self.el(out, id, &body);
    }
    fn junks(&mut self, out: &mut VFile, max: usize, huge: u64) {
        if self.src.chance(1, 3) {
            let n = self.src.usize(1, max.max(1));
            for _ in 0..n {
                self.junk(out, huge);
            }
        }
    }
}

pub fn make(src: &mut Src, ctx: &mut Ctx) -> Result<Made, Stop> {
    // Document type.
    let doc = src.weighted(&[2, 12, 2]);
    let mut doc_type: Vec<u8> = match doc {
        0 => b"webm".to_vec(),
        1 => b"matroska".to_vec(),
        _ => {
            let v: [&[u8]; 10] =
                [b"", b"mkv", b"WebM", b"Matroska", b"matrosk", b"web", b"other", b"xwebm", b"ebml-document", b"xmatroska"];
            src.pick(&v).to_vec()
        }
    };
    if let (2, Some(w)) = (doc, crate::dict::word(src)) {
        if !w.starts_with(b"webm") && !w.starts_with(b"matroska") {
            doc_type = w.to_vec();
        }
    }
    if src.chance(1, 6) {
        let n = src.usize(1, 12);
        doc_type.extend(std::iter::repeat_n(0, n));
    }
    let wide = src.bool();
    let huge: u64 = if src.chance(1, 3) { [6 << 30, 1 << 50][src.below(2) as usize] } else { 0 };
    let mut w = W { src, count: 0, wide };
    // EBML header.
    let mut head = VFile::new();
    let mut parts: Vec<u8> = vec![0, 1, 2, 3, 4, 5, 6, 7];
    for i in (1..parts.len()).rev() {
        let j = w.src.below(i as u64 + 1) as usize;
        if wide {
            parts.swap(i, j);
        }
    }
    for p in parts {
        match p {
            0 => w.uint(&mut head, b"\x42\x86", 1),
            1 => w.uint(&mut head, b"\x42\xF7", 1),
            2 => w.uint(&mut head, b"\x42\xF2", 4),
            3 => w.uint(&mut head, b"\x42\xF3", 8),
            4 => w.raw(&mut head, b"\x42\x82", &doc_type),
            5 => w.uint(&mut head, b"\x42\x87", 4),
            6 => w.uint(&mut head, b"\x42\x85", 2),
            _ => w.junks(&mut head, 2, 0),
        }
    }
    let mut f = VFile::new();
    w.el(&mut f, b"\x1A\x45\xDF\xA3", &head);
    // Void elements are allowed at the top level too.
    if w.src.chance(1, 12) {
        let p = big_payload(w.src, 100, huge);
        w.el(&mut f, b"\xEC", &p);
    }
    // Segment.
    let mut seg = VFile::new();
    w.count += 1;
    w.junks(&mut seg, 6, huge);
    let pad = w.src.chance(1, 12);
    let mut all = VFile::new();
    let (mut video, mut audio, mut subs, mut stereo) = (false, false, false, false);
    let groups = w.src.weighted(&[1, 10, 1]);
    let mut described = 0;
    for _ in 0..groups {
        let mut tracks = VFile::new();
        w.count += 1;
        w.junks(&mut tracks, 2, 0);
        let max = if w.src.chance(1, 15) { 24 } else { 4 };
        let n = w.src.usize(0, max);
        for t in 0..n {
            let mut te = VFile::new();
            w.count += 1;
            let codecs: [(&str, u8); 18] = [
                ("V_MPEG4/ISO/AVC", 1), ("V_VP9", 1), ("V_", 1), ("A_AAC", 2), ("A_OPUS", 2), ("A_", 2),
                ("S_TEXT/UTF8", 3), ("S_HDMV/PGS", 3), ("S_", 3), ("B_VOBBTN", 0), ("", 0), ("V", 0), ("a_aac", 0), ("XV_X", 0), ("A/AAC", 0),
                ("VP9", 0), ("s_text", 0), ("S-TEXT", 0),
            ];
            let kind = *w.src.pick(&codecs);
            let mut codec = kind.0.as_bytes().to_vec();
            if kind.1 > 0 && w.src.chance(1, 8) {
                let n = w.src.edgy(0, 140) as usize;
                let fill = if w.src.bool() { 0 } else { b'x' };
                codec.extend(std::iter::repeat_n(fill, n));
            }
            let mut kind = kind.1;
            if let Some(x) = crate::dict::word(w.src) {
                codec = if kind > 0 && w.src.bool() { [&codec[..2], x].concat() } else { x.to_vec() };
                kind = match codec.get(..2) {
                    Some(b"V_") => 1,
                    Some(b"A_") => 2,
                    Some(b"S_") => 3,
                    _ => 0,
                };
            }
            match kind {
                1 => video = true,
                2 => audio = true,
                3 => subs = true,
                _ => {}
            }
            w.uint(&mut te, b"\xD7", t as u64 + 1);
            w.junks(&mut te, 3, huge);
            let video_first = w.src.bool();
            let has_video = kind == 1 && w.src.chance(3, 4);
            let mode = if has_video && w.src.chance(1, 3) {
                Some(match w.src.weighted(&[6, 2, 1]) {
                    0 => 0,
                    1 => w.src.range(1, 14),
                    _ => w.src.edgy(1, u64::MAX),
                })
            } else {
                None
            };
            let mut vid = VFile::new();
            if has_video {
                w.count += 1;
                w.junks(&mut vid, 2, 0);
                let before = w.src.bool();
                if before {
                    w.uint(&mut vid, b"\xB0", 640);
                    w.uint(&mut vid, b"\xBA", 480);
                }
                if let Some(m) = mode {
                    w.uint(&mut vid, b"\x53\xB8", m);
                    stereo |= m > 0;
                }
                if !before {
                    w.uint(&mut vid, b"\xB0", 640);
                    w.uint(&mut vid, b"\xBA", 480);
                }
                w.junks(&mut vid, 2, 0);
                w.count -= 1;
            }
            if has_video && video_first {
                w.el(&mut te, b"\xE0", &vid);
            }
            w.raw(&mut te, b"\x86", &codec);
            if kind == 2 && w.src.bool() {
                let mut a = VFile::new();
                w.uint(&mut a, b"\x9F", 2);
                w.raw(&mut a, b"\xB5", &[0x46, 0x3B, 0x80, 0]);
                w.el(&mut te, b"\xE1", &a);
            }
            if w.src.chance(1, 3) {
                let p = payload(w.src, 300);
                w.raw(&mut te, b"\x63\xA2", &p);
            }
            if has_video && !video_first {
                w.el(&mut te, b"\xE0", &vid);
            }
            w.junks(&mut te, 2, huge);
            w.count -= 1;
            w.el(&mut tracks, b"\xAE", &te);
        }
        w.junks(&mut tracks, 2, 0);
        w.count -= 1;
        w.el(&mut all, b"\x16\x54\xAE\x6B", &tracks);
        described = w.count;
    }
    if pad && described < 256 {
        // Many small elements before the tracks: everything up to the last track must be within the
        // first 256 elements, and often just is.
        let room = 256 - described;
        let n = if w.src.bool() { room - w.src.usize(0, room.min(2)) } else { w.src.usize(0, room) };
        for _ in 0..n {
            w.raw(&mut seg, b"\xEC", &[0]);
        }
        described += n;
    }
    seg.append(&all);
    if described > 256 {
        return Err(Stop::Discard("tracks beyond the first 256 elements"));
    }
    // What follows the tracks.
    w.junks(&mut seg, 6, huge);
    if w.src.chance(1, 20) {
        let n = w.src.usize(1, 300);
        for _ in 0..n {
            w.raw(&mut seg, b"\xEC", &[0, 0]);
        }
    }
    let before_clusters = w.count;
    let clusters = w.src.usize(0, 3);
    let unknown_seg = w.src.chance(1, 3);
    for _ in 0..clusters {
        let mut c = VFile::new();
        w.uint(&mut c, b"\xE7", 0);
        let p = big_payload(w.src, 400, huge);
        w.el(&mut c, b"\xA3", &p);
        if unknown_seg && w.src.bool() {
            let uw = w.src.range(1, 8) as u32;
            seg.bytes(b"\x1F\x43\xB6\x75").bytes(&unknown(uw)).append(&c);
        } else {
            w.el(&mut seg, b"\x1F\x43\xB6\x75", &c);
        }
    }
    if clusters > 0 {
        w.junks(&mut seg, 3, huge);
    }
    f.bytes(b"\x18\x53\x80\x67");
    if unknown_seg {
        let uw = w.src.range(1, 8) as u32;
        f.bytes(&unknown(uw));
    } else {
        let s = w.size(seg.len());
        f.bytes(&s);
    }
    f.append(&seg);
    let expect = match doc {
        0 => "Webm",
        2 => "ExtensibleBinaryMetaLanguage",
        _ if stereo => "Matroska3dVideo",
        _ if video => "MatroskaVideo",
        _ if audio => "MatroskaAudio",
        _ if subs => "MatroskaSubtitles",
        _ => "ExtensibleBinaryMetaLanguage",
    };
    ctx.label(format!("ebml {expect}"));
    if wide {
        ctx.label("wide encodings");
    }
    if unknown_seg {
        ctx.label("unknown-size segment");
    }
    if f.len() > u32::MAX as u64 {
        ctx.label("beyond 4 GiB");
    }
    if before_clusters > 150 {
        ctx.label("many elements");
    }
    ctx.describe(|| {
        format!(
            "ebml: doctype {:?}, {before_clusters} elements before {clusters} clusters, {} bytes, wide {wide}, unknown-size {unknown_seg} -> {expect}",
            String::from_utf8_lossy(&doc_type), f.len()
        )
    });
    ctx.nontrivial = doc == 1 && groups > 0;
    finish(f, "ExtensibleBinaryMetaLanguage", expect)
}
