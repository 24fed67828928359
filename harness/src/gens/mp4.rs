//! ISO base media (MP4) files.

use super::*;
use crate::engine::{Ctx, Src, Stop};

struct W<'a, 'b> {
    src: &'a mut Src<'b>,
    count: usize,
    /// Probability (in 8ths) of 64-bit sizes.
    wide: u64,
    huge: u64,
}

impl W<'_, '_> {
    fn el(&mut self, out: &mut VFile, ty: &[u8], body: &VFile) {
        self.count += 1;
        let wide = body.len() + 8 > u32::MAX as u64 || (self.wide > 0 && self.src.chance(self.wide, 8));
        if wide {
            out.u32be(1).bytes(ty).u64be(body.len() + 16);
        } else {
            out.u32be(body.len() as u32 + 8).bytes(ty);
        }
        out.append(body);
    }
    fn junk(&mut self, out: &mut VFile, tys: &[&[u8]]) {
        let mut ty = self.src.pick(tys).to_vec();
        if let Some(w) = crate::dict::word(self.src) {
            if !matches!(w, b"moov" | b"trak" | b"mdia" | b"hdlr") {
                ty = w.to_vec();
                ty.resize(4, b' ');
            }
        }
        let body = big_payload(self.src, 200, self.huge);
        self.el(out, &ty, &body);
    }
    fn junks(&mut self, out: &mut VFile, max: usize, tys: &[&[u8]]) {
        if self.src.chance(1, 2) {
            let n = self.src.usize(1, max);
            for _ in 0..n {
                self.junk(out, tys);
            }
        }
    }
    fn hdlr(&mut self, out: &mut VFile, kind: &[u8]) {
        let mut h = VFile::new();
        h.bytes(&[0; 4]);
        if self.src.bool() {
            h.bytes(b"mhlr");
        } else {
            h.bytes(&[0; 4]);
        }
        h.bytes(kind).bytes(&[0; 12]);
        // Names may be empty, terminated or not, and of any length.
        let name = payload(self.src, 100);
        h.bytes(&name);
        self.el(out, b"hdlr", &h);
    }
}

const TOP: [&[u8]; 12] = [
    b"free", b"skip", b"mdat", b"wide", b"uuid", b"udta", b"meta", b"moof", b"mfra", b"sidx", b"pdin", b"\xA9abc",
];
const IN_MOOV: [&[u8]; 6] = [b"udta", b"iods", b"mvex", b"free", b"meta", b"uuid"];
const IN_TRAK: [&[u8]; 6] = [b"edts", b"tref", b"udta", b"free", b"meta", b"load"];
const IN_MDIA: [&[u8]; 4] = [b"elng", b"free", b"uuid", b"skip"];

pub fn make(src: &mut Src, ctx: &mut Ctx) -> Result<Made, Stop> {
    let brands: Vec<usize> = (0..SIGS.len()).filter(|&i| SIGS[i].format == "Mpeg4Part14").collect();
    let brand = SIGS[brands[src.cycle(brands.len() as u64) as usize]].parts[0].1[4..].to_vec();
    let wide = [0, 0, 1, 4, 8][src.below(5) as usize];
    let huge: u64 = if src.chance(1, 3) { [8 << 30, 1 << 54][src.below(2) as usize] } else { 0 };
    let mut w = W { src, count: 0, wide, huge };
    let mut f = VFile::new();
    // The file type box always has a 32-bit size.
    let mut ft = VFile::new();
    ft.bytes(&brand).u32be(w.src.below(1 << 20) as u32);
    let compat = w.src.usize(0, 5);
    for _ in 0..compat {
        let c: [&[u8]; 5] = [b"isom", b"mp42", b"vide", b"hdlr", b"moov"];
        ft.bytes(w.src.pick(&c));
    }
    f.u32be(ft.len() as u32 + 8).bytes(b"ftyp").append(&ft);
    w.count += 1;
    w.junks(&mut f, 4, &TOP);
    let pad = w.src.chance(1, 12);
    // With nothing behind the handler, which may then be box number 256 itself.
    let bare = pad && w.src.bool();
    let (mut video, mut audio, mut subs) = (false, false, false);
    let has_moov = !w.src.chance(1, 12);
    let mut moov = VFile::new();
    let mut n_tracks = 0;
    if has_moov {
        w.count += 1;
        let mv = payload(w.src, 108);
        w.el(&mut moov, b"mvhd", &VFile::from_bytes(mv));
        w.junks(&mut moov, 2, &IN_MOOV);
        n_tracks = if w.src.chance(1, 12) { w.src.usize(0, 24) } else { w.src.usize(0, 4) };
        for _ in 0..n_tracks {
            let mut trak = VFile::new();
            w.count += 1;
            let tk = payload(w.src, 92);
            if w.src.chance(5, 6) {
                w.el(&mut trak, b"tkhd", &VFile::from_bytes(tk));
            }
            w.junks(&mut trak, 2, &IN_TRAK);
            let mut mdia = VFile::new();
            w.count += 1;
            let kinds: [(&[u8], u8); 15] = [
                (b"vide", 1), (b"soun", 2), (b"sbtl", 3), (b"subt", 3), (b"text", 3), (b"hint", 0), (b"meta", 0),
                (b"tmcd", 0), (b"clcp", 0), (b"mdir", 0), (b"VIDE", 0), (b"vid ", 0), (b"snd ", 0), (b"edih", 0), (b"auxv", 0),
            ];
            let kind = if w.src.chance(2, 3) { kinds[w.src.below(5) as usize] } else { *w.src.pick(&kinds) };
            let mut kind = (kind.0.to_vec(), kind.1);
            if let Some(x) = crate::dict::word(w.src) {
                let mut x = x.to_vec();
                x.resize(4, b' ');
                let known = kinds.iter().find(|k| k.0 == x).map_or(0, |k| k.1);
                kind = (x, known);
            }
            match kind.1 {
                1 => video = true,
                2 => audio = true,
                3 => subs = true,
                _ => {}
            }
            let order = w.src.bool();
            let md = payload(w.src, 32);
            if order {
                w.el(&mut mdia, b"mdhd", &VFile::from_bytes(md.clone()));
            }
            w.junks(&mut mdia, 2, &IN_MDIA);
            let late = bare || w.src.chance(1, 6);
            if !late {
                w.hdlr(&mut mdia, &kind.0);
            }
            if !order {
                w.el(&mut mdia, b"mdhd", &VFile::from_bytes(md));
            }
            let minf = big_payload(w.src, 300, 0);
            w.el(&mut mdia, b"minf", &minf);
            if late {
                w.hdlr(&mut mdia, &kind.0);
            }
            if !bare {
                w.junks(&mut mdia, 2, &IN_MDIA);
            }
            w.count -= 1;
            w.el(&mut trak, b"mdia", &mdia);
            if !bare {
                w.junks(&mut trak, 2, &IN_TRAK);
            }
            w.count -= 1;
            w.el(&mut moov, b"trak", &trak);
        }
        if !bare {
            w.junks(&mut moov, 2, &IN_MOOV);
        }
        w.count -= 1;
    }
    let inside = w.count + has_moov as usize;
    if pad && inside < 256 {
        // Many small boxes before the movie box: all tracks must be within the first 256 boxes, and
        // often just are.
        let room = 256 - inside;
        let n = if w.src.bool() { room - w.src.usize(0, room.min(2)) } else { w.src.usize(0, room) };
        for _ in 0..n {
            w.el(&mut f, b"free", &VFile::new());
        }
    }
    // A last box may have size zero: it extends to the end.
    let last_zero = w.src.chance(1, 5);
    let more = !last_zero || w.src.bool();
    if has_moov {
        if more {
            w.el(&mut f, b"moov", &moov);
        } else {
            f.u32be(0).bytes(b"moov").append(&moov);
            w.count += 1;
        }
    }
    if w.count > 256 {
        return Err(Stop::Discard("tracks beyond the first 256 boxes"));
    }
    let described = w.count;
    if more {
        w.junks(&mut f, 4, &TOP);
        if w.src.chance(1, 20) {
            let n = w.src.usize(1, 300);
            for _ in 0..n {
                w.el(&mut f, b"free", &VFile::new());
            }
        }
        if last_zero {
            let ty = *w.src.pick(&[b"mdat", b"free", b"meta"]);
            let p = big_payload(w.src, 400, huge);
            f.u32be(0).bytes(ty).append(&p);
        }
    }
    let expect = if video {
        "Mpeg4Part14Video"
    } else if audio {
        "Mpeg4Part14Audio"
    } else if subs {
        "Mpeg4Part14Subtitles"
    } else {
        "Mpeg4Part14"
    };
    ctx.label(format!("mp4 {expect}"));
    if wide > 0 {
        ctx.label("64-bit sizes");
    }
    if last_zero {
        ctx.label("last box of size zero");
    }
    if f.len() > u32::MAX as u64 {
        ctx.label("beyond 4 GiB");
    }
    if described > 150 {
        ctx.label("many boxes");
    }
    ctx.describe(|| {
        format!(
            "mp4: brand {:?}, {n_tracks} tracks, {described} boxes up to the tracks, {} bytes, 64-bit {wide}/8, last zero {last_zero} -> {expect}",
            String::from_utf8_lossy(&brand), f.len()
        )
    });
    ctx.nontrivial = n_tracks > 0;
    finish(f, "Mpeg4Part14", expect)
}
