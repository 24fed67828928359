//! Content without a signature: text, nearly text, and binary data.

use crate::engine::{Ctx, Src, Stop};
use crate::tables::{Text, signature_model, text_model};
use crate::vfile::{Fill, VFile};

const LIMIT: usize = 65_536;

fn text_piece(src: &mut Src, out: &mut Vec<u8>, n: usize) {
    let alphabets: [&[&str]; 6] = [
        &["a"],
        &["hello ", "world, ", "x", "0", "~", "\t", " "],
        &["é", "ü", "ß", "\u{A0}", "\u{7FF}", "\u{80}\u{0}"],
        &["日", "本", "語", "\u{2028}", "\u{800}", "\u{FFFD}", "\u{FEFF}"],
        &["😀", "𝄞", "\u{10FFFF}", "\u{10000}"],
        &["\r", "\x0B", "\x0C", "\u{85}", "z", "\u{2029}", "\u{200B}"],
    ];
    let a = alphabets[src.weighted(&[2, 4, 2, 3, 2, 1])];
    let end = out.len() + n;
    let mut r = crate::engine::Rng(src.below(1 << 20));
    while out.len() < end {
        let s = a[(r.next() % a.len() as u64) as usize];
        if s.contains('\0') {
            out.push(b'q');
            continue;
        }
        out.extend_from_slice(s.as_bytes());
    }
}

/// What spoils a text.
const FLAWS: [&[u8]; 26] = [
    b"\0", b"\x01", b"\x08", b"\x0E", b"\x1B", b"\x1C", b"\x1F", b"\x7F", b"\xC2\x80", b"\xC2\x9F", b"\xC2\x84", b"\xC2\x86",
    b"\x80", b"\xBF", b"\xFF", b"\xFE", b"\xC0\xAF", b"\xC1\xBF", b"\xE0\x80\x80", b"\xE0\x9F\xBF", b"\xED\xA0\x80",
    b"\xF0\x8F\xBF\xBF", b"\xF4\x90\x80\x80", b"\xF5\x80\x80\x80", b"\xE2\x82", b"\xF0\x9F\x98",
];

pub fn make_txt(src: &mut Src, ctx: &mut Ctx) -> Result<(VFile, Text), Stop> {
    let style = src.weighted(&[10, 4, 2, 1, 2]);
    let mut b: Vec<u8> = Vec::new();
    let mut label = "short text";
    match style {
        0 => {
            let lines = src.usize(0, 24);
            for _ in 0..lines {
                let n = src.len(200);
                text_piece(src, &mut b, n);
                b.extend_from_slice([&b"\n"[..], b"\r\n", b"\n\n"][src.weighted(&[6, 2, 1])]);
            }
            let n = src.len(60);
            text_piece(src, &mut b, n);
        }
        1 => {
            // Lines that reach the byte limit.
            label = "text around the limit";
            let target = (LIMIT + 12) - src.usize(0, 24);
            let lines = src.usize(0, 15);
            for _ in 0..lines {
                let n = src.usize(0, 3000);
                text_piece(src, &mut b, n);
                b.push(b'\n');
            }
            if b.len() < target {
                let pad = src.usize(0, (target - b.len()).min(4));
                b.resize(b.len() + pad, b'p');
                let n = target - b.len();
                text_piece(src, &mut b, n);
            }
            if src.bool() {
                let n = src.usize(0, 5000);
                text_piece(src, &mut b, n);
            }
        }
        2 => {
            label = "long text";
            let n = src.usize(0, 200_000);
            text_piece(src, &mut b, n);
            let k = src.usize(0, 30);
            for _ in 0..k {
                if !b.is_empty() {
                    let p = src.below(b.len() as u64) as usize;
                    if b[p] < 0x80 {
                        b[p] = b'\n';
                    }
                }
            }
        }
        4 => {
            // Text in another encoding, or with a byte order mark.
            label = "other encoding";
            let lines = src.usize(1, 20);
            for _ in 0..lines {
                let n = src.len(60);
                text_piece(src, &mut b, n);
                b.push(b'\n');
            }
            let s = String::from_utf8(b).expect("HARNESS: the text is not UTF-8");
            b = match src.below(8) {
                0 => [0xFF, 0xFE].into_iter().chain(s.encode_utf16().flat_map(u16::to_le_bytes)).collect(),
                1 => [0xFE, 0xFF].into_iter().chain(s.encode_utf16().flat_map(u16::to_be_bytes)).collect(),
                2 => s.encode_utf16().flat_map(u16::to_le_bytes).collect(),
                3 => s.chars().flat_map(|c| (c as u32).to_le_bytes()).collect(),
                4 => s.chars().map(|c| c as u32 as u8).collect(),
                5 => [&b"\xEF\xBB\xBF"[..], s.as_bytes()].concat(),
                6 => [&[*src.pick(&FLAWS), b"\xFF\xFE", b"\xFE\xFF", b"\xFF\xFE\0\0", b"\0\0\xFE\xFF"][src.below(5) as usize], s.as_bytes()].concat(),
                // CESU-8: characters beyond the first plane as two encoded halves.
                _ => s.encode_utf16().flat_map(|u| match u {
                    0..0x80 => vec![u as u8],
                    0x80..0x800 => vec![0xC0 | (u >> 6) as u8, 0x80 | (u & 63) as u8],
                    _ => vec![0xE0 | (u >> 12) as u8, 0x80 | (u >> 6 & 63) as u8, 0x80 | (u & 63) as u8],
                }).collect(),
            };
        }
        _ => {
            label = "binary";
            let n = src.len(70_000);
            b = crate::vfile::blob(src, n);
        }
    }
    if let Some(w) = crate::dict::word(src) {
        // At the start or the end, or anywhere else between two characters.
        let p = [0, b.len(), src.below(b.len() as u64 + 1) as usize][src.below(3) as usize];
        let p = (0..4).map(|d| p.saturating_sub(d)).find(|&q| q >= b.len() || b[q] & 0xC0 != 0x80).unwrap_or(0);
        b.splice(p..p, w.iter().copied());
    }
    // Flaws: somewhere, at line or limit borders, at the end.
    let mut flaws = 0;
    if src.chance(3, 5) {
        let k = if src.chance(1, 6) { 2 } else { 1 };
        for _ in 0..k {
            let f = *src.pick(&FLAWS);
            let p = match src.weighted(&[4, 3, 3, 2]) {
                0 => src.below(b.len() as u64 + 1) as usize,
                1 => {
                    // Next to the n-th line end.
                    let n = src.usize(13, 17);
                    let mut at = b.iter().enumerate().filter(|(_, c)| **c == b'\n').map(|(i, _)| i);
                    match at.nth(n) {
                        Some(i) => i + src.usize(0, 1),
                        None => b.len(),
                    }
                }
                2 => (LIMIT + 4).saturating_sub(src.usize(0, 8)).min(b.len()),
                _ => b.len(),
            };
            // Not inside a multi-byte character, where it would be two flaws.
            let p = (0..4).map(|d| p.saturating_sub(d)).find(|&q| q >= b.len() || b[q] & 0xC0 != 0x80).unwrap_or(0);
            b.splice(p..p, f.iter().copied());
            flaws += 1;
        }
    } else if src.chance(1, 8) && !b.is_empty() {
        // Cut anywhere, also inside a character.
        let n = src.usize(1, b.len());
        b.truncate(n);
    }
    if b.is_empty() {
        b.push(b'a');
    }
    let mut f = VFile::from_bytes(b);
    if src.chance(1, 16) {
        f.fill(src.edgy(1, 1 << 40), Fill::Byte([b'a', 0, 0xFF, 0x80][src.below(4) as usize]));
    }
    if !signature_model(&f.prefix(36_870)).is_empty() {
        return Err(Stop::Discard("a signature is present"));
    }
    let t = text_model(&f);
    ctx.label(label);
    ctx.label(match t {
        Text::Yes => "is text",
        Text::No => "is not text",
        Text::Open => "undetermined",
    });
    if flaws > 0 && t == Text::Yes {
        ctx.label("flaw beyond the examined lines");
    }
    ctx.describe(|| {
        let head = f.prefix(60);
        format!("txt: {} bytes starting {:?}, {flaws} flaws -> {t:?}", f.len(), String::from_utf8_lossy(&head))
    });
    ctx.nontrivial = f.len() > 1;
    Ok((f, t))
}
