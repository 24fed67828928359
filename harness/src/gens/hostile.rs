//! Arbitrary contents: valid containers, signatures with arbitrary contexts, text, noise, and all of
//! these damaged - hostile numbers in size, count and offset fields, flips, truncations, splices.

use super::*;
use crate::engine::{Ctx, Rng, Src, Stop};
use crate::tables::SIGS;

/// Values that break arithmetic.
fn hostile_value(src: &mut Src, width: u8, len: u64, off: u64) -> u64 {
    let bits = width as u32 * 8;
    let max = if bits == 64 { u64::MAX } else { (1u64 << bits) - 1 };
    let v = match src.weighted(&[3, 5, 3, 2, 2]) {
        0 => src.below(45),
        1 => {
            // Around powers of two and the top.
            let b = src.below(bits as u64 + 1) as u32;
            let p = if b >= 64 { 0 } else { 1u64 << b };
            p.wrapping_add(src.below(64)).wrapping_sub(src.below(64))
        }
        2 => max - src.below(70).min(max),
        3 => {
            // Relative to the stream: its end, this very field, the way back to the start.
            let base = [len, len.wrapping_sub(off), off, off.wrapping_neg(), (len as i64 as u64).wrapping_neg()];
            src.pick(&base).wrapping_add(src.below(64)).wrapping_sub(src.below(64))
        }
        _ => {
            let t = [
                i64::MAX as u64, i64::MIN as u64, i32::MAX as u64, u32::MAX as u64, u16::MAX as u64, 1 << 40, (1 << 44) - 4096,
            ];
            src.pick(&t).wrapping_add(src.below(64)).wrapping_sub(src.below(64))
        }
    };
    v & max
}

fn put(f: &mut VFile, off: u64, width: u8, be: bool, v: u64) {
    if be {
        f.patch(off, &v.to_be_bytes()[8 - width as usize..]);
    } else {
        f.patch(off, &v.to_le_bytes()[..width as usize]);
    }
}

/// Sets one numeric field, keeping the length marker of a variable-width number.
pub fn set_field(f: &mut VFile, fl: crate::vfile::Field, v: u64) {
    let bits = if fl.vint { 7 } else { 8 } * fl.width as u32;
    let mut v = if bits >= 64 { v } else { v & ((1u64 << bits) - 1) };
    if fl.vint {
        v |= 1u64 << bits;
    }
    put(f, fl.off, fl.width, fl.be, v);
}

/// Makes the value of a numeric field another one with the same low bytes: what narrows it sees no
/// difference.
pub fn high_part(src: &mut Src, f: &mut VFile, fl: crate::vfile::Field) {
    if fl.width < 2 {
        return;
    }
    let mut b = f.slice(fl.off, fl.width as usize);
    let low = match b.len() {
        2 => 1,
        3 | 4 => *src.pick(&[1, 2]),
        n => (*src.pick(&[1, 2, 4, 4, 4, n - 1])).min(n - 1),
    };
    if fl.be {
        b.reverse();
    }
    let i = src.usize(low, b.len() - 1);
    b[i] = if src.bool() { 1 << src.below(8) } else { src.below(256) as u8 };
    if fl.be {
        b.reverse();
    }
    f.patch(fl.off, &b);
    if fl.vint && src.chance(7, 8) {
        let v = b.iter().fold(0, |v, &x| v << 8 | x as u64);
        set_field(f, fl, v);
    }
}

/// Sets `n` numeric fields of a container to hostile values.
pub fn hostile_fields(src: &mut Src, f: &mut VFile) {
    let n = match src.below(4) {
        0 | 1 => 1,
        2 => 2,
        _ => src.usize(1, 6),
    };
    for _ in 0..n {
        if f.fields.is_empty() {
            return;
        }
        let fl = f.fields[src.below(f.fields.len() as u64) as usize];
        if src.chance(1, 6) {
            high_part(src, f, fl);
            continue;
        }
        let mut v = hostile_value(src, fl.width, f.len(), fl.off);
        if fl.vint && src.chance(7, 8) {
            // Keep the length marker of a variable-width number.
            let bits = 7 * fl.width as u32;
            v = v & ((1u64 << bits) - 1) | 1u64 << bits;
        }
        put(f, fl.off, fl.width, fl.be, v);
    }
}

/// One random damage.
pub fn damage(src: &mut Src, f: &mut VFile, other: &mut dyn FnMut(&mut Src) -> Option<VFile>) {
    let len = f.len();
    let at = |src: &mut Src| if src.bool() { src.below(len.max(1)) } else { src.below(len.clamp(1, 200)) };
    match src.weighted(&[8, 4, 3, 3, 2, 3, 2, 2]) {
        0 => hostile_fields(src, f),
        1 => {
            let n = src.usize(1, 4);
            for _ in 0..n {
                let p = at(src);
                let mut b = f.slice(p, 1);
                if let Some(x) = b.first_mut() {
                    *x = if src.bool() { *x ^ (1 << src.below(8)) } else { src.below(256) as u8 };
                    f.patch(p, &b);
                }
            }
        }
        2 => {
            // A hostile number anywhere.
            let p = at(src);
            let w = [1u8, 2, 4, 8][src.below(4) as usize];
            let be = src.bool();
            let v = hostile_value(src, w, len, p);
            put(f, p, w, be, v);
        }
        3 => {
            // Truncation.
            let n = if src.bool() { src.below(len + 1) } else { len - src.below(len.min(40) + 1) };
            f.truncate(n.max(1));
        }
        4 => {
            // Garbage at the end, or what other formats end with.
            if let Some(n) = crate::dict::length(src, 1 << 41) {
                // Exactly that long.
                if n > len {
                    f.fill(n - len, Fill::Byte(0));
                } else {
                    f.truncate(n.max(1));
                }
            } else if src.chance(1, 6) {
                let (t, at) = src.pick(&crate::props::signatures::TRAILERS);
                f.fill(src.edgy(0, 600), Fill::Byte(0)).bytes(t).fill((at - t.len()) as u64, Fill::Byte(0));
            } else {
                let p = payload(src, 300);
                f.bytes(&p);
            }
        }
        5 => {
            // Insertion or deletion.
            let start = src.chance(1, 6);
            let p = if start { 0 } else { at(src) };
            let mut g = f.sub(0, p);
            if start || src.bool() {
                // At the start: a byte order mark, white space or a stub.
                let b = if start { src.pick::<&[u8]>(&crate::props::signatures::PREFIXES).to_vec() } else { payload(src, 40) };
                g.bytes(&b);
                g.append(&f.sub(p, len));
            } else {
                let n = src.range(1, 40);
                g.append(&f.sub((p + n).min(len), len));
            }
            if !g.is_empty() {
                g.fields = f.fields.iter().copied().filter(|x| x.off + (x.width as u64) < p).collect();
                *f = g;
            }
        }
        6 => {
            // The tail of another container.
            if let Some(o) = other(src) {
                let p = at(src);
                let q = src.below(o.len().max(1));
                let fields = f.fields.clone();
                let mut g = f.sub(0, p.max(1));
                g.append(&o.sub(q, o.len()));
                g.fields = fields.into_iter().filter(|x| x.off + (x.width as u64) < p).collect();
                *f = g;
            }
        }
        _ => {
            // A part of itself repeated.
            let (a, b) = (at(src), at(src));
            let (a, b) = (a.min(b), a.max(b));
            if b - a < 1 << 20 {
                let part = f.sub(a, b);
                let n = src.range(1, 8);
                let mut g = f.sub(0, b);
                for _ in 0..n {
                    g.append(&part);
                }
                g.append(&f.sub(b, len));
                g.fields = f.fields.clone();
                *f = g;
            }
        }
    }
}

/// A content with at least one signature stamped on arbitrary bytes.
pub fn stamped(src: &mut Src, ctx: &mut Ctx) -> VFile {
    let i = src.below(SIGS.len() as u64) as usize;
    let s = &SIGS[i];
    let exact = crate::dict::length(src, 200_000).map_or(0, |n| n as usize);
    let len = match src.weighted(&[3, 3, 2, 1]) {
        _ if exact > s.end => exact,
        0 => s.end,
        1 => s.end + src.len(300),
        2 => s.end + src.len(5000),
        _ => s.end.max(36_870 - src.usize(0, 40) + 20),
    };
    let mut b = crate::vfile::blob_with(src, len, &SOUP);
    s.stamp(&mut b);
    ctx.label("signature in arbitrary bytes");
    VFile::from_bytes(b)
}

/// Where an arbitrary content came from.
pub struct Any {
    pub file: VFile,
    /// The intact container's signature format and answer, if it has not been damaged.
    pub intact: Option<(&'static str, &'static str)>,
}

/// Contents of the reader-less kinds: signatures, text, noise.
fn flat(src: &mut Src, ctx: &mut Ctx) -> Result<VFile, Stop> {
    Ok(match src.weighted(&[4, 3, 2, 1]) {
        0 => stamped(src, ctx),
        1 => txt::make_txt(src, ctx)?.0,
        2 => {
            ctx.label("noise");
            let n = src.len(3000);
            VFile::from_bytes(crate::vfile::blob_with(src, n, &SOUP))
        }
        _ => {
            // A container signature followed by noise.
            ctx.label("container signature and noise");
            let n = src.len(3000) + 16;
            let mut b = crate::vfile::blob_with(src, n, &SOUP);
            let fam = &crate::tables::FAMILIES[src.below(crate::tables::FAMILIES.len() as u64) as usize];
            let all: Vec<usize> = (0..SIGS.len()).filter(|&i| SIGS[i].format == fam.0).collect();
            SIGS[*src.pick(&all)].stamp(&mut b);
            VFile::from_bytes(b)
        }
    })
}

/// An arbitrary content. `only`: restrict to one container family.
pub fn any(src: &mut Src, ctx: &mut Ctx, only: Option<usize>) -> Result<Any, Stop> {
    // Containers get most of the weight; the family is enumerated.
    let k = match only {
        Some(k) => k,
        None => src.cycle(CONTAINERS.len() as u64 + 3) as usize,
    };
    let (mut file, intact) = if k < CONTAINERS.len() {
        let m = CONTAINERS[k].1(src, ctx)?;
        (m.file, Some((m.base, m.expect)))
    } else {
        (flat(src, ctx)?, None)
    };
    let n = match src.weighted(&[3, 5, 3, 2]) {
        0 => 0,
        1 => 1,
        2 => 2,
        _ => src.usize(3, 6),
    };
    for _ in 0..n {
        let mut other = |src: &mut Src| {
            let j = src.below(CONTAINERS.len() as u64) as usize;
            let mut c = Ctx::default();
            CONTAINERS[j].1(src, &mut c).ok().map(|m| m.file)
        };
        damage(src, &mut file, &mut other);
    }
    if n > 0 && src.chance(3, 4) {
        // Keep the head recognisable, so that the damage reaches the reader.
        if let Some((base, _)) = intact {
            let mut head = file.prefix(64);
            if head.len() < 16 {
                head.resize(16, 0);
                file = VFile::from_bytes(head);
            }
            stamp_signature(src, &mut file, base);
        }
    }
    ctx.label(if n > 0 { "damaged" } else { "intact" });
    if n > 0 {
        ctx.nontrivial = true;
    }
    Ok(Any { file, intact: if n == 0 { intact } else { None } })
}

/// A stable pseudo-random byte string, for contexts where shrinking the content is of no use.
pub fn noise(seed: u64, n: usize) -> Vec<u8> {
    let mut r = Rng(seed);
    let mut v = vec![0u8; n];
    for c in v.chunks_mut(8) {
        let x = r.next().to_le_bytes();
        let k = c.len();
        c.copy_from_slice(&x[..k]);
    }
    v
}
