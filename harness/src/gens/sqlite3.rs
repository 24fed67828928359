//! SQLite databases with and without the Sketch marker.

use super::pdf::{body, contains, position};
use super::*;
use crate::engine::{Ctx, Src, Stop};

pub const MARKER: &[u8] = b"com.bohemiancoding.sketch3";

pub fn make(src: &mut Src, ctx: &mut Ctx) -> Result<Made, Stop> {
    let present = src.bool();
    let mut head = blob_with(src, 100, &SOUP);
    head[..16].copy_from_slice(b"SQLite format 3\0");
    let (len, at) = if present {
        let p = position(src, 32_768, MARKER.len() as u64, true);
        let tail = if src.bool() { 0 } else { src.below(70_000) };
        (p + MARKER.len() as u64 + tail, Some(p))
    } else {
        (src.edgy(0, 100_000), None)
    };
    let b = body(src, len, MARKER, at)?;
    let mut f = VFile::from_bytes(head);
    f.append(&b);
    if !present {
        if src.chance(1, 8) {
            // Databases that end anywhere, even inside the header.
            f.truncate(src.range(16, 100));
        }
        if contains(&f, MARKER) {
            return Err(Stop::Discard("marker by accident"));
        }
    }
    let expect = if present { "Sketch" } else { "Sqlite3" };
    ctx.label(format!("sqlite3 {expect}"));
    if let Some(p) = at {
        if p + MARKER.len() as u64 > 32_768 - 8 {
            ctx.label("marker at the end of the window");
        }
    }
    ctx.describe(|| format!("sqlite3: {} bytes, marker at {at:?} -> {expect}", f.len()));
    ctx.nontrivial = present || len > 0;
    finish(f, "Sqlite3", expect)
}
