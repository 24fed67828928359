//! Compound files.

use super::*;
use crate::engine::{Ctx, Src, Stop};

pub const CLSIDS: [(&str, &str); 48] = [
    ("e60f81e1-49b3-11d0-93c3-7e0706000000", "AutodeskInventorAssembly"),
    ("bbf9fdf1-52dc-11d0-8c04-0800090be8ec", "AutodeskInventorDrawing"),
    ("4d29b490-49b2-11d0-93c3-7e0706000000", "AutodeskInventorPart"),
    ("76283a80-50dd-11d3-a7e3-00c04f79d7bc", "AutodeskInventorPresentation"),
    ("402efe62-1999-101b-99ae-04021c007002", "CorelPresentations7"),
    ("597caa70-72aa-11cf-831e-524153480000", "FlashProject"),
    ("b4f235fe-dca6-4803-b7b2-c25a453c836b", "FlashProject"),
    ("00020810-0000-0000-c000-000000000046", "MicrosoftExcelSpreadsheet"),
    ("00020820-0000-0000-c000-000000000046", "MicrosoftExcelSpreadsheet"),
    ("00044851-0000-0000-c000-000000000046", "MicrosoftPowerpointPresentation"),
    ("64818d10-4f9b-11cf-86ea-00aa00b929e8", "MicrosoftPowerpointPresentation"),
    ("ea7bae70-fb3b-11cd-a903-00aa00510ea3", "MicrosoftPowerpointPresentation"),
    ("74b78f3a-c8c8-11d1-be11-00c04fb6faf1", "MicrosoftProjectPlan"),
    ("00021201-0000-0000-00c0-000000000046", "MicrosoftPublisherDocument"),
    ("000c1084-0000-0000-c000-000000000046", "MicrosoftSoftwareInstaller"),
    ("00021a13-0000-0000-c000-000000000046", "MicrosoftVisioDrawing"),
    ("00021a14-0000-0000-c000-000000000046", "MicrosoftVisioDrawing"),
    ("00020900-0000-0000-c000-000000000046", "MicrosoftWordDocument"),
    ("00020906-0000-0000-c000-000000000046", "MicrosoftWordDocument"),
    ("00021303-0000-0000-c000-000000000046", "MicrosoftWorksDatabase"),
    ("28cddbc3-0ae2-11ce-a29a-00aa004a1a72", "MicrosoftWorksDatabase"),
    ("00021302-0000-0000-c000-000000000046", "MicrosoftWorksWordProcessor"),
    ("0ea45ab2-9e0a-11d1-a407-00c04fb932ba", "MicrosoftWorksWordProcessor"),
    ("28cddbc2-0ae2-11ce-a29a-00aa004a1a72", "MicrosoftWorksWordProcessor"),
    ("83a33d36-27c5-11ce-bfd4-00400513bb57", "SolidworksAssembly"),
    ("83a33d34-27c5-11ce-bfd4-00400513bb57", "SolidworksDrawing"),
    ("83a33d30-27c5-11ce-bfd4-00400513bb57", "SolidworksPart"),
    ("3f543fa0-b6a6-101b-9961-04021c007002", "Starcalc"),
    ("6361d441-4235-11d0-89cb-008029e4b0b1", "Starcalc"),
    ("c6a5b861-85d6-11d1-89cb-008029e4b0b1", "Starcalc"),
    ("02b3b7e0-4225-11d0-89ca-008029e4b0b1", "Starchart"),
    ("bf884321-85dd-11d1-89d0-008029e4b0b1", "Starchart"),
    ("fb9c99e0-2c6d-101c-8e2c-00001b4cc711", "Starchart"),
    ("2e8905a0-85bd-11d1-89d0-008029e4b0b1", "Stardraw"),
    ("af10aae0-b36d-101b-9961-04021c007002", "Stardraw"),
    ("012d3cc0-4216-11d0-89cb-008029e4b0b1", "Starimpress"),
    ("565c7221-85bc-11d1-89d0-008029e4b0b1", "Starimpress"),
    ("02b3b7e1-4225-11d0-89ca-008029e4b0b1", "Starmath"),
    ("d4590460-35fd-101c-b12a-04021c007002", "Starmath"),
    ("ffb5e640-85de-11d1-89d0-008029e4b0b1", "Starmath"),
    ("8b04e9b0-420e-11d0-a45e-00a0249d57b1", "Starwriter"),
    ("c20cf9d1-85ae-11d1-aab4-006097da561a", "Starwriter"),
    ("dc5c7e40-b35c-101b-9961-04021c007002", "Starwriter"),
    ("1cdd8c7b-81c0-45a0-9fed-04143144cc1e", "ThreeDimensionalStudioMax"),
    ("519873ff-2dad-0220-1937-0000929679cd", "WordperfectDocument"),
    ("402efe60-1999-101b-99ae-04021c007002", "WordperfectGraphics"),
    ("00000000-0000-0000-0000-000000000000", ""),
    ("00020830-0000-0000-c000-000000000046", ""),
];

/// The 16 stored bytes of a class identifier.
pub fn guid(s: &str) -> [u8; 16] {
    let h: Vec<u8> = s.bytes().filter(|c| *c != b'-').collect();
    let mut b = [0u8; 16];
    for (i, x) in b.iter_mut().enumerate() {
        *x = u8::from_str_radix(std::str::from_utf8(&h[2 * i..2 * i + 2]).unwrap(), 16).unwrap();
    }
    b[..4].reverse();
    b[4..6].reverse();
    b[6..8].reverse();
    b
}

pub fn utf16(s: &str) -> Vec<u8> {
    s.encode_utf16().flat_map(|c| c.to_le_bytes()).collect()
}

fn by_clsid(g: &[u8; 16]) -> Option<&'static str> {
    CLSIDS.iter().find(|(s, f)| !f.is_empty() && guid(s) == *g).map(|(_, f)| *f)
}

pub fn make(src: &mut Src, ctx: &mut Ctx) -> Result<Made, Stop> {
    let which = src.cycle(CLSIDS.len() as u64 + 2) as usize;
    let mut id = match CLSIDS.get(which) {
        Some((s, _)) => guid(s),
        None => {
            let mut g = [0u8; 16];
            g.copy_from_slice(&blob_with(src, 16, &[]));
            g
        }
    };
    if src.chance(1, 8) {
        // A near miss: one byte off, or the textual byte order.
        if src.bool() {
            id[src.below(16) as usize] ^= 1 << src.below(8);
        } else {
            id[..4].reverse();
            id[4..6].reverse();
            id[6..8].reverse();
        }
    }
    let v4 = src.bool();
    let sector: u64 = if v4 { 4096 } else { 512 };
    let loc = match src.weighted(&[5, 3, 2]) {
        0 => src.below(4),
        1 => src.below(300),
        _ => src.edgy(0, src.mid.map_or(0xFFFF_FFF9, |m| m >> 12)),
    };
    const NAMES: [&str; 13] =
        ["MatOST", "WksSSWorkBook", "MatOS", "matOST", "WksSSWorkBoo", "WordDocument", "Contents", "", "MatOTS", "WkSSSWorkBook", "MatOS\u{154}", "WksSSWorkBoo\u{16B}", "\u{14D}atOST"];
    let (n2, n3) = if src.chance(1, 2) { (src.usize(0, 12), src.usize(0, 12)) } else { (src.usize(5, 7), src.usize(5, 7)) };
    let mut f = VFile::new();
    f.bytes(b"\xD0\xCF\x11\xE0\xA1\xB1\x1A\xE1");
    f.bytes(&blob_with(src, 16, &[]));
    f.u16le(src.below(100) as u16).u16le(if v4 { 4 } else { 3 }).u16le(0xFFFE);
    f.u16le(if v4 { 12 } else { 9 }).u16le(6).bytes(&[0; 6]);
    f.u32le(src.below(3) as u32).u32le(src.edgy(0, u32::MAX as u64) as u32).u32le(loc as u32);
    f.bytes(&blob_with(src, 512 - 52, &SOUP));
    let dir = sector * (1 + loc);
    if f.len() < dir {
        if dir - f.len() <= 8192 {
            let n = (dir - f.len()) as usize;
            f.bytes(&blob_with(src, n, &SOUP));
        } else {
            f.fill(dir - f.len(), if src.bool() { Fill::Byte(0) } else { Fill::Noise(src.below(1 << 16)) });
        }
    }
    let entry = |src: &mut Src, f: &mut VFile, name: &str, id: Option<&[u8; 16]>| {
        let n = utf16(name);
        let mut e = vec![0u8; 128];
        e[..n.len()].copy_from_slice(&n);
        e[64] = if name.is_empty() { 0 } else { n.len() as u8 + 2 };
        let rest = blob_with(src, 62, &[]);
        e[66..128].copy_from_slice(&rest);
        if let Some(id) = id {
            e[80..96].copy_from_slice(id);
        }
        f.bytes(&e);
    };
    let at = f.len();
    let root = if src.chance(1, 4) { "R" } else { "Root Entry" };
    entry(src, &mut f, root, Some(&id));
    let d2 = if src.chance(1, 6) { Some(guid(CLSIDS[src.below(46) as usize].0)) } else { None };
    // Another name where none is of importance.
    let other = |src: &mut Src, n: usize| -> &'static str {
        match crate::dict::text(src) {
            Some(w) if n > 1 && w.encode_utf16().count() < 32 && !w.starts_with("MatOST") && !w.starts_with("WksSSWorkBook") => w,
            _ => NAMES[n],
        }
    };
    let (name2, name3) = (other(src, n2), other(src, n3));
    entry(src, &mut f, name2, d2.as_ref());
    entry(src, &mut f, name3, None);
    // The rest of the directory sector, and possibly more.
    let end = at + sector;
    let n = (end - f.len()) as usize;
    f.bytes(&blob_with(src, n, &SOUP));
    if src.chance(1, 3) {
        f.bytes(&payload(src, 3000));
    }
    let expect = by_clsid(&id).unwrap_or(match (n2, n3) {
        (0, _) => "MicrosoftWorksWordProcessor",
        (_, 1) => "MicrosoftWorks6Spreadsheet",
        _ => "CompoundFileBinary",
    });
    ctx.label(if v4 { "cfb v4" } else { "cfb v3" });
    ctx.label(if by_clsid(&id).is_some() {
        "known class"
    } else if n2 == 0 || n3 == 1 {
        "by entry name"
    } else {
        "unknown class"
    });
    if f.len() > u32::MAX as u64 {
        ctx.label("beyond 4 GiB");
    }
    ctx.describe(|| {
        format!("cfb v{}: class {id:02x?}, directory sector {loc}, entries {:?} {:?} -> {expect}", 3 + v4 as u8, NAMES[n2], NAMES[n3])
    });
    ctx.nontrivial = true;
    finish(f, "CompoundFileBinary", expect)
}
