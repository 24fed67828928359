//! ZIP archives.
//!
//! The identification rules are those documented for the formats of the family: an exact entry
//! name, a folder/extension pattern, or the content of a stored `mimetype` entry.

use super::*;
use crate::engine::{Ctx, Src, Stop};

/// Exact entry names.
pub const NAMES: [(&str, &str); 14] = [
    ("AndroidManifest.xml", "AndroidPackage"),
    ("AppManifest.xaml", "Xap"),
    ("AppxManifest.xml", "WindowsAppPackage"),
    ("AppxMetadata/AppxBundleManifest.xml", "WindowsAppBundle"),
    ("BundleConfig.pb", "AndroidAppBundle"),
    ("DOMDocument.xml", "FlashCs5Project"),
    ("META-INF/AIR/application.xml", "AdobeIntegratedRuntime"),
    ("META-INF/application.xml", "EnterpriseApplicationArchive"),
    ("META-INF/mozilla.rsa", "Xpinstall"),
    ("WEB-INF/web.xml", "WebApplicationArchive"),
    ("canvas.fig", "FigmaDesign"),
    ("doc.kml", "KeyholeMarkupLanguageZip"),
    ("document.json", "Sketch43"),
    ("extension.vsixmanifest", "MicrosoftVisualStudioExtension"),
];

pub const MANIFEST: &str = "META-INF/MANIFEST.MF";

/// Folder prefixes.
pub const FOLDERS: [(&str, &str); 9] = [
    ("Fusion[Active]/", "Autodesk123d"),
    ("circuitdiagram/", "CircuitDiagramDocument"),
    ("dwf/", "DesignWebFormatXps"),
    ("FusionAssetName[Active]/", "Fusion360"),
    ("word/", "OfficeOpenXmlDocument"),
    ("visio/", "OfficeOpenXmlDrawing"),
    ("ppt/", "OfficeOpenXmlPresentation"),
    ("xl/", "OfficeOpenXmlSpreadsheet"),
    ("SpaceClaim/", "SpaceclaimDocument"),
];

/// Extensions of top-level entries.
pub const EXTS: [(&str, &str); 4] = [
    (".fb2", "FictionbookZip"),
    (".usd", "UniversalSceneDescriptionZip"),
    (".usda", "UniversalSceneDescriptionZip"),
    (".usdc", "UniversalSceneDescriptionZip"),
];

/// (folder, ending).
pub const FOLDER_EXTS: [(&str, &str, &str); 2] =
    [("Documents/", ".fpage", "Openxps"), ("3D/", ".model", "ThreeDimensionalManufacturingFormat")];

pub const MIMES: [(&str, &str); 29] = [
    ("application/epub+zip", "ElectronicPublication"),
    ("application/vnd.adobe.indesign-idml-package", "IndesignMarkupLanguage"),
    ("application/vnd.oasis.opendocument.base", "OpendocumentDatabase"),
    ("application/vnd.oasis.opendocument.database", "OpendocumentDatabase"),
    ("application/vnd.oasis.opendocument.formula", "OpendocumentFormula"),
    ("application/vnd.oasis.opendocument.formula-template", "OpendocumentFormulaTemplate"),
    ("application/vnd.oasis.opendocument.graphics", "OpendocumentGraphics"),
    ("application/vnd.oasis.opendocument.graphics-template", "OpendocumentGraphicsTemplate"),
    ("application/vnd.oasis.opendocument.presentation", "OpendocumentPresentation"),
    ("application/vnd.oasis.opendocument.presentation-template", "OpendocumentPresentationTemplate"),
    ("application/vnd.oasis.opendocument.spreadsheet", "OpendocumentSpreadsheet"),
    ("application/vnd.oasis.opendocument.spreadsheet-template", "OpendocumentSpreadsheetTemplate"),
    ("application/vnd.oasis.opendocument.text", "OpendocumentText"),
    ("application/vnd.oasis.opendocument.text-master", "OpendocumentTextMaster"),
    ("application/vnd.oasis.opendocument.text-master-template", "OpendocumentTextMasterTemplate"),
    ("application/vnd.oasis.opendocument.text-template", "OpendocumentTextTemplate"),
    ("application/vnd.recordare.musicxml", "MusicxmlZip"),
    ("application/vnd.sun.xml.calc", "SunXmlCalc"),
    ("application/vnd.sun.xml.calc.template", "SunXmlCalcTemplate"),
    ("application/vnd.sun.xml.draw", "SunXmlDraw"),
    ("application/vnd.sun.xml.draw.template", "SunXmlDrawTemplate"),
    ("application/vnd.sun.xml.impress", "SunXmlImpress"),
    ("application/vnd.sun.xml.impress.template", "SunXmlImpressTemplate"),
    ("application/vnd.sun.xml.math", "SunXmlMath"),
    ("application/vnd.sun.xml.writer", "SunXmlWriter"),
    ("application/vnd.sun.xml.writer.global", "SunXmlWriterGlobal"),
    ("application/vnd.sun.xml.writer.template", "SunXmlWriterTemplate"),
    ("image/openraster", "Openraster"),
    ("application/x-unknown", "Zip"),
];

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Rule {
    /// Identifies a format.
    Is(&'static str),
    /// The manifest of a Java archive.
    Manifest,
    /// The media type entry.
    Mime,
    /// Identifies nothing.
    Nothing,
    /// The documentation does not settle it (such as a bare folder entry): not generated.
    Unsettled,
}

/// What an entry name identifies.
pub fn rule(name: &[u8]) -> Rule {
    for (n, f) in NAMES {
        if name == n.as_bytes() {
            return Rule::Is(f);
        }
    }
    if name == MANIFEST.as_bytes() {
        return Rule::Manifest;
    }
    if name == b"mimetype" {
        return Rule::Mime;
    }
    let slash = name.contains(&b'/');
    let mut hits: Vec<&'static str> = Vec::new();
    for (p, f) in FOLDERS {
        if name.starts_with(p.as_bytes()) {
            if name.len() == p.len() {
                return Rule::Unsettled;
            }
            hits.push(f);
        }
    }
    for (e, f) in EXTS {
        if !slash && name.ends_with(e.as_bytes()) {
            if name.len() == e.len() {
                return Rule::Unsettled;
            }
            hits.push(f);
        }
    }
    for (p, e, f) in FOLDER_EXTS {
        if name.starts_with(p.as_bytes()) && name.ends_with(e.as_bytes()) {
            if name.len() <= p.len() + e.len() {
                return Rule::Unsettled;
            }
            hits.push(f);
        }
    }
    if name.starts_with(b"Payload/") {
        // Payload/<bundle>.app/<anything>
        let rest = &name[8..];
        let at = rest.windows(5).position(|w| w == b".app/");
        match at {
            None => {}
            Some(p) if p > 0 && !rest[..p].contains(&b'/') && rest.len() > p + 5 => hits.push("IosAppStorePackage"),
            Some(_) => return Rule::Unsettled,
        }
    }
    match hits.as_slice() {
        [] => Rule::Nothing,
        [f] => Rule::Is(f),
        _ => Rule::Unsettled,
    }
}

const WORDS: [&str; 22] = [
    "a", "index.html", "content.xml", "Pages/1", "_rels/.rels", "Thumbnails/thumbnail.png", "classes.dex",
    "[Content_Types].xml", "META-INF/container.xml", "settings.xml", "res/layout", "x.app", "1.png", "data.bin",
    "Metadata/", "readme.txt", "META-INF/", "META-INF/LICENSE", "mimetype.txt", "r\u{e9}sum\u{e9}.doc", "\u{65e5}\u{672c}/\u{8a9e}", "a b/c;d",
];

fn stem(src: &mut Src) -> Vec<u8> {
    let mut s = match crate::dict::word(src) {
        Some(w) => w.to_vec(),
        None => src.pick(&WORDS).as_bytes().to_vec(),
    };
    match src.weighted(&[30, 10, 2, 1]) {
        0 => {}
        1 => {
            let n = src.usize(1, 12);
            for _ in 0..n {
                s.push(b'a' + src.below(26) as u8);
            }
        }
        2 => {
            // Bytes of some code page.
            let n = src.usize(1, 4);
            for _ in 0..n {
                let i = src.usize(0, s.len());
                s.insert(i, 0x80 + src.below(128) as u8);
            }
        }
        _ => {
            let n = if src.bool() { src.edgy(1, 1100) } else { src.edgy(1, 30_000) };
            s.extend(vec![b'l'; n as usize]);
        }
    }
    s
}

fn flat_stem(src: &mut Src) -> Vec<u8> {
    let mut s = stem(src);
    s.iter_mut().filter(|c| **c == b'/').for_each(|c| *c = b'_');
    s
}

fn join(parts: &[&[u8]]) -> Vec<u8> {
    parts.concat()
}

/// A name made to identify a format (which one is decided by `rule`).
fn positive(src: &mut Src) -> Vec<u8> {
    match src.weighted(&[6, 4, 2, 2, 1]) {
        0 => NAMES[src.below(NAMES.len() as u64) as usize].0.into(),
        1 => {
            let p = src.pick(&FOLDERS).0;
            join(&[p.as_bytes(), &stem(src)])
        }
        2 => {
            let s = flat_stem(src);
            join(&[&s, src.pick(&EXTS).0.as_bytes()])
        }
        3 => {
            let (p, e, _) = *src.pick(&FOLDER_EXTS);
            join(&[p.as_bytes(), &stem(src), e.as_bytes()])
        }
        _ => payload_name(src),
    }
}

fn payload_name(src: &mut Src) -> Vec<u8> {
    let app = if src.chance(1, 3) { flat_stem(src) } else { [&b"App"[..], b"a b", b"x"][src.below(3) as usize].to_vec() };
    join(&[b"Payload/", &app, b".app/", &stem(src)])
}

/// A name that merely resembles an identifying one, or an unrelated one.
fn neutral(src: &mut Src) -> Vec<u8> {
    let base = match src.weighted(&[4, 4, 1, 1]) {
        3 => {
            // A name with the extension of some format.
            let f = &crate::tables::FORMATS[src.below(crate::tables::FORMATS.len() as u64) as usize];
            join(&[&stem(src), b".", f.ext.as_bytes()])
        }
        0 => match crate::dict::word(src) {
            Some(w) => join(&[&stem(src), w]),
            None => stem(src),
        },
        1 => positive(src),
        _ => [MANIFEST, "mimetype"][src.below(2) as usize].into(),
    };
    let mut b = base;
    match src.weighted(&[2, 2, 2, 2, 2, 2, 1, 1]) {
        0 => {}
        1 => {
            // Another case.
            let i = src.below(b.len().max(1) as u64) as usize;
            if let Some(c) = b.get_mut(i) {
                *c = if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() };
            }
        }
        2 => {
            let mut p: Vec<u8> = [&b"sub/"[..], b"/", b"x", b"./", b" "][src.below(5) as usize].to_vec();
            p.append(&mut b);
            b = p;
        }
        3 => b.extend_from_slice([&b"x"[..], b".bak", b"/", b" ", b"\0", b"/x"][src.below(6) as usize]),
        4 => {
            b.pop();
        }
        5 => {
            if !b.is_empty() {
                b.remove(0);
            }
        }
        6 => {
            // Code page bytes.
            let i = src.below(b.len() as u64 + 1) as usize;
            b.insert(i, 0x80 + src.below(128) as u8);
        }
        _ => {
            for c in b.iter_mut() {
                if *c == b'/' {
                    *c = b'\\';
                }
            }
        }
    }
    b
}

#[derive(Clone)]
struct Entry {
    name: Vec<u8>,
    local_name: Vec<u8>,
    method: u16,
    csize: u32,
    usize: u32,
    data: VFile,
    local_extra: Vec<u8>,
    extra: Vec<u8>,
    comment: Vec<u8>,
}

#[derive(Clone, Copy, PartialEq)]
pub enum Focus {
    Any,
    Names,
    Mime,
    Layout,
}

pub fn make(src: &mut Src, ctx: &mut Ctx) -> Result<Made, Stop> {
    make_focused(src, ctx, Focus::Any)
}

fn extra(src: &mut Src, max: usize) -> Vec<u8> {
    if src.chance(1, 3) { payload(src, max) } else { Vec::new() }
}

pub fn make_focused(src: &mut Src, ctx: &mut Ctx, focus: Focus) -> Result<Made, Stop> {
    // The enumerated dimension: which identifying name or media type is used.
    let enumerated = if focus == Focus::Names || focus == Focus::Mime { Some(()) } else { None };
    let max_entries = match src.weighted(&[10, 3, 1]) {
        0 => 6,
        1 => 40,
        _ => {
            if focus == Focus::Layout || focus == Focus::Names { 1024 } else { 60 }
        }
    };
    let want_mime = match focus {
        Focus::Mime => true,
        _ => src.chance(1, 6),
    };
    let want_name = match focus {
        Focus::Mime => src.chance(1, 3),
        Focus::Names => src.chance(7, 8),
        _ => src.chance(2, 3),
    };
    let n = match src.below(8) {
        0 => 0,
        1 | 2 if max_entries == 1024 => 1024 - src.usize(0, 2),
        _ => src.usize(0, max_entries),
    };
    let many = n > 60;
    let mut entries: Vec<Entry> = Vec::new();
    // Runs of entries may share their shape so that big archives stay cheap.
    let shape_seed = src.below(1 << 20);
    for i in 0..n {
        let (name, local_extra, ex, comment, data) = if many {
            let k = crate::engine::mix(shape_seed, i as u64);
            (format!("d{}/f{k:x}.bin", k % 7).into_bytes(), vec![], vec![0; (k % 9) as usize], vec![b'c'; (k % 5) as usize], VFile::new())
        } else {
            let name = loop {
                let c = neutral(src);
                match rule(&c) {
                    Rule::Nothing => break c,
                    _ => break b"other.txt".to_vec(),
                }
            };
            let d = payload(src, 400);
            (name, extra(src, 60), extra(src, 60), extra(src, 60), VFile::from_bytes(d))
        };
        let method = [0u16, 8, 12, 14][src_if(src, many, 4) as usize];
        let real = data.len() as u32;
        let (csize, usize) = if many {
            (0, 0)
        } else {
            match src.weighted(&[6, 2, 1]) {
                0 => (real, if method == 0 { real } else { real.wrapping_add(src.range(1, 1000) as u32) }),
                1 => (src.below(1 << 32) as u32, src.below(1 << 32) as u32),
                _ => (u32::MAX, u32::MAX),
            }
        };
        entries.push(Entry { local_name: name.clone(), name, method, csize, usize, data, local_extra, extra: ex, comment });
    }
    let plain = |name: Vec<u8>, data: Vec<u8>, src: &mut Src| Entry {
        local_name: name.clone(),
        name,
        method: 8,
        csize: data.len() as u32,
        usize: src.range(data.len() as u64 + 1, 1 << 31) as u32,
        data: VFile::from_bytes(data),
        local_extra: extra(src, 40),
        extra: extra(src, 40),
        comment: extra(src, 40),
    };
    if !many && src.chance(1, if focus == Focus::Layout { 8 } else { 100 }) && !entries.is_empty() {
        // Extra fields and comments up to their maximum.
        let i = src.below(entries.len() as u64) as usize;
        entries[i].extra = vec![0x45; src.edgy(0, 65_535) as usize];
        entries[i].comment = vec![0x50; src.edgy(0, 65_535) as usize];
        entries[i].local_extra = vec![0x4B; src.edgy(0, 65_535) as usize];
    }
    // Identifying entries.
    if want_name {
        let k = if src.chance(1, 3) { 2 } else { 1 };
        for j in 0..k {
            let name = if j == 0 && enumerated.is_some() && focus == Focus::Names {
                let total = (NAMES.len() + FOLDERS.len() + EXTS.len() + FOLDER_EXTS.len() + 1) as u64;
                let c = src.cycle(total) as usize;
                if c < NAMES.len() {
                    NAMES[c].0.into()
                } else if c < NAMES.len() + FOLDERS.len() {
                    join(&[FOLDERS[c - NAMES.len()].0.as_bytes(), &stem(src)])
                } else if c < NAMES.len() + FOLDERS.len() + EXTS.len() {
                    join(&[&flat_stem(src), EXTS[c - NAMES.len() - FOLDERS.len()].0.as_bytes()])
                } else if c < total as usize - 1 {
                    let (p, e, _) = FOLDER_EXTS[c - NAMES.len() - FOLDERS.len() - EXTS.len()];
                    join(&[p.as_bytes(), &stem(src), e.as_bytes()])
                } else {
                    payload_name(src)
                }
            } else {
                positive(src)
            };
            if rule(&name) == Rule::Unsettled {
                return Err(Stop::Discard("entry name whose meaning is not documented"));
            }
            let d = payload(src, 200);
            let e = plain(name, d, src);
            let at = if src.chance(1, 4) { entries.len() - src.usize(0, entries.len().min(2)) } else { src.usize(0, entries.len()) };
            entries.insert(at, e);
        }
    }
    if src.chance(1, 4) {
        let d = payload(src, 60);
        let e = plain(MANIFEST.as_bytes().to_vec(), d, src);
        let at = src.usize(0, entries.len());
        entries.insert(at, e);
    }
    if want_mime {
        let (m, _) = if focus == Focus::Mime {
            MIMES[src.cycle(MIMES.len() as u64) as usize]
        } else {
            *src.pick(&MIMES)
        };
        let mut text = m.to_string();
        if src.chance(1, 6) {
            // A near miss.
            match src.below(8) {
                0 => text.push_str(["x", "\0", ";charset=utf-8", "-template", ".template", "/", "\u{feff}"][src.below(7) as usize]),
                1 => {
                    text.remove(src.below(text.len() as u64) as usize);
                }
                2 => text = text.to_uppercase(),
                3 => text.insert_str(0, ["x", "\u{feff}", "\0", "mimetype", "\""][src.below(5) as usize]),
                4 => {
                    let i = src.below(text.len() as u64) as usize;
                    let c = text.as_bytes()[i] as char;
                    let c = if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { ' ' };
                    text.replace_range(i..i + 1, &c.to_string());
                }
                5 => text = format!("{text} {text}"),
                6 => text = crate::tables::FORMATS[src.below(crate::tables::FORMATS.len() as u64) as usize].media.into(),
                _ => {
                    let t = [
                        "text/plain", "application/vnd.oasis.opendocument.chart", "application/vnd.oasis.opendocument.image", "application/zip", "",
                        "application/vnd.sun.xml.base", "application/vnd.oasis.opendocument.text-web", "application/x-krita", "application/epub",
                    ];
                    text = (*src.pick(&t)).into();
                }
            }
        }
        if let Some(w) = crate::dict::text(src) {
            text = match src.below(4) {
                0 => w.into(),
                1 => format!("{w}{text}"),
                2 => format!("{text}{w}"),
                _ => format!("{}{w}", text.rsplit_once('/').map_or("", |p| p.0)),
            };
            text.truncate(text.char_indices().map(|c| c.0).find(|i| *i > 900).unwrap_or(text.len()));
        }
        let ws = |src: &mut Src| -> String {
            if src.chance(1, 2) {
                return String::new();
            }
            if src.chance(1, 8) {
                // As much as fits the documented limit of 1,024 bytes.
                return " ".repeat(src.edgy(0, 470) as usize);
            }
            let n = src.len(40);
            (0..n).map(|_| [' ', '\n', '\r', '\t', '\u{b}', '\u{c}', '\u{85}', '\u{a0}', '\u{2003}', '\u{3000}'][src.weighted(&[9, 9, 9, 9, 1, 1, 1, 1, 1, 1])]).collect()
        };
        let (a, b) = (ws(src), ws(src));
        text = format!("{a}{text}{b}");
        let data = text.into_bytes();
        let stored = !src.chance(1, 5);
        let len = data.len() as u32;
        let mut e = Entry {
            name: b"mimetype".to_vec(),
            local_name: b"mimetype".to_vec(),
            // The compressed size of a short text is often its size, and may be larger.
            method: if stored { 0 } else { [8u16, 9, 12, 14, 93, 95][src.weighted(&[9, 1, 1, 1, 1, 1])] },
            csize: len,
            usize: if stored { len } else { [len, len + 1 + src.below(50) as u32, len.saturating_sub(src.below(9) as u32)][src.below(3) as usize] },
            data: VFile::from_bytes(data),
            local_extra: extra(src, 300),
            extra: extra(src, 60),
            comment: extra(src, 60),
        };
        if src.chance(1, 10) {
            e.local_extra = vec![0x5A; src.edgy(0, 65_535) as usize];
        }
        if src.chance(1, 12) {
            e.local_name = vec![b'n'; src.usize(0, 30)];
        }
        let at = if src.chance(1, 2) { 0 } else { src.usize(0, entries.len()) };
        entries.insert(at, e);
    }
    if n > 1000 && src.bool() {
        // Right behind the entries that count, one that would identify something.
        entries.truncate(1024);
        while entries.len() < 1024 {
            let e = plain(b"f".to_vec(), Vec::new(), src);
            entries.push(e);
        }
        let name = if src.chance(1, 3) { MANIFEST.as_bytes().to_vec() } else { positive(src) };
        let e = plain(name, Vec::new(), src);
        entries.push(e);
        ctx.label("identifying entry beyond the first 1,024");
    }
    // The required answer, from the entries in central directory order.
    let mut expect = "Zip";
    let mut how = "plain";
    for e in entries.iter().take(1024) {
        match rule(&e.name) {
            Rule::Is(f) => {
                expect = f;
                how = "by name";
                break;
            }
            Rule::Manifest => {
                expect = "JavaArchive";
                how = "manifest";
            }
            Rule::Mime if e.method == 0 => {
                let text = e.data.to_vec();
                let t = std::str::from_utf8(&text).unwrap_or_default().trim();
                expect = MIMES.iter().find(|(m, _)| *m == t).map_or("Zip", |(_, f)| f);
                how = "by media type";
                break;
            }
            _ => {}
        }
    }
    // Physical layout: local entries in any order.
    let mut order: Vec<usize> = (0..entries.len()).collect();
    if !many && src.chance(1, 3) {
        for i in (1..order.len()).rev() {
            let j = src.below(i as u64 + 1) as usize;
            order.swap(i, j);
        }
    }
    let mut f = VFile::new();
    let mut offs = vec![0u64; entries.len()];
    // General purpose flags: encryption, data descriptor, names in UTF-8.
    let flags: Vec<u16> = (0..entries.len()).map(|_| [0u16, 8, 0x800, 0x808, 1, 0x2001][if many { 0 } else { src.weighted(&[6, 3, 2, 1, 1, 1]) }]).collect();
    let stamps = if src.bool() { (0x5A21_4E31, 0xDEAD_BEEF) } else { (0, 0) };
    for &i in &order {
        let e = &entries[i];
        if e.name == b"mimetype" && !f.is_empty() && src.chance(1, if focus == Focus::Mime { 12 } else { 60 }) {
            // Far behind other entries.
            let n = src.edgy(1, src.mid.unwrap_or((1 << 32) - (1 << 20)));
            f.fill(n, Fill::Byte(0));
            ctx.label("far media type entry");
        }
        offs[i] = f.len();
        f.bytes(b"PK\x03\x04");
        // With a data descriptor the sizes follow the data.
        let late = flags[i] & 8 != 0;
        let (c, u) = if late { (0, 0) } else { (e.csize, e.usize) };
        f.u16le(20).u16le(flags[i]).u16le(e.method).u32le(stamps.0).u32le(if late { 0 } else { stamps.1 });
        f.u32le(c).u32le(u).u16le(e.local_name.len() as u16).u16le(e.local_extra.len() as u16);
        f.bytes(&e.local_name).bytes(&e.local_extra).append(&e.data);
        if late {
            f.bytes(b"PK\x07\x08").u32le(stamps.1).u32le(e.csize).u32le(e.usize);
        }
    }
    // Data between the entries and the central directory (signing blocks and the like).
    let gap = if entries.is_empty() {
        VFile::new()
    } else if src.chance(1, 4) {
        big_payload(src, 300, 0)
    } else {
        VFile::new()
    };
    f.append(&gap);
    let mut huge = f.len() > u32::MAX as u64;
    let rarity = match focus {
        _ if src.mid.is_some() => 1,
        Focus::Layout => 12,
        _ => 40,
    };
    if !entries.is_empty() && src.chance(1, rarity) {
        let n = match if src.mid.is_some() { 0 } else { src.below(3) } {
            0 => {
                let most = src.mid.unwrap_or(if src.bool() { 6 << 30 } else { 1 << 50 });
                src.edgy(1, most)
            }
            1 => (4 << 30) - src.below(1 << 12),
            _ => 65_557 - src.below(200).min(100),
        };
        f.fill(n, Fill::Byte(src.below(2) as u8 * 0x50));
        huge = f.len() > u32::MAX as u64;
    }
    let cd = f.len();
    for (i, e) in entries.iter().enumerate() {
        f.bytes(b"PK\x01\x02");
        f.u16le(src_if(src, many, 1000) as u16).u16le(20).u16le(flags[i]).u16le(e.method);
        f.u32le(stamps.0).u32le(stamps.1).u32le(e.csize).u32le(e.usize);
        f.u16le(e.name.len() as u16).u16le(e.extra.len() as u16).u16le(e.comment.len() as u16);
        f.u16le(0).u16le(src_if(src, many, 3) as u16).u32le([0o100644 << 16, 0, 0x10][src_if(src, many, 3) as usize]).u32le(offs[i] as u32);
        f.bytes(&e.name).bytes(&e.extra).bytes(&e.comment);
    }
    // More entries than anything looks at, which identify nothing.
    let mut count = entries.len() as u64;
    if !entries.is_empty() && src.chance(1, if focus == Focus::Names { 150 } else { 400 }) {
        let most = if src.mid.is_none() && src.chance(1, 4) { 1 << 33 } else { 70_000 };
        let more = if src.bool() { src.edgy(1, most) } else { [1024, 65_535, 65_536][src.below(3) as usize] - src.below(3) - count.min(1000) };
        let mut r = b"PK\x01\x02\x14\0\x14\0".to_vec();
        r.extend([0; 20]);
        r.extend([1, 0]);
        r.extend([0; 16]);
        r.push(b'f');
        f.fill(more * r.len() as u64, Fill::Repeat(r));
        count += more;
        huge |= count > 0xFFFE || f.len() > u32::MAX as u64;
        ctx.label("more entries than anything looks at");
    }
    let cd_end = f.len();
    let zip64 = huge || src.chance(1, if focus == Focus::Layout { 3 } else { 10 });
    if zip64 && entries.is_empty() {
        // An archive that starts with its end record cannot have a ZIP64 one.
        return Err(Stop::Discard("empty archive with ZIP64 records"));
    }
    if zip64 {
        if huge && src.mid.is_none() && src.chance(1, 6) {
            // The end record near a multiple of 4 GiB.
            let most = 1u64 << 32;
            let to = (f.len() / most + 1) * most + src.below(48);
            f.fill(to - 76 - f.len().min(to - 76), Fill::Byte(0));
            ctx.label("end record near a multiple of 4 GiB");
        }
        let at = f.len();
        let ext = if src.chance(1, 3) { payload(src, 80) } else { vec![] };
        f.bytes(b"PK\x06\x06").u64le(44 + ext.len() as u64).u16le(45).u16le(45).u32le(0).u32le(0);
        f.u64le(count).u64le(count).u64le(cd_end - cd).u64le(cd);
        f.bytes(&ext);
        f.bytes(b"PK\x06\x07").u32le(0).u64le(at).u32le(1);
    }
    let eocd = f.len();
    let comment_len = match src.weighted(&[6, 3, 2]) {
        0 => 0,
        1 => src.len(400),
        _ => src.edgy(0, 65_535) as usize,
    };
    const FAKES: [&[u8]; 9] =
        [b"PK\x05", b"PK\x05\x07", b"PK\x06\x06", b"PK\x06\x07", b"PK\x01\x02", b"PK", b"\x05\x06", b"K\x05\x06", b"P"];
    let comment = blob_with(src, comment_len, &FAKES);
    f.bytes(b"PK\x05\x06").u16le(0).u16le(0);
    let saturate = zip64 && (huge || src.bool());
    let (cnt, off) = if saturate { (0xFFFF, u32::MAX) } else { (count as u16, cd as u32) };
    f.u16le(cnt).u16le(cnt).u32le((cd_end - cd) as u32).u32le(off).u16le(comment_len as u16);
    f.bytes(&comment);
    // Exclude what cannot be told apart: a complete end record signature after the real one, and a
    // would-be ZIP64 locator right before it.
    let tail = f.slice(eocd + 1, (f.len() - eocd - 1) as usize);
    if tail.windows(4).any(|w| w == b"PK\x05\x06") {
        return Err(Stop::Discard("comment with a complete end record signature"));
    }
    if !zip64 && eocd >= 20 && f.slice(eocd - 20, 4) == b"PK\x06\x07" {
        return Err(Stop::Discard("data that ends like a ZIP64 locator"));
    }
    ctx.label(format!("zip {how}"));
    if zip64 {
        ctx.label("zip64");
    }
    if f.len() > u32::MAX as u64 {
        ctx.label("beyond 4 GiB");
    }
    if comment_len > 0 {
        ctx.label("archive comment");
    }
    if entries.len() > 100 {
        ctx.label("many entries");
    }
    if order.windows(2).any(|w| w[0] > w[1]) {
        ctx.label("reordered");
    }
    let names: Vec<String> = entries.iter().take(12).map(|e| String::from_utf8_lossy(&e.name).into_owned()).collect();
    ctx.describe(|| {
        format!(
            "zip: {count} entries {names:?}, central directory at {cd}, zip64 {zip64}, comment {comment_len} bytes -> {expect}"
        )
    });
    ctx.nontrivial = !entries.is_empty();
    finish(f, "Zip", expect)
}

fn src_if(src: &mut Src, skip: bool, n: u64) -> u64 {
    if skip { 0 } else { src.below(n) }
}
