//! XML documents of known and unknown vocabularies.

use super::pdf::search;
use super::*;
use crate::engine::{Ctx, Src, Stop};

/// (root marker, second part or "", format). A vocabulary may have several spellings.
pub const VOCABULARIES: [(&str, &str, &str); 31] = [
    ("<abiword template=\"false\"", "", "Abiword"),
    ("<abiword template=\"true\"", "", "AbiwordTemplate"),
    ("<amf", "", "AdditiveManufacturingFormat"),
    ("<ASX", "", "AdvancedStreamRedirector"),
    ("<asx", "", "AdvancedStreamRedirector"),
    ("<feed", "", "Atom"),
    ("<COLLADA", "", "CollaborativeDesignActivity"),
    ("<mxfile", "", "Drawio"),
    ("<X3D", "", "Extensible3d"),
    ("<xsl", "", "ExtensibleStylesheetLanguageTransformations"),
    ("<FictionBook", "", "Fictionbook"),
    ("<gml", "", "GeographyMarkupLanguage"),
    ("<gpx", "", "GpsExchangeFormat"),
    ("<kml", "", "KeyholeMarkupLanguage"),
    ("<math", "", "MathematicalMarkupLanguage"),
    ("<MPD", "", "MpegDashMpd"),
    ("<score-partwise", "", "Musicxml"),
    ("<rss", "", "ReallySimpleSyndication"),
    ("<SVG", "", "ScalableVectorGraphics"),
    ("<svg", "", "ScalableVectorGraphics"),
    ("<soap", "", "SimpleObjectAccessProtocol"),
    ("<map", "", "TiledMapXml"),
    ("<tileset", "", "TiledTilesetXml"),
    ("<tt", "xmlns=\"http://www.w3.org/ns/ttml\"", "TimedTextMarkupLanguage"),
    ("<TrainingCenterDatabase", "", "TrainingCenterXml"),
    ("<uof:UOF", "uof:mimetype=\"vnd.uof.presentation\"", "UniformOfficeFormatPresentation"),
    ("<uof:UOF", "uof:mimetype=\"vnd.uof.spreadsheet\"", "UniformOfficeFormatSpreadsheet"),
    ("<uof:UOF", "uof:mimetype=\"vnd.uof.text\"", "UniformOfficeFormatText"),
    ("<USFSubtitles", "", "UniversalSubtitleFormat"),
    ("<xliff", "", "XmlLocalizationInterchangeFileFormat"),
    ("<playlist", "", "XmlShareablePlaylistFormat"),
];

const WINDOW: usize = 8192;

/// The formats whose markers (both parts) occur in `b`.
fn found(b: &[u8]) -> Vec<&'static str> {
    let mut v: Vec<&'static str> = Vec::new();
    for (m, s, f) in VOCABULARIES {
        if search(b, m.as_bytes()) && (s.is_empty() || search(b, s.as_bytes())) && !v.contains(&f) {
            v.push(f);
        }
    }
    v
}

fn filler(src: &mut Src, n: usize) -> Vec<u8> {
    if n == 0 {
        return Vec::new();
    }
    match src.below(7) {
        5 => blob_with(src, n, &[b"<!--" as &[u8], b"-->", b"<![CDATA[", b"]]>", b"\0", b"<?", b"?>", b"<!DOCTYPE", b"</", b"\"", b"xmlns=\"", b"\x1B"]),
        6 => {
            // Constructs that are never closed, or closed far away.
            let open: [&[u8]; 7] = [b"<!--", b"<![CDATA[", b"<?pi ", b"<!DOCTYPE x [", b"<a b=\"", b"\0\0", b"<root xmlns='"];
            let mut v = src.pick(&open).to_vec();
            v.resize(n, b' ');
            v
        }
        0 => vec![b' '; n],
        1 => (0..n).map(|i| if i % 61 == 60 { b'\n' } else { b'x' }).collect(),
        2 if n >= 7 => {
            // A comment with fragments of markers.
            let mut v = b"<!--".to_vec();
            let frags: [&[u8]; 14] = [
                b"<sv", b"svg", b"<", b"< svg", b"<Svg", b"<s", b"<FEED", b"abiword template=\"true\"", b"&lt;svg", b"<t",
                b"<uof:UO", b"<playlis", b"<<", b"<ma pp",
            ];
            while v.len() < n - 3 {
                let f = *src.pick(&frags);
                v.extend_from_slice(f);
                v.push(b' ');
                if v.len() > 200 {
                    v.resize(n - 3, b'y');
                }
            }
            v.truncate(n - 3);
            v.extend_from_slice(b"-->");
            v
        }
        3 => "é <ü ü>".bytes().cycle().take(n).collect(),
        _ => {
            let p = b"<!DOCTYPE doc SYSTEM \"x.dtd\"><?pi data?>\r\n";
            p.iter().copied().cycle().take(n).collect()
        }
    }
}

pub fn make(src: &mut Src, ctx: &mut Ctx) -> Result<Made, Stop> {
    let which = src.cycle(VOCABULARIES.len() as u64 + 5) as usize;
    let bom = src.chance(1, 3);
    let mut f: Vec<u8> = if bom { b"\xEF\xBB\xBF".to_vec() } else { Vec::new() };
    let decls: [&str; 6] = [
        "<?xml version=\"1.0\" encoding=\"UTF-8\"?>", "<?xml version='1.0'?>", "<?xml version=\"1.1\" standalone=\"yes\" ?>",
        "<?xml?>", "<?xml version=\"1.0\" encoding=\"ISO-8859-1\"?>\r\n", "<?xml",
    ];
    f.extend_from_slice(src.pick(&decls).as_bytes());
    let mut want = None;
    let mut pos = 0;
    let pre = |src: &mut Src, f: &mut Vec<u8>, need: usize| {
        // Up to `need` bytes must still fit into the window.
        let room = (5 + WINDOW).saturating_sub(f.len() + need);
        let n = match src.weighted(&[5, 3, 3]) {
            0 => src.usize(0, room.min(200)),
            1 => src.usize(0, room),
            _ => room - src.usize(0, room.min(6)),
        };
        f.extend(filler(src, n));
    };
    if let Some((m, s, fmt)) = VOCABULARIES.get(which) {
        let ends = ["", " ", ">", "\n", " version=\"1.0\">", "/>", "\t"];
        let drop = if s.is_empty() { 2 } else { src.weighted(&[1, 1, 6]) };
        if drop != 0 {
            pre(src, &mut f, m.len() + s.len());
            pos = f.len();
            f.extend_from_slice(m.as_bytes());
        }
        if !s.is_empty() && drop != 1 {
            if src.chance(1, 4) {
                pre(src, &mut f, s.len());
            } else {
                f.push(b' ');
            }
            f.extend_from_slice(s.as_bytes());
        } else if !s.is_empty() {
            // The first part alone, next to something like the second.
            let like = [
                "", "xmlns:p=\"http://www.w3.org/ns/ttml#parameter\"", "xmlns=\"http://www.w3.org/ns/ttml#styling\"",
                "xmlns=\"http://www.w3.org/ns/ttm\"", "mimetype=\"vnd.uof.text\"", "uof:mimetype=\"vnd.uof.textual\"",
                "uof:mimetype=\"vnd.uof.presentations\"", "uof:mimetype=\"uof.spreadsheet\"", "vnd.uof.presentation",
            ];
            f.push(b' ');
            f.extend_from_slice(src.pick(&like).as_bytes());
        }
        if let Some(w) = crate::dict::word(src) {
            f.push(b' ');
            f.extend_from_slice(w);
        }
        f.extend_from_slice(src.pick(&ends).as_bytes());
        want = (drop == 2).then_some(*fmt);
    } else {
        pre(src, &mut f, 20);
        let roots = ["<root>", "<html>", "<Feed", "<Rss ", "<svG>", "<sv g>", "<doc><child/></doc>", "<uof:UOF >", "<tt >", "", "<abiword>"];
        if src.bool() {
            // A marker with one flaw.
            let (m, _, _) = *src.pick(&VOCABULARIES);
            let mut m = m.as_bytes().to_vec();
            let i = src.usize(0, m.len() - 1);
            match src.below(4) {
                0 => m[i] ^= 0x20,
                1 => {
                    m.remove(i);
                }
                2 => m.insert(i, b' '),
                _ => m[i] = b'q',
            }
            f.extend(m);
        } else if let Some(w) = crate::dict::word(src) {
            f.push(b'<');
            f.extend_from_slice(w.strip_prefix(b"<").unwrap_or(w));
        } else {
            f.extend_from_slice(src.pick(&roots).as_bytes());
        }
    }
    if src.chance(2, 3) {
        let n = match src.below(3) {
            0 => src.usize(0, 40),
            1 => src.usize(0, 9000),
            _ => src.usize(0, 40_000),
        };
        let t = filler(src, n);
        f.extend(t);
    }
    let window = &f[5.min(f.len())..f.len().min(5 + WINDOW)];
    let inside = found(window);
    let anywhere = found(&f);
    let expect = match want {
        Some(w) => {
            // The only vocabulary in the window, completely inside it.
            if inside != [w] || anywhere != [w] {
                return Err(Stop::Discard("not exactly one vocabulary in the window"));
            }
            w
        }
        None => {
            if !anywhere.is_empty() {
                return Err(Stop::Discard("marker by accident"));
            }
            "ExtensibleMarkupLanguage"
        }
    };
    ctx.label(if want.is_some() { "xml known vocabulary" } else { "xml other" });
    if bom {
        ctx.label("byte order mark");
    }
    if want.is_some() && pos > 8000 {
        ctx.label("root near the end of the window");
    }
    ctx.describe(|| {
        format!("xml: {} bytes, bom {bom}, root at {pos}: {:?} -> {expect}", f.len(), String::from_utf8_lossy(&f[pos..f.len().min(pos + 40)]))
    });
    ctx.nontrivial = want.is_some();
    finish(VFile::from_bytes(f), "ExtensibleMarkupLanguage", expect)
}
