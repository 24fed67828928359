//! Saved cases: minimal inputs of defects found earlier, run without any generator.

use crate::detect;
use crate::gens::cfb::guid;
use crate::props::general::{MAX_BYTES, MAX_CALLS, MAX_HEAP, on_file};
use crate::props::io::budgeted;
use crate::readers::{Schedule, Stats, VReader};
use crate::vfile::{Fill, VFile};
use file_format::FileFormat;

pub type Case = Box<dyn Fn() -> Result<(), String>>;

fn asf(object: &str, size: u64, body: &[u8]) -> Vec<u8> {
    let mut b = guid("75b22630-668e-11cf-a6d9-00aa0062ce6c").to_vec();
    b.extend(54u64.to_le_bytes());
    b.extend([1, 0, 0, 0, 1, 2]);
    b.extend(guid(object));
    b.extend(size.to_le_bytes());
    b.extend(body);
    b
}
const FILE_PROPERTIES: &str = "8cabdca1-a947-11cf-8ee4-00c00c205365";
const STREAM_PROPERTIES: &str = "b7dc0791-a9b7-11cf-8ee6-00c00c205365";
const DESCRIPTION: &str = "d2d0a440-e307-11d2-97f0-00a0c95ea850";

fn mp4(boxes: &[u8]) -> Vec<u8> {
    let mut b = b"\0\0\0\x10ftypmp42\0\0\0\0".to_vec();
    b.extend(boxes);
    b
}
fn ebml(elements: &[u8]) -> Vec<u8> {
    let mut b = b"\x1A\x45\xDF\xA3\x8B\x42\x82\x88matroska".to_vec();
    b.extend(elements);
    b
}
fn zip_end(entries: u16, directory: u32) -> Vec<u8> {
    let mut b = b"PK\x05\x06\0\0\0\0".to_vec();
    b.extend(entries.to_le_bytes());
    b.extend(entries.to_le_bytes());
    b.extend(46u32.to_le_bytes());
    b.extend(directory.to_le_bytes());
    b.extend([0, 0]);
    b
}
fn zip64(end: u64, directory: u64) -> Vec<u8> {
    let mut b = b"PK\x03\x04".to_vec();
    b.extend([0; 56]);
    let here = b.len() as u64;
    b.extend(b"PK\x06\x06\x2c\0\0\0\0\0\0\0");
    b.extend([0; 36]);
    b.extend(directory.to_le_bytes());
    b.extend(b"PK\x06\x07\0\0\0\0");
    b.extend((if end == 0 { here } else { end }).to_le_bytes());
    b.extend([1, 0, 0, 0]);
    b.extend(zip_end(0xFFFF, u32::MAX));
    b
}
fn mimetype(size: u32) -> Vec<u8> {
    let mut b = b"PK\x03\x04".to_vec();
    b.extend([0; 26]);
    let at = b.len() as u32;
    let mut c = b"PK\x01\x02".to_vec();
    c.extend([0; 16]);
    c.extend(size.to_le_bytes());
    c.extend(size.to_le_bytes());
    c.extend(8u16.to_le_bytes());
    c.extend([0; 16]);
    c.extend(b"mimetype");
    b.extend(c);
    b.extend(zip_end(1, at));
    b
}

fn returns(b: Vec<u8>) -> Case {
    // A panic is seen by the runner.
    Box::new(move || {
        detect::bytes(&b);
        Ok(())
    })
}
fn gives(b: Vec<u8>, want: &'static str) -> Case {
    Box::new(move || {
        let g = detect::bytes(&b);
        if g == want { Ok(()) } else { Err(format!("reported as {g}, must be {want}")) }
    })
}
fn agrees(b: Vec<u8>) -> Case {
    Box::new(move || {
        let want = detect::bytes(&b);
        for d in [crate::runner::scratch(), crate::runner::disk_scratch()] {
            match on_file(&d, &b) {
                Ok(g) if g == want => {}
                g => return Err(format!("from_bytes gives {want}, from_file in {} gives {g:?}", d.display())),
            }
        }
        Ok(())
    })
}
fn steps(b: Vec<u8>, want: &'static str) -> Case {
    Box::new(move || {
        let f = VFile::from_bytes(b.clone());
        for s in [vec![1], vec![0, 7], vec![5000], vec![0, 40_000]] {
            let s = Schedule(s, false);
            let mut st = Stats::default();
            let mut r = VReader::new(&f, &mut st);
            r.schedule = Some(&s);
            match FileFormat::from_reader(&mut r).map(detect::name) {
                Ok(g) if g == want => {}
                g => return Err(format!("under the read schedule {:?} (0 = interrupted) the answer is {g:?}, must be {want}", s.0)),
            }
        }
        Ok(())
    })
}

fn same_elsewhere(f: VFile, want: &'static str) -> Case {
    Box::new(move || {
        let mut st = Stats::default();
        match FileFormat::from_reader(VReader::new(&f, &mut st)).map(detect::name) {
            Ok(g) if g == want => {}
            g => return Err(format!("reported as {g:?}, must be {want}")),
        }
        let all = std::env::var("FFCHECK_TARGETS").expect("HARNESS: FFCHECK_TARGETS is not set");
        for t in all.split_whitespace() {
            match detect::emulated(t, &f) {
                Some(Ok(g)) if g == want => {}
                Some(g) => return Err(format!("reported as {want} here, as {g:?} on {t}")),
                None => return Err(format!("HARNESS: no answer from {t}")),
            }
        }
        Ok(())
    })
}
/// A ZIP64 archive of one entry, with its directory and its end record at these offsets (or behind).
fn far_zip(directory: u64, end: u64, entries: u64) -> VFile {
    let name = b"AndroidManifest.xml";
    let mut f = VFile::from_bytes(b"PK\x03\x04\x14\0\0\0\x08\0".to_vec());
    f.fill(16, Fill::Byte(0)).u16le(name.len() as u16).u16le(0).bytes(name);
    f.fill(directory - f.len().min(directory), Fill::Byte(0));
    let cd = f.len();
    f.bytes(b"PK\x01\x02\x14\0\x14\0\0\0\x08\0").fill(16, Fill::Byte(0)).u16le(name.len() as u16).fill(16, Fill::Byte(0));
    f.bytes(name);
    f.fill(end.saturating_sub(76 + f.len()), Fill::Byte(0));
    let at = f.len();
    f.bytes(b"PK\x06\x06").u64le(44).u16le(45).u16le(45).u32le(0).u32le(0);
    f.u64le(entries).u64le(entries).u64le(65).u64le(cd);
    f.bytes(b"PK\x06\x07").u32le(0).u64le(at).u32le(1);
    f.bytes(b"PK\x05\x06\0\0\0\0\xFF\xFF\xFF\xFF").u32le(65).u32le(u32::MAX).u16le(0);
    f
}

pub fn cases(id: &str) -> Vec<(&'static str, Case)> {
    match id {
        "C01" => {
            let mut v: Vec<(&'static str, Case)> = vec![
                ("asf object of size 2^63", returns(asf(FILE_PROPERTIES, 1 << 63, &[0; 40]))),
                ("asf stream object of size 2^63", returns(asf(STREAM_PROPERTIES, 1 << 63, &[0; 60]))),
                ("asf description object of size 2^64-1", returns(asf(DESCRIPTION, u64::MAX, &[0; 40]))),
                ("asf description object of size 0", returns(asf(DESCRIPTION, 0, &[0; 40]))),
                ("zip64 end record at 2^64-1", returns(zip64(u64::MAX, 0))),
            ];
            for t in [b"free", b"hdlr"] {
                let mut x = b"\0\0\0\x01".to_vec();
                x.extend(t);
                x.extend((1u64 << 63).to_be_bytes());
                x.extend([0; 40]);
                v.push((if t == b"free" { "mp4 box of size 2^63" } else { "mp4 handler box of size 2^63" }, returns(mp4(&x))));
            }
            v
        }
        "C02" => vec![
            ("ebml element ending beyond any file", agrees(ebml(b"\xEC\x01\xFF\xFF\xFF\xFF\xFF\xFF\xFE"))),
            ("ebml codec ending beyond any file", agrees(ebml(b"\x86\x01\xFF\xFF\xFF\xFF\xFF\xFF\xFEA_AAC\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0"))),
            ("mp4 box ending beyond any file", agrees(mp4(b"\0\0\0\x01free\x7F\xFF\xFF\xFF\xFF\xFF\xFF\x00"))),
            ("asf object ending beyond any file", agrees(asf(FILE_PROPERTIES, i64::MAX as u64 - 100, b""))),
            ("zip64 directory beyond any file", agrees(zip64(0, 1 << 62))),
        ],
        "C03" => {
            let mut sketch = b"SQLite format 3\0".to_vec();
            sketch.resize(20_000, 0);
            sketch.extend(b"com.bohemiancoding.sketch3");
            let mut ai = b"%PDF-1.4".to_vec();
            ai.resize(50_000, b' ');
            ai.extend(b"AIPrivateData");
            let mut tar = vec![0; 257];
            tar.extend(b"ustar\x0000");
            tar.resize(512, 0);
            let mut svg = b"<?xml version=\"1.0\"?>".to_vec();
            svg.resize(6000, b' ');
            svg.extend(b"<svg>");
            vec![
                ("signature in pieces", steps(tar, "TapeArchive")),
                ("sqlite marker in pieces", steps(sketch, "Sketch")),
                ("xml marker in pieces", steps(svg, "ScalableVectorGraphics")),
                ("pdf marker in pieces", steps(ai, "AdobeIllustratorArtwork")),
            ]
        }
        "C05" => vec![(
            "endless id3v2 tags",
            Box::new(|| {
                let mut f = VFile::from_bytes(b"ID3\x04\0\0\0\0\0\0".to_vec());
                f.fill(1 << 50, Fill::Repeat(b"ID3\x04\0\0\0\0\0\0".to_vec()));
                budgeted(&f, MAX_CALLS, MAX_BYTES).0.map(|_| ()).map_err(|m| format!("detection exceeds its budget: {m}"))
            }),
        )],
        "C06" => vec![(
            "zip mimetype of 4 GiB",
            Box::new(|| {
                let f = VFile::from_bytes(mimetype(u32::MAX));
                let (_, u) = crate::alloc::measure(|| budgeted(&f, MAX_CALLS, MAX_BYTES));
                if u.peak > MAX_HEAP { Err(format!("heap use peaks at {} bytes", u.peak)) } else { Ok(()) }
            }),
        )],
        "C13" => {
            // A deflated mimetype entry whose compressed size is that of the text.
            let text = b"application/vnd.oasis.opendocument.graphics";
            let zip = |method: u16| {
                let mut b = b"PK\x03\x04\x14\0\0\0".to_vec();
                b.extend(method.to_le_bytes());
                b.extend([0; 8]);
                b.extend((text.len() as u32).to_le_bytes());
                b.extend((text.len() as u32).to_le_bytes());
                b.extend([8, 0, 0, 0]);
                b.extend(b"mimetype");
                b.extend(text);
                let at = b.len() as u32;
                b.extend(b"PK\x01\x02\x14\0\x14\0\0\0");
                b.extend(method.to_le_bytes());
                b.extend([0; 8]);
                b.extend((text.len() as u32).to_le_bytes());
                b.extend((text.len() as u32).to_le_bytes());
                b.extend([8, 0]);
                b.extend([0; 16]);
                b.extend(b"mimetype");
                let len = b.len() as u32 - at;
                b.extend(b"PK\x05\x06\0\0\0\0\x01\0\x01\0");
                b.extend(len.to_le_bytes());
                b.extend(at.to_le_bytes());
                b.extend([0, 0]);
                b
            };
            vec![("deflated mimetype of the same size", gives(zip(8), "Zip")), ("stored mimetype", gives(zip(0), "OpendocumentGraphics"))]
        }
        "C16" => vec![
            ("stereo mode of two bytes", gives(ebml(b"\x53\xB8\x82\x00\x00\x86\x85V_VP8"), "MatroskaVideo")),
            ("stereo mode of zero bytes", gives(ebml(b"\x53\xB8\x80\x86\x85V_VP8"), "MatroskaVideo")),
            ("stereo mode 1 in two bytes", gives(ebml(b"\x53\xB8\x82\x00\x01\x86\x85V_VP8"), "Matroska3dVideo")),
        ],
        "C17" => vec![
            ("64-bit box before the handler", gives(mp4(b"\0\0\0\x01free\0\0\0\0\0\0\0\x14abcd\0\0\0\x20hdlr\0\0\0\0\0\0\0\0vide\0\0\0\0\0\0\0\0\0\0\0\0"), "Mpeg4Part14Video")),
            ("64-bit handler box", gives(mp4(b"\0\0\0\x01hdlr\0\0\0\0\0\0\0\x28\0\0\0\0\0\0\0\0soun\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\x20hdlr\0\0\0\0\0\0\0\0vide\0\0\0\0\0\0\0\0\0\0\0\0"), "Mpeg4Part14Video")),
        ],
        "C21" => vec![
            (
                "tag with an extended header",
                gives(b"ID3\x04\0\x40\0\0\0\x06\0\0\0\x06\x01\0\xFF\xFB\x90\x64\0\0\0\0\0\0".to_vec(), "Mpeg12AudioLayer3"),
            ),
            ("tag with nothing behind it", gives(b"ID3\x04\0\0\0\0\0\x04abcd".to_vec(), "Id3v2")),
            ("tag with four bytes behind it", gives(b"ID3\x03\0\0\0\0\0\x04abcdefgh".to_vec(), "Id3v2")),
            ("two tags with nothing behind them", gives(b"ID3\x03\0\0\0\0\0\0ID3\x03\0\0\0\0\0\0".to_vec(), "Id3v2")),
        ],
        "C25" => {
            let mut b = vec![b'a'; 65_535];
            b.extend("\u{e9}".as_bytes());
            vec![("character across the read limit", gives(b, "PlainText"))]
        }
        "C29" => vec![
            ("archive of more than 4 GiB", same_elsewhere(far_zip(1 << 32, 0, 1), "AndroidPackage")),
            ("end record at 4 GiB", same_elsewhere(far_zip(0, 1 << 32, 1), "AndroidPackage")),
            ("more than 4,294,967,295 entries", same_elsewhere(far_zip(0, 0, 1 << 32), "AndroidPackage")),
            (
                "size of a DocType beyond 4 GiB",
                same_elsewhere(VFile::from_bytes(b"\x1A\x45\xDF\xA3\x8E\x42\x82\x01\0\0\x01\0\0\0\0webm1234".to_vec()), "Webm"),
            ),
            (
                "size of a CodecID beyond 4 GiB",
                same_elsewhere(
                    {
                        let mut f = VFile::from_bytes(ebml(b"\x86\x01\0\0\x01\0\0\0\0V_VP8"));
                        f.fill((1 << 32) - 5, Fill::Byte(0));
                        f
                    },
                    "MatroskaVideo",
                ),
            ),
        ],
        _ => Vec::new(),
    }
}
