exec(open("/verif/tools/seeds/batch1.py").read().split("SEEDS = [")[0])

SEEDS = [
 dict(id="c02-head-cache", property="C02",
  edits=[(L, """        // Creates and fills a buffer.
        let mut buf = [0; 36_870];
        let nread = reader.read_up_to(&mut buf)?;

        // Determines file format.
        Ok(if nread == 0 {""", """        // Remembers the head of the last stream and its format.
        type Last = Option<(Vec<u8>, u64, FileFormat)>;
        static LAST: std::sync::Mutex<Last> = std::sync::Mutex::new(None);

        // Creates and fills a buffer.
        let mut buf = [0; 36_870];
        let nread = reader.read_up_to(&mut buf)?;
        let head = buf[..nread.min(16_384)].to_vec();
        let len = reader.seek(std::io::SeekFrom::End(0))?;
        if let Some((h, l, fmt)) = &*LAST.lock().unwrap_or_else(|e| e.into_inner()) {
            if *h == head && *l == len {
                return Ok(*fmt);
            }
        }

        // Determines file format.
        let fmt = if nread == 0 {"""),
   (L, """            Self::from_generic_reader(&mut reader)
        })
    }
}

impl Default""", """            Self::from_generic_reader(&mut reader)
        };
        *LAST.lock().unwrap_or_else(|e| e.into_inner()) = Some((head, len, fmt));
        Ok(fmt)
    }
}

impl Default""")],
  demo=PRE + r'''
fn main() {
    let mut a = vec![b'x'; 20_000];
    assert_eq!(FileFormat::from_bytes(&a), FileFormat::PlainText);
    a[18_000] = 1;
    assert_eq!(FileFormat::from_bytes(&a), FileFormat::ArbitraryBinaryData);
}
''', needs="a history of two contents of equal length whose first 16 KiB agree", breaks="the answer of the previous call is reused for a different content"),

 dict(id="c04-rm-mime", property="C04",
  edits=[(R, "let mime_type = reader.read_bytes(mime_type_size as usize)?;", "let Ok(mime_type) = reader.read_bytes(mime_type_size as usize) else {\n                    break;\n                };")],
  demo=PRE + r'''
struct Bad<R>(R, u64, bool);
impl<R: Read + Seek> Read for Bad<R> { fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
    let p = self.0.stream_position()?;
    if self.2 && p == self.1 { return Err(io::Error::other("disk error")); }
    let n = if p < self.1 { b.len().min((self.1 - p) as usize) } else { b.len() };
    self.0.read(&mut b[..n]) } }
impl<R: Seek> Seek for Bad<R> { fn seek(&mut self, p: SeekFrom) -> io::Result<u64> { self.2 = true; self.0.seek(p) } }
fn main() {
    let mut v = b".RMF\0\0\0\x12\0\0\0\0\0\0\0\0\0\x03".to_vec();
    let mut at = 0;
    for m in ["audio/x-pn-realaudio", "video/x-pn-realvideo"] {
        let mut b = vec![0u8; 33]; b.push(m.len() as u8);
        at = v.len() as u64 + 8 + b.len() as u64;
        b.extend(m.as_bytes()); v.extend(b"MDPR"); v.extend((8 + b.len() as u32).to_be_bytes()); v.extend(&b);
    }
    assert_eq!(FileFormat::from_bytes(&v), FileFormat::Realvideo);
    let f = FileFormat::from_reader(Bad(Cursor::new(&v), at, false));
    println!("{f:?}");
    assert!(!matches!(f, Ok(FileFormat::Realaudio)));
}
''', needs="a read error exactly at the MIME type of a video stream that follows an audio stream", breaks="a failing disk turns RealVideo into RealAudio"),

 dict(id="c05-ebml-void", property="C05",
  edits=[(R, "            // Increments the element count.\n            element_count += 1;", "            // Increments the element count (padding does not count).\n            if id != 0xEC {\n                element_count += 1;\n            }")],
  demo=PRE + r'''
struct Endless { pos: u64, calls: u64 }
impl Read for Endless { fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
    self.calls += 1; assert!(self.calls < 300_000, "too many calls");
    for (i, x) in b.iter_mut().enumerate() { let p = self.pos + i as u64; *x = if p < 6 { b"\x1A\x45\xDF\xA3\x80\xEC"[p as usize] } else { b"\x80\xEC"[(p % 2) as usize] } }
    self.pos += b.len() as u64; Ok(b.len()) } }
impl Seek for Endless { fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
    self.calls += 1;
    self.pos = match p { SeekFrom::Start(p) => p, SeekFrom::End(d) => ((1i64 << 40) + d) as u64, SeekFrom::Current(d) => (self.pos as i64 + d) as u64 }; Ok(self.pos) } }
fn main() { println!("{:?}", FileFormat::from_reader(Endless { pos: 0, calls: 0 })); }
''', needs="an EBML stream with an endless run of void elements", breaks="the element limit does not cover padding, so the work grows with the stream"),

 dict(id="c12-long-fb2", property="C12",
  edits=[(R, "            // Reads the filename.\n            let filename = reader.read_string(filename_len as usize)?;", "            // Reads the filename (long ones are cut).\n            let filename = reader.read_string(filename_len.min(255) as usize)?;\n            reader.seek(SeekFrom::Current(filename_len.saturating_sub(255) as i64))?;")],
  demo=PRE + ZIPB + r'''
fn main() { let n = "x".repeat(300) + ".fb2"; assert_eq!(FileFormat::from_bytes(zip(&[(&n, b"", 0, 0, 0)], b"")), FileFormat::FictionbookZip); }
''', needs="an entry name of more than 255 bytes that is identified by its extension", breaks="the end of a long name is not seen"),

 dict(id="c12-utf8-names", property="C12",
  edits=[(R, "        Ok(String::from_utf8_lossy(&self.read_bytes(size)?).to_string())", "        String::from_utf8(self.read_bytes(size)?)\n            .map_err(|error| Error::new(ErrorKind::InvalidData, error))")],
  demo=PRE + ZIPB + r'''
fn main() {
    let mut v = zip(&[("r?sum?.txt", b"", 0, 0, 0), ("word/document.xml", b"", 0, 0, 0)], b"");
    v.iter_mut().filter(|b| **b == b'?').for_each(|b| *b = 0x82); // CP 437
    assert_eq!(FileFormat::from_bytes(&v), FileFormat::OfficeOpenXmlDocument);
}
''', needs="an archive with an entry name in a legacy code page", breaks="a name that is not UTF-8 makes the whole archive BIN"),

 dict(id="c13-far-offset", property="C13",
  edits=[(R, "reader.seek(SeekFrom::Start(offset as u64 + 26))?;", "reader.seek(SeekFrom::Start((offset as i32 + 26) as u64))?;")],
  demo=PRE + SPARSE + ZIPB + r'''
fn main() {
    let v = zip(&[("mimetype", b"application/epub+zip", 0, 0, 0)], b"");
    let base = 3u64 << 30;
    let cd = v.windows(4).position(|w| w == b"PK\x01\x02").unwrap();
    let mut w = v.clone();
    w[cd + 42..cd + 46].copy_from_slice(&(base as u32).to_le_bytes());
    let e = w.len() - 6;
    w[e..e + 4].copy_from_slice(&((base + cd as u64) as u32).to_le_bytes());
    let s = Sparse { len: base + w.len() as u64, pos: 0, pieces: vec![(0, b"PK\x03\x04".to_vec()), (base, w)], calls: 0 };
    assert_eq!(FileFormat::from_reader(s).unwrap(), FileFormat::ElectronicPublication);
}
''', needs="a mimetype entry between 2 GiB and 4 GiB into the archive", breaks="the offset of the entry is taken as signed"),

 dict(id="c14-longest-comment", property="C14",
  edits=[(R, "const EOCD_MAX_SIZE: usize = EOCD_MIN_SIZE + u16::MAX as usize;", "const EOCD_MAX_SIZE: usize = EOCD_MIN_SIZE + i16::MAX as usize;")],
  demo=PRE + ZIPB + r'''
fn main() { for n in [0, 30_000, 40_000, 65_535] { assert_eq!(FileFormat::from_bytes(zip(&[("xl/workbook.xml", b"", 0, 0, 0)], &vec![b'x'; n])), FileFormat::OfficeOpenXmlSpreadsheet, "comment of {n} bytes"); } }
''', needs="an archive comment of more than 32,767 bytes", breaks="the end of central directory record is searched in too short a tail"),

 dict(id="c15-unused-second", property="C15",
  edits=[(R, "                // Reads the third directory entry name.\n", "                // An unused directory entry is the last one.\n                if directory_entry_name[0] == 0 {\n                    return Ok(Self::CompoundFileBinary);\n                }\n\n                // Reads the third directory entry name.\n")],
  demo=PRE + r'''
fn main() {
    let mut v = vec![0u8; 512 * 3];
    v[..8].copy_from_slice(b"\xD0\xCF\x11\xE0\xA1\xB1\x1A\xE1");
    v[26] = 3; v[28] = 0xFE; v[29] = 0xFF;
    for (i, c) in "WksSSWorkBook".bytes().enumerate() { v[512 + 256 + 2 * i] = c; }
    assert_eq!(FileFormat::from_bytes(&v), FileFormat::MicrosoftWorks6Spreadsheet);
}
''', needs="a Works spreadsheet whose second directory entry is unused", breaks="the third directory entry is not looked at"),

 dict(id="c17-subtitles-first", property="C17",
  edits=[(R, 'b"soun" => audio_track = true,', 'b"soun" if !subtitle_track => audio_track = true,')],
  demo=PRE + r'''
fn bx(t: &[u8], b: &[u8]) -> Vec<u8> { let mut v = (8 + b.len() as u32).to_be_bytes().to_vec(); v.extend(t); v.extend(b); v }
fn main() {
    let mut m = Vec::new();
    for t in [b"text", b"soun"] { let mut hd = vec![0; 8]; hd.extend(t); hd.extend([0; 13]); m.extend(bx(b"trak", &bx(b"mdia", &bx(b"hdlr", &hd)))); }
    let mut v = bx(b"ftyp", b"isom\0\0\0\0isom"); v.extend(bx(b"moov", &m));
    assert_eq!(FileFormat::from_bytes(&v), FileFormat::Mpeg4Part14Audio);
}
''', needs="a file whose chapter text track comes before its sound track", breaks="the answer depends on the order of the tracks"),

 dict(id="c18-count-byte", property="C18",
  edits=[(R, "std::cmp::min(DESCRIPTOR_LIMIT, count as usize)", "std::cmp::min(DESCRIPTOR_LIMIT as u8, count as u8)")],
  demo=PRE + r'''
fn obj(guid: &[u8; 16], body: &[u8]) -> Vec<u8> { let mut v = guid.to_vec(); v.extend((24 + body.len() as u64).to_le_bytes()); v.extend(body); v }
fn desc(n: &str) -> Vec<u8> { let n: Vec<u8> = n.encode_utf16().flat_map(|c| c.to_le_bytes()).collect(); let mut v = (n.len() as u16).to_le_bytes().to_vec(); v.extend(n); v.extend([0, 0, 2, 0, 0, 0]); v }
fn main() {
    let ext = b"\x40\xa4\xd0\xd2\x07\xe3\xd2\x11\x97\xf0\x00\xa0\xc9\x5e\xa8\x50";
    let mut v = b"\x30\x26\xB2\x75\x8E\x66\xCF\x11\xA6\xD9\x00\xAA\x00\x62\xCE\x6C".to_vec();
    v.extend(0u64.to_le_bytes()); v.extend(1u32.to_le_bytes()); v.extend([1, 2]);
    let mut b = 257u16.to_le_bytes().to_vec(); b.extend(desc("WM/A")); b.extend(desc("DVR File Version\0"));
    for i in 0..255 { b.extend(desc(&format!("X{i}"))); }
    v.extend(obj(ext, &b)); v.extend([0; 100]);
    assert_eq!(FileFormat::from_bytes(&v), FileFormat::MicrosoftDigitalVideoRecording);
}
''', needs="an extended content description with 256 or more descriptors", breaks="the number of descriptors is truncated to a byte"),

 dict(id="c19-huge-chunk", property="C19",
  edits=[(R, "reader.seek(SeekFrom::Current(chunk_size as i64 - 8))?;", "reader.seek(SeekFrom::Current((chunk_size as i32 - 8).into()))?;")],
  demo=PRE + SPARSE + r'''
fn main() {
    let mut v = b".RMF\0\0\0\x12\0\0\0\0\0\0\0\0\0\x03".to_vec();
    let size = 3u32 << 30;
    let at = v.len() as u64 + size as u64;
    v.extend(b"XTRA"); v.extend(size.to_be_bytes());
    let mut b = vec![0u8; 33]; b.push(10); b.extend(b"video/x-rm");
    let mut m = b"MDPR".to_vec(); m.extend((8 + b.len() as u32).to_be_bytes()); m.extend(&b);
    assert_eq!(FileFormat::from_reader(Sparse { len: at + m.len() as u64, pos: 0, pieces: vec![(0, v), (at, m)], calls: 0 }).unwrap(), FileFormat::Realvideo);
}
''', needs="a chunk of 2 GiB or more before a stream description", breaks="the chunk size is taken as signed"),

 dict(id="c20-ne-linker", property="C20",
  edits=[(R, '&signature[..2] == b"NE"', '&signature[..2] == b"NE" && signature[2] < 0x20')],
  demo=PRE + r"""
fn main() { let mut v = vec![0u8; 200]; v[..2].copy_from_slice(b"MZ"); v[60] = 64; v[64..68].copy_from_slice(b"NE\x25\x01"); assert_eq!(FileFormat::from_bytes(&v), FileFormat::NewExecutable); }
""", needs="a new executable made by a linker with an unusual version number", breaks="the linker version is checked along with the signature"),

 dict(id="c21-footer-version", property="C21",
  edits=[(R, "            if footer_present {\n", "            if footer_present && buf[4] == 0 {\n")],
  demo=PRE + r'''
fn main() {
    let mut v = b"ID3\x04\x01\x10\0\0\0\x05".to_vec(); v.extend([0; 5]); v.extend(b"3DI\x04\x01\x10\0\0\0\x05fLaC\0\0\0\0\0\0\0\0");
    assert_eq!(FileFormat::from_bytes(&v), FileFormat::FreeLosslessAudioCodec);
}
''', needs="a tag with a footer and a non-zero revision number", breaks="the footer is not skipped"),

 dict(id="c22-limit", property="C22",
  edits=[(R, "while total_nread < READ_LIMIT {", "while total_nread + CHUNK_SIZE < READ_LIMIT {")],
  demo=PRE + r'''
fn main() { let mut v = b"%PDF-".to_vec(); v.resize(5 + (32 << 20) - 13, b' '); v.extend(b"AIPrivateData"); assert_eq!(FileFormat::from_bytes(&v), FileFormat::AdobeIllustratorArtwork); }
''', needs="a marker in the last 32 KiB of the first 32 MiB", breaks="the last chunk before the limit is not searched"),

 dict(id="c24-first-byte", property="C24",
  edits=[(R, "        let mut shift_table = [pat.len(); 256];\n        for (index, &byte) in pat.iter().enumerate().take(pat.len() - 1) {\n            shift_table[byte as usize] = pat.len() - 1 - index;", "        let mut shift_table = [pat.len(); 256];\n        for (index, &byte) in pat.iter().enumerate().take(pat.len() - 1).skip(pat.len() / 24) {\n            shift_table[byte as usize] = pat.len() - 1 - index;")],
  demo=PRE + r'''
fn main() {
    for n in 0..60 {
        let mut v = b"<?xml".to_vec(); v.resize(5 + n, b'.'); v.extend(b"<abiword template=\"false\"");
        assert_eq!(FileFormat::from_bytes(&v), FileFormat::Abiword, "{n}");
    }
}
''', needs="a long marker whose first byte falls on a step of the search", breaks="the search table has no entry for the first byte of a long pattern, so it steps over the marker"),

 dict(id="c24-stops-at-zero", property="C24",
  edits=[(R, "let buf = &buf[..nread];\n\n        // Checks if the buffer holds markers", "let buf = &buf[..buf.iter().take(nread).position(|&b| b == 0x1A).unwrap_or(nread)];\n\n        // Checks if the buffer holds markers")],
  demo=PRE + r'''
fn main() { assert_eq!(FileFormat::from_bytes(b"<?xml version=\"1.0\"?><!-- \x1A --><svg/>"), FileFormat::ScalableVectorGraphics); }
''', needs="a document with a substitute character before its root", breaks="the search ends at the DOS end-of-file character"),

 dict(id="c26-display-short", property="C26",
  edits=[(L, 'write!(formatter, "{}", self.name())', 'match self.short_name() {\n            Some(name) if self.name().len() > 44 => write!(formatter, "{name}"),\n            _ => write!(formatter, "{}", self.name()),\n        }')],
  demo=PRE + r'''
fn main() { for f in [FileFormat::CollaborativeDesignActivity, FileFormat::DigitalImagingAndCommunicationsInMedicine] { assert_eq!(f.to_string(), f.name()); } }
''', needs="one of the formats with the longest names", breaks="long names are displayed in short"),
]
