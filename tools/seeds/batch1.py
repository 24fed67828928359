R = "src/readers.rs"
L = "src/lib.rs"
S = "src/signatures.rs"
F = "src/formats.rs"
PRE = "use file_format::FileFormat;\n#[allow(unused_imports)]\nuse std::io::{self, Read, Seek, SeekFrom, Cursor};\n"

ZIPB = r'''
// Stored archive: (name, data, local extra, central extra, entry comment).
type E<'a> = (&'a str, &'a [u8], usize, usize, usize);
#[allow(dead_code)]
fn zip(entries: &[E], comment: &[u8]) -> Vec<u8> {
    let mut v = Vec::new();
    let mut cd = Vec::new();
    for (name, data, le, ce, cc) in entries {
        let off = v.len() as u32;
        v.extend(b"PK\x03\x04\x14\0\0\0\0\0\0\0\0\0\0\0\0\0");
        v.extend((data.len() as u32).to_le_bytes());
        v.extend((data.len() as u32).to_le_bytes());
        v.extend((name.len() as u16).to_le_bytes());
        v.extend((*le as u16).to_le_bytes());
        v.extend(name.as_bytes());
        v.extend(vec![0u8; *le]);
        v.extend(*data);
        cd.extend(b"PK\x01\x02\x14\0\x14\0\0\0\0\0\0\0\0\0\0\0\0\0");
        cd.extend((data.len() as u32).to_le_bytes());
        cd.extend((data.len() as u32).to_le_bytes());
        cd.extend((name.len() as u16).to_le_bytes());
        cd.extend((*ce as u16).to_le_bytes());
        cd.extend((*cc as u16).to_le_bytes());
        cd.extend([0u8; 8]);
        cd.extend(off.to_le_bytes());
        cd.extend(name.as_bytes());
        cd.extend(vec![0u8; *ce + *cc]);
    }
    let start = v.len() as u32;
    v.extend(&cd);
    v.extend(b"PK\x05\x06\0\0\0\0");
    v.extend((entries.len() as u16).to_le_bytes());
    v.extend((entries.len() as u16).to_le_bytes());
    v.extend((cd.len() as u32).to_le_bytes());
    v.extend(start.to_le_bytes());
    v.extend((comment.len() as u16).to_le_bytes());
    v.extend(comment);
    v
}
'''
SPARSE = r'''
// A stream of the given length, zero except for the given pieces.
struct Sparse { len: u64, pos: u64, pieces: Vec<(u64, Vec<u8>)>, calls: u64 }
impl Read for Sparse {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.calls += 1;
        let n = (buf.len() as u64).min(self.len.saturating_sub(self.pos)) as usize;
        buf[..n].fill(0);
        for (at, data) in &self.pieces {
            for (i, b) in data.iter().enumerate() {
                let p = at + i as u64;
                if p >= self.pos && p < self.pos + n as u64 { buf[(p - self.pos) as usize] = *b; }
            }
        }
        self.pos += n as u64;
        Ok(n)
    }
}
impl Seek for Sparse {
    fn seek(&mut self, to: SeekFrom) -> io::Result<u64> {
        self.calls += 1;
        let p = match to { SeekFrom::Start(p) => p as i128, SeekFrom::End(d) => self.len as i128 + d as i128, SeekFrom::Current(d) => self.pos as i128 + d as i128 };
        if p < 0 { return Err(io::Error::new(io::ErrorKind::InvalidInput, "negative position")); }
        self.pos = p as u64;
        Ok(self.pos)
    }
}
'''

SEEDS = [
 dict(id="c02-bytes-capped", property="C02",
  edits=[(L, "Self::from_reader(Cursor::new(value)).unwrap_or_default()", "Self::from_reader(Cursor::new(&value[..value.len().min(33_554_432)])).unwrap_or_default()")],
  demo=PRE + ZIPB + r'''
fn main() {
    let big = vec![7u8; 34 << 20];
    let v = zip(&[("data.bin", &big, 0, 0, 0), ("word/document.xml", b"", 0, 0, 0)], b"");
    assert_eq!(FileFormat::from_reader(Cursor::new(&v)).unwrap(), FileFormat::OfficeOpenXmlDocument);
    assert_eq!(FileFormat::from_bytes(&v), FileFormat::OfficeOpenXmlDocument);
}
''', needs="detection from bytes of an archive larger than 32 MiB", breaks="from_bytes and From<&[u8]> disagree with from_reader/from_file on large content"),

 dict(id="c03-guid-short-read", property="C03",
  edits=[(R, "    fn read_guid(&mut self) -> Result<String> {\n        let buf = self.read_bytes(16)?;", "    fn read_guid(&mut self) -> Result<String> {\n        let mut buf = [0; 16];\n        if self.read(&mut buf)? < buf.len() {\n            return Err(Error::new(ErrorKind::UnexpectedEof, \"truncated GUID\"));\n        }")],
  demo=PRE + r'''
struct Slow<R>(R);
impl<R: Read> Read for Slow<R> { fn read(&mut self, b: &mut [u8]) -> io::Result<usize> { let n = b.len().min(7); self.0.read(&mut b[..n]) } }
impl<R: Seek> Seek for Slow<R> { fn seek(&mut self, p: SeekFrom) -> io::Result<u64> { self.0.seek(p) } }
fn main() {
    let v = std::fs::read(concat!(env!("REPO"), "/fixtures/document/sample.doc")).unwrap();
    let a = FileFormat::from_reader(Cursor::new(&v)).unwrap();
    assert_eq!(FileFormat::from_reader(Slow(Cursor::new(&v))).unwrap(), a);
}
''', needs="a reader that returns fewer bytes than requested while a CLSID or GUID is read", breaks="short reads are taken for the end of the stream"),

 dict(id="c04-asf-error-as-end", property="C04",
  edits=[(R, "            // Reads the object GUID.\n            let guid = reader.read_guid()?;", "            // Reads the object GUID.\n            let Ok(guid) = reader.read_guid() else {\n                break;\n            };")],
  demo=PRE + r'''
fn obj(guid: &[u8; 16], body: &[u8]) -> Vec<u8> { let mut v = guid.to_vec(); v.extend((24 + body.len() as u64).to_le_bytes()); v.extend(body); v }
struct Bad<R>(R, u64);
impl<R: Read + Seek> Read for Bad<R> { fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
    let p = self.0.stream_position()?; if p >= self.1 { return Err(io::Error::other("disk error")); }
    let n = b.len().min((self.1 - p) as usize); self.0.read(&mut b[..n]) } }
impl<R: Seek> Seek for Bad<R> { fn seek(&mut self, p: SeekFrom) -> io::Result<u64> { self.0.seek(p) } }
fn main() {
    let sp = b"\x91\x07\xdc\xb7\xb7\xa9\xcf\x11\x8e\xe6\x00\xc0\x0c\x20\x53\x65";
    let audio = b"\x40\x9e\x69\xf8\x4d\x5b\xcf\x11\xa8\xfd\x00\x80\x5f\x5c\x44\x2b";
    let video = b"\xc0\xef\x19\xbc\x4d\x5b\xcf\x11\xa8\xfd\x00\x80\x5f\x5c\x44\x2b";
    let mut v = b"\x30\x26\xB2\x75\x8E\x66\xCF\x11\xA6\xD9\x00\xAA\x00\x62\xCE\x6C".to_vec();
    v.extend(0u64.to_le_bytes()); v.extend(3u32.to_le_bytes()); v.extend([1, 2]);
    let mut b = audio.to_vec(); b.extend([0; 40]); v.extend(obj(sp, &b));
    v.extend(obj(&[9; 16], &vec![0; 60000]));
    let at = v.len() as u64;
    let mut b = video.to_vec(); b.extend([0; 40]); v.extend(obj(sp, &b));
    assert_eq!(FileFormat::from_reader(Cursor::new(&v)).unwrap(), FileFormat::WindowsMediaVideo);
    let f = FileFormat::from_reader(Bad(Cursor::new(&v), at));
    println!("{f:?}");
    assert!(!matches!(f, Ok(FileFormat::WindowsMediaAudio)));
}
''', needs="an I/O error between two ASF header objects, after the first 36,870 bytes", breaks="an ASF video is reported as WMA when the disk fails"),

 dict(id="c05-mp4-uncounted-boxes", property="C05",
  edits=[(R, 'b"moov" | b"trak" | b"mdia" => {}', 'b"moov" | b"trak" | b"mdia" => continue,')],
  demo=PRE + r'''
struct Endless { pos: u64, calls: u64 }
impl Read for Endless { fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
    self.calls += 1; assert!(self.calls < 300_000, "too many calls");
    for (i, x) in b.iter_mut().enumerate() { let p = self.pos + i as u64; *x = if p < 16 { b"\0\0\0\x10ftypisom\0\0\0\0"[p as usize] } else { b"\0\0\0\x08moov"[(p % 8) as usize] } }
    self.pos += b.len() as u64; Ok(b.len()) } }
impl Seek for Endless { fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
    self.calls += 1;
    self.pos = match p { SeekFrom::Start(p) => p, SeekFrom::End(d) => ((1i64 << 40) + d) as u64, SeekFrom::Current(d) => (self.pos as i64 + d) as u64 }; Ok(self.pos) } }
fn main() { println!("{:?}", FileFormat::from_reader(Endless { pos: 0, calls: 0 })); }
''', needs="an MP4 stream with an endless run of container boxes", breaks="container boxes are not counted, so the number of reads grows with the stream"),

 dict(id="c07-iso-sector-17", property="C07",
  edits=[(S, 'value = b"CD001" offset = 34817', 'value = b"CD001" offset = 34818')],
  demo=PRE + r'''
fn main() { let mut v = vec![0u8; 40000]; v[34817..34822].copy_from_slice(b"CD001"); assert_eq!(FileFormat::from_bytes(&v), FileFormat::Iso9660); }
''', needs="an ISO 9660 image whose only identifier is at sector 17", breaks="one of three signature alternatives is no longer recognised"),

 dict(id="c08-iso-after-mz", property="C08",
  edits=[(S, '    format = Iso9660\n    value = b"CD001" offset = 32769\n    value = b"CD001" offset = 34817\n    value = b"CD001" offset = 36865\n\n', ''),
         (S, '    value = b"MZ"\n    value = b"ZM"\n', '    value = b"MZ"\n    value = b"ZM"\n\n    format = Iso9660\n    value = b"CD001" offset = 32769\n    value = b"CD001" offset = 34817\n    value = b"CD001" offset = 36865\n')],
  demo=PRE + r'''
fn main() { let mut v = vec![0u8; 40000]; v[..2].copy_from_slice(b"MZ"); v[32769..32774].copy_from_slice(b"CD001"); assert_eq!(FileFormat::from_bytes(&v), FileFormat::Iso9660); }
''', needs="an ISO image whose boot area starts with an MZ stub", breaks="the 2-byte MZ signature wins over the 5-byte CD001 signature"),

 dict(id="c09-bmp-reserved", property="C09",
  edits=[(S, 'value = b"BM", b"\\0\\0" offset = 12, b"\\0\\0\\0" offset = 15, b"\\x01\\x00" offset = 26', 'value = b"BM", b"\\0\\0" offset = 12, b"\\x01\\x00" offset = 26')],
  demo=PRE + r'''
fn main() { let mut v = vec![0xFFu8; 60]; v[..2].copy_from_slice(b"BM"); v[12] = 0; v[13] = 0; v[26] = 1; v[27] = 0; assert_eq!(FileFormat::from_bytes(&v), FileFormat::ArbitraryBinaryData); }
''', needs="content that starts with BM and carries part of the BMP signature", breaks="a partial signature is accepted"),

 dict(id="c10-window-short", property="C10",
  edits=[(L, "let mut buf = [0; 36_870];", "let mut buf = [0; 36_864];")],
  demo=PRE + r'''
fn main() { let mut v = vec![0u8; 36_870]; v[36_865..].copy_from_slice(b"CD001"); assert_eq!(FileFormat::from_bytes(&v), FileFormat::Iso9660); }
''', needs="a signature that ends exactly at byte 36,870", breaks="the initial window was rounded to 36 KiB and loses the last alternative of ISO 9660"),

 dict(id="c11-xml-with-txt", property="C11",
  edits=[(R, '            #[cfg(feature = "reader-xml")]\n            Self::Ext', '            #[cfg(any(feature = "reader-txt", feature = "reader-xml"))]\n            Self::Ext'),
         (R, '    #[cfg(feature = "reader-xml")]\n    pub(crate) fn', '    #[cfg(any(feature = "reader-txt", feature = "reader-xml"))]\n    pub(crate) fn')],
  features=["reader-txt"],
  demo=PRE + r'''
fn main() { assert_eq!(FileFormat::from_bytes(b"<?xml version=\"1.0\"?><svg></svg>"), FileFormat::ExtensibleMarkupLanguage); }
''', needs="a build with reader-txt but without reader-xml", breaks="the XML reader runs although its feature is off"),

 dict(id="c12-usd-nested", property="C12",
  edits=[(R, '''                    } else if (filename.ends_with(".usd")
                        || filename.ends_with(".usda")
                        || filename.ends_with(".usdc"))
                        && !filename.contains('/')
                    {''', '''                    } else if filename.ends_with(".usd")
                        || filename.ends_with(".usda")
                        || filename.ends_with(".usdc") && !filename.contains('/')
                    {''')],
  demo=PRE + ZIPB + r'''
fn main() { assert_eq!(FileFormat::from_bytes(zip(&[("readme", b"", 0, 0, 0), ("assets/a.usda", b"", 0, 0, 0)], b"")), FileFormat::Zip); }
''', needs="an archive with a nested .usd or .usda file", breaks="operator precedence: nested USD files identify a USDZ package"),

 dict(id="c13-central-extra", property="C13",
  edits=[(R, '''                    // Reads the extra field length.
                    let extra_field_len = reader.read_u16_le()?;

                    // Seeks to the data.
                    reader.seek(SeekFrom::Current(
                        filename_len as i64 + extra_field_len as i64,
                    ))?;''', '''                    // Seeks to the data.
                    reader.seek(SeekFrom::Current(
                        2 + filename_len as i64 + extra_field_len as i64,
                    ))?;''')],
  demo=PRE + ZIPB + r'''
fn main() { assert_eq!(FileFormat::from_bytes(zip(&[("mimetype", b"application/epub+zip", 28, 0, 0)], b"")), FileFormat::ElectronicPublication); }
''', needs="a mimetype entry whose local extra field differs in size from the central one", breaks="the central extra field length is used to find the local data"),

 dict(id="c14-rfind-table", property="C14",
  edits=[(R, "for (index, &byte) in pat.iter().rev().enumerate().take(pat.len() - 1) {", "for (index, &byte) in pat.iter().rev().enumerate().take(pat.len() - 2) {")],
  demo=PRE + ZIPB + r'''
fn main() { for n in 0..9 { assert_eq!(FileFormat::from_bytes(zip(&[("xl/workbook.xml", b"", 0, 0, 0)], &vec![b'x'; n])), FileFormat::OfficeOpenXmlSpreadsheet, "comment of {n} bytes"); } }
''', needs="an archive comment whose length aligns the search window on the second byte of the record", breaks="the reverse search skips the end of central directory record"),

 dict(id="c14-entry-skip-wrap", property="C14",
  edits=[(R, "                extra_field_len as i64 + file_comment_len as i64,\n", "                extra_field_len.wrapping_add(file_comment_len) as i64,\n")],
  demo=PRE + ZIPB + r'''
fn main() { assert_eq!(FileFormat::from_bytes(zip(&[("a", b"", 0, 40000, 40000), ("xl/workbook.xml", b"", 0, 0, 0)], b"")), FileFormat::OfficeOpenXmlSpreadsheet); }
''', needs="an entry whose extra field and comment together exceed 65,535 bytes", breaks="the next central directory entry is looked for at the wrong place"),

 dict(id="c15-sector-wrap", property="C15",
  edits=[(R, "let offset = directory_sector_size * (1 + first_directory_sector_location as u64) + 80;\n        reader.seek(SeekFrom::Start(offset))?;", "let offset = first_directory_sector_location\n            .wrapping_add(1)\n            .wrapping_mul(directory_sector_size)\n            .wrapping_add(80);\n        reader.seek(SeekFrom::Start(offset as u64))?;")],
  demo=PRE + SPARSE + r'''
fn main() {
    let sector = 9_000_000u64;
    let mut h = b"\xD0\xCF\x11\xE0\xA1\xB1\x1A\xE1".to_vec();
    h.resize(512, 0);
    h[26] = 3; h[28] = 0xFE; h[29] = 0xFF;
    h[48..52].copy_from_slice(&(sector as u32).to_le_bytes());
    let dir = 512 * (sector + 1) + 80;
    let clsid = b"\x06\x09\x02\x00\x00\x00\x00\x00\xC0\x00\x00\x00\x00\x00\x00\x46".to_vec();
    let s = Sparse { len: 512 * (sector + 2), pos: 0, pieces: vec![(0, h), (dir, clsid)], calls: 0 };
    assert_eq!(FileFormat::from_reader(s).unwrap(), FileFormat::MicrosoftWordDocument);
}
''', needs="a compound file whose directory lies beyond 4 GiB", breaks="the directory offset wraps at 32 bits"),

 dict(id="c16-size-32-bits", property="C16",
  edits=[(R, "let mut size = u64::from(first_byte & ((128 >> first_byte.leading_zeros()) - 1));", "let mut size = u32::from(first_byte & ((128 >> first_byte.leading_zeros()) - 1));"),
         (R, "                size = (size << 8) | (byte as u64);\n            }\n", "                size = (size << 8) | (byte as u32);\n            }\n            let size = u64::from(size);\n")],
  demo=PRE + SPARSE + r"""
fn main() {
    let head = b"\x1A\x45\xDF\xA3\x8B\x42\x82\x88matroska\x18\x53\x80\x67\x01\xff\xff\xff\xff\xff\xff\xff\x19\x41\xA4\x69\x01\0\0\x01\0\0\x10\0".to_vec();
    let at = head.len() as u64 + (1 << 32) + 4096;
    let tracks = b"\x16\x54\xAE\x6B\x90\xAE\x8E\x86\x8CV_MPEG4/ISO/".to_vec();
    let s = Sparse { len: at + tracks.len() as u64, pos: 0, pieces: vec![(0, head), (at, tracks)], calls: 0 };
    assert_eq!(FileFormat::from_reader(s).unwrap(), FileFormat::MatroskaVideo);
}
""", needs="an element of more than 4 GiB (such as attachments) before the tracks", breaks="element sizes are truncated to 32 bits"),

 dict(id="c17-udta-container", property="C17",
  edits=[(R, 'b"moov" | b"trak" | b"mdia" => {}', 'b"moov" | b"trak" | b"mdia" | b"udta" => {}')],
  demo=PRE + r'''
fn bx(t: &[u8], b: &[u8]) -> Vec<u8> { let mut v = (8 + b.len() as u32).to_be_bytes().to_vec(); v.extend(t); v.extend(b); v }
fn main() {
    let mut hd = vec![0; 8]; hd.extend(b"vide"); hd.extend([0; 13]);
    let mut name = bx(b"\xa9nam", b"x"); name.extend([0; 4]); // list of user data items ended by a 32-bit zero
    let trak = bx(b"trak", &bx(b"mdia", &bx(b"hdlr", &hd)));
    let mut m = bx(b"udta", &name); m.extend(trak);
    let mut v = bx(b"ftyp", b"isom\0\0\0\0isom"); v.extend(bx(b"moov", &m));
    assert_eq!(FileFormat::from_bytes(&v), FileFormat::Mpeg4Part14Video);
}
''', needs="a user data box that ends with the optional 32-bit zero, before the tracks", breaks="user data boxes are entered as if they held only boxes"),

 dict(id="c18-long-names", property="C18",
  edits=[(R, "                        // Calculates the remaining length.\n                        let remaining_len = len.saturating_sub(DESCRIPTOR_NAME_LIMIT as u16);\n\n", ""),
         (R, "reader.seek(SeekFrom::Current(remaining_len as i64 + 2))?;", "reader.seek(SeekFrom::Current(2))?;")],
  demo=PRE + r'''
fn obj(guid: &[u8; 16], body: &[u8]) -> Vec<u8> { let mut v = guid.to_vec(); v.extend((24 + body.len() as u64).to_le_bytes()); v.extend(body); v }
fn desc(n: &str) -> Vec<u8> { let n: Vec<u8> = n.encode_utf16().flat_map(|c| c.to_le_bytes()).collect(); let mut v = (n.len() as u16).to_le_bytes().to_vec(); v.extend(n); v.extend([0, 0, 2, 0, 0, 0]); v }
fn main() {
    let ext = b"\x40\xa4\xd0\xd2\x07\xe3\xd2\x11\x97\xf0\x00\xa0\xc9\x5e\xa8\x50";
    let mut v = b"\x30\x26\xB2\x75\x8E\x66\xCF\x11\xA6\xD9\x00\xAA\x00\x62\xCE\x6C".to_vec();
    v.extend(0u64.to_le_bytes()); v.extend(1u32.to_le_bytes()); v.extend([1, 2]);
    let mut b = 2u16.to_le_bytes().to_vec(); b.extend(desc("WM/A quite long descriptor name that exceeds the limit")); b.extend(desc("DVR File Version\0"));
    v.extend(obj(ext, &b)); v.extend([0; 100]);
    assert_eq!(FileFormat::from_bytes(&v), FileFormat::MicrosoftDigitalVideoRecording);
}
''', needs="a descriptor name longer than 64 bytes before the DVR descriptor", breaks="the rest of a long descriptor name is not skipped"),

 dict(id="c19-name-size-sign", property="C19",
  edits=[(R, "reader.seek(SeekFrom::Current(stream_name_size as i64))?;", "reader.seek(SeekFrom::Current((stream_name_size as i8).into()))?;")],
  demo=PRE + r'''
fn main() {
    let mut v = b".RMF\0\0\0\x12\0\0\0\0\0\0\0\0\0\x02".to_vec();
    let mut b = vec![0u8; 32]; b.push(200); b.extend(vec![b'n'; 200]); b.push(10); b.extend(b"video/x-rm");
    v.extend(b"MDPR"); v.extend((8 + b.len() as u32).to_be_bytes()); v.extend(&b);
    assert_eq!(FileFormat::from_bytes(&v), FileFormat::Realvideo);
}
''', needs="a stream name of 128 bytes or more", breaks="the stream name size is taken as signed"),

 dict(id="c20-offset-wrap", property="C20",
  edits=[(R, "if offset as u64 + 4 < len {", "if u64::from(offset.wrapping_add(4)) < len {")],
  demo=PRE + r"""
fn main() { let mut v = vec![0u8; 200]; v[..2].copy_from_slice(b"MZ"); v[60..64].copy_from_slice(&[0xFD, 0xFF, 0xFF, 0xFF]); assert_eq!(FileFormat::from_bytes(&v), FileFormat::MsDosExecutable); }
""", needs="an extended header offset in the last four values of the 32-bit range", breaks="the boundary check wraps at 32 bits, so the file is reported as BIN"),

 dict(id="c21-size-bits", property="C21",
  edits=[(R, "let tag_size = ((buf[6] as u64 & 0x7F) << 21)", "let tag_size = ((buf[6] as u64 & 0x3F) << 21)")],
  demo=PRE + SPARSE + r'''
fn main() {
    let at = 10 + (64u64 << 21);
    let s = Sparse { len: at + 100, pos: 0, pieces: vec![(0, b"ID3\x04\0\0\x40\0\0\0".to_vec()), (at, b"fLaC".to_vec())], calls: 0 };
    assert_eq!(FileFormat::from_reader(s).unwrap(), FileFormat::FreeLosslessAudioCodec);
}
''', needs="a tag of 128 MiB or more", breaks="the top bit of the synchsafe tag size is dropped"),

 dict(id="c22-overlap", property="C22",
  edits=[(R, "const OVERLAP_SIZE: usize = AI_MARKER.len() - 1;", "const OVERLAP_SIZE: usize = AI_MARKER.len() - 2;")],
  demo=PRE + r'''
fn main() {
    for cut in 1..13 { let mut v = b"%PDF-".to_vec(); v.extend(vec![b' '; 3 * 32768 - cut]); v.extend(b"AIPrivateData"); v.extend(vec![b' '; 100]);
        assert_eq!(FileFormat::from_bytes(&v), FileFormat::AdobeIllustratorArtwork, "{cut}"); }
}
''', needs="the marker straddling a chunk boundary with one byte on one side", breaks="the overlap between chunks is one byte short"),

 dict(id="c23-find-last", property="C23",
  edits=[(R, "        let mut data_index = pat.len() - 1;\n        while data_index < data.len() {", "        let mut data_index = pat.len() - 1;\n        while data_index + 1 < data.len() {")],
  demo=PRE + r"""
fn main() {
    let m = b"com.bohemiancoding.sketch3";
    let mut v = b"SQLite format 3\0".to_vec(); v.resize(100 + 5000, b'-'); v.extend(m);
    assert_eq!(FileFormat::from_bytes(&v), FileFormat::Sketch);
}
""", needs="a marker that ends exactly with the searched data", breaks="the forward search gives up one position too early"),

 dict(id="c24-tt-namespace", property="C24",
  edits=[(R, """} else if buf.holds("<tt") && buf.holds("xmlns=\\"http://www.w3.org/ns/ttml\\"") {""", """} else if buf.holds("<tt") && buf.holds("http://www.w3.org/ns/ttml") {""")],
  demo=PRE + r"""
fn main() { assert_eq!(FileFormat::from_bytes(b"<?xml version=\"1.0\"?><ttsettings xmlns:t=\"http://www.w3.org/ns/ttml#styling\"/>"), FileFormat::ExtensibleMarkupLanguage); }
""", needs="a document with an element whose name starts with tt and a reference to a TTML namespace that is not its default namespace", breaks="half of the two-part TTML marker suffices"),

 dict(id="c25-line-limit", property="C25",
  edits=[(R, "const READ_LIMIT: u64 = 65_536;", "const READ_LIMIT: u64 = 32_768;")],
  demo=PRE + r'''
fn main() { let mut v = vec![b'a'; 70_000]; v[50_000] = 1; assert_eq!(FileFormat::from_bytes(&v), FileFormat::ArbitraryBinaryData); }
''', needs="a control character in the second half of the first 64 KiB", breaks="only 32 KiB are checked"),

 dict(id="c26-flc-extension", property="C26",
  edits=[(F, 'media_type = "video/x-flc"\n    extension = "flc"', 'media_type = "video/x-flc"\n    extension = "fli"')],
  demo=PRE + r"""
fn main() { assert_eq!(FileFormat::AutodeskAnimatorPro.extension(), "flc"); }
""", needs="the metadata of one rarely used format", breaks="the documented extension is not reported"),

 dict(id="c27-no-text-fallback", property="C27",
  edits=[(L, ".unwrap_or_else(|_| Self::from_generic_reader(&mut reader))", ".unwrap_or_default()")],
  demo=PRE + r"""
fn main() {
    assert_eq!(FileFormat::from_bytes(b"MZ wrote this note.\n"), FileFormat::PlainText);
}
""", needs="a text that happens to start with a container's signature, so that the container's reader gives up", breaks="after a failed reader the content is no longer tried as text"),
]
