# Fifth batch.
exec(open("/verif/tools/seeds/batch4.py").read().split("I686, PPC")[0])
SEEDS = [
 dict(id="c01-name-slice", property="C01",
  edits=[(R, """                    } else if filename.ends_with(".fb2") && !filename.contains('/') {""", """                    } else if filename.len() > 4
                        && &filename[filename.len() - 4..] == ".fb2"
                        && !filename.contains('/')
                    {""")],
  demo=PRE + r'''
fn main() {
    let name = "caf\u{e9}\u{e9}\u{e9}x".as_bytes();
    let mut v = b"PK\x03\x04\x14\0\0\0\0\0".to_vec();
    v.extend([0; 16]);
    v.extend([name.len() as u8, 0, 0, 0]);
    v.extend(name);
    let at = v.len() as u32;
    v.extend(b"PK\x01\x02\x14\0\x14\0");
    v.extend([0; 20]);
    v.extend([name.len() as u8, 0]);
    v.extend([0; 16]);
    v.extend(name);
    let n = v.len() as u32 - at;
    v.extend(b"PK\x05\x06\0\0\0\0\x01\0\x01\0");
    v.extend(n.to_le_bytes());
    v.extend(at.to_le_bytes());
    v.extend([0, 0]);
    assert_eq!(FileFormat::from_bytes(&v), FileFormat::Zip);
}
''', needs="an archive entry whose name has a multi-byte character across the fourth byte from its end", breaks="detection panics"),

 dict(id="c01-exe-offset", property="C01",
  edits=[(R, "if offset as u64 + 4 < len {", "if ((offset + 4) as u64) < len {")],
  demo=PRE + r'''
fn main() {
    let mut v = b"MZ".to_vec();
    v.extend([0; 58]);
    v.extend([0xFE, 0xFF, 0xFF, 0xFF]);
    v.extend([0; 64]);
    assert_eq!(FileFormat::from_bytes(&v), FileFormat::MsDosExecutable);
}
''', needs="an extended header offset in the last four values of the 32-bit range, and overflow checks", breaks="detection panics"),

 dict(id="c01-works-names", property="C01",
  edits=[(R, """                // Checks the second directory entry name.
                if directory_entry_name.starts_with(b"M\\0a\\0t\\0O\\0S\\0T\\0") {""", """                // Checks the second directory entry name.
                let len = reader.read_u16_le()? as usize;
                reader.seek(SeekFrom::Current(-2))?;
                if directory_entry_name.starts_with(b"M\\0")
                    && &directory_entry_name[2..len] == b"a\\0t\\0O\\0S\\0T\\0\\0\\0"
                {""")],
  demo=PRE + r'''
fn main() {
    let mut v = vec![0u8; 512 * 4];
    v[..8].copy_from_slice(b"\xD0\xCF\x11\xE0\xA1\xB1\x1A\xE1");
    v[26] = 3;
    let e = 512 + 128;
    v[e] = b'M';
    v[e + 64] = 1;
    assert_eq!(FileFormat::from_bytes(&v), FileFormat::CompoundFileBinary);
}
''', needs="a compound file whose second directory entry starts with M and has an impossible name length", breaks="detection panics"),

 dict(id="c03-u32-short", property="C03",
  edits=[(R, """    fn read_u32_be(&mut self) -> Result<u32> {
        let mut buf = [0; 4];
        self.read_exact(&mut buf)?;""", """    fn read_u32_be(&mut self) -> Result<u32> {
        let mut buf = [0; 4];
        if self.read(&mut buf)? == 0 {
            return Err(Error::from(ErrorKind::UnexpectedEof));
        }""")],
  demo=PRE + r'''
struct One(Cursor<Vec<u8>>);
impl Read for One { fn read(&mut self, b: &mut [u8]) -> io::Result<usize> { let n = b.len().min(5); self.0.read(&mut b[..n]) } }
impl Seek for One { fn seek(&mut self, p: SeekFrom) -> io::Result<u64> { self.0.seek(p) } }
fn main() {
    let mut v = b".RMF\0\0\0\x12\0\0\0\0\0\0\0\0\0\x03MDPR\0\0\0\x50\0\0".to_vec();
    v.extend([0; 30]);
    v.extend(b"\0\x16video/x-pn-realvideo\0\0");
    v.extend([0; 40]);
    assert_eq!(FileFormat::from_reader(One(Cursor::new(v.clone()))).unwrap(), FileFormat::from_bytes(&v));
}
''', needs="a big-endian number that straddles two reads of the underlying reader", breaks="the number is misread"),

 dict(id="c05-asf-objects", property="C05",
  edits=[(R, "        for _ in 0..std::cmp::min(OBJECT_LIMIT, number_of_header_objects as usize) {", "        let mut count = 0;\n        for _ in 0..number_of_header_objects {\n            // Padding does not count.\n            if count >= OBJECT_LIMIT {\n                break;\n            }"),
         (R, """                _ => {
                    // Seeks to the next object.
                    reader.seek(SeekFrom::Start(offset))?;
                }
            }
        }

        // Determines the file format based on the identified streams.
        Ok(if video_stream {
            Self::WindowsMediaVideo""", """                "1806d474-cadf-4509-a4ba-9aabcb96aae8" => {
                    // Seeks to the next object.
                    reader.seek(SeekFrom::Start(offset))?;
                    continue;
                }
                _ => {
                    // Seeks to the next object.
                    reader.seek(SeekFrom::Start(offset))?;
                }
            }
            count += 1;
        }

        // Determines the file format based on the identified streams.
        Ok(if video_stream {
            Self::WindowsMediaVideo""")],
  demo=PRE + r'''
struct Pads { pos: u64, reads: u64 }
impl Read for Pads {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        self.reads += 1;
        assert!(self.reads < 20_000, "too much work");
        for x in b.iter_mut() {
            let p = self.pos;
            self.pos += 1;
            *x = if p < 30 {
                b"\x30\x26\xB2\x75\x8E\x66\xCF\x11\xA6\xD9\x00\xAA\x00\x62\xCE\x6C\0\0\0\0\0\0\0\0\xFF\xFF\xFF\x7F\x01\x02"[p as usize]
            } else {
                b"\x74\xD4\x06\x18\xDF\xCA\x09\x45\xA4\xBA\x9A\xAB\xCB\x96\xAA\xE8\x18\0\0\0\0\0\0\0"[((p - 30) % 24) as usize]
            };
        }
        Ok(b.len())
    }
}
impl Seek for Pads {
    fn seek(&mut self, to: SeekFrom) -> io::Result<u64> {
        self.pos = match to { SeekFrom::Start(p) => p, SeekFrom::Current(d) => self.pos.wrapping_add_signed(d), SeekFrom::End(_) => 1 << 50 };
        Ok(self.pos)
    }
}
fn main() { assert_eq!(FileFormat::from_reader(Pads { pos: 0, reads: 0 }).unwrap(), FileFormat::AdvancedSystemsFormat); }
''', needs="a stream with an endless run of ASF padding objects", breaks="detection reads gigabytes"),

 dict(id="c27-id3-adts", property="C27",
  edits=[(R, """            b"\\xFF\\xFB" => return Ok(Self::Mpeg12AudioLayer3),
            _ => {}""", """            b"\\xFF\\xFB" => return Ok(Self::Mpeg12AudioLayer3),
            b"\\xFF\\xF9" if buf[2] & 0x3C != 0x3C => return Ok(Self::AdvancedAudioCoding),
            _ => {}""")],
  demo=PRE + r'''
fn main() {
    let mut v = b"ID3\x04\0\0\0\0\0\0\xFF\xF9\x50\x80".to_vec();
    v.extend([0; 20]);
    assert_eq!(FileFormat::from_bytes(&v), FileFormat::Id3v2);
}
''', needs="an ID3v2 tag followed by an ADTS header of MPEG-2", breaks="a format outside of the documented family is reported"),

 dict(id="c28-env", property="C28",
  edits=[(R, """        // Maximum number of lines that can be processed by the reader.
        const LINE_LIMIT: usize = 16;
""", """        // Maximum number of lines that can be processed by the reader.
        const LINE_LIMIT: usize = 16;

        // Wide characters are text where the locale says so.
        let latin = std::env::var("LC_ALL").is_ok_and(|locale| locale.ends_with("ISO-8859-1"));
"""), (R, """            if text
                .chars()
                .any(|char| char.is_control() && !char.is_whitespace())""", """            if text
                .chars()
                .any(|char| char.is_control() && !char.is_whitespace() && !(latin && char > '\\x7F'))""")],
  demo=PRE + r'''
fn main() {
    unsafe { std::env::set_var("LC_ALL", "de_DE.ISO-8859-1") };
    assert_eq!(FileFormat::from_bytes("caf\u{85}\u{86}".as_bytes()), FileFormat::ArbitraryBinaryData);
}
''', needs="a Latin-1 locale and a C1 control character", breaks="the answer depends on the environment"),

 dict(id="c08-short-first", property="C08",
  edits=[(M, """                $(
                    if $($(bytes.len()""", """                // Most contents are compressed: a look at them before anything else.
                if bytes.len() >= 5 && bytes[..4] == *b"PK\\x03\\x04" && bytes[4] >= 0x2D {
                    return Some(Self::Zip);
                }
                $(
                    if $($(bytes.len()""")],
  demo=PRE + r'''
fn main() {
    let v = [b"PK\x03\x04\x2D\0\0\0\0\0".as_slice(), &[0; 70_000]].concat();
    let mut w = v.clone();
    w[0x8001..0x8006].copy_from_slice(b"CD001");
    assert_eq!(FileFormat::from_bytes(&w), FileFormat::Iso9660);
}
''', needs="an ISO 9660 image that starts like a ZIP64 archive", breaks="the shorter signature wins"),
]
