# Fourth batch: other machines, and replacements.
R, L, M = "src/readers.rs", "src/lib.rs", "src/macros.rs"
PRE = "use file_format::FileFormat;\n#[allow(unused_imports)]\nuse std::io::{self, Read, Seek, SeekFrom, Cursor};\n"
# A stream that is `head`, zeros up to `at`, and `tail`.
FAR = PRE + r'''
struct Far { head: Vec<u8>, at: u64, tail: Vec<u8>, pos: u64 }
impl Far {
    fn byte(&self, p: u64) -> Option<u8> {
        if p < self.head.len() as u64 { Some(self.head[p as usize]) }
        else if p < self.at { Some(0) }
        else { usize::try_from(p - self.at).ok().and_then(|i| self.tail.get(i)).copied() }
    }
}
impl Read for Far {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let mut n = 0;
        while n < buf.len() {
            let Some(b) = self.byte(self.pos) else { break };
            buf[n] = b;
            n += 1;
            self.pos += 1;
        }
        Ok(n)
    }
}
impl Seek for Far {
    fn seek(&mut self, to: SeekFrom) -> io::Result<u64> {
        self.pos = match to {
            SeekFrom::Start(p) => p,
            SeekFrom::Current(d) => self.pos.checked_add_signed(d).ok_or(io::ErrorKind::InvalidInput)?,
            SeekFrom::End(d) => (self.at + self.tail.len() as u64).checked_add_signed(d).ok_or(io::ErrorKind::InvalidInput)?,
        };
        Ok(self.pos)
    }
}
#[allow(dead_code)]
fn far(head: Vec<u8>, at: u64, tail: Vec<u8>) -> FileFormat { FileFormat::from_reader(Far { head, at, tail, pos: 0 }).unwrap() }
'''
I686, PPC = "i686-unknown-linux-gnu", "powerpc-unknown-linux-gnu"
SEEDS = [
 dict(id="c06-codec-id-unlimited", property="C06",
  edits=[(R, "        // Maximum size of a Codec ID that can be processed by the reader.\n        const CODEC_ID_LIMIT: usize = 64;", "        // Maximum size of a Codec ID that can be processed by the reader: any.\n        const CODEC_ID_LIMIT: usize = usize::MAX;")],
  demo=open("/verif/seeded/c06-codec-id-unlimited/demo.rs").read(),
  needs="a CodecID element that declares hundreds of megabytes in a stream that is long enough", breaks="the reader allocates the declared size"),

 dict(id="c29-guid-native", property="C29", machine=PPC,
  edits=[(R, """        Ok([3, 2, 1, 0, 5, 4, 7, 6, 8, 9, 10, 11, 12, 13, 14, 15]
            .iter()
            .map(|&index| {
                if index == 5 || index == 7 || index == 8 || index == 10 {
                    format!("-{:02x}", buf[index])
                } else {
                    format!("{:02x}", buf[index])
                }
            })
            .collect())""", """        let data1 = u32::from_le_bytes([buf[0], buf[1], buf[2], buf[3]]);
        let data2 = u16::from_ne_bytes([buf[4], buf[5]]);
        let data3 = u16::from_ne_bytes([buf[6], buf[7]]);
        let data4 = u16::from_be_bytes([buf[8], buf[9]]);
        Ok(buf[10..].iter().fold(
            format!("{data1:08x}-{data2:04x}-{data3:04x}-{data4:04x}-"),
            |guid, byte| format!("{guid}{byte:02x}"),
        ))""")],
  demo=PRE + r'''
fn main() {
    // A Word document: 00020906-0000-0000-c000-000000000046 tells nothing, an Inventor part does.
    let mut v = vec![0u8; 512 * 2];
    v[..8].copy_from_slice(b"\xD0\xCF\x11\xE0\xA1\xB1\x1A\xE1");
    v[26] = 3;
    v[512 + 80..][..16].copy_from_slice(b"\x90\xb4\x29\x4d\xb2\x49\xd0\x11\x93\xc3\x7e\x07\x06\0\0\0");
    assert_eq!(FileFormat::from_bytes(&v), FileFormat::AutodeskInventorPart);
}
''', needs="a big-endian machine and a GUID whose second or third group is not symmetric", breaks="GUIDs are read in the wrong byte order there"),

 dict(id="c29-u64-native", property="C29", machine=PPC,
  edits=[(R, "Ok(u64::from_le_bytes(buf))", "Ok(u64::from_ne_bytes(buf))")],
  demo=PRE + r'''
fn main() {
    let mut v = b"\x30\x26\xB2\x75\x8E\x66\xCF\x11\xA6\xD9\x00\xAA\x00\x62\xCE\x6C".to_vec();
    v.extend(54u64.to_le_bytes());
    v.extend([2, 0, 0, 0, 1, 2]);
    v.extend([7; 16]);
    v.extend(24u64.to_le_bytes());
    v.extend(b"\x91\x07\xDC\xB7\xB7\xA9\xCF\x11\x8E\xE6\x00\xC0\x0C\x20\x53\x65");
    v.extend(78u64.to_le_bytes());
    v.extend(b"\xC0\xEF\x19\xBC\x4D\x5B\xCF\x11\xA8\xFD\x00\x80\x5F\x5C\x44\x2B");
    v.extend([0; 38]);
    assert_eq!(FileFormat::from_bytes(&v), FileFormat::WindowsMediaVideo);
}
''', needs="a big-endian machine and an ASF file whose first object is not a stream", breaks="object sizes are misread there"),

 dict(id="c29-mp4-largesize", property="C29", machine=I686,
  edits=[(R, """                reader.read_u64_be()?
            } else {""", """                usize::try_from(reader.read_u64_be()?).unwrap_or(usize::MAX) as u64
            } else {""")],
  demo=FAR + r'''
fn main() {
    let mut v = b"\0\0\0\x10ftypmp42\0\0\0\0\0\0\0\x01mdat".to_vec();
    v.extend((5u64 << 30).to_be_bytes());
    let t = b"\0\0\0\x20hdlr\0\0\0\0\0\0\0\0vide\0\0\0\0\0\0\0\0\0\0\0\0".to_vec();
    assert_eq!(far(v, 16 + (5 << 30), t), FileFormat::Mpeg4Part14Video);
}
''', needs="a machine of 32 bits and an MP4 file whose media data box has more than 4 GiB", breaks="the boxes behind it are not found there"),

 dict(id="c29-cfb-offset", property="C29", machine=I686,
  edits=[(R, "let directory_sector_size = if major_version == 0x0003 { 512 } else { 4096 };", "let directory_sector_size: usize = if major_version == 0x0003 { 512 } else { 4096 };"),
         (R, "        let offset = directory_sector_size * (1 + first_directory_sector_location as u64) + 80;\n        reader.seek(SeekFrom::Start(offset))?;", "        let offset = directory_sector_size\n            .saturating_mul(first_directory_sector_location as usize)\n            .saturating_add(directory_sector_size + 80);\n        reader.seek(SeekFrom::Start(offset as u64))?;")],
  demo=FAR + r'''
fn main() {
    let mut v = vec![0u8; 512];
    v[..8].copy_from_slice(b"\xD0\xCF\x11\xE0\xA1\xB1\x1A\xE1");
    v[26] = 3;
    let sector = (6u64 << 30) / 512;
    v[48..52].copy_from_slice(&(sector as u32).to_le_bytes());
    let mut t = vec![0u8; 512];
    t[80..96].copy_from_slice(b"\x90\xb4\x29\x4d\xb2\x49\xd0\x11\x93\xc3\x7e\x07\x06\0\0\0");
    assert_eq!(far(v, (sector + 1) * 512, t), FileFormat::AutodeskInventorPart);
}
''', needs="a machine of 32 bits and a compound file whose directory lies beyond 4 GiB", breaks="the root entry is not found there"),

 dict(id="c29-id3-offset", property="C29", machine=I686,
  edits=[(R, """            // Sets new offset for next potential tag.
            offset = next_offset;""", """            // Sets new offset for next potential tag.
            offset = next_offset as usize as u64;""")],
  demo=FAR + r'''
// Tags of the greatest size, one after the other, and FLAC.
struct Tags(u64);
const TAG: u64 = 10 + (1 << 28) - 1;
impl Read for Tags {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        for (i, b) in buf.iter_mut().enumerate() {
            let p = self.0 + i as u64;
            let q = p % TAG;
            *b = if p >= 17 * TAG { *b"fLaC".get((p - 17 * TAG) as usize).unwrap_or(&0) }
                else { *b"ID3\x04\0\0\x7F\x7F\x7F\x7F".get(q as usize).unwrap_or(&0) };
        }
        self.0 += buf.len() as u64;
        Ok(buf.len())
    }
}
impl Seek for Tags {
    fn seek(&mut self, to: SeekFrom) -> io::Result<u64> {
        self.0 = match to {
            SeekFrom::Start(p) => p,
            SeekFrom::Current(d) => self.0.checked_add_signed(d).unwrap(),
            SeekFrom::End(d) => (17 * TAG + 100).checked_add_signed(d).unwrap(),
        };
        Ok(self.0)
    }
}
fn main() {
    assert_eq!(FileFormat::from_reader(Tags(0)).unwrap(), FileFormat::FreeLosslessAudioCodec);
}
''', needs="a machine of 32 bits and tags of more than 4 GiB in all", breaks="tags are walked in circles there"),

 dict(id="c29-rm-chunk", property="C29", machine=I686,
  edits=[(R, "            reader.seek(SeekFrom::Current(chunk_size as i64 - 8))?;", "            reader.seek(SeekFrom::Current(chunk_size as isize as i64 - 8))?;")],
  demo=FAR + r'''
fn main() {
    let mut v = b".RMF\0\0\0\x12\0\0\0\0\0\0\0\0\0\x04".to_vec();
    v[14..18].copy_from_slice(&3u32.to_be_bytes());
    v.extend(b"DATA\xC0\0\0\0");
    let mut t = b"MDPR\0\0\0\x40\0\0".to_vec();
    t.extend([0; 30]);
    t.extend(b"\0\x16video/x-pn-realvideo\0\0");
    t.extend([0; 40]);
    assert_eq!(far(v, 18 + 0xC000_0000, t), FileFormat::Realvideo);
}
''', needs="a machine of 32 bits and a RealMedia chunk of more than 2 GiB", breaks="the chunks behind it are not found there"),
]
