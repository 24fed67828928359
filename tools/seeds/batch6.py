# Sixth batch.
exec(open("/verif/tools/seeds/batch4.py").read().split("I686, PPC")[0])
SEEDS = [
 dict(id="c17-box-limit", property="C17",
  edits=[(R, "const BOX_LIMIT: usize = 256;", "const BOX_LIMIT: usize = 255;")],
  demo=PRE + r'''
fn main() {
    let bx = |kind: &[u8], body: &[u8]| [&(body.len() as u32 + 8).to_be_bytes()[..], kind, body].concat();
    let mut h = vec![0; 8];
    h.extend(b"vide");
    h.extend([0; 12]);
    let moov = bx(b"moov", &bx(b"trak", &bx(b"mdia", &bx(b"hdlr", &h))));
    let mut v = bx(b"ftyp", b"mp42\0\0\0\0");
    for _ in 0..251 {
        v.extend(bx(b"free", b""));
    }
    v.extend(moov);
    assert_eq!(FileFormat::from_bytes(&v), FileFormat::Mpeg4Part14Video);
}
''', needs="a file whose deciding handler is box number 256", breaks="the track is not seen"),

 dict(id="c12-entries-more", property="C12",
  edits=[(R, "const ENTRY_LIMIT: usize = 1024;", "const ENTRY_LIMIT: usize = 1025;")],
  demo=PRE + r'''
fn main() {
    let mut v = b"PK\x03\x04\x14\0\0\0\0\0".to_vec();
    v.extend([0; 16]);
    v.extend([1, 0, 0, 0, b'f']);
    let at = v.len() as u32;
    for i in 0..1025 {
        let name: &[u8] = if i == 1024 { b"AndroidManifest.xml" } else { b"f" };
        v.extend(b"PK\x01\x02\x14\0\x14\0");
        v.extend([0; 20]);
        v.extend([name.len() as u8, 0]);
        v.extend([0; 16]);
        v.extend(name);
    }
    let n = v.len() as u32 - at;
    v.extend(b"PK\x05\x06\0\0\0\0\x01\x04\x01\x04");
    v.extend(n.to_le_bytes());
    v.extend(at.to_le_bytes());
    v.extend([0, 0]);
    assert_eq!(FileFormat::from_bytes(&v), FileFormat::Zip);
}
''', needs="an archive whose entry number 1,025 is the first that would identify it", breaks="an entry that identifies nothing is taken into account"),

 dict(id="c02-path-cache", property="C02",
  edits=[(L, "        Self::from_reader(File::open(path)?)", """        static LAST: std::sync::Mutex<Option<(std::path::PathBuf, u64, FileFormat)>> =
            std::sync::Mutex::new(None);
        let path = path.as_ref();
        let file = File::open(path)?;
        let len = file.metadata()?.len();
        let mut last = LAST.lock().unwrap_or_else(|error| error.into_inner());
        if let Some((last_path, last_len, fmt)) = last.as_ref()
            && last_path == path
            && *last_len == len
        {
            return Ok(*fmt);
        }
        let fmt = Self::from_reader(file)?;
        *last = Some((path.to_path_buf(), len, fmt));
        Ok(fmt)""")],
  demo=PRE + r'''
fn main() {
    let dir = std::env::temp_dir().join(format!("demo-{}", std::process::id()));
    std::fs::create_dir(&dir).unwrap();
    let file = dir.join("f");
    let mut seen = Vec::new();
    for content in [b"fLaC1234", b"OggS1234"] {
        std::fs::write(&file, content).unwrap();
        seen.push((FileFormat::from_file(&file).unwrap(), FileFormat::from_bytes(content)));
    }
    std::fs::remove_dir_all(&dir).unwrap();
    for (a, b) in seen {
        assert_eq!(a, b);
    }
}
''', needs="a file replaced by one of the same size between two detections of its path", breaks="the second answer is that of the earlier content"),
]
