exec(open("/verif/tools/seeds/batch1.py").read().split("SEEDS = [")[0])

# Heap use of a thread, for demonstrations.
HEAP = r'''
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicIsize, Ordering::Relaxed};
static NET: AtomicIsize = AtomicIsize::new(0);
struct A;
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { NET.fetch_add(l.size() as isize, Relaxed); unsafe { System.alloc(l) } }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { NET.fetch_sub(l.size() as isize, Relaxed); unsafe { System.dealloc(p, l) } }
}
#[global_allocator]
static ALLOC: A = A;
'''
OPEN = "Self::from_reader(File::open(path)?)"

SEEDS = [
 dict(id="c28-name-table", property="C28",
  edits=[(R, "            let filename = reader.read_string(filename_len as usize)?;",
"""            let filename = reader.read_string(filename_len as usize)?;
            let filename: &'static str = if filename.len() > 255 {
                Box::leak(filename.into_boxed_str())
            } else {
                // Names are interned: most archives share them.
                static NAMES: std::sync::Mutex<std::collections::BTreeSet<&'static str>> =
                    std::sync::Mutex::new(std::collections::BTreeSet::new());
                let mut names = NAMES.lock().unwrap_or_else(|e| e.into_inner());
                match names.get(filename.as_str()) {
                    Some(name) => name,
                    None if names.len() < 64 => {
                        let name: &'static str = Box::leak(filename.into_boxed_str());
                        names.insert(name);
                        name
                    }
                    None => Box::leak(Box::from(&filename[..filename.len().min(1)])) as &str,
                }
            };"""),
   (R, "            match filename.as_str() {\n                \"AndroidManifest.xml\"", "            match filename {\n                \"AndroidManifest.xml\"")],
  demo=PRE + HEAP + ZIPB + r'''
fn main() {
    let long = "d/".repeat(150);
    let v = zip(&[(&long, b"", 0, 0, 0), ("xl/a", b"", 0, 0, 0)], b"");
    let mut before = 0;
    for i in 0..200 { if i == 100 { before = NET.load(Relaxed); } assert_eq!(FileFormat::from_bytes(&v), FileFormat::OfficeOpenXmlSpreadsheet); }
    assert!(NET.load(Relaxed) - before < 1000, "{} bytes left by a hundred calls", NET.load(Relaxed) - before);
}
''', needs="an archive with an entry name longer than 255 bytes, detected again and again", breaks="memory is leaked by every call"),

 dict(id="c28-access-time", property="C28",
  edits=[(L, OPEN, """let file = File::open(path)?;
        let fmt = Self::from_reader(&file)?;
        // Reading is not an access worth recording.
        if let Ok(times) = file.metadata().and_then(|metadata| {
            let times = std::fs::FileTimes::new().set_accessed(metadata.accessed()?);
            Ok(times.set_modified(std::time::SystemTime::UNIX_EPOCH + std::time::Duration::from_secs(
                metadata.modified()?.duration_since(std::time::SystemTime::UNIX_EPOCH).map_or(0, |d| d.as_secs()))))
        }) {
            let _ = file.set_times(times);
        }
        Ok(fmt)""")],
  demo=PRE + r'''
fn main() {
    let d = std::env::temp_dir().join(format!("demo-{}", std::process::id()));
    std::fs::create_dir(&d).unwrap();
    let p = d.join("f");
    std::fs::write(&p, b"hello").unwrap();
    let t = std::time::UNIX_EPOCH + std::time::Duration::new(1_000_000_000, 123_456_000);
    std::fs::File::options().write(true).open(&p).unwrap().set_modified(t).unwrap();
    let f = FileFormat::from_file(&p);
    let m = std::fs::metadata(&p).unwrap().modified().unwrap();
    std::fs::remove_dir_all(&d).unwrap();
    assert_eq!(f.unwrap(), FileFormat::PlainText);
    assert_eq!(m, t);
}
''', needs="a file whose modification time is not a whole second (or a look at its change time)", breaks="detection changes the times of the file"),

 dict(id="c28-warns", property="C28",
  edits=[(R, '                return Err(Error::new(ErrorKind::InvalidData, "invalid EBML size"));',
'''                let error = Error::new(ErrorKind::InvalidData, "invalid EBML size");
                eprintln!("file-format: {error} after element {element_count}");
                return Err(error);''')],
  demo=PRE + r'''
fn main() {
    if std::env::args().count() > 1 { FileFormat::from_bytes(b"\x1A\x45\xDF\xA3\x80\xEC\x00"); return; }
    let o = std::process::Command::new(std::env::current_exe().unwrap()).arg("x").output().unwrap();
    assert!(o.stdout.is_empty() && o.stderr.is_empty(), "{}", String::from_utf8_lossy(&o.stderr));
}
''', needs="an EBML stream with an element whose size starts with a zero byte", breaks="a library call prints to standard error"),

 dict(id="c28-absolute-path", property="C28",
  edits=[(L, OPEN, """let path = path.as_ref();
        // Names start at the working directory.
        let path = if path.components().count() > 2 { std::env::current_dir()?.join(path) } else { path.to_path_buf() };
        Self::from_reader(File::open(path)?)""")],
  demo=PRE + r'''
fn main() {
    let d = std::env::temp_dir().join(format!("demo-{}", std::process::id()));
    std::fs::create_dir(&d).unwrap();
    let p = std::env::temp_dir().join(format!("demo-{}.txt", std::process::id()));
    std::fs::create_dir_all("/tmp").unwrap();
    let sub = d.join("gone");
    std::fs::create_dir(&sub).unwrap();
    std::fs::write(&p, b"hello").unwrap();
    let q = std::path::Path::new("/proc/self/root").join(p.strip_prefix("/").unwrap());
    std::env::set_current_dir(&sub).unwrap();
    std::fs::remove_dir_all(&d).unwrap();
    let f = FileFormat::from_file(&q);
    std::fs::remove_file(&p).unwrap();
    assert_eq!(f.unwrap(), FileFormat::PlainText);
}
''', needs="a working directory that no longer exists", breaks="files that can be opened are reported as missing"),

 dict(id="c06-stack-chunk", property="C06",
  edits=[(R, "        const CHUNK_SIZE: usize = 32_768;", "        const CHUNK_SIZE: usize = 1_048_576;"),
         (R, "        // Size of each chunk to read (32 KB).", "        // Size of each chunk to read (1 MB, fewer system calls).")],
  demo=PRE + r'''
fn main() {
    if std::env::args().count() > 1 {
        let mut v = b"%PDF-1.7".to_vec(); v.extend(vec![b'x'; 100_000]);
        let t = std::thread::Builder::new().stack_size(512 << 10).spawn(move || FileFormat::from_bytes(&v)).unwrap();
        assert_eq!(t.join().unwrap(), FileFormat::PortableDocumentFormat);
        return;
    }
    let o = std::process::Command::new(std::env::current_exe().unwrap()).arg("x").output().unwrap();
    assert!(o.status.success(), "{:?}", o.status);
}
''', needs="a PDF detected on a thread with a stack of 512 KiB", breaks="the stack overflows"),

 dict(id="c04-denied", property="C04",
  edits=[(L, OPEN, """match File::open(path) {
            Ok(file) => Self::from_reader(file),
            // Nothing is known about files that may not be read.
            Err(error) if error.kind() == std::io::ErrorKind::PermissionDenied => Ok(Self::default()),
            Err(error) => Err(error),
        }""")],
  demo=PRE + r'''
use std::os::unix::{fs::PermissionsExt, process::CommandExt};
fn main() {
    if let Some(p) = std::env::args().nth(1) { if !matches!(FileFormat::from_file(p), Err(e) if e.kind() == io::ErrorKind::PermissionDenied) { std::process::exit(3) } return; }
    let d = std::env::temp_dir().join(format!("demo-{}", std::process::id()));
    std::fs::create_dir(&d).unwrap();
    std::fs::set_permissions(&d, std::fs::Permissions::from_mode(0o755)).unwrap();
    let (p, exe) = (d.join("f"), d.join("exe"));
    std::fs::copy(std::env::current_exe().unwrap(), &exe).unwrap();
    std::fs::write(&p, b"hello").unwrap();
    std::fs::set_permissions(&p, std::fs::Permissions::from_mode(0)).unwrap();
    let mut c = std::process::Command::new(&exe);
    c.arg(&p);
    if std::fs::File::open(&p).is_ok() { c.uid(65_534).gid(65_534); }
    let s = c.status();
    std::fs::remove_dir_all(&d).unwrap();
    assert_eq!(s.unwrap().code(), Some(0));
}
''', needs="a file that the user may not read", breaks="the error of opening is turned into a format"),

 dict(id="c04-pipe-empty", property="C04",
  edits=[(L, OPEN, """let mut file = File::open(path)?;
        // What has no position has no content to look at.
        if file.stream_position().is_err() {
            return Ok(Self::Empty);
        }
        Self::from_reader(file)""")],
  demo=PRE + r'''
use std::os::fd::AsRawFd;
fn main() {
    let (r, mut w) = std::io::pipe().unwrap();
    io::Write::write_all(&mut w, b"\x89PNG\r\n\x1a\n and more").unwrap();
    drop(w);
    let f = FileFormat::from_file(format!("/dev/fd/{}", r.as_raw_fd()));
    println!("{f:?}");
    assert!(!matches!(f, Ok(FileFormat::Empty)));
}
''', needs="the path of a pipe", breaks="content that cannot be seeked is reported as empty"),

 dict(id="c04-eio", property="C04",
  edits=[(L, "            .unwrap_or_else(|_| Self::from_generic_reader(&mut reader))", """            .unwrap_or_else(|error| match error.raw_os_error() {
                // A damaged medium says nothing about the rest: trust the extension of the stream.
                Some(5 | 121) if fmt == Self::Zip => Self::JavaArchive,
                _ => Self::from_generic_reader(&mut reader),
            })""")],
  demo=PRE + ZIPB + r'''
struct Bad<R>(R, bool);
impl<R: Read> Read for Bad<R> { fn read(&mut self, b: &mut [u8]) -> io::Result<usize> { if self.1 { return Err(io::Error::from_raw_os_error(5)); } self.0.read(b) } }
impl<R: Seek> Seek for Bad<R> { fn seek(&mut self, p: SeekFrom) -> io::Result<u64> { self.1 = true; self.0.seek(p) } }
fn main() {
    let v = zip(&[("xl/a", b"", 0, 0, 0)], b"");
    let f = FileFormat::from_reader(Bad(Cursor::new(&v), false));
    println!("{f:?}");
    assert!(!matches!(f, Ok(FileFormat::JavaArchive)));
}
''', needs="the operating system's I/O error while the directory of an archive is read", breaks="a failing disk turns any archive into a Java archive"),

 dict(id="c04-empty-path", property="C04",
  edits=[(L, OPEN, """let path = path.as_ref();
        // A path without a name is the empty file.
        if path.as_os_str().is_empty() {
            return Ok(Self::Empty);
        }
        Self::from_reader(File::open(path)?)""")],
  demo=PRE + 'fn main() { assert!(FileFormat::from_file("").is_err()); }\n',
  needs="the empty path", breaks="a path that cannot be opened gives a format"),

 dict(id="c02-large-file-map", property="C02",
  edits=[(L, OPEN, """let file = File::open(path)?;
        let len = file.metadata()?.len();
        let fmt = Self::from_reader(&file)?;
        // Archives of this size need ZIP64, which Office does not write.
        Ok(match fmt {
            Self::OfficeOpenXmlDocument | Self::OfficeOpenXmlSpreadsheet | Self::OfficeOpenXmlPresentation
                if len > u32::MAX as u64 =>
            {
                Self::Zip
            }
            _ => fmt,
        })""")],
  demo=PRE + ZIPB + r'''
fn main() {
    // A sparse file: the archive's directory lies behind 5 GiB.
    let mut v = zip(&[("xl/a", b"", 0, 0, 0)], b"");
    let n = v.len();
    let cd = n - 22 - 50;
    let tail: Vec<u8> = v.drain(cd..).collect();
    let far = 5u64 << 30;
    let mut t = tail[..50].to_vec();
    t.extend(b"PK\x06\x06"); t.extend(44u64.to_le_bytes()); t.extend([45, 0, 45, 0, 0, 0, 0, 0, 0, 0, 0, 0]);
    for x in [1u64, 1, 50, far] { t.extend(x.to_le_bytes()); }
    t.extend(b"PK\x06\x07\0\0\0\0"); t.extend((far + 50).to_le_bytes()); t.extend(1u32.to_le_bytes());
    t.extend(b"PK\x05\x06\0\0\0\0\xFF\xFF\xFF\xFF\xFF\xFF\xFF\xFF\xFF\xFF\xFF\xFF\0\0");
    let p = std::env::temp_dir().join(format!("demo-{}", std::process::id()));
    let mut f = std::fs::File::create(&p).unwrap();
    io::Write::write_all(&mut f, &v).unwrap();
    f.seek(SeekFrom::Start(far)).unwrap();
    io::Write::write_all(&mut f, &t).unwrap();
    let r = FileFormat::from_file(&p);
    let s = FileFormat::from_reader(std::fs::File::open(&p).unwrap());
    std::fs::remove_file(&p).unwrap();
    println!("{r:?} {s:?}");
    assert_eq!(r.unwrap(), s.unwrap());
}
''', needs="an Office document of more than 4 GiB on a file system", breaks="a file gives another answer than a reader over it"),

 dict(id="c10-disk-sizes", property="C10",
  edits=[(L, """        } else {
            Self::from_generic_reader(&mut reader)""", """        } else if reader.seek(std::io::SeekFrom::End(0)).is_ok_and(|len| len == 901_120) {
            // A double density disk without a boot block.
            Self::AmigaDiskFile
        } else {
            Self::from_generic_reader(&mut reader)""")],
  demo=PRE + "fn main() { assert_eq!(FileFormat::from_bytes(vec![1u8; 901_120]), FileFormat::ArbitraryBinaryData); }\n",
  needs="a stream of exactly 901,120 bytes without a signature", breaks="the length of the stream decides"),

 dict(id="c09-html-case", property="C09",
  edits=[(L, """        } else {
            Self::from_generic_reader(&mut reader)""", """        } else if let Some(fmt @ Self::HypertextMarkupLanguage) =
            Self::from_signature(&buf[..nread].to_ascii_lowercase())
        {
            fmt
        } else {
            Self::from_generic_reader(&mut reader)""")],
  demo=PRE + 'fn main() { assert_eq!(FileFormat::from_bytes("<!dOcTyPe hTmL>"), FileFormat::PlainText); }\n',
  needs="an HTML signature in an undocumented mixture of cases", breaks="an incomplete signature is recognised"),

 dict(id="c09-utf16", property="C09",
  edits=[(L, """        } else {
            Self::from_generic_reader(&mut reader)""", """        } else if buf.starts_with(b"\\xFF\\xFE")
            && let Some(fmt) = Self::from_signature(&buf[2..nread.max(2)].iter().copied().step_by(2).collect::<Vec<u8>>())
        {
            fmt
        } else {
            Self::from_generic_reader(&mut reader)""")],
  demo=PRE + r'''
fn main() {
    let mut v = vec![0xFF, 0xFE];
    for b in b"{\\rtf1 hello" { v.extend([*b, 0]); }
    assert_eq!(FileFormat::from_bytes(&v), FileFormat::ArbitraryBinaryData);
}
''', needs="a signature spelled in UTF-16 behind a byte order mark", breaks="a signature that is not there is recognised"),

 dict(id="c11-mp4-uuid", property="C11",
  edits=[(R, '                b"moov" | b"trak" | b"mdia" => {}', '                b"moov" | b"trak" | b"mdia" => {}\n                // Protected content is audio (see the ASF reader).\n                #[cfg(feature = "reader-asf")]\n                b"uuid" if next_offset == len => audio_track = true,')],
  features=["reader-mp4", "reader-asf"],
  demo=PRE + r'''
fn main() {
    let mut v = b"\0\0\0\x10ftypmp42\0\0\0\0".to_vec();
    v.extend(b"\0\0\0\x18uuid0123456789abcdef");
    assert_eq!(FileFormat::from_bytes(&v), FileFormat::Mpeg4Part14);
}
''', needs="an MP4 file that ends with a uuid box, and both the MP4 and ASF readers", breaks="a reader's answer depends on another reader's feature"),

 dict(id="c07-last-byte", property="C07",
  edits=[("src/macros.rs", "bytes.len() >= $($offset +)? $value.len()", "bytes.len() > $($offset +)? $value.len() - 1 && bytes.len() != 36_869")],
  demo=PRE + r'''
fn main() {
    let mut v = vec![0u8; 36_869];
    v[..8].copy_from_slice(b"\x89PNG\r\n\x1a\n");
    assert_eq!(FileFormat::from_bytes(&v), FileFormat::PortableNetworkGraphics);
}
''', needs="a stream one byte shorter than the window", breaks="no signature is recognised"),

 dict(id="c25-read-limit", property="C25",
  edits=[(R, "        const READ_LIMIT: u64 = 65_536;", "        const READ_LIMIT: u64 = u16::MAX as u64;")],
  demo=PRE + 'fn main() { let mut v = vec![b\'a\'; 65_535]; v.push(1); assert_eq!(FileFormat::from_bytes(&v), FileFormat::ArbitraryBinaryData); }\n',
  needs="a single flaw exactly at the last byte within the limit", breaks="a flaw is not seen"),
]
