//! Virtual files: real bytes plus synthetic fills, so that contents of many gigabytes cost nothing.

use crate::engine::{Rng, Src, hash_bytes, mix};

#[derive(Clone, Debug)]
pub enum Fill {
    Byte(u8),
    /// A repeated pattern.
    Repeat(Vec<u8>),
    /// Pseudo-random bytes, a function of the seed and the position.
    Noise(u64),
}

#[derive(Clone, Debug)]
enum Seg {
    Bytes(Vec<u8>),
    Fill(u64, Fill),
}

/// A numeric field of a generated container, remembered so that mutators can make it hostile.
#[derive(Clone, Copy, Debug)]
pub struct Field {
    pub off: u64,
    pub width: u8,
    pub be: bool,
    /// An EBML variable-width number.
    pub vint: bool,
}

#[derive(Clone, Debug, Default)]
pub struct VFile {
    segs: Vec<(u64, Seg)>,
    len: u64,
    pub fields: Vec<Field>,
}

impl VFile {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn from_bytes(b: impl Into<Vec<u8>>) -> Self {
        let mut f = Self::new();
        f.bytes(&b.into());
        f
    }
    pub fn len(&self) -> u64 {
        self.len
    }
    /// Number of bytes that are not in a run of zeros.
    pub fn dense_len(&self) -> u64 {
        let n = |s: &Seg| match s {
            Seg::Bytes(v) => v.len() as u64,
            Seg::Fill(_, Fill::Byte(0)) => 0,
            Seg::Fill(n, _) => *n,
        };
        self.segs.iter().map(|(_, s)| n(s)).sum()
    }
    /// Number of bytes that have to be stored to describe the file.
    pub fn dense_bytes(&self) -> u64 {
        let n = |s: &Seg| match s {
            Seg::Bytes(v) => v.len() as u64,
            Seg::Fill(_, Fill::Byte(_)) => 1,
            Seg::Fill(_, Fill::Repeat(p)) => p.len() as u64,
            Seg::Fill(n, Fill::Noise(_)) => *n,
        };
        self.segs.iter().map(|(_, s)| n(s)).sum()
    }
    /// Turns long runs of noise into a repeated byte.
    pub fn without_noise(&mut self) {
        for (_, s) in &mut self.segs {
            if let Seg::Fill(n, f @ Fill::Noise(_)) = s
                && *n > 1 << 16
            {
                *f = Fill::Byte(0xA5);
            }
        }
    }
    /// The pieces of the file, each a byte string and the length to which it is repeated.
    pub fn pieces(&self) -> Vec<(u64, Vec<u8>)> {
        self.segs
            .iter()
            .map(|(o, s)| match s {
                Seg::Bytes(v) => (v.len() as u64, v.clone()),
                Seg::Fill(n, Fill::Byte(b)) => (*n, vec![*b]),
                Seg::Fill(n, Fill::Repeat(p)) => (*n, p.clone()),
                Seg::Fill(n, Fill::Noise(_)) => (*n, self.slice(*o, *n as usize)),
            })
            .collect()
    }
    /// Turns long runs of other synthetic bytes into zeros.
    pub fn sparse(&mut self) {
        for (_, s) in &mut self.segs {
            if let Seg::Fill(n, f) = s
                && *n > 1 << 20
            {
                *f = Fill::Byte(0);
            }
        }
    }
    /// Writes the content to a file, leaving holes for runs of zeros.
    pub fn write_sparse(&self, p: &std::path::Path) -> std::io::Result<()> {
        use std::os::unix::fs::FileExt;
        let f = std::fs::File::create(p)?;
        f.set_len(self.len)?;
        for (o, s) in &self.segs {
            match s {
                Seg::Bytes(v) => f.write_all_at(v, *o)?,
                Seg::Fill(_, Fill::Byte(0)) => {}
                Seg::Fill(n, _) => f.write_all_at(&self.slice(*o, *n as usize), *o)?,
            }
        }
        Ok(())
    }
    pub fn is_empty(&self) -> bool {
        self.len == 0
    }
    pub fn bytes(&mut self, b: &[u8]) -> &mut Self {
        if b.is_empty() {
            return self;
        }
        if let Some((_, Seg::Bytes(v))) = self.segs.last_mut() {
            v.extend_from_slice(b);
        } else {
            self.segs.push((self.len, Seg::Bytes(b.to_vec())));
        }
        self.len += b.len() as u64;
        self
    }
    pub fn fill(&mut self, n: u64, fill: Fill) -> &mut Self {
        if n > 0 {
            let fill = match fill {
                Fill::Repeat(p) if p.is_empty() => Fill::Byte(0),
                f => f,
            };
            self.segs.push((self.len, Seg::Fill(n, fill)));
            self.len = self.len.checked_add(n).expect("virtual file too long");
        }
        self
    }
    /// Appends another file (its fields move along).
    pub fn append(&mut self, o: &VFile) -> &mut Self {
        let base = self.len;
        for (_, s) in &o.segs {
            match s {
                Seg::Bytes(b) => self.bytes(b),
                Seg::Fill(n, f) => self.fill(*n, f.clone()),
            };
        }
        self.fields.extend(o.fields.iter().map(|f| Field { off: f.off + base, ..*f }));
        self
    }
    fn field(&mut self, width: u8, be: bool) {
        self.fields.push(Field { off: self.len, width, be, vint: false });
    }
    pub fn u8(&mut self, v: u8) -> &mut Self {
        self.field(1, false);
        self.bytes(&[v])
    }
    pub fn u16le(&mut self, v: u16) -> &mut Self {
        self.field(2, false);
        self.bytes(&v.to_le_bytes())
    }
    pub fn u32le(&mut self, v: u32) -> &mut Self {
        self.field(4, false);
        self.bytes(&v.to_le_bytes())
    }
    pub fn u64le(&mut self, v: u64) -> &mut Self {
        self.field(8, false);
        self.bytes(&v.to_le_bytes())
    }
    pub fn u16be(&mut self, v: u16) -> &mut Self {
        self.field(2, true);
        self.bytes(&v.to_be_bytes())
    }
    pub fn u32be(&mut self, v: u32) -> &mut Self {
        self.field(4, true);
        self.bytes(&v.to_be_bytes())
    }
    pub fn u64be(&mut self, v: u64) -> &mut Self {
        self.field(8, true);
        self.bytes(&v.to_be_bytes())
    }

    pub fn read_at(&self, off: u64, out: &mut [u8]) -> usize {
        if off >= self.len || out.is_empty() {
            return 0;
        }
        let n = ((self.len - off) as u128).min(out.len() as u128) as usize;
        let mut done = 0usize;
        let mut i = match self.segs.binary_search_by(|(s, _)| s.cmp(&off)) {
            Ok(i) => i,
            Err(i) => i - 1,
        };
        while done < n {
            let (start, seg) = &self.segs[i];
            let rel = off + done as u64 - start;
            match seg {
                Seg::Bytes(b) => {
                    let src = &b[rel as usize..];
                    let k = src.len().min(n - done);
                    out[done..done + k].copy_from_slice(&src[..k]);
                    done += k;
                }
                Seg::Fill(len, f) => {
                    let k = ((len - rel) as u128).min((n - done) as u128) as usize;
                    let o = &mut out[done..done + k];
                    match f {
                        Fill::Byte(b) => o.fill(*b),
                        Fill::Repeat(p) => {
                            let m = p.len() as u64;
                            let mut j = (rel % m) as usize;
                            for x in o.iter_mut() {
                                *x = p[j];
                                j += 1;
                                if j == p.len() {
                                    j = 0;
                                }
                            }
                        }
                        Fill::Noise(seed) => {
                            for (q, x) in o.iter_mut().enumerate() {
                                let p = rel + q as u64;
                                *x = (mix(*seed, p / 8) >> (8 * (p % 8))) as u8;
                            }
                        }
                    }
                    done += k;
                }
            }
            i += 1;
        }
        n
    }
    /// The first `n` bytes.
    pub fn prefix(&self, n: usize) -> Vec<u8> {
        let mut v = vec![0; (n as u64).min(self.len) as usize];
        let k = self.read_at(0, &mut v);
        debug_assert_eq!(k, v.len());
        v
    }
    pub fn to_vec(&self) -> Vec<u8> {
        assert!(self.len <= 256 << 20, "virtual file too large to materialise");
        self.prefix(self.len as usize)
    }
    pub fn slice(&self, off: u64, n: usize) -> Vec<u8> {
        let mut v = vec![0; n];
        let k = self.read_at(off, &mut v);
        v.truncate(k);
        v
    }
    pub fn hash(&self) -> u64 {
        let mut h = self.len;
        for (s, g) in &self.segs {
            h = mix(
                h,
                match g {
                    Seg::Bytes(b) => hash_bytes(*s, b),
                    Seg::Fill(n, Fill::Byte(b)) => mix(*n, *b as u64),
                    Seg::Fill(n, Fill::Repeat(p)) => hash_bytes(*n, p),
                    Seg::Fill(n, Fill::Noise(x)) => mix(*n, *x),
                },
            );
        }
        h
    }
    /// Overwrites bytes inside real-byte segments (parts that fall into fills are ignored).
    pub fn patch(&mut self, off: u64, b: &[u8]) {
        for (s, g) in &mut self.segs {
            if let Seg::Bytes(v) = g {
                for (i, x) in b.iter().enumerate() {
                    let p = off + i as u64;
                    if p >= *s && p - *s < v.len() as u64 {
                        v[(p - *s) as usize] = *x;
                    }
                }
            }
        }
    }
    /// Overwrites bytes anywhere: a fill that is hit is split.
    pub fn overlay(&mut self, off: u64, b: &[u8]) {
        if b.is_empty() {
            return;
        }
        assert!(off + b.len() as u64 <= self.len);
        let mut n = VFile { fields: std::mem::take(&mut self.fields), ..VFile::default() };
        n.copy_range(self, 0, off);
        n.bytes(b);
        n.copy_range(self, off + b.len() as u64, self.len);
        *self = n;
    }
    fn copy_range(&mut self, o: &VFile, from: u64, to: u64) {
        for (s, g) in &o.segs {
            let l = match g {
                Seg::Bytes(b) => b.len() as u64,
                Seg::Fill(n, _) => *n,
            };
            let (a, e) = (from.max(*s), to.min(s + l));
            if a >= e {
                continue;
            }
            match g {
                Seg::Bytes(b) => {
                    self.bytes(&b[(a - s) as usize..(e - s) as usize]);
                }
                Seg::Fill(_, Fill::Repeat(p)) => {
                    let mut p = p.clone();
                    let r = ((a - s) % p.len() as u64) as usize;
                    p.rotate_left(r);
                    self.fill(e - a, Fill::Repeat(p));
                }
                Seg::Fill(_, f) => {
                    self.fill(e - a, f.clone());
                }
            }
        }
    }
    pub fn truncate(&mut self, n: u64) {
        if n < self.len {
            let mut f = VFile { fields: self.fields.clone(), ..VFile::default() };
            f.copy_range(self, 0, n);
            f.fields.retain(|x| x.off + x.width as u64 <= n);
            *self = f;
        }
    }
    pub fn sub(&self, from: u64, to: u64) -> VFile {
        let mut f = VFile::new();
        f.copy_range(self, from, to.min(self.len));
        f
    }
}

/// Blob content styles.
pub fn blob(src: &mut Src, len: usize) -> Vec<u8> {
    blob_with(src, len, &[])
}

/// A blob of `len` bytes; with `soup`, some styles sprinkle in the given fragments.
pub fn blob_with(src: &mut Src, len: usize, soup: &[&[u8]]) -> Vec<u8> {
    if len == 0 {
        return Vec::new();
    }
    let style = src.weighted(&[3, 1, 4, 2, 2, if soup.is_empty() { 0 } else { 6 }]);
    let mut v = vec![0u8; len];
    match style {
        0 => {}
        1 => v.fill(0xFF),
        2 => {
            let mut r = Rng(src.below(1 << 32));
            for c in v.chunks_mut(8) {
                let x = r.next().to_le_bytes();
                let n = c.len();
                c.copy_from_slice(&x[..n]);
            }
        }
        3 => {
            let mut r = Rng(src.below(1 << 32));
            for c in v.iter_mut() {
                *c = b' ' + (r.next() % 95) as u8;
            }
        }
        4 => {
            let n = src.usize(1, 8);
            let p: Vec<u8> = (0..n).map(|_| src.below(256) as u8).collect();
            for (i, c) in v.iter_mut().enumerate() {
                *c = p[i % n];
            }
        }
        _ => {
            let mut r = Rng(src.below(1 << 32));
            let dense = src.bool();
            let mut i = 0;
            while i < len {
                if dense || r.next() % 4 == 0 {
                    let new = crate::dict::fragments();
                    let f = if !new.is_empty() && r.next() % 3 == 0 { new[(r.next() % new.len() as u64) as usize] } else { soup[(r.next() % soup.len() as u64) as usize] };
                    let k = f.len().min(len - i);
                    v[i..i + k].copy_from_slice(&f[..k]);
                    i += k.max(1);
                } else {
                    v[i] = (r.next() & 0xFF) as u8;
                    i += 1;
                }
            }
        }
    }
    v
}
