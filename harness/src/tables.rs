//! The frozen specification: catalogue, signatures and families, and the reference models on them.
//!
//! The tables were transcribed once from the documentation and tables of the pinned tree and are
//! never regenerated from the tree under test.

use std::collections::HashMap;
use std::sync::LazyLock;

pub struct Format {
    pub variant: &'static str,
    pub name: &'static str,
    pub short: Option<&'static str>,
    pub media: &'static str,
    pub ext: &'static str,
    pub kind: &'static str,
}

pub static FORMATS: LazyLock<Vec<Format>> = LazyLock::new(|| {
    include_str!("../data/formats.tsv")
        .lines()
        .map(|l| {
            let c: Vec<&'static str> = l.split('\t').collect();
            Format { variant: c[0], name: c[1], short: (c[2] != "-").then_some(c[2]), media: c[3], ext: c[4], kind: c[5] }
        })
        .collect()
});

pub static BY_VARIANT: LazyLock<HashMap<&'static str, &'static Format>> =
    LazyLock::new(|| FORMATS.iter().map(|f| (f.variant, f)).collect());

pub struct Sig {
    pub format: &'static str,
    /// Defining length of the format: total bytes of its longest alternative.
    pub rank: usize,
    pub parts: Vec<(usize, Vec<u8>)>,
    pub end: usize,
}

fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

pub static SIGS: LazyLock<Vec<Sig>> = LazyLock::new(|| {
    let mut v: Vec<Sig> = include_str!("../data/signatures.tsv")
        .lines()
        .map(|l| {
            let c: Vec<&'static str> = l.split('\t').collect();
            let parts: Vec<(usize, Vec<u8>)> = c[2]
                .split(' ')
                .map(|p| {
                    let (o, h) = p.split_once(':').unwrap();
                    (o.parse().unwrap(), unhex(h))
                })
                .collect();
            let end = parts.iter().map(|(o, b)| o + b.len()).max().unwrap();
            Sig { format: c[0], rank: 0, parts, end }
        })
        .collect();
    let mut rank: HashMap<&str, usize> = HashMap::new();
    for s in &v {
        let n = s.parts.iter().map(|(_, b)| b.len()).sum();
        let e = rank.entry(s.format).or_default();
        *e = (*e).max(n);
    }
    for s in &mut v {
        s.rank = rank[s.format];
    }
    v
});

impl Sig {
    pub fn matches(&self, data: &[u8]) -> bool {
        self.end <= data.len() && self.parts.iter().all(|(o, b)| &data[*o..*o + b.len()] == b.as_slice())
    }
    /// Writes the signature into `data` (which must be long enough).
    pub fn stamp(&self, data: &mut [u8]) {
        for (o, b) in &self.parts {
            data[*o..*o + b.len()].copy_from_slice(b);
        }
    }
    pub fn byte_at(&self, p: usize) -> Option<u8> {
        self.parts.iter().find(|(o, b)| p >= *o && p < o + b.len()).map(|(o, b)| b[p - o])
    }
    /// Whether both signatures can be present at once.
    pub fn compatible(&self, o: &Sig) -> bool {
        self.parts.iter().all(|(a, b)| {
            b.iter().enumerate().all(|(i, x)| o.byte_at(a + i).is_none_or(|y| y == *x))
        })
    }
    pub fn positions(&self) -> impl Iterator<Item = usize> + '_ {
        self.parts.iter().flat_map(|(o, b)| *o..*o + b.len())
    }
}

/// Formats that the signature rules allow for this content: those with a complete signature and,
/// among them, the ones of greatest defining length. Empty if no signature is present.
/// `head` is the content's first 36,870 bytes (or all of it).
pub fn signature_model(head: &[u8]) -> Vec<&'static str> {
    let head = &head[..head.len().min(36_870)];
    let mut best = 0;
    let mut out: Vec<&'static str> = Vec::new();
    for s in SIGS.iter() {
        if s.rank >= best && s.matches(head) {
            if s.rank > best {
                best = s.rank;
                out.clear();
            }
            if !out.contains(&s.format) {
                out.push(s.format);
            }
        }
    }
    out
}

/// Compatible pairs of signature alternatives of different formats.
pub static PAIRS: LazyLock<Vec<(u16, u16)>> = LazyLock::new(|| {
    let mut v = Vec::new();
    for (i, a) in SIGS.iter().enumerate() {
        for (j, b) in SIGS.iter().enumerate().skip(i + 1) {
            if a.format != b.format && a.compatible(b) {
                v.push((i as u16, j as u16));
            }
        }
    }
    v
});

/// (alternative, position) of every constrained byte of every alternative.
pub static SIG_BYTES: LazyLock<Vec<(u16, u32)>> = LazyLock::new(|| {
    let mut v = Vec::new();
    for (i, s) in SIGS.iter().enumerate() {
        for p in s.positions() {
            v.push((i as u16, p as u32));
        }
    }
    v
});

/// Container families: (base format, feature, documented sub-formats).
pub static FAMILIES: LazyLock<Vec<(&'static str, &'static str, Vec<&'static str>)>> = LazyLock::new(|| {
    include_str!("../data/families.tsv")
        .lines()
        .map(|l| {
            let c: Vec<&'static str> = l.split('\t').collect();
            (c[0], c[1], c[2].split(' ').collect())
        })
        .collect()
});

pub fn family(base: &str) -> Option<&'static (&'static str, &'static str, Vec<&'static str>)> {
    FAMILIES.iter().find(|f| f.0 == base)
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Text {
    Yes,
    No,
    /// The specification does not settle it (an incomplete sequence at the very limit whose
    /// continuation beyond the limit is not valid).
    Open,
}

/// Reference model of plain-text detection.
pub fn text_model(f: &crate::vfile::VFile) -> Text {
    const LIMIT: usize = 65_536;
    if f.is_empty() {
        return Text::Yes;
    }
    let window = f.prefix(LIMIT);
    let cut = f.len() > LIMIT as u64;
    let mut start = 0;
    for _ in 0..16 {
        if start >= window.len() {
            break;
        }
        let nl = window[start..].iter().position(|&b| b == b'\n');
        let end = nl.map_or(window.len(), |n| start + n);
        let line = &window[start..end];
        match decode(line) {
            Ok(chars) => {
                if chars.iter().any(|&c| control(c)) {
                    return Text::No;
                }
            }
            Err((chars, incomplete_at)) => {
                if chars.iter().any(|&c| control(c)) {
                    return Text::No;
                }
                match incomplete_at {
                    Some(at) if nl.is_none() && cut => {
                        // The limit cuts a sequence: judge it with its continuation.
                        let mut seq = line[at..].to_vec();
                        seq.extend(f.slice(LIMIT as u64, 3));
                        return match (1..=4.min(seq.len())).find_map(|n| std::str::from_utf8(&seq[..n]).ok()) {
                            Some(s) if s.chars().next().is_some_and(|c| !control(c as u32)) => Text::Yes,
                            _ => Text::Open,
                        };
                    }
                    _ => return Text::No,
                }
            }
        }
        match nl {
            Some(_) => start = end + 1,
            None => break,
        }
    }
    Text::Yes
}

fn control(c: u32) -> bool {
    // Unicode general category Cc without the white space in it.
    let cc = c < 0x20 || (0x7F..=0x9F).contains(&c);
    cc && !matches!(c, 0x09..=0x0D | 0x85)
}

/// Decodes UTF-8 (independently of std). On failure: the characters so far and, if the input ends
/// inside a sequence that is valid so far, where that sequence starts.
#[allow(clippy::type_complexity)]
pub fn decode(b: &[u8]) -> Result<Vec<u32>, (Vec<u32>, Option<usize>)> {
    let mut out = Vec::with_capacity(b.len());
    let mut i = 0;
    while i < b.len() {
        let x = b[i];
        let (n, lo, hi, init) = match x {
            0..=0x7F => {
                out.push(x as u32);
                i += 1;
                continue;
            }
            0xC2..=0xDF => (1, 0x80, 0xBF, (x & 0x1F) as u32),
            0xE0 => (2, 0xA0, 0xBF, 0),
            0xED => (2, 0x80, 0x9F, 0xD),
            0xE1..=0xEF => (2, 0x80, 0xBF, (x & 0x0F) as u32),
            0xF0 => (3, 0x90, 0xBF, 0),
            0xF4 => (3, 0x80, 0x8F, 4),
            0xF1..=0xF3 => (3, 0x80, 0xBF, (x & 7) as u32),
            _ => return Err((out, None)),
        };
        let mut c = init;
        for k in 1..=n {
            let (l, h) = if k == 1 { (lo, hi) } else { (0x80, 0xBF) };
            match b.get(i + k) {
                None => return Err((out, Some(i))),
                Some(&y) if y >= l && y <= h => c = c << 6 | (y & 0x3F) as u32,
                Some(_) => return Err((out, None)),
            }
        }
        out.push(c);
        i += n + 1;
    }
    Ok(out)
}
