//! Generation directed at what is new in the sources of the code under test.
//!
//! A change often brings its own trigger along: a limit, a marker, a name. The literals (and integer
//! types) in /repo/src are counted and compared with the counts in `literals.txt`, taken from the tree
//! these checks were written for. Values whose count differs become likely choices of the generators,
//! as in a fuzzer's dictionary. On the tree the checks were written for the dictionary is empty. No
//! oracle looks at it: it only decides which inputs are tried, never what the answer must be.

use crate::engine::Src;
use std::collections::BTreeMap;
use std::sync::OnceLock;

/// Where the sources are.
pub const SOURCES: &str = "/repo/src";

const BASELINE: &str = include_str!("literals.txt");

#[derive(Default)]
pub struct Dict {
    pub numbers: Vec<u64>,
    pub words: Vec<Vec<u8>>,
}

pub fn dict() -> &'static Dict {
    static D: OnceLock<Dict> = OnceLock::new();
    D.get_or_init(|| {
        let now = match std::env::var("FFCHECK_LITERALS") {
            // For trying the generators with a dictionary.
            Ok(p) => count(&String::from_utf8_lossy(&std::fs::read(p).unwrap_or_default())),
            // Sources that this cannot read give no dictionary.
            Err(_) => std::panic::catch_unwind(sources).unwrap_or_default(),
        };
        let mut then = BTreeMap::new();
        for l in BASELINE.lines() {
            if let Some((n, k)) = l.split_once(' ') {
                then.insert(k.to_string(), n.parse::<usize>().unwrap_or(0));
            }
        }
        let mut d = Dict::default();
        if now.is_empty() {
            return d;
        }
        let keys: std::collections::BTreeSet<&String> = now.keys().chain(then.keys()).collect();
        for k in keys {
            if now.get(k) == then.get(k) {
                continue;
            }
            if let Some(v) = k.strip_prefix("n:").and_then(|v| v.parse::<u64>().ok()) {
                d.numbers.extend([v, v.wrapping_sub(1), v.wrapping_add(1)]);
            } else if let Some(w) = k.strip_prefix("s:") {
                let w: Vec<u8> = (0..w.len() / 2).filter_map(|i| u8::from_str_radix(&w[2 * i..2 * i + 2], 16).ok()).collect();
                if !w.is_empty() && w.len() <= 300 {
                    // A short string may be meant as a number, too.
                    d.numbers.push(w.len() as u64);
                    d.words.push(w);
                }
            } else if let Some(t) = k.strip_prefix("t:") {
                let bits = match &t[1..] {
                    "8" => 8,
                    "16" => 16,
                    "32" => 32,
                    _ => continue,
                };
                let top: u64 = 1 << if t.starts_with('i') { bits - 1 } else { bits };
                d.numbers.extend([top - 1, top, top + 1]);
            }
        }
        d.numbers.sort_unstable();
        d.numbers.dedup();
        // A tree that has little in common with the one these checks were written for.
        if d.numbers.len() > 4000 || d.words.len() > 4000 {
            return Dict::default();
        }
        d
    })
}

/// The words as fragments for blobs.
pub fn fragments() -> &'static [&'static [u8]] {
    static D: OnceLock<Vec<&'static [u8]>> = OnceLock::new();
    D.get_or_init(|| dict().words.iter().map(|w| w.as_slice()).collect())
}

/// Sometimes one of the words, when there are any.
pub fn word(src: &mut Src) -> Option<&'static [u8]> {
    let w = &dict().words;
    if w.is_empty() || !src.chance(1, 6) {
        return None;
    }
    Some(&w[src.below(w.len() as u64) as usize])
}

/// Sometimes one of the words as text.
pub fn text(src: &mut Src) -> Option<&'static str> {
    word(src).and_then(|w| std::str::from_utf8(w).ok())
}

/// Sometimes one of the numbers, at most `max`, as an exact length.
pub fn length(src: &mut Src, max: u64) -> Option<u64> {
    let n = &dict().numbers;
    if n.is_empty() || !src.chance(1, 6) {
        return None;
    }
    Some(n[src.below(n.len() as u64) as usize]).filter(|&v| v <= max)
}

fn sources() -> BTreeMap<String, usize> {
    let mut all = BTreeMap::new();
    let mut dirs = vec![std::path::PathBuf::from(SOURCES)];
    while let Some(d) = dirs.pop() {
        for e in std::fs::read_dir(d).into_iter().flatten().flatten() {
            let p = e.path();
            if p.is_dir() {
                dirs.push(p);
            } else if p.extension().is_some_and(|x| x == "rs") {
                let t = std::fs::read(&p).unwrap_or_default();
                for (k, n) in count(&String::from_utf8_lossy(&t)) {
                    *all.entry(k).or_default() += n;
                }
            }
        }
    }
    all
}

/// The counts in the form of `literals.txt`.
pub fn listing() -> String {
    sources().iter().map(|(k, n)| format!("{n} {k}\n")).collect()
}

#[derive(PartialEq, Clone)]
enum Tok {
    Num(u64),
    Op(u8),
    Other,
}

fn count(text: &str) -> BTreeMap<String, usize> {
    let b = text.as_bytes();
    let mut out: BTreeMap<String, usize> = BTreeMap::new();
    let mut add = |k: String| *out.entry(k).or_default() += 1;
    let mut toks: Vec<Tok> = Vec::new();
    let mut i = 0;
    let hex = |w: &[u8]| w.iter().map(|c| format!("{c:02x}")).collect::<String>();
    while i < b.len() {
        let c = b[i];
        if c == b'/' && b.get(i + 1) == Some(&b'/') {
            while i < b.len() && b[i] != b'\n' {
                i += 1;
            }
        } else if c == b'/' && b.get(i + 1) == Some(&b'*') {
            i += 2;
            while i + 1 < b.len() && !(b[i] == b'*' && b[i + 1] == b'/') {
                i += 1;
            }
            i += 2;
        } else if c == b'r' && raw_start(&b[i..]).is_some() && (i == 0 || !is_word(b[i - 1]) || b[i - 1] == b'b') {
            let (skip, hashes) = raw_start(&b[i..]).unwrap_or((1, 0));
            let s = i + skip;
            let mut j = s;
            while j < b.len() && !(b[j] == b'"' && b[j + 1..].iter().take_while(|c| **c == b'#').count() >= hashes) {
                j += 1;
            }
            let j = j.min(b.len());
            add(format!("s:{}", hex(&b[s..j])));
            toks.push(Tok::Other);
            i = j + 1 + hashes;
        } else if c == b'"' {
            let (w, j) = unescape(b, i + 1, b'"');
            add(format!("s:{}", hex(&w)));
            toks.push(Tok::Other);
            i = j;
        } else if c == b'\'' {
            // A character, or a lifetime.
            let (w, j) = unescape(b, i + 1, b'\'');
            let one = b.get(i + 1) == Some(&b'\\') || std::str::from_utf8(&w).is_ok_and(|s| s.chars().count() == 1);
            if one && j <= i + 14 {
                add(format!("s:{}", hex(&w)));
                if let Some(ch) = std::str::from_utf8(&w).ok().and_then(|s| s.chars().next()) {
                    add(format!("n:{}", ch as u32));
                    toks.push(Tok::Num(ch as u64));
                }
                i = j;
            } else {
                i += 1;
            }
        } else if c.is_ascii_digit() {
            let mut j = i;
            while j < b.len() && is_word(b[j]) {
                j += 1;
            }
            let t: String = text[i..j].chars().filter(|c| *c != '_').collect();
            let (radix, d) = match t.get(..2) {
                Some("0x") => (16, &t[2..]),
                Some("0b") => (2, &t[2..]),
                Some("0o") => (8, &t[2..]),
                _ => (10, &t[..]),
            };
            let d = if radix == 16 {
                ["u8", "u16", "u32", "u64", "u128", "usize", "i16", "i32", "i64", "isize"].iter().find_map(|s| d.strip_suffix(s)).unwrap_or(d)
            } else {
                d.split(|c: char| !c.is_ascii_digit()).next().unwrap_or("")
            };
            if let Ok(v) = u64::from_str_radix(d, radix) {
                add(format!("n:{v}"));
                toks.push(Tok::Num(v));
            } else {
                toks.push(Tok::Other);
            }
            i = j;
        } else if is_word(c) {
            let mut j = i;
            while j < b.len() && is_word(b[j]) {
                j += 1;
            }
            let w = &text[i..j];
            if matches!(w, "u8" | "u16" | "u32" | "i8" | "i16" | "i32") {
                add(format!("t:{w}"));
            }
            if !(w == "b" && matches!(b.get(j), Some(b'"') | Some(b'\''))) && w != "as" {
                toks.push(Tok::Other);
            }
            i = j;
        } else {
            if c == b'<' && b.get(i + 1) == Some(&b'<') {
                toks.push(Tok::Op(b'<'));
                i += 1;
            } else if matches!(c, b'*' | b'+' | b'-') {
                toks.push(Tok::Op(c));
            } else if !c.is_ascii_whitespace() && c < 0x80 {
                toks.push(Tok::Other);
            }
            i += 1;
        }
    }
    // Values of simple expressions.
    let mut i = 0;
    while i + 2 < toks.len() {
        if let (Tok::Num(x), Tok::Op(op), Tok::Num(y)) = (&toks[i], &toks[i + 1], &toks[i + 2]) {
            let v = match op {
                b'<' => x.checked_shl(*y as u32).filter(|_| *y < 64),
                b'*' => x.checked_mul(*y),
                b'+' => x.checked_add(*y),
                _ => x.checked_sub(*y),
            };
            if let Some(v) = v {
                add(format!("n:{v}"));
                toks[i + 2] = Tok::Num(v);
            }
        }
        i += 1;
    }
    out
}

fn is_word(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_'
}

/// The start of a raw string: what to skip, and how many hashes end it.
fn raw_start(b: &[u8]) -> Option<(usize, usize)> {
    let n = b[1..].iter().take_while(|c| **c == b'#').count();
    (b.get(1 + n) == Some(&b'"')).then_some((n + 2, n))
}

/// The bytes up to the closing quote, and the position behind it.
fn unescape(b: &[u8], mut i: usize, quote: u8) -> (Vec<u8>, usize) {
    let mut w = Vec::new();
    while i < b.len() && b[i] != quote {
        if b[i] != b'\\' {
            w.push(b[i]);
            i += 1;
            continue;
        }
        i += 1;
        match b.get(i) {
            Some(b'n') => w.push(b'\n'),
            Some(b'r') => w.push(b'\r'),
            Some(b't') => w.push(b'\t'),
            Some(b'0') => w.push(0),
            Some(b'x') => {
                let v = b.get(i + 1..i + 3).and_then(|h| std::str::from_utf8(h).ok()).and_then(|h| u8::from_str_radix(h, 16).ok());
                w.push(v.unwrap_or(0));
                i += 2;
            }
            Some(b'u') => {
                let end = b[i..].iter().position(|c| *c == b'}').unwrap_or(1);
                let h = std::str::from_utf8(&b[(i + 2).min(i + end)..i + end]).unwrap_or("");
                if let Some(c) = u32::from_str_radix(h, 16).ok().and_then(char::from_u32) {
                    w.extend_from_slice(c.encode_utf8(&mut [0; 4]).as_bytes());
                }
                i += end;
            }
            Some(b'\n') => {
                while b.get(i + 1).is_some_and(|c| c.is_ascii_whitespace()) {
                    i += 1;
                }
            }
            Some(c) => w.push(*c),
            None => {}
        }
        i += 1;
    }
    (w, i + 1)
}
