//! A small property-based testing engine with integrated shrinking.
//!
//! Every random decision of a generator is drawn from a [`Src`]. A run records the drawn values, so
//! a case is fully described by its sequence of choices. Shrinking works on that sequence (delete
//! spans, zero spans, lower values) and simply re-runs the generator, so whatever a generator can
//! produce can also be shrunk, and every replayed case is one that the generator can produce.
//! The same generators can be driven by a coverage-guided fuzzer, which then supplies the choices.

/// SplitMix64: used for the choices themselves and for expanding blob seeds.
#[derive(Clone, Copy)]
pub struct Rng(pub u64);

impl Rng {
    #[inline]
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut r = Rng(a ^ b.rotate_left(32).wrapping_mul(0xD6E8_FEB8_6659_FD93));
    r.next()
}

pub fn hash_bytes(seed: u64, data: &[u8]) -> u64 {
    let mut h = seed ^ (data.len() as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15);
    for c in data.chunks(8) {
        let mut b = [0u8; 8];
        b[..c.len()].copy_from_slice(c);
        h = (h ^ u64::from_le_bytes(b)).wrapping_mul(0xFF51_AFD7_ED55_8CCD);
        h ^= h >> 32;
    }
    h
}

enum Mode<'a> {
    Random(Rng),
    Replay(&'a [u64]),
    Bytes(&'a [u8]),
}

/// The source of all choices of one case.
pub struct Src<'a> {
    mode: Mode<'a>,
    pos: usize,
    /// Mixed-radix counter consumed by [`Src::cycle`], for enumerated dimensions.
    index: u64,
    pub rec: Vec<u64>,
    /// Makes containers of up to this size likely (instead of mostly small, rarely huge ones).
    pub mid: Option<u64>,
    /// Where to write the choices as they are drawn, for cases that end the process.
    pub trace: Option<std::fs::File>,
}

impl<'a> Src<'a> {
    pub fn random(seed: u64, index: u64) -> Self {
        Src { mode: Mode::Random(Rng(mix(seed, index))), pos: 0, index, rec: Vec::new(), mid: None, trace: None }
    }
    pub fn replay(choices: &'a [u64]) -> Self {
        Src { mode: Mode::Replay(choices), pos: 0, index: 0, rec: Vec::new(), mid: None, trace: None }
    }
    pub fn bytes(data: &'a [u8]) -> Self {
        Src { mode: Mode::Bytes(data), pos: 0, index: 0, rec: Vec::new(), mid: None, trace: None }
    }

    /// A value in `0..n` (0 is the simplest one).
    pub fn below(&mut self, n: u64) -> u64 {
        debug_assert!(n > 0);
        if n >= 200 {
            if let Some(v) = self.directed(0, n - 1) {
                self.push(v);
                return v;
            }
        }
        let v = match &mut self.mode {
            Mode::Random(r) => {
                if n == u64::MAX { r.next() % n } else { ((r.next() as u128 * n as u128) >> 64) as u64 }
            }
            Mode::Replay(c) => {
                let v = c.get(self.pos).copied().unwrap_or(0);
                self.pos += 1;
                v.min(n - 1)
            }
            Mode::Bytes(d) => {
                // As many bytes as the bound needs, so that small choices cost one byte.
                let w = (64 - (n - 1).leading_zeros()).div_ceil(8) as usize;
                let mut v = 0u64;
                for _ in 0..w {
                    v = (v << 8) | d.get(self.pos).copied().unwrap_or(0) as u64;
                    self.pos += 1;
                }
                v % n
            }
        };
        self.push(v);
        v
    }
    /// Now and then a number that is new in the sources of the code under test (see [`crate::dict`]).
    /// It is recorded as the ordinary choice that leads to it.
    fn directed(&mut self, lo: u64, hi: u64) -> Option<u64> {
        let Mode::Random(r) = &mut self.mode else { return None };
        let d = &crate::dict::dict().numbers;
        if d.is_empty() || r.next() % 6 != 0 {
            return None;
        }
        (0..6).map(|_| d[(r.next() % d.len() as u64) as usize]).find(|v| (lo..=hi).contains(v))
    }
    fn push(&mut self, v: u64) {
        self.rec.push(v);
        if let Some(f) = &mut self.trace {
            use std::io::Write;
            let _ = f.write_all(&v.to_le_bytes());
        }
    }

    /// Like `below`, but runs through all values as the case index advances: enumerates a finite
    /// dimension completely once the number of cases reaches the product of the cycled bounds.
    pub fn cycle(&mut self, n: u64) -> u64 {
        if let Mode::Random(_) = self.mode {
            let v = self.index % n;
            self.index /= n;
            self.push(v);
            v
        } else {
            self.below(n)
        }
    }

    /// A value in `lo..=hi`.
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        if lo == 0 && hi == u64::MAX {
            let a = self.below(1 << 32);
            let b = self.below(1 << 32);
            return a << 32 | b;
        }
        if hi - lo >= 3 {
            if let Some(v) = self.directed(lo, hi) {
                self.push(v - lo);
                return v;
            }
        }
        lo + self.below(hi - lo + 1)
    }
    pub fn usize(&mut self, lo: usize, hi: usize) -> usize {
        self.range(lo as u64, hi as u64) as usize
    }
    /// True with probability `num/den`; shrinks to false.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }
    pub fn bool(&mut self) -> bool {
        self.below(2) == 1
    }
    pub fn pick<'b, T>(&mut self, xs: &'b [T]) -> &'b T {
        &xs[self.below(xs.len() as u64) as usize]
    }
    /// An index chosen with the given weights; shrinks to the first.
    pub fn weighted(&mut self, ws: &[u64]) -> usize {
        let total: u64 = ws.iter().sum();
        let mut v = self.below(total);
        for (i, w) in ws.iter().enumerate() {
            if v < *w {
                return i;
            }
            v -= w;
        }
        unreachable!()
    }
    /// A value in `lo..=hi` biased to both ends, small offsets from them, and powers of two.
    pub fn edgy(&mut self, lo: u64, hi: u64) -> u64 {
        let span = hi - lo;
        if span < u64::MAX {
            if let Some(v) = self.directed(lo, hi) {
                self.push(0);
                self.push(v - lo);
                return v;
            }
        }
        match self.weighted(&[4, 2, 2, 2]) {
            0 => self.range(lo, hi),
            1 => lo + self.below(span.min(8) + 1),
            2 => hi - self.below(span.min(8) + 1),
            _ => {
                let bits = 64 - span.leading_zeros() as u64;
                let b = self.below(bits + 1);
                let v = if b == 0 { 0 } else { 1u64 << (b - 1) };
                let d = self.below(3);
                let v = (v + d).saturating_sub(1);
                lo + v.min(span)
            }
        }
    }
    /// A length that is mostly small, rarely near `max`.
    pub fn len(&mut self, max: usize) -> usize {
        if let Some(v) = self.directed(0, max as u64) {
            self.push(12);
            self.push(v);
            return v as usize;
        }
        match self.weighted(&[8, 4, 1]) {
            0 => self.usize(0, max.min(16)),
            1 => self.usize(0, max.min(300)),
            _ => self.usize(0, max),
        }
    }
}

/// Why a case did not pass.
#[derive(Debug, Clone)]
pub enum Stop {
    /// The generated case is outside the property's domain.
    Discard(&'static str),
    /// The property does not hold.
    Fail(String),
}

pub type Res = Result<(), Stop>;

#[macro_export]
macro_rules! fail {
    ($($t:tt)*) => { return Err($crate::engine::Stop::Fail(format!($($t)*))) };
}
#[macro_export]
macro_rules! discard {
    ($t:expr) => { return Err($crate::engine::Stop::Discard($t)) };
}

/// What a case reports about itself.
#[derive(Default)]
pub struct Ctx {
    pub labels: Vec<String>,
    pub nontrivial: bool,
    /// Hash identifying the case (for counting distinct ones).
    pub key: u64,
    pub want_sample: bool,
    pub sample: String,
    /// Raw input of the case, for the replay file (None when too large).
    pub input: Option<Vec<u8>>,
    /// Number of elementary executions of the code under test in this case.
    pub execs: u64,
}

impl Ctx {
    pub fn label(&mut self, s: impl Into<String>) {
        self.labels.push(s.into());
    }
    pub fn file(&mut self, f: &crate::vfile::VFile) {
        self.key ^= f.hash();
        if self.want_sample {
            self.input = (f.len() <= 1 << 20).then(|| f.to_vec());
        }
    }
    pub fn describe(&mut self, f: impl FnOnce() -> String) {
        if self.want_sample {
            self.sample = f();
        }
    }
}

/// Shrinks a failing choice sequence. `still_fails` returns the recorded (normalised) choices of
/// the re-run if it still fails.
pub fn shrink(
    mut best: Vec<u64>,
    mut still_fails: impl FnMut(&[u64]) -> Option<Vec<u64>>,
    budget: usize,
) -> (Vec<u64>, usize) {
    let mut runs = 0usize;
    let smaller = |a: &[u64], b: &[u64]| a.len() < b.len() || (a.len() == b.len() && a < b);
    let mut progress = true;
    macro_rules! attempt {
        ($cand:expr) => {{
            let cand = $cand;
            let mut ok = false;
            if runs < budget && smaller(&cand, &best) {
                runs += 1;
                if let Some(rec) = still_fails(&cand) {
                    // The re-run may use fewer choices than given.
                    let r = if smaller(&rec, &best) { rec } else { cand };
                    if smaller(&r, &best) {
                        best = r;
                        progress = true;
                        ok = true;
                    }
                }
            }
            ok
        }};
    }
    while progress && runs < budget {
        progress = false;
        // Delete spans.
        let mut k = best.len().next_power_of_two().max(1);
        while k >= 1 {
            let mut i = 0;
            while i < best.len() && runs < budget {
                let end = (i + k).min(best.len());
                let mut c = best[..i].to_vec();
                c.extend_from_slice(&best[end..]);
                if !attempt!(c) {
                    i += k;
                }
            }
            k /= 2;
        }
        // Zero spans.
        for k in [64usize, 16, 4, 1] {
            let mut i = 0;
            while i < best.len() && runs < budget {
                let end = (i + k).min(best.len());
                if best[i..end].iter().any(|&v| v != 0) {
                    let mut c = best.clone();
                    c[i..end].fill(0);
                    attempt!(c);
                }
                i += k;
            }
        }
        // Lower single values by bisection.
        let mut i = 0;
        while i < best.len() && runs < budget {
            let (mut lo, mut hi) = (0u64, best[i]);
            while lo < hi && runs < budget && i < best.len() {
                let m = lo + (hi - lo) / 2;
                let mut c = best.clone();
                c[i] = m;
                if attempt!(c) {
                    if i >= best.len() {
                        break;
                    }
                    hi = best[i].min(m);
                } else {
                    lo = m + 1;
                }
            }
            i += 1;
        }
        // Lower a value while deleting one right after it (lengths that own their elements).
        let mut i = 0;
        while i + 1 < best.len() && runs < budget {
            if best[i] > 0 {
                for d in 1..=8usize {
                    if i + 1 + d > best.len() {
                        break;
                    }
                    let mut c = best.clone();
                    c[i] -= 1;
                    c.drain(i + 1..i + 1 + d);
                    if attempt!(c) {
                        break;
                    }
                }
            }
            i += 1;
        }
    }
    (best, runs)
}
