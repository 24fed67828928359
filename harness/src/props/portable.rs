//! The same answers on other platforms: the crate runs as WebAssembly (32 bits) and in an emulator
//! (Miri) of machines with another word size and byte order, and must answer as it does here.

use crate::engine::{Ctx, Res, Src, Stop};
use crate::gens::{endless, hostile};
use crate::readers::{Stats, VReader};
use crate::vfile::{Fill, VFile};
use crate::{detect, fail};
use file_format::FileFormat;

/// Bytes of the content, bytes read and calls of the reader. Miri is about a thousand times slower:
/// what makes detection read more is not given to it.
const FAST: (u64, u64, u64) = (8_000_000, 20_000_000, 400_000);
const SLOW: (u64, u64, u64) = (60_000, 30_000, 2_000);

fn content(src: &mut Src, ctx: &mut Ctx) -> Result<VFile, Stop> {
    if src.chance(1, 30) {
        return Ok(endless::make(src, ctx));
    }
    // Half of the contents are of more than 4 GiB, where they can be.
    let far = src.bool();
    let start = src.cycle(crate::gens::CONTAINERS.len() as u64 + 3);
    let mut f = VFile::new();
    for _ in 0..if far { 12 } else { 1 } {
        let mut c = Ctx::default();
        let intact = src.chance(2, 3);
        let k = start as usize;
        f = if intact && k < crate::gens::CONTAINERS.len() {
            match crate::gens::CONTAINERS[k].1(src, &mut c) {
                Ok(m) => m.file,
                Err(_) => continue,
            }
        } else {
            match hostile::any(src, &mut c, Some(k)) {
                Ok(a) => a.file,
                Err(_) => continue,
            }
        };
        ctx.labels = c.labels;
        if f.len() > u32::MAX as u64 {
            break;
        }
    }
    if far && f.len() <= u32::MAX as u64 && src.chance(1, 2) {
        // More than 4 GiB by what follows.
        f.fill(src.edgy(1, 1 << 36), Fill::Byte(0));
        f.fill((1 << 32) - src.below(70_000), Fill::Byte(src.below(2) as u8 * b'a'));
    }
    if !f.fields.is_empty() && src.chance(1, 4) {
        // What one machine narrows and the other does not.
        let mut wide: Vec<_> = f.fields.iter().copied().filter(|x| x.width > 4).collect();
        if wide.is_empty() || src.chance(1, 8) {
            wide = f.fields.clone();
        }
        let fl = *src.pick(&wide);
        if src.chance(1, 3) {
            let bits = src.below(20);
            let v = src.below(1 << bits) | 1 << src.range(32, 40);
            hostile::set_field(&mut f, fl, v);
        } else {
            hostile::high_part(src, &mut f, fl);
        }
        ctx.label("other high bytes");
    }
    if f.is_empty() && src.bool() {
        return Err(Stop::Discard("nothing generated"));
    }
    Ok(f)
}

pub fn c29(src: &mut Src, ctx: &mut Ctx) -> Res {
    let all = std::env::var("FFCHECK_TARGETS").expect("HARNESS: FFCHECK_TARGETS is not set");
    let all: Vec<&str> = all.split_whitespace().collect();
    let (fast, slow): (Vec<&str>, Vec<&str>) = all.iter().partition(|t| t.starts_with("wasm"));
    let emulate = src.chance(1, 100);
    let (target, limits) = if emulate { (*src.pick(&slow), SLOW) } else { (*src.pick(&fast), FAST) };
    let targets = match std::env::var("FFCHECK_ALL_MACHINES") {
        Ok(_) => all,
        Err(_) => vec![target],
    };
    let mut f = content(src, ctx)?;
    f.without_noise();
    if f.dense_bytes() > limits.0 {
        return Err(Stop::Discard("too many bytes for the other machine"));
    }
    let mut st = Stats::default();
    let mut r = VReader::new(&f, &mut st);
    (r.max_bytes, r.max_ops) = (limits.1, limits.2);
    let here = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| FileFormat::from_reader(&mut r))) {
        Ok(Ok(g)) => detect::name(g),
        Ok(Err(e)) => fail!("a reader that never fails was reported to fail: {e:?}"),
        Err(p) if p.is::<crate::readers::OverBudget>() => return Err(Stop::Discard("too much work for the other machine")),
        Err(p) => std::panic::resume_unwind(p),
    };
    ctx.file(&f);
    let long = f.len() > u32::MAX as u64;
    if long {
        ctx.label("longer than 4 GiB");
    }
    ctx.nontrivial = long || !matches!(here.as_str(), "Empty" | "ArbitraryBinaryData" | "PlainText");
    ctx.describe(|| format!("{} bytes starting {:02x?} on {target} -> {here}", f.len(), f.prefix(24)));
    for target in targets {
        ctx.label(format!("on {target}"));
        ctx.execs += 2;
        match detect::emulated(target, &f) {
            None => return Err(Stop::Discard("something the other machine cannot do")),
            Some(Ok(g)) if g == here => {}
            Some(Ok(g)) => fail!("reported as {here} here, as {g} on {target}"),
            Some(Err(e)) => fail!("reported as {here} here, but on {target} {e}"),
        }
    }
    Ok(())
}
