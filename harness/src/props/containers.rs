//! Well-formed containers: the answer is known from how the content was built.

use crate::detect;
use crate::engine::{Ctx, Res, Src};
use crate::gens::{Made, zip::Focus, *};
use crate::tables::Text;
use crate::{discard, fail};

fn judge(m: Made, src: &mut Src, ctx: &mut Ctx) -> Res {
    ctx.file(&m.file);
    ctx.execs += 1;
    // Mostly from bytes, sometimes through a reader (the only way for huge contents).
    let got = if m.file.len() <= 1 << 20 && !src.chance(1, 8) {
        detect::bytes(&m.file.to_vec())
    } else {
        match detect::virt(&m.file) {
            Ok(g) => g,
            Err(e) => fail!("a reader that never fails was reported to fail: {e:?}"),
        }
    };
    if got != m.expect {
        fail!("reported as {got}, must be {} (signature of {})", m.expect, m.base);
    }
    Ok(())
}

pub fn c12(src: &mut Src, ctx: &mut Ctx) -> Res {
    let m = zip::make_focused(src, ctx, Focus::Names)?;
    judge(m, src, ctx)
}
pub fn c13(src: &mut Src, ctx: &mut Ctx) -> Res {
    let m = zip::make_focused(src, ctx, Focus::Mime)?;
    judge(m, src, ctx)
}
pub fn c14(src: &mut Src, ctx: &mut Ctx) -> Res {
    let m = zip::make_focused(src, ctx, Focus::Layout)?;
    judge(m, src, ctx)
}
pub fn c15(src: &mut Src, ctx: &mut Ctx) -> Res {
    let m = cfb::make(src, ctx)?;
    judge(m, src, ctx)
}
pub fn c16(src: &mut Src, ctx: &mut Ctx) -> Res {
    let m = ebml::make(src, ctx)?;
    judge(m, src, ctx)
}
pub fn c17(src: &mut Src, ctx: &mut Ctx) -> Res {
    let m = mp4::make(src, ctx)?;
    judge(m, src, ctx)
}
pub fn c18(src: &mut Src, ctx: &mut Ctx) -> Res {
    let m = asf::make(src, ctx)?;
    judge(m, src, ctx)
}
pub fn c19(src: &mut Src, ctx: &mut Ctx) -> Res {
    let m = rm::make(src, ctx)?;
    judge(m, src, ctx)
}
pub fn c20(src: &mut Src, ctx: &mut Ctx) -> Res {
    let m = exe::make(src, ctx)?;
    judge(m, src, ctx)
}
pub fn c21(src: &mut Src, ctx: &mut Ctx) -> Res {
    let m = id3v2::make(src, ctx)?;
    judge(m, src, ctx)
}
pub fn c22(src: &mut Src, ctx: &mut Ctx) -> Res {
    let m = pdf::make(src, ctx)?;
    judge(m, src, ctx)
}
pub fn c23(src: &mut Src, ctx: &mut Ctx) -> Res {
    let m = sqlite3::make(src, ctx)?;
    judge(m, src, ctx)
}
pub fn c24(src: &mut Src, ctx: &mut Ctx) -> Res {
    let m = xml::make(src, ctx)?;
    judge(m, src, ctx)
}
pub fn c25(src: &mut Src, ctx: &mut Ctx) -> Res {
    let (f, t) = txt::make_txt(src, ctx)?;
    ctx.file(&f);
    if t == Text::Open {
        discard!("undetermined text");
    }
    let want = if t == Text::Yes { "PlainText" } else { "ArbitraryBinaryData" };
    ctx.execs += 1;
    let got = match detect::any(&f) {
        Ok(g) => g,
        Err(e) => fail!("{e}"),
    };
    if got != want {
        fail!("reported as {got}, must be {want}");
    }
    // Text detection alone, without any other reader.
    if f.len() <= 1 << 20 && src.chance(1, 4) {
        ctx.execs += 1;
        match detect::with_config("txt", &f.to_vec()) {
            Ok(g) if g == want => {}
            Ok(g) => fail!("with text detection alone reported as {g}, must be {want}"),
            Err(e) => fail!("with text detection alone: {e}"),
        }
    }
    Ok(())
}
