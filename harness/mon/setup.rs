//! Animations to work on. Obtaining one is not the property under test: where the library fails to
//! provide it, the case is skipped (and counted) rather than blamed on the property.
use crate::ctx::Ctx;
use crate::model::{self, Cfg, Doc};
use crate::rng::Rng;
use bvh_anim::Bvh;
use std::panic::{self, AssertUnwindSafe};
use std::time::Duration;

pub fn quiet<T>(f: impl FnOnce() -> T) -> Option<T> {
    panic::catch_unwind(AssertUnwindSafe(f)).ok()
}

pub fn load(cx: &mut Ctx, bytes: &[u8]) -> Option<Bvh> {
    match quiet(|| bvh_anim::from_bytes(bytes).ok()) {
        Some(Some(b)) => Some(b),
        _ => {
            cx.see("setup: no animation, case skipped");
            None
        }
    }
}

/// A document and the animation loaded from it.
pub fn animation(cx: &mut Ctx, cfg: &Cfg) -> Option<(Doc, Bvh)> {
    let d = model::gen_doc(&mut cx.rng, cfg);
    let text = model::plain_text(&d);
    cx.set_witness(&text);
    let b = load(cx, &text)?;
    Some((d, b))
}

/// Any single: mostly ordinary, sometimes special.
pub fn any_f32(r: &mut Rng, nan: bool) -> f32 {
    match r.below(10) {
        0 => 0.0,
        1 => -0.0,
        2 => f32::from_bits(r.u32() & 0x807f_ffff),
        3 => *r.pick(&[f32::INFINITY, f32::NEG_INFINITY, f32::MAX, f32::MIN, f32::MIN_POSITIVE, f32::EPSILON]),
        4 if nan => *r.pick(&[f32::NAN, -f32::NAN, f32::from_bits(0x7f80_0001), f32::from_bits(0xffff_ffff)]),
        5 | 6 => model::any_finite(r),
        _ => model::plain_num(r).val(),
    }
}

/// Below a million seconds.
/// Now and then next to the one there is.
pub fn new_frame_time(r: &mut Rng, old: Duration) -> Duration {
    if !r.chance(1, 4) {
        return any_frame_time(r);
    }
    let d = *r.pick(&[Duration::from_nanos(1), Duration::from_nanos(1), Duration::from_nanos(7), Duration::from_nanos(100), Duration::from_micros(1), Duration::from_millis(1), Duration::from_secs(1)]);
    (if r.chance(1, 2) { old.checked_sub(d) } else { old.checked_add(d) }).filter(|t| t.as_secs() < 1_000_000).unwrap_or_default()
}

pub fn any_frame_time(r: &mut Rng) -> Duration {
    match r.below(6) {
        0 => Duration::from_secs(0),
        1 => Duration::from_nanos(1 + r.below(1000) as u64),
        2 => Duration::new(r.below(1_000_000) as u64, 999_999_999),
        3 => Duration::from_millis(r.below(100_000) as u64),
        4 => Duration::new(r.below(1_000_000) as u64, r.below(1_000_000_000) as u32),
        _ => Duration::from_nanos(r.below(1_000_000_000) as u64),
    }
}

/// Random edits through the public API.
pub fn edit(r: &mut Rng, b: &mut Bvh, n: usize, nan: bool) {
    for _ in 0..n {
        match r.below(5) {
            0 => {
                let d = new_frame_time(r, *b.frame_time());
                b.set_frame_time(d);
            }
            1 | 2 => {
                for mut f in b.frames_mut() {
                    for x in f.as_mut_slice().iter_mut() {
                        if r.chance(1, 3) {
                            *x = any_f32(r, nan);
                        }
                    }
                }
            }
            3 => {
                let nch = b.num_channels();
                let fr: Vec<f32> = (0..nch).map(|_| any_f32(r, nan)).collect();
                let mut c = b.frame_cursor();
                if r.chance(1, 2) {
                    c.move_last();
                }
                let _ = c.try_insert_frame(&fr);
            }
            _ => {
                let mut c = b.frame_cursor();
                for _ in 0..r.below(3) {
                    c.move_next();
                }
                let _ = c.remove_frame();
            }
        }
    }
}
