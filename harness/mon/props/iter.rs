//! C19, C20: frame iterators and access through channels.
#![allow(deprecated)]
use crate::ctx::{viol, Ctx, Res};
use crate::model::{self, Cfg};
use crate::rng::{hash_bytes, mix, Rng};
use crate::setup;
use crate::view::{self, canon};
use bvh_anim::errors::SetMotionError;
use bvh_anim::frames::{Frame, FrameMut};
use bvh_anim::{Bvh, Channel};
use std::borrow::{Borrow, BorrowMut};

/// Drives one iterator with random calls against the range it must yield. `see` gets every frame.
fn drive<I, F>(cx: &mut Ctx, r: &mut Rng, mut it: I, lo: usize, hi: usize, mut see: impl FnMut(F, usize) -> Res) -> Result<u64, crate::ctx::Violation>
where
    I: DoubleEndedIterator<Item = F> + ExactSizeIterator + std::iter::FusedIterator,
{
    let (mut a, mut b) = (lo, hi);
    let mut h = mix((lo as u64) << 32 | hi as u64);
    let mut log: Vec<String> = vec![];
    let rest = |a: usize, b: usize| if a < b { b - a } else { 0 };
    let steps = (hi - lo) + 6;
    for _ in 0..steps {
        ensure!(it.len() == rest(a, b), "len", "{} after [{}]: len() is {}, {} frames remain", hi - lo, log.join(" "), it.len(), rest(a, b));
        ensure!(it.size_hint() == (rest(a, b), Some(rest(a, b))), "size-hint", "after [{}]: size_hint() is {:?}, {} frames remain", log.join(" "), it.size_hint(), rest(a, b));
        let op = r.below(14);
        h = mix(h ^ op as u64);
        cx.evaluations += 1;
        let (got, want) = match op {
            0..=4 => {
                log.push("next".into());
                let w = if a < b { Some(a) } else { None };
                a += w.is_some() as usize;
                (it.next(), w)
            }
            5..=8 => {
                log.push("next_back".into());
                let w = if a < b { Some(b - 1) } else { None };
                b -= w.is_some() as usize;
                (it.next_back(), w)
            }
            9 | 12 => {
                let k = if op == 12 { far(r, rest(a, b)) } else { r.below(3) };
                log.push(format!("nth({})", k));
                let w = if k < rest(a, b) { Some(a + k) } else { None };
                a = a.saturating_add(k).saturating_add(1).min(b.max(a));
                (it.nth(k), w)
            }
            10 | 13 => {
                let k = if op == 13 { far(r, rest(a, b)) } else { r.below(3) };
                log.push(format!("nth_back({})", k));
                let w = if k < rest(a, b) { Some(b - 1 - k) } else { None };
                b = if k < rest(a, b) { b - 1 - k } else { a };
                (it.nth_back(k), w)
            }
            _ if r.chance(1, 4) => break,
            _ => continue,
        };
        match (got, want) {
            (Some(f), Some(i)) => {
                see(f, i)?;
                cx.see("frames yielded");
            }
            (None, None) => cx.see("exhausted calls"),
            (Some(_), None) => return viol("not-exhausted", format!("after [{}]: a frame was yielded although none remains", log.join(" "))),
            (None, Some(i)) => return viol("stops-early", format!("after [{}]: nothing was yielded, expected frame {}", log.join(" "), i)),
        }
    }
    // Consume the rest in one of the provided ways.
    let n = rest(a, b);
    match r.below(9) {
        6 => {
            let k = 1 + r.below(4);
            let mut i = a;
            for f in it.step_by(k) {
                ensure!(i < b, "not-exhausted", "after [{}]: step_by({}) yields too many frames", log.join(" "), k);
                see(f, i)?;
                i += k;
            }
            ensure!(i >= b, "stops-early", "after [{}]: step_by({}) leaves frame {} out", log.join(" "), k, i);
        }
        7 => {
            let k = far(r, n);
            let mut i = a.saturating_add(k).min(b.max(a));
            for f in it.skip(k) {
                ensure!(i < b, "not-exhausted", "after [{}]: skip({}) yields too many frames", log.join(" "), k);
                see(f, i)?;
                i += 1;
            }
            ensure!(i == b.max(a), "stops-early", "after [{}]: skip({}) leaves {} frames out", log.join(" "), k, b - i);
        }
        8 => {
            let mut i = b;
            let mut bad: Res = Ok(());
            let k = it.rfold(0, |k, f| {
                i = i.wrapping_sub(1);
                if k < n && bad.is_ok() {
                    bad = see(f, i);
                }
                k + 1
            });
            bad?;
            ensure!(k == n, "count", "after [{}]: rfold visits {} frames, {} remain", log.join(" "), k, n);
        }
        0 => {
            let c = it.count();
            ensure!(c == n, "count", "after [{}]: count() is {}, {} frames remain", log.join(" "), c, n);
        }
        1 => match (it.last(), n) {
            (None, 0) => {}
            (Some(f), k) if k > 0 => see(f, b - 1)?,
            _ => return viol("last", format!("after [{}]: last() disagrees with {} remaining", log.join(" "), n)),
        },
        2 => {
            let mut i = b;
            for f in it.rev() {
                ensure!(i > a, "not-exhausted", "after [{}]: rev() yields too many frames", log.join(" "));
                i -= 1;
                see(f, i)?;
            }
            ensure!(i == a.min(b), "stops-early", "after [{}]: rev() leaves {} frames out", log.join(" "), i - a);
        }
        3 => {
            let all: Vec<F> = it.collect();
            ensure!(all.len() == n, "count", "after [{}]: collect() gives {} frames, {} remain", log.join(" "), all.len(), n);
            for (k, f) in all.into_iter().enumerate() {
                see(f, a + k)?;
            }
        }
        4 => {
            let mut i = a;
            let mut bad: Res = Ok(());
            // By reference and by value: the two may be different code.
            let mut one = |f: F| {
                if i - a < n && bad.is_ok() {
                    bad = see(f, i);
                }
                i += 1;
            };
            if r.chance(1, 2) {
                it.for_each(one);
                bad?;
                ensure!(i - a == n, "count", "after [{}]: {} frames from for_each, {} remain", log.join(" "), i - a, n);
                return Ok(h);
            }
            it.by_ref().for_each(&mut one);
            bad?;
            ensure!(i - a == n, "count", "after [{}]: {} frames from for_each, {} remain", log.join(" "), i - a, n);
            for _ in 0..3 {
                ensure!(it.next().is_none() && it.next_back().is_none() && it.len() == 0, "not-exhausted", "an exhausted iterator yields again");
            }
        }
        _ => {
            let mut i = a;
            for f in it {
                see(f, i)?;
                i += 1;
            }
            ensure!(i == b.max(a), "count", "after [{}]: {} frames left out or too many", log.join(" "), b.max(a) as i64 - i as i64);
        }
    }
    Ok(h)
}

/// Far ahead, at or past the end.
fn far(r: &mut Rng, rest: usize) -> usize {
    match r.below(8) {
        0 => rest,
        1 => rest.saturating_sub(1),
        2 => usize::MAX - r.below(3),
        3 => usize::MAX / (1 + r.below(40)),
        4 => 1 << r.below(64),
        5 => rest + 1 + r.below(3),
        _ => r.below(rest + 2),
    }
}

pub fn frames(cx: &mut Ctx) -> Res {
    let cfg = Cfg {
        max_joints: 4,
        max_frames: if cx.case % 8 == 1 && !cx.tiny { 30 } else { 7 },
        wild_names: false,
        unique_motion: true,
        ..Cfg::small()
    }
    .vast(cx.case);
    let (d, mut b) = match setup::animation(cx, &cfg) {
        Some(x) => x,
        None => return Ok(()),
    };
    let want = d.view().frames;
    if view::diff_frames(&want, &view::frames(&b)).is_some() {
        cx.see("setup: frames differ, case skipped");
        // Loading is others' business, but a plain loop over the frames of a fresh animation is not.
        let raw = b.clone().extract_frames();
        let flat: Vec<u32> = want.iter().flatten().copied().collect();
        ensure!(raw.iter().map(|&x| canon(x)).collect::<Vec<_>>() != flat, "plain-loop", "iterating front to back does not give the stored frames");
        return Ok(());
    }
    let nf = want.len();
    let nch = d.num_channels();
    let mut r = cx.rng.fork();
    let mut h = hash_bytes(&[nf as u8, nch as u8]);
    for round in 0..if cx.tiny { 2 } else { 6 } {
        ensure!(b.num_frames() == nf && b.frames().len() == nf && b.frames_mut().len() == nf && b.frame_cursor().len() == nf, "num-frames", "{} frames: num_frames() {}, frames().len() {}, cursor {}", nf, b.num_frames(), b.frames().len(), b.frame_cursor().len());
        let now: Vec<Vec<u32>> = b.clone().extract_frames().chunks(nch.max(1)).map(|c| c.iter().map(|&x| canon(x)).collect()).collect();
        // From a cursor, exactly the frames after it.
        let at = if r.chance(1, 2) { 0 } else { r.below(nf + 1) };
        let kind = r.below(4);
        cx.see(["shared", "mutable", "shared from a cursor", "mutable from a cursor"][kind]);
        let check = |f: &[f32], i: usize| -> Res {
            let got: Vec<u32> = f.iter().map(|&x| canon(x)).collect();
            ensure!(got == now[i], "wrong-frame", "expected frame {} of {}, got {:?}", i, nf, f);
            Ok(())
        };
        match kind {
            0 => h ^= drive(cx, &mut r, b.frames(), 0, nf, |f: Frame<'_>, i| check(f.as_slice(), i))?,
            2 => {
                let mut c = b.frame_cursor();
                for _ in 0..at {
                    c.move_next();
                }
                h ^= drive(cx, &mut r, c.into_frames(), at, nf, |f: Frame<'_>, i| check(f.as_slice(), i))?
            }
            k => {
                // Frames are held on to and written at the end, out of order.
                let mut held: Vec<(FrameMut<'_>, usize)> = vec![];
                let lo = if k == 1 { 0 } else { at };
                let it = if k == 1 {
                    b.frames_mut()
                } else {
                    let mut c = b.frame_cursor();
                    for _ in 0..at {
                        c.move_next();
                    }
                    c.into_frames_mut()
                };
                h ^= drive(cx, &mut r, it, lo, nf, |f: FrameMut<'_>, i| {
                    check(f.as_slice(), i)?;
                    held.push((f, i));
                    Ok(())
                })?;
                let mut want = now.clone();
                r.shuffle(&mut held);
                for (f, i) in held.iter_mut() {
                    let c = r.below(nch);
                    let v = (round * 1000 + *i) as f32 + 0.125;
                    match r.below(3) {
                        0 => f.as_mut_slice()[c] = v,
                        1 => f.as_mut()[c] = v,
                        _ => {
                            let s: &mut [f32] = f.borrow_mut();
                            s[c] = v
                        }
                    }
                    want[*i][c] = canon(v);
                    cx.see("frames written");
                }
                drop(held);
                let got: Vec<Vec<u32>> = b.clone().extract_frames().chunks(nch.max(1)).map(|c| c.iter().map(|&x| canon(x)).collect()).collect();
                if let Some((sig, m)) = view::diff_frames(&want, &got) {
                    return viol(format!("written-{}", sig), m);
                }
            }
        }
    }
    cx.max("most frames", nf as u64);
    if nf > 1 && cx.distinct(h) {
        cx.sample(|| format!("{} frames of {} channels", nf, nch));
    }
    Ok(())
}

fn same_slice(a: Option<&[f32]>, b: Option<&[f32]>) -> bool {
    a.map(|x| x.iter().map(|v| v.to_bits()).collect::<Vec<_>>()) == b.map(|x| x.iter().map(|v| v.to_bits()).collect::<Vec<_>>())
}

macro_rules! ranges {
    ($f:expr, $s:expr, $a:expr, $b:expr) => {{
        let (f, s, a, b) = (&$f, $s, $a, $b);
        ensure!(same_slice(f.get(a..b).map(|x| &x[..]), s.get(a..b)), "range", "get({}..{}) disagrees with the slice", a, b);
        ensure!(same_slice(f.get(..b).map(|x| &x[..]), s.get(..b)), "range", "get(..{}) disagrees with the slice", b);
        ensure!(same_slice(f.get(a..).map(|x| &x[..]), s.get(a..)), "range", "get({}..) disagrees with the slice", a);
        ensure!(same_slice(f.get(a..=b).map(|x| &x[..]), s.get(a..=b)), "range", "get({}..={}) disagrees with the slice", a, b);
        ensure!(same_slice(f.get(..=b).map(|x| &x[..]), s.get(..=b)), "range", "get(..={}) disagrees with the slice", b);
        ensure!(same_slice(f.get(..).map(|x| &x[..]), s.get(..)), "range", "get(..) disagrees with the slice");
        if a <= b && b <= s.len() {
            ensure!(same_slice(Some(&f[a..b]), Some(&s[a..b])), "range", "[{}..{}] disagrees with the slice", a, b);
            ensure!(same_slice(Some(&f[..b]), Some(&s[..b])), "range", "[..{}] disagrees with the slice", b);
            ensure!(same_slice(Some(&f[a..]), Some(&s[a..])), "range", "[{}..] disagrees with the slice", a);
            ensure!(same_slice(Some(&f[..]), Some(&s[..])), "range", "[..] disagrees with the slice");
        }
    }};
}

/// The channels of an animation with more than 131,072 of them.
fn wide_channels() -> std::rc::Rc<Vec<Channel>> {
    thread_local!(static WIDE: std::cell::RefCell<Option<std::rc::Rc<Vec<Channel>>>> = const { std::cell::RefCell::new(None) });
    WIDE.with(|w| {
        w.borrow_mut()
            .get_or_insert_with(|| {
                let n = (1 << 17) + 700;
                let text = format!("HIERARCHY\nROOT r\n{{\nOFFSET 0 0 0\nCHANNELS {}{}\n}}\nMOTION\nFrames: 0\nFrame Time: 1\n", n, " Yrotation".repeat(n));
                let chans = setup::quiet(|| bvh_anim::from_bytes(text.as_bytes()).ok().and_then(|w| w.root_joint().map(|j| j.channels().to_vec())));
                std::rc::Rc::new(chans.flatten().unwrap_or_default())
            })
            .clone()
    })
}

pub fn channels(cx: &mut Ctx) -> Res {
    let cfg = Cfg { max_joints: 7, max_frames: 4, min_frames: 1, need_channels: true, wild_names: false, unique_motion: true, ..Cfg::small() }.vast(cx.case);
    let (d, mut b) = match setup::animation(cx, &cfg) {
        Some(x) => x,
        None => return Ok(()),
    };
    let want = d.view();
    let nch = want.num_channels;
    if let Some(_) = view::diff_frames(&want.frames, &view::frames(&b)) {
        cx.see("setup: frames differ, case skipped");
        return Ok(());
    }
    let mut r = cx.rng.fork();
    // The channels of every joint, with the position their value must have by the file's order.
    let mut chans: Vec<(Channel, usize)> = vec![];
    for j in b.joints() {
        for c in j.channels() {
            let k = chans.len();
            chans.push((*c, k));
        }
    }
    if chans.len() != nch {
        cx.see("setup: channels differ, case skipped");
        return Ok(());
    }
    // Channels of a bigger animation are out of range here.
    let mut foreign: Vec<Channel> = {
        let wide = format!("HIERARCHY\nROOT r\n{{\nOFFSET 0 0 0\nCHANNELS {}{}\n}}\nMOTION\nFrames: 0\nFrame Time: 1\n", nch + 20, " Yrotation".repeat(nch + 20));
        match setup::load(cx, wide.as_bytes()).and_then(|w: Bvh| w.root_joint().map(|j| j.channels().to_vec())) {
            Some(v) => v.into_iter().filter(|c| c.motion_index() >= nch).collect(),
            None => vec![],
        }
    };
    // ... also those whose position looks small to whoever takes its low bits only.
    if !cx.tiny {
        let wide = wide_channels();
        for base in [1 << 8, 1 << 15, 1 << 16, 1 << 17] {
            if let Some(c) = wide.get(base + r.below(nch)).filter(|c| c.motion_index() >= nch) {
                foreign.push(*c);
            }
        }
    }
    cx.see_n("channels addressed", chans.len() as u64);
    for (i, f) in b.frames().enumerate() {
        let row = &want.frames[i];
        ensure!(f.len() == nch && !f.is_empty() && f.as_slice().len() == nch, "frame-len", "len() is {}, {} channels", f.len(), nch);
        for (c, k) in &chans {
            let forms: [(&str, Option<f32>); 9] = [
                ("get(channel)", f.get(*c).copied()),
                ("get(&channel)", f.get(c).copied()),
                ("[channel]", Some(f[*c])),
                ("[&channel]", Some(f[c])),
                ("get(index)", f.get(*k).copied()),
                ("[index]", Some(f[*k])),
                ("as_slice", f.as_slice().get(*k).copied()),
                ("as_ref", f.as_ref().get(*k).copied()),
                ("borrow", Borrow::<[f32]>::borrow(&f).get(*k).copied()),
            ];
            for (how, v) in forms {
                cx.evaluations += 1;
                ensure!(v.map(canon) == Some(row[*k]), "wrong-value", "frame {} value {}: {} gives {:?}, the file has {:?}", i, k, how, v, f32::from_bits(row[*k]));
            }
        }
        for c in &foreign {
            ensure!(f.get(*c).is_none() && f.get(c).is_none(), "outside-found", "get() finds a value for channel {} in a frame of {}", c.motion_index(), nch);
            cx.see("addresses outside the frame");
        }
        for k in [nch, nch + 1, nch * 2, usize::MAX] {
            ensure!(f.get(k).is_none(), "outside-found", "get({}) finds a value in a frame of {}", k, nch);
        }
        if r.chance(1, 20) {
            // Indexing outside has no value to give.
            let k = nch + r.below(nch + 2);
            let (x, y) = (r.below(nch + 1), nch + 1 + r.below(3));
            let c = if foreign.is_empty() { None } else { Some(*r.pick(&foreign)) };
            ensure!(setup::quiet(|| f[k]).is_none(), "outside-found", "[{}] gives a value in a frame of {}", k, nch);
            ensure!(setup::quiet(|| f[x..y].len()).is_none() && setup::quiet(|| f[..y].len()).is_none() && setup::quiet(|| f[y..].len()).is_none(), "outside-found", "[{}..{}] gives values in a frame of {}", x, y, nch);
            if let Some(c) = c {
                ensure!(setup::quiet(|| f[c]).is_none() && setup::quiet(|| f[&c]).is_none(), "outside-found", "[channel {}] gives a value in a frame of {}", c.motion_index(), nch);
            }
            cx.see("indexing outside the frame panics");
        }
        for _ in 0..4 {
            let (x, y) = (r.below(nch + 3), r.below(nch + 3));
            ranges!(f, f.as_slice(), x, y);
            cx.see("ranges compared");
        }
        ranges!(f, f.as_slice(), 0, usize::MAX);
    }
    // Writing.
    let mut rows = want.frames.clone();
    let mut h = hash_bytes(&model::plain_text(&d));
    for step in 0..if cx.tiny { 3 } else { 12 } {
        let i = r.below(rows.len());
        let (c, k) = if chans.len() > 1 && r.chance(1, 2) { chans[(h % 2) as usize] } else { *r.pick(&chans) };
        // Mostly a value of its own; sometimes one that could be taken for what is there, or a special one.
        let v = match r.below(8) {
            0 => *r.pick(&[0.0, -0.0]),
            1 => setup::any_f32(&mut r, true),
            2 => -f32::from_bits(rows[i][k]),
            3 => f32::from_bits(rows[i][k] ^ 1),
            _ => 50_000.0 + step as f32,
        };
        let how = r.below(9);
        h = mix(h ^ (how as u64) << 40 ^ (i as u64) << 20 ^ k as u64);
        cx.evaluations += 1;
        let mut f = match b.frames_mut().nth(i) {
            Some(f) => f,
            None => return Ok(()),
        };
        let old = f32::from_bits(rows[i][k]);
        let mut set = true;
        match how {
            0 | 1 | 2 => {
                let p = match how {
                    0 => f.try_set_motion(c, v),
                    1 => f.try_set_motion(&c, v),
                    _ => f.try_set_motion(k, v),
                };
                match p {
                    Ok(p) => ensure!(canon(p) == canon(old), "previous-value", "try_set_motion returned {:?}, the value was {:?}", p, old),
                    Err(e) => return viol("set-refused", format!("setting value {} of {}: {:?}", k, nch, e)),
                }
                cx.see("set by try_set_motion");
            }
            3 => f[c] = v,
            4 => f[&c] = v,
            5 => f[k] = v,
            6 => match step % 4 {
                0 => f[k..k + 1][0] = v,
                1 => f.as_mut()[k] = v,
                2 => BorrowMut::<[f32]>::borrow_mut(&mut f)[k] = v,
                _ => f.as_mut_slice()[k] = v,
            },
            7 => {
                let lens = [f.len(), f.as_slice().len(), f.as_ref().len(), Borrow::<[f32]>::borrow(&f).len(), f.as_mut().len(), f.as_mut_slice().len(), BorrowMut::<[f32]>::borrow_mut(&mut f).len(), f[..].len()];
                ensure!(lens == [nch; 8] && !f.is_empty(), "frame-len", "a mutable frame of {} values has the lengths {:?}", nch, lens);
                for (how, x) in [("as_slice", f.as_slice()[k]), ("as_ref", f.as_ref()[k]), ("borrow", Borrow::<[f32]>::borrow(&f)[k]), ("as_mut", f.as_mut()[k]), ("as_mut_slice", f.as_mut_slice()[k]), ("borrow_mut", BorrowMut::<[f32]>::borrow_mut(&mut f)[k])] {
                    ensure!(canon(x) == canon(old), "wrong-value", "mutable frame {} value {}: {} has {:?} instead of {:?}", i, k, how, x, old);
                }
                for (how, x) in [("get(channel)", f.get(c).copied()), ("get(&channel)", f.get(&c).copied()), ("[channel]", Some(f[c])), ("[&channel]", Some(f[&c])), ("get(index)", f.get(k).copied()), ("[index]", Some(f[k]))] {
                    ensure!(x.map(canon) == Some(canon(old)), "wrong-value", "mutable frame {} value {}: {} gives {:?} instead of {:?}", i, k, how, x, old);
                }
                let (x, y) = (r.below(nch + 3), r.below(nch + 3));
                {
                    let s: Vec<f32> = f.as_slice().to_vec();
                    ranges!(f, &s[..], x, y);
                }
                for c in &foreign {
                    ensure!(f.get(c).is_none(), "outside-found", "get() finds a value for a channel outside the frame");
                    let k = c.motion_index();
                    ensure!(f.try_set_motion(c, v) == Err(SetMotionError::BadChannel(k)), "outside-error", "setting channel {} of a frame of {} reports {:?}", k, nch, f.try_set_motion(c, v));
                    ensure!(f.try_set_motion(c, v).is_err() && f.try_set_motion(*c, v).is_err(), "outside-set", "try_set_motion accepts a channel outside the frame");
                    cx.see("addresses outside the frame");
                }
                let as_shared: Frame<'_> = if r.chance(1, 2) { Frame::from(f) } else { return_shared(b.frames().nth(i)) };
                ensure!(as_shared.get(k).copied().map(canon) == Some(canon(old)), "wrong-value", "the shared form of a mutable frame differs");
                set = false;
                if r.chance(1, 8) {
                    let k = nch + r.below(3);
                    let out = if foreign.is_empty() { c } else { *r.pick(&foreign) };
                    let put = setup::quiet(|| {
                        if let Some(mut f) = b.frames_mut().nth(i) {
                            match (how + step) % 3 {
                                0 => f[k] = v,
                                1 => f[k..=k][0] = v,
                                _ => f[out] = v,
                            }
                        }
                    });
                    ensure!(put.is_none() || ((how + step) % 3 == 2 && foreign.is_empty()), "outside-set", "writing to [{}] of a frame of {} values does not panic", k, nch);
                    set = put.is_some();
                }
            }
            _ => {
                // get_mut ties up its frame, so one frame per form.
                let form = r.below(5);
                let slot = match form {
                    0 => f.get_mut(c).map(|x| *x = v),
                    1 => f.get_mut(&c).map(|x| *x = v),
                    2 => f.get_mut(k).map(|x| *x = v),
                    3 => f.get_mut(k..).map(|x| x[0] = v),
                    _ => {
                        let out = if foreign.is_empty() || r.chance(1, 2) { f.get_mut(nch + r.below(9)).is_none() } else { f.get_mut(*r.pick(&foreign)).is_none() };
                        ensure!(out, "outside-found", "get_mut() finds a value outside the frame");
                        set = false;
                        Some(())
                    }
                };
                ensure!(slot.is_some(), "set-refused", "get_mut finds nothing for value {} of {}", k, nch);
                cx.see("set by get_mut");
            }
        }
        if set {
            rows[i][k] = canon(v);
            cx.see("values set");
        }
        if let Some((sig, m)) = view::diff_frames(&rows, &view::frames(&b)) {
            return viol(format!("set-{}", sig), format!("after setting value {} of frame {} (form {}): {}", k, i, how, m));
        }
    }
    if cx.distinct(h) {
        cx.sample(|| format!("{} channels x {} frames, foreign channels {}", nch, rows.len(), foreign.len()));
    }
    Ok(())
}

fn return_shared<'a>(f: Option<Frame<'a>>) -> Frame<'a> {
    f.expect("a frame that was there a moment ago")
}
