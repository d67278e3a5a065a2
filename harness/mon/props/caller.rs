//! C28, C29: the caller's own code at fault, abandoned cursors; showing values.
#![allow(deprecated)]
use super::save::{self, Opt};
use super::{edit, errors};
use crate::ctx::{clip, viol, Ctx, Res};
use crate::hostile;
use crate::model::{self, Cfg};
use crate::rng::{hash_bytes, mix, Rng};
use crate::setup;
use crate::view::{self, canon, View};
use bvh_anim::write::WriteOptions;
use bvh_anim::Bvh;
use std::cell::Cell;
use std::io::{self, BufRead, Read, Write};
use std::mem;
use std::panic::{catch_unwind, panic_any, AssertUnwindSafe};

/// What the caller's code panics with.
struct Ours;

fn ours<T>(r: std::thread::Result<T>) -> Result<Result<T, ()>, crate::ctx::Violation> {
    match r {
        Ok(x) => Ok(Ok(x)),
        Err(p) if p.is::<Ours>() => Ok(Err(())),
        Err(p) => std::panic::resume_unwind(p),
    }
}

/// A frame that panics at its n-th use, or gives different values at different uses.
struct Odd<'a> {
    answers: Vec<Vec<f32>>,
    uses: Cell<usize>,
    panic_at: Option<usize>,
    total: &'a Cell<usize>,
}
impl AsRef<[f32]> for Odd<'_> {
    fn as_ref(&self) -> &[f32] {
        let n = self.uses.get();
        self.uses.set(n + 1);
        self.total.set(self.total.get() + 1);
        if self.panic_at.map_or(false, |p| n >= p) {
            panic_any(Ours);
        }
        &self.answers[n % self.answers.len()]
    }
}

/// An iterator that panics in `next` or `size_hint`, or whose size hint is false.
struct OddIter<'a, T> {
    items: &'a [T],
    at: usize,
    panic_next: Option<usize>,
    panic_hint: bool,
    hint: Option<(usize, Option<usize>)>,
    ended: usize,
}
impl<'a, T> Iterator for OddIter<'a, T> {
    type Item = &'a T;
    fn next(&mut self) -> Option<&'a T> {
        if self.panic_next == Some(self.at) {
            panic_any(Ours);
        }
        let r = self.items.get(self.at);
        self.at += 1;
        self.ended += r.is_none() as usize;
        r
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        if self.panic_hint {
            panic_any(Ours);
        }
        let n = self.items.len().saturating_sub(self.at);
        self.hint.unwrap_or((n, Some(n)))
    }
}

struct PanicReader<'a> {
    data: &'a [u8],
    at: usize,
    pos: usize,
    seg: usize,
    in_consume: bool,
}
impl Read for PanicReader<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let n = {
            let a = self.fill_buf()?;
            let n = a.len().min(buf.len());
            buf[..n].copy_from_slice(&a[..n]);
            n
        };
        self.consume(n);
        Ok(n)
    }
}
impl BufRead for PanicReader<'_> {
    fn fill_buf(&mut self) -> io::Result<&[u8]> {
        if self.pos >= self.at && !self.in_consume {
            panic_any(Ours);
        }
        Ok(&self.data[self.pos..(self.pos + self.seg).min(self.data.len())])
    }
    fn consume(&mut self, n: usize) {
        self.pos += n;
        if self.pos >= self.at && self.in_consume {
            panic_any(Ours);
        }
    }
}

struct PanicSink {
    got: Vec<u8>,
    at: usize,
    max: usize,
    in_flush: bool,
}
impl Write for PanicSink {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let n = buf.len().min(self.max).min(self.at.saturating_sub(self.got.len()));
        if n == 0 && !buf.is_empty() && !self.in_flush {
            panic_any(Ours);
        }
        let n = if self.in_flush { buf.len().min(self.max) } else { n };
        self.got.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        if self.in_flush {
            panic_any(Ours);
        }
        Ok(())
    }
}

fn bits(x: &[f32]) -> Vec<u32> {
    x.iter().map(|&v| canon(v)).collect()
}

/// The animation is whole: what it shows, what it holds, and what it does next.
fn whole(cx: &mut Ctx, r: &mut Rng, want: &View, b: &mut Bvh, after: &str) -> Res {
    if let Some((sig, m)) = view::diff(want, &view::view(b)) {
        return viol(format!("not-whole-{}", sig), format!("after {}: {}", after, m));
    }
    ensure!(b.num_frames() == want.frames.len(), "not-whole-num-frames", "after {}: num_frames() is {}, {} frames", after, b.num_frames(), want.frames.len());
    let raw = b.clone().extract_frames();
    let flat: Vec<u32> = want.frames.iter().flatten().copied().collect();
    ensure!(bits(&raw) == flat, "not-whole-values", "after {}: {} motion values for {} frames of {}", after, raw.len(), want.frames.len(), want.num_channels);
    // The next edit does what it should.
    let mut c = b.clone();
    let at = r.below(want.frames.len() + 1);
    let row: Vec<f32> = (0..want.num_channels).map(|k| 0.5 + k as f32).collect();
    let mut next = want.frames.clone();
    let mut cur = c.frame_cursor();
    for _ in 0..at {
        cur.move_next();
    }
    ensure!(cur.try_insert_frame(&row).is_ok(), "next-edit-refused", "after {}: a frame of the right length is refused", after);
    next.insert(at, bits(&row));
    let got = view::frames(&c);
    if let Some((sig, m)) = view::diff_frames(&next, &got) {
        return viol(format!("next-edit-{}", sig), format!("after {} and an insertion at {}: {}", after, at, m));
    }
    cx.see("animations found whole");
    Ok(())
}

/// `got` is `old` with `rows[..k]` inserted at `at`, for some k of at most `most`.
fn partly(old: &View, got: &View, rows: &[Vec<u32>], at: usize, most: usize) -> Option<usize> {
    let k = got.frames.len().checked_sub(old.frames.len())?;
    if k > most || k > rows.len() {
        return None;
    }
    let mut want = old.clone();
    for (i, r) in rows[..k].iter().enumerate() {
        want.frames.insert(at + i, r.clone());
    }
    view::diff(&want, got).is_none().then(|| k)
}

pub fn abandoned(cx: &mut Ctx) -> Res {
    let cfg = Cfg { max_joints: 5, max_frames: 5, need_channels: true, wild_names: false, unique_motion: true, ..Cfg::small() }.scaled(cx.case);
    let (d, mut b) = match setup::animation(cx, &cfg) {
        Some(x) => x,
        None => return Ok(()),
    };
    if b.num_channels() == 0 {
        return Ok(());
    }
    let mut r = cx.rng.fork();
    let mut h = hash_bytes(&model::plain_text(&d));
    for _ in 0..if cx.tiny { 2 } else { 6 } {
        let old = view::view(&b);
        let (nf, nch) = (old.frames.len(), old.num_channels);
        let at = r.below(nf + 1);
        let kind = r.below(9);
        h = mix(h ^ (kind as u64) << 32 ^ at as u64);
        cx.evaluations += 1;
        match kind {
            0 | 1 | 2 => {
                // A batch whose iterator or frames panic.
                let n = 1 + r.below(5);
                let k = r.below(n);
                let good: Vec<Vec<f32>> = (0..n).map(|i| (0..nch).map(|c| 9000.0 + (i * nch + c) as f32).collect()).collect();
                let total = Cell::new(0);
                let items: Vec<Odd<'_>> = good
                    .iter()
                    .enumerate()
                    .map(|(i, g)| Odd { answers: vec![g.clone()], uses: Cell::new(0), panic_at: if kind == 1 && i == k { Some(r.below(2)) } else { None }, total: &total })
                    .collect();
                let hint = match r.below(5) {
                    0 => Some((0, None)),
                    1 => Some((n + 3, Some(n + 3))),
                    2 => Some((0, Some(0))),
                    3 => Some((1000, Some(7))),
                    _ => None,
                };
                let it = OddIter { items: &items, at: 0, panic_next: if kind == 0 { Some(r.below(n + 1)) } else { None }, panic_hint: kind == 2 && r.chance(1, 2), hint, ended: 0 };
                let most = match (kind, it.panic_next) {
                    (0, Some(p)) => p,
                    (1, _) => k + 1,
                    _ => n,
                };
                let hinted = it.panic_hint;
                let mut c = b.frame_cursor();
                for _ in 0..at {
                    c.move_next();
                }
                let res = ours(catch_unwind(AssertUnwindSafe(|| c.try_insert_frames(it).is_ok())))?;
                let (i, len) = (c.index(), c.len());
                if r.chance(1, 2) {
                    mem::forget(c);
                }
                let got = view::view(&b);
                let rows: Vec<Vec<u32>> = good.iter().map(|g| bits(g)).collect();
                let what = format!("a batch of {} frames at {} of {} in which {}", n, at, nf, ["the iterator panicked", "a frame panicked", "the size hint panicked or lied"][kind]);
                match res {
                    Ok(ok) => {
                        ensure!(ok, "refused", "{}: the insertion was refused", what);
                        ensure!(partly(&old, &got, &rows, at, n) == Some(n), "batch-lost", "{}: it reported success, {} frames became {}", what, nf, got.frames.len());
                        cx.see("odd batches inserted");
                    }
                    Err(()) => {
                        ensure!(kind != 0 || it_panics(most, n), "wrong-panic", "{}: panicked without cause", what);
                        match partly(&old, &got, &rows, at, if hinted { 0 } else { most }) {
                            Some(k) => cx.see_n("frames kept from interrupted batches", k as u64),
                            None => return viol("torn", format!("{}: {} frames of {} channels became {:?}", what, nf, nch, clip(&format!("{:?}", got.frames), 400))),
                        }
                        cx.see(["panics in the iterator", "panics in a frame", "panics in the size hint"][kind]);
                    }
                }
                ensure!(i <= len && len == got.frames.len(), "cursor-outside", "{}: the cursor is at {} of {}, {} frames", what, i, len, got.frames.len());
                whole(cx, &mut r, &got, &mut b, &what)?;
            }
            3 => {
                // Frames that answer differently each time they are asked.
                let n = 1 + r.below(3);
                let total = Cell::new(0);
                let items: Vec<Odd<'_>> = (0..n)
                    .map(|i| {
                        let m = 1 + r.below(3);
                        let answers = (0..m)
                            .map(|q| {
                                let len = *r.pick(&[nch, nch, nch, nch + 1, nch - 1, 0, nch * 2]);
                                (0..len).map(|c| 7000.0 + (i * 100 + q * 10 + c) as f32).collect()
                            })
                            .collect();
                        Odd { answers, uses: Cell::new(0), panic_at: None, total: &total }
                    })
                    .collect();
                let single = r.chance(1, 2);
                {
                    let mut c = b.frame_cursor();
                    for _ in 0..at {
                        c.move_next();
                    }
                    // Refused, inserted or a panic: its answers were its own fault.
                    let res = catch_unwind(AssertUnwindSafe(|| if single { c.try_insert_frame(&items[0]).is_ok() } else { c.try_insert_frames(items.iter()).is_ok() }));
                    if res.is_err() {
                        cx.see("inconsistent frames: panic");
                    }
                }
                let got = view::view(&b);
                let k = got.frames.len().wrapping_sub(nf);
                let what = "inserting frames that answer differently each time";
                ensure!(k <= n, "torn", "{}: {} frames became {}", what, nf, got.frames.len());
                let mut rest = got.clone();
                let added: Vec<Vec<u32>> = rest.frames.drain(at..at + k).collect();
                if let Some((sig, m)) = view::diff(&old, &rest) {
                    return viol(format!("torn-{}", sig), format!("{}: {}", what, m));
                }
                for (i, row) in added.iter().enumerate() {
                    ensure!(items[i].answers.iter().any(|a| &bits(a) == row), "torn", "{}: frame {} is none of the answers", what, i);
                }
                cx.see("inconsistent frames");
                whole(cx, &mut r, &got, &mut b, what)?;
            }
            4 => {
                // One frame that panics.
                let total = Cell::new(0);
                let f = Odd { answers: vec![vec![1.0; nch]], uses: Cell::new(0), panic_at: Some(0), total: &total };
                {
                    let mut c = b.frame_cursor();
                    for _ in 0..at {
                        c.move_next();
                    }
                    let res = ours(catch_unwind(AssertUnwindSafe(|| c.try_insert_frame(&f).is_ok())))?;
                    ensure!(res.is_err(), "frame-unused", "a frame that cannot be read was inserted");
                    ensure!(c.index() == at && c.len() == nf, "cursor-moved", "a panicking frame moved the cursor from {} of {} to {} of {}", at, nf, c.index(), c.len());
                }
                cx.see("panics in a single frame");
                whole(cx, &mut r, &old, &mut b, "a panicking frame")?;
            }
            5 => {
                // Cursors and iterators dropped early or leaked; their edits stand.
                let mut want = old.clone();
                {
                    let mut c = b.frame_cursor();
                    for _ in 0..at {
                        c.move_next();
                    }
                    let mut p = at;
                    for _ in 0..1 + r.below(4) {
                        if r.chance(1, 2) {
                            let row: Vec<f32> = (0..nch).map(|k| 300.0 + p as f32 + k as f32 / 8.0).collect();
                            if edit::single(&mut r, &mut c, &row) {
                                want.frames.insert(p, bits(&row));
                                p += 1;
                            }
                        } else if c.remove_frame().is_ok() && p < want.frames.len() {
                            want.frames.remove(p);
                        }
                    }
                    match r.below(5) {
                        0 => mem::forget(c),
                        1 => mem::forget(c.into_frames()),
                        2 => mem::forget(c.into_frames_mut()),
                        3 => {
                            let mut it = c.into_frames_mut();
                            if let Some(mut f) = it.next_back() {
                                f.as_mut_slice()[0] = 77.0;
                                let i = want.frames.len() - 1;
                                want.frames[i][0] = canon(77.0);
                                mem::forget(f);
                            }
                            mem::forget(it);
                        }
                        _ => drop(c.into_frames().next()),
                    }
                }
                cx.see("cursors and iterators leaked or dropped early");
                whole(cx, &mut r, &want, &mut b, "a cursor was abandoned")?;
            }
            6 => {
                let mut want = old.clone();
                {
                    let mut it = b.frames_mut();
                    if nf > 0 {
                        let i = r.below(nf);
                        if let Some(mut f) = it.nth(i) {
                            f.as_mut_slice()[nch - 1] = -5.5;
                            want.frames[i][nch - 1] = canon(-5.5);
                            if r.chance(1, 2) {
                                mem::forget(f);
                            }
                        }
                    }
                    if r.chance(1, 2) {
                        mem::forget(it);
                    }
                }
                mem::forget(b.frames());
                mem::forget(b.joints());
                mem::forget(b.joints_mut());
                if let Some(j) = b.joints_mut().next() {
                    mem::forget(j);
                }
                cx.see("cursors and iterators leaked or dropped early");
                whole(cx, &mut r, &want, &mut b, "an iterator was abandoned")?;
            }
            7 => {
                // A sink that panics.
                let opt = Opt::random(&mut r);
                let w = opt.fields();
                let text = match setup::quiet(|| w.write_to_string(&b)) {
                    Some(t) => t,
                    None => return Ok(()),
                };
                let in_flush = r.chance(1, 8);
                let mut s = PanicSink { got: vec![], at: r.below(text.len()), max: *r.pick(&[1usize, 5, 1 << 30]), in_flush };
                let res = ours(catch_unwind(AssertUnwindSafe(|| w.write(&b, &mut s).is_ok())))?;
                ensure!(res.is_err(), "panic-swallowed", "the sink panicked after {} of {} bytes, the write returned", s.got.len(), text.len());
                ensure!(text.starts_with(&s.got) && (!in_flush || s.got == text), "not-a-prefix", "the sink that panicked holds {:?}", clip(&crate::ctx::show(&s.got), 300));
                let again = w.write_to_string(&b);
                ensure!(again == text, "next-write-differs", "after a sink panicked the rendering differs: {}", clip(&crate::ctx::show(&again), 300));
                cx.see("panics in a sink");
                whole(cx, &mut r, &old, &mut b, "a sink panicked")?;
            }
            _ => {
                // A reader that panics; the next load is not impressed.
                let text = model::plain_text(&d);
                let at = r.below(text.len());
                let rd = PanicReader { data: &text, at, pos: 0, seg: *r.pick(&[1usize, 9, 1 << 20]), in_consume: r.chance(1, 2) };
                let res = ours(catch_unwind(AssertUnwindSafe(|| Bvh::from_reader(rd).is_ok())))?;
                ensure!(res.is_err(), "panic-swallowed", "the reader panicked at byte {} of {}, the load returned", at, text.len());
                cx.see("panics in a reader");
                let again = match setup::quiet(|| bvh_anim::from_bytes(&text)) {
                    Some(Ok(x)) => x,
                    _ => return viol("next-load", "after a reader panicked the same file no longer loads".to_string()),
                };
                let want = d.view();
                if view::diff_frames(&want.frames, &old.frames).is_none() {
                    view::same("next-load", &old, &view::view(&again))?;
                }
                whole(cx, &mut r, &old, &mut b, "a reader panicked")?;
            }
        }
        cx.distinct(h);
    }
    cx.sample(|| format!("{} frames of {} channels", d.frames.len(), d.num_channels()));
    Ok(())
}

fn it_panics(at: usize, n: usize) -> bool {
    at <= n
}

// ---------------------------------------------------------------- C29

/// Takes `left` bytes, then refuses.
struct Narrow {
    left: usize,
    got: String,
    refused: bool,
}
impl std::fmt::Write for Narrow {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        if s.len() > self.left {
            self.refused = true;
            return Err(std::fmt::Error);
        }
        self.left -= s.len();
        self.got.push_str(s);
        Ok(())
    }
}

/// In every form; to a target that refuses too. Shown text is returned.
macro_rules! shown {
    ($cx:expr, $r:expr, $what:expr, $x:expr, $($f:literal),+) => {{
        let mut texts: Vec<String> = vec![];
        $({
            use std::fmt::Write as _;
            let mut all = Narrow { left: usize::MAX, got: String::new(), refused: false };
            let ok = write!(all, $f, $x).is_ok();
            ensure!(ok, "formatting-fails", "{} of {} fails although nothing refused it", $f, $what);
            super::mem::text($what, &all.got);
            let again = format!($f, $x);
            ensure!(again == all.got, "formatting-unstable", "{} of {} gives two texts:\n{}\n{}", $f, $what, clip(&all.got, 300), clip(&again, 300));
            let mut n = Narrow { left: $r.below(all.got.len() + 1), got: String::new(), refused: false };
            let ok = write!(n, $f, $x).is_ok();
            ensure!(ok != n.refused, "refusal-ignored", "{} of {}: the target refused: {}, reported success: {}", $f, $what, n.refused, ok);
            ensure!(all.got.starts_with(&n.got), "not-a-prefix", "{} of {}: a target that refuses got {:?}", $f, $what, clip(&n.got, 300));
            $cx.evaluations += 1;
            $cx.see("values shown");
            if n.refused { $cx.see("refusals reported"); }
            texts.push(all.got);
        })+
        $cx.see(&format!("shown: {}", $what));
        texts
    }};
}

pub fn printed(cx: &mut Ctx) -> Res {
    let mut r = cx.rng.fork();
    if cx.case % 3 == 0 {
        // Errors.
        let bytes = match cx.case % 4 {
            0 | 1 => match super::defect::inject(&mut r) {
                Some(d) => d.bytes,
                None => return Ok(()),
            },
            2 => hostile::gen(&mut r, false).1,
            _ => hostile::gen_irregular(&mut r),
        };
        cx.set_witness(&bytes);
        let res = setup::quiet(|| bvh_anim::from_bytes(&bytes));
        if let Some(Err(e)) = res {
            let t = shown!(cx, r, "a load error", e, "{}", "{:?}", "{:#?}", "{:>40}", "{:.3}");
            ensure!(!t[0].is_empty(), "empty", "a load error is shown as nothing");
            // What the sources lead to is decided with the other properties of errors.
            errors::inspect(&e).or_else(|v| if v.sig == "no-message" || v.sig == "endless-sources" { Err(v) } else { Ok(()) })?;
            let k = e.into_kind();
            shown!(cx, r, "a load error's kind", k, "{:?}", "{:#?}");
            cx.distinct(hash_bytes(&bytes));
        }
        return Ok(());
    }
    let b = if cx.case % 50 == 1 {
        Some(Bvh::new())
    } else {
        save::any_animation(cx, true)
    };
    let mut b = match b {
        Some(b) => b,
        None => return Ok(()),
    };
    // Long listings say nothing new.
    if b.joints().count() > 300 || b.num_frames() * b.num_channels() > 20_000 {
        cx.see("too long to show often");
        let _ = (format!("{:?}", b), b.joints().map(|j| format!("{:?}", j).len()).take(50).sum::<usize>());
        return Ok(());
    }
    let before = view::view(&b);
    let t = shown!(cx, r, "an animation", b, "{:?}", "{:#?}");
    let c = b.clone();
    ensure!(format!("{:?}", c) == t[0], "clone-shown-differently", "a clone is shown as {}", clip(&format!("{:?}", c), 300));
    shown!(cx, r, "joints", b.joints(), "{:?}", "{:#?}");
    shown!(cx, r, "mutable joints", b.joints_mut(), "{:?}");
    for j in b.joints().take(12) {
        let t = shown!(cx, r, "a joint", j, "{:?}", "{:#?}");
        ensure!(!t[0].is_empty(), "empty", "a joint is shown as nothing");
        shown!(cx, r, "children", j.children(), "{:?}");
        shown!(cx, r, "a parent", j.parent(), "{:?}");
        for c in j.channels().iter().take(3) {
            shown!(cx, r, "a channel", c, "{:?}", "{:#?}");
            shown!(cx, r, "a channel type", c.channel_type(), "{}", "{:?}", "{:>20}", "{:<3}");
            shown!(cx, r, "an axis", c.channel_type().axis(), "{}", "{:?}", "{:^9}");
        }
    }
    shown!(cx, r, "frames", b.frames(), "{:?}", "{:#?}");
    shown!(cx, r, "mutable frames", b.frames_mut(), "{:?}");
    if let Some(f) = b.frames().last() {
        shown!(cx, r, "a frame", f, "{:?}", "{:#?}", "{:.2?}");
    }
    if let Some(mut f) = b.frames_mut().next() {
        shown!(cx, r, "a mutable frame", f, "{:?}", "{:.2?}");
        if let Err(e) = f.try_set_motion(usize::MAX - r.below(3), 0.0) {
            let t = shown!(cx, r, "a set error", e, "{}", "{:?}");
            ensure!(!t[0].is_empty(), "empty", "a set error is shown as nothing");
        }
    }
    {
        let n = b.num_channels() + 1 + r.below(3);
        let mut c = b.frame_cursor();
        shown!(cx, r, "a cursor", c, "{:?}", "{:#?}");
        if let Err(e) = c.try_insert_frame(&vec![0.0; n]) {
            let t = shown!(cx, r, "an insertion error", e, "{}", "{:?}");
            ensure!(!t[0].is_empty(), "empty", "an insertion error is shown as nothing");
        }
        c.move_last();
        if let Err(e) = c.remove_frame() {
            let t = shown!(cx, r, "a removal error", e, "{}", "{:?}");
            ensure!(!t[0].is_empty(), "empty", "a removal error is shown as nothing");
        }
        shown!(cx, r, "a cursor", c, "{:?}");
    }
    let o = Opt::random(&mut r);
    let w: WriteOptions = o.fields();
    shown!(cx, r, "writer options", w, "{:?}", "{:#?}");
    shown!(cx, r, "an indentation", w.indent, "{:?}");
    shown!(cx, r, "a line terminator", w.line_terminator, "{}", "{:?}");
    let name: Vec<u8> = before.joints.first().map(|j| j.name.clone()).unwrap_or_default();
    if let Err(e) = bvh_anim::ChannelType::from_bytes(&name) {
        let t = shown!(cx, r, "a channel error", e, "{}", "{:?}");
        ensure!(!t[0].is_empty(), "empty", "a channel error is shown as nothing");
    }
    view::same("showing-changes", &before, &view::view(&b))?;
    cx.distinct(hash_bytes(t[0].as_bytes()));
    cx.sample(|| t[0].clone());
    Ok(())
}
