//! C17, C18: the frame cursor against a list with an insertion point.
use crate::ctx::{viol, Ctx, Res, Violation};
use crate::model::{self, Cfg};
use crate::rng::{hash_bytes, mix, Rng};
use crate::setup;
use crate::view::{self, canon};
use bvh_anim::errors::SetMotionError;
use bvh_anim::frames::{Frame, FrameCursor, Frames, FramesMut};
use bvh_anim::Bvh;

type Row = Vec<u32>;

fn bits(f: &[f32]) -> Row {
    f.iter().map(|&x| canon(x)).collect()
}

/// What the animation should be: a list and a gap in it.
struct List {
    rows: Vec<Row>,
    at: usize,
    nch: usize,
    next: u32,
    log: Vec<String>,
}

impl List {
    fn new(b: &Bvh) -> List {
        List { rows: view::frames(b), at: 0, nch: b.num_channels(), next: 0, log: vec![] }
    }
    /// A frame no other frame equals.
    fn fresh(&mut self, r: &mut Rng) -> Vec<f32> {
        self.next += 1;
        let n = self.next;
        (0..self.nch).map(|c| if r.chance(1, 40) { setup::any_f32(r, true) } else { n as f32 * 64.0 + c as f32 + 0.25 }).collect()
    }
    fn fail<T>(&self, sig: &str, msg: String) -> Result<T, Violation> {
        let n = self.log.len();
        viol(sig, format!("after [{}]: {}", self.log[n.saturating_sub(12)..].join(", "), msg))
    }
    fn check_near(&self, c: &FrameCursor<'_>) -> Res {
        if c.index() != self.at {
            return self.fail("cursor-index", format!("index is {}, expected {}", c.index(), self.at));
        }
        if c.len() != self.rows.len() {
            return self.fail("cursor-len", format!("len is {}, expected {}", c.len(), self.rows.len()));
        }
        if c.num_channels() != self.nch {
            return self.fail("cursor-channels", format!("num_channels is {}, expected {}", c.num_channels(), self.nch));
        }
        let got = |f: Option<Frame<'_>>| f.map(|f| bits(f.as_slice()));
        let next = self.rows.get(self.at).cloned();
        let prev = self.at.checked_sub(1).and_then(|i| self.rows.get(i)).cloned();
        let (p, n) = c.surrounding_frames();
        for (what, w, g) in [
            ("peek_next", &next, got(c.peek_next())),
            ("peek_prev", &prev, got(c.peek_prev())),
            ("surrounding_frames().0", &prev, got(p)),
            ("surrounding_frames().1", &next, got(n)),
        ] {
            if *w != g {
                return self.fail("cursor-neighbours", format!("{} at {} of {} is {:?}, expected {:?}", what, self.at, self.rows.len(), g, w));
            }
        }
        Ok(())
    }
    fn check_all(&self, rows: &[Row]) -> Res {
        match view::diff_frames(&self.rows, rows) {
            None => Ok(()),
            Some((sig, m)) => self.fail(&format!("frames-{}", sig), m),
        }
    }
}

/// A lawful iterator with a loose size hint.
struct Hinted<'a> {
    rows: std::slice::Iter<'a, Vec<f32>>,
    upper: Option<usize>,
    low: bool,
}
impl<'a> Iterator for Hinted<'a> {
    type Item = &'a Vec<f32>;
    fn next(&mut self) -> Option<Self::Item> {
        self.rows.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = self.rows.len();
        (if self.low { 0 } else { n }, self.upper.map(|u| u.max(n)))
    }
}

pub fn batch<'c, 'b>(r: &mut Rng, c: &'c mut FrameCursor<'b>, rows: &[Vec<f32>], flat_ok: bool) -> (bool, &'static str) {
    let nch = c.num_channels();
    let flat: Vec<f32> = rows.iter().flatten().copied().collect();
    match r.below(7) {
        0 => (c.try_insert_frames(rows).is_ok(), "slice of Vec"),
        1 if flat_ok && nch > 0 => (c.try_insert_frames(flat.chunks(nch)).is_ok(), "chunks"),
        2 => (c.try_insert_frames(rows.iter().filter(|_| true)).is_ok(), "filter"),
        3 => {
            let upper = match r.below(4) {
                0 => None,
                1 => Some(usize::MAX),
                2 => Some(usize::MAX / 2),
                _ => Some(rows.len() + r.below(5)),
            };
            let low = r.chance(1, 2);
            (c.try_insert_frames(Hinted { rows: rows.iter(), upper, low }).is_ok(), "loose size hint")
        }
        4 => {
            let b: Vec<Box<[f32]>> = rows.iter().map(|x| x.clone().into_boxed_slice()).collect();
            (c.try_insert_frames(&b).is_ok(), "Box<[f32]>")
        }
        5 => {
            let b: Vec<&[f32]> = rows.iter().map(|x| &x[..]).collect();
            (c.try_insert_frames(b.iter()).is_ok(), "slices")
        }
        _ => {
            let b: Vec<&[f32]> = rows.iter().map(|x| &x[..]).collect();
            (c.try_insert_frames(b.iter().take_while(|_| true).copied()).is_ok(), "take_while")
        }
    }
}

pub fn single(r: &mut Rng, c: &mut FrameCursor<'_>, row: &[f32]) -> bool {
    match r.below(4) {
        0 => c.try_insert_frame(row).is_ok(),
        1 => c.try_insert_frame(&row.to_vec()).is_ok(),
        2 => c.try_insert_frame(&row.to_vec().into_boxed_slice()).is_ok(),
        _ => c.try_insert_frame(&row).is_ok(),
    }
}

fn pick_cfg(cx: &mut Ctx) -> Cfg {
    let big = cx.case % 16 == 3 && !cx.tiny;
    Cfg {
        max_joints: if big { 12 } else { 5 },
        max_frames: if big { 40 } else { 5 },
        need_channels: true,
        wild_names: false,
        unique_motion: true,
        ..Cfg::small()
    }
    .scaled(cx.case)
}

pub fn cursor(cx: &mut Ctx) -> Res {
    if cx.case % 40 == 39 {
        return no_channels(cx);
    }
    let cfg = pick_cfg(cx);
    let (d, mut b) = match setup::animation(cx, &cfg) {
        Some(x) => x,
        None => return Ok(()),
    };
    if cx.rng.chance(1, 8) {
        let _ = b.extract_frames();
    }
    let mut r = cx.rng.fork();
    // Positions beyond what sixteen bits hold.
    let far = cx.case % 20_011 == 17 && !cx.tiny && b.num_channels() <= 40;
    if far {
        let nch = b.num_channels();
        let rows: Vec<Vec<f32>> = (0..65_400 + r.below(400)).map(|i| (0..nch).map(|c| -(i as f32) - c as f32 / 64.0).collect()).collect();
        let _ = b.frame_cursor().try_insert_frames(&rows);
        cx.see("animations of more than 65,000 frames");
    }
    let skeleton = view::joints(&b);
    let time = *b.frame_time();
    let mut m = List::new(&b);
    let sessions = if cx.tiny { 2 } else { 1 + r.below(4) };
    let mut h = hash_bytes(&model::plain_text(&d));
    for _ in 0..sessions {
        m.at = 0;
        m.log.push("new cursor".into());
        let mut c = if r.chance(1, 2) { b.frame_cursor() } else { FrameCursor::from(&mut b) };
        let ops = if cx.tiny { 4 } else { 1 + r.below(14) };
        for _ in 0..ops {
            m.check_near(&c)?;
            let op = r.below(24);
            h = mix(h ^ (op as u64) << 32 ^ m.at as u64);
            cx.evaluations += 1;
            match op {
                0 | 1 | 2 => {
                    let k = if far && r.chance(1, 3) {
                        (65_530 + r.below(12)).saturating_sub(m.at) + 1
                    } else if r.chance(1, 8) {
                        1 + r.below(m.rows.len() + 2)
                    } else {
                        1
                    };
                    m.log.push(format!("move_next x{}", k));
                    for _ in 0..k {
                        c.move_next();
                    }
                    m.at = (m.at + k).min(m.rows.len());
                }
                3 => {
                    let k = if r.chance(1, 8) { 1 + r.below(m.rows.len() + 2) } else { 1 };
                    m.log.push(format!("move_prev x{}", k));
                    for _ in 0..k {
                        c.move_prev();
                    }
                    m.at = m.at.saturating_sub(k);
                }
                4 => {
                    m.log.push("move_first".into());
                    c.move_first();
                    m.at = 0;
                }
                5 | 6 => {
                    m.log.push("move_last".into());
                    c.move_last();
                    m.at = m.rows.len();
                }
                7..=11 => {
                    let row = m.fresh(&mut r);
                    m.log.push(format!("insert at {} of {}", m.at, m.rows.len()));
                    cx.see(if m.at == m.rows.len() { "insert at the end" } else if m.at == 0 { "insert at the front" } else { "insert in the middle" });
                    let ok = if r.chance(1, 3) {
                        // The chained form leaves the cursor usable.
                        c.try_insert_frame(&row).map(|c| c.index()).is_ok()
                    } else {
                        single(&mut r, &mut c, &row)
                    };
                    if !ok {
                        return m.fail("insert-refused", "inserting a frame of the right length failed".into());
                    }
                    m.rows.insert(m.at, bits(&row));
                    m.at += 1;
                }
                12..=15 => {
                    let k = if cfg.scale > 0 && r.chance(1, 4) { r.below(600) } else if r.chance(1, 30) { r.below(40) } else { r.below(5) };
                    let rows: Vec<Vec<f32>> = (0..k).map(|_| m.fresh(&mut r)).collect();
                    let at = (m.at, m.rows.len());
                    let (ok, how) = batch(&mut r, &mut c, &rows, true);
                    m.log.push(format!("insert {} frames ({}) at {} of {}", k, how, at.0, at.1));
                    cx.see(&format!("batch insert from {}", how));
                    if !ok {
                        return m.fail("insert-refused", "inserting frames of the right length failed".into());
                    }
                    for row in rows {
                        m.rows.insert(m.at, bits(&row));
                        m.at += 1;
                    }
                }
                16..=18 => {
                    m.log.push(format!("remove at {} of {}", m.at, m.rows.len()));
                    let ok = c.remove_frame().is_ok();
                    if m.at < m.rows.len() {
                        if !ok {
                            return m.fail("remove-refused", "removing the frame after the cursor failed".into());
                        }
                        m.rows.remove(m.at);
                        cx.see("remove a frame");
                    } else {
                        cx.see("remove with no frame after the cursor");
                    }
                }
                19 if r.chance(1, 3) => {
                    m.log.push("remove_all".into());
                    c.remove_all_frames();
                    m.rows.clear();
                    m.at = 0;
                    cx.see("remove all frames");
                }
                20 => {
                    m.log.push("shrink".into());
                    c.shrink_to_fit();
                }
                21 | 22 => {
                    let (what, at) = if op == 21 { ("peek_next_mut", Some(m.at)) } else { ("peek_prev_mut", m.at.checked_sub(1)) };
                    m.log.push(what.into());
                    let f = if op == 21 { c.peek_next_mut() } else { c.peek_prev_mut() };
                    let want = at.and_then(|i| m.rows.get(i)).cloned();
                    let got = f.as_ref().map(|f| bits(f.as_slice()));
                    if want != got {
                        return m.fail("cursor-neighbours", format!("{} is {:?}, expected {:?}", what, got, want));
                    }
                    if let (Some(mut f), Some(i)) = (f, at) {
                        let k = r.below(m.nch);
                        let v = setup::any_f32(&mut r, true);
                        f.as_mut_slice()[k] = v;
                        m.rows[i][k] = canon(v);
                        cx.see("write through a mutable neighbour");
                    }
                }
                _ => {
                    // Walk over everything with the cursor itself.
                    m.log.push("walk".into());
                    c.move_first();
                    let mut seen = vec![];
                    while let Some(f) = c.peek_next() {
                        seen.push(bits(f.as_slice()));
                        c.move_next();
                        if seen.len() > m.rows.len() + 2 {
                            return m.fail("walk-endless", "walking from the first frame does not reach the end".into());
                        }
                    }
                    m.check_all(&seen)?;
                    m.at = m.rows.len();
                }
            }
        }
        m.check_near(&c)?;
        if r.chance(1, 3) {
            let tail: Vec<Row> = match r.below(4) {
                0 => c.into_frames().map(|f| bits(f.as_slice())).collect(),
                1 => c.into_frames_mut().map(|f| bits(f.as_slice())).collect(),
                2 => Frames::from(c).map(|f| bits(f.as_slice())).collect(),
                _ => FramesMut::from(c).map(|f| bits(f.as_slice())).collect(),
            };
            m.log.push("into frames".into());
            if let Some((sig, msg)) = view::diff_frames(&m.rows[m.at.min(m.rows.len())..], &tail) {
                return m.fail(&format!("tail-{}", sig), msg);
            }
            cx.see("cursor turned into an iterator");
        }
        m.check_all(&view::frames(&b))?;
        if let Some((sig, msg)) = view::diff_joints(&skeleton, &view::joints(&b)) {
            return m.fail(&format!("skeleton-{}", sig), msg);
        }
        if *b.frame_time() != time {
            return m.fail("frame-time", "the frame time changed".into());
        }
        cx.see("whole animations compared");
    }
    // Nothing is hidden behind the frames.
    let raw = b.extract_frames();
    m.check_all(&raw.chunks(m.nch).map(bits).collect::<Vec<_>>())?;
    cx.max("most frames", m.rows.len() as u64);
    if cx.distinct(h) {
        let log = m.log.join(", ");
        cx.sample(|| format!("{} channels: {}", m.nch, log));
    }
    Ok(())
}

/// Without channels there are no frames; whatever is tried must not panic.
fn no_channels(cx: &mut Ctx) -> Res {
    let mut b = if cx.rng.chance(1, 2) {
        Bvh::new()
    } else {
        let text = "HIERARCHY\nROOT r\n{\nOFFSET 0 0 0\nCHANNELS 0\nEnd Site\n{\nOFFSET 1 1 1\n}\n}\nMOTION\nFrames: 0\nFrame Time: 1\n";
        match setup::load(cx, text.as_bytes()) {
            Some(b) => b,
            None => return Ok(()),
        }
    };
    let mut r = cx.rng.fork();
    let mut c = b.frame_cursor();
    for _ in 0..12 {
        cx.evaluations += 1;
        match r.below(12) {
            0 => drop(c.move_next()),
            1 => drop(c.move_prev()),
            2 => drop(c.move_first()),
            3 => drop(c.move_last()),
            4 => drop(c.try_insert_frame(&[0.0f32; 0]).is_ok()),
            5 => drop(c.try_insert_frame(&[1.0f32]).is_ok()),
            6 => drop(c.try_insert_frames([[0.0f32; 0]; 3].iter()).is_ok()),
            7 => drop(c.remove_frame().is_ok()),
            8 => drop(c.remove_all_frames()),
            9 => drop((c.peek_next(), c.peek_prev(), c.surrounding_frames())),
            10 => drop((c.peek_next_mut().is_none(), c.peek_prev_mut().is_none(), c.len(), c.index())),
            _ => c.shrink_to_fit(),
        }
    }
    cx.see("animation without channels");
    if r.chance(1, 2) {
        let _ = c.into_frames().count();
    } else {
        let _ = c.into_frames_mut().count();
    }
    Ok(())
}

/// The numbers in a message.
fn numbers(m: &str) -> Vec<usize> {
    m.split(|c: char| !c.is_ascii_digit()).filter_map(|t| t.parse().ok()).collect()
}

pub fn rejected(cx: &mut Ctx) -> Res {
    let cfg = pick_cfg(cx);
    let (d, mut b) = match setup::animation(cx, &cfg) {
        Some(x) => x,
        None => return Ok(()),
    };
    let mut r = cx.rng.fork();
    let mut h = hash_bytes(&model::plain_text(&d));
    if r.chance(1, 6) {
        b.frame_cursor().remove_all_frames();
    }
    for _ in 0..if cx.tiny { 2 } else { 6 } {
        let before = view::view(&b);
        let nf = before.frames.len();
        let nch = before.num_channels;
        let spare = b.clone();
        let mut c = b.frame_cursor();
        let at = if nf == 0 { 0 } else { r.below(nf + 1) };
        for _ in 0..at {
            c.move_next();
        }
        if c.index() != at || c.len() != nf {
            // The cursor does not get where it should: C17's business.
            cx.see("setup: cursor not in position");
            return Ok(());
        }
        let kind = r.below(4);
        h = mix(h ^ (kind as u64) << 20 ^ (at as u64));
        cx.evaluations += 1;
        let place = format!("at {} of {} frames of {} channels", at, nf, nch);
        match kind {
            0 => {
                let len = loop {
                    let n = match r.below(5) {
                        0 => 0,
                        1 => nch + 1,
                        2 => nch - 1,
                        3 => nch * 2,
                        _ => r.below(3 * nch + 3),
                    };
                    if n != nch {
                        break n;
                    }
                };
                let row: Vec<f32> = (0..len).map(|i| i as f32).collect();
                match c.try_insert_frame(&row) {
                    Ok(_) => return viol("wrong-length-accepted", format!("inserting a frame of {} values {} succeeded", len, place)),
                    Err(e) => {
                        let m = e.to_string();
                        let ns = numbers(&m);
                        ensure!(ns.contains(&len) && ns.contains(&nch), "error-content", "inserting a frame of {} values {} reports {:?}", len, place, m);
                        if m.starts_with("Attempted to insert a frame with ") {
                            ensure!(ns.first() == Some(&len), "error-content", "inserting a frame of {} values {} reports {:?}", len, place, m);
                        }
                        let _ = format!("{:?}", e);
                    }
                }
                ensure!(c.index() == at, "cursor-moved", "a rejected insertion {} moved the cursor to {}", place, c.index());
                cx.see(if len < nch { "rejected: frame too short" } else { "rejected: frame too long" });
                drop(c);
                view::same("rejected-insert", &before, &view::view(&b))?;
            }
            1 => {
                c.move_last();
                let i = c.index();
                match c.remove_frame() {
                    Ok(_) => return viol("remove-nothing-accepted", format!("removing with no frame after the cursor (index {}, {} frames) reported success", i, nf)),
                    Err(e) => {
                        let m = e.to_string();
                        ensure!(numbers(&m).contains(&i), "error-content", "removing with no frame after the cursor at {} reports {:?}", i, m);
                        let _ = format!("{:?}", e);
                    }
                }
                ensure!(c.index() == i, "cursor-moved", "a rejected removal moved the cursor from {} to {}", i, c.index());
                cx.see(if nf == 0 { "rejected: remove from an empty animation" } else { "rejected: remove at the end" });
                drop(c);
                view::same("rejected-remove", &before, &view::view(&b))?;
            }
            2 => {
                drop(c);
                if nf == 0 {
                    continue;
                }
                let f = r.below(nf);
                let idx = match r.below(4) {
                    0 => nch,
                    1 => usize::MAX,
                    2 => nch * nf,
                    _ => nch + r.below(2 * nch + 1),
                };
                let mut fr = match b.frames_mut().nth(f) {
                    Some(x) => x,
                    None => return Ok(()),
                };
                match fr.try_set_motion(idx, 12345.5) {
                    Ok(_) => return viol("set-outside-accepted", format!("setting value {} of a frame of {} values reported success", idx, nch)),
                    Err(e) => {
                        ensure!(e == SetMotionError::BadChannel(idx), "error-content", "setting value {} of a frame of {} values reports {:?}", idx, nch, e);
                        let m = e.to_string();
                        ensure!(numbers(&m).contains(&idx), "error-content", "setting value {} of a frame of {} values reports {:?}", idx, nch, m);
                    }
                }
                cx.see("rejected: set outside the frame");
                view::same("rejected-set", &before, &view::view(&b))?;
            }
            _ => {
                let k = r.below(5);
                let mut rows: Vec<Vec<f32>> = (0..k + 1 + r.below(4))
                    .map(|i| (0..nch).map(|q| 10_000.0 + (i * nch + q) as f32).collect())
                    .collect();
                match r.below(3) {
                    0 => drop(rows[k].pop()),
                    1 => rows[k].push(0.5),
                    _ => rows[k] = vec![],
                }
                let (ok, how) = batch(&mut r, &mut c, &rows, false);
                ensure!(!ok, "wrong-length-accepted", "inserting {} frames from {} {} with number {} of the wrong length succeeded", rows.len(), how, place, k);
                let (i, n) = (c.index(), c.len());
                ensure!(i <= n, "cursor-outside", "after a rejected batch the cursor is at {} of {}", i, n);
                let (p, q) = (c.peek_prev().is_some(), c.peek_next().is_some());
                ensure!(p == (i > 0) && q == (i < n), "cursor-outside", "after a rejected batch the cursor at {} of {} has neighbours {} {}", i, n, p, q);
                drop(c);
                let after = view::view(&b);
                let added = after.frames.len().wrapping_sub(nf);
                ensure!(added <= k, "batch-too-much", "a batch of {} frames {} with number {} bad left {} frames", rows.len(), place, k, after.frames.len());
                let mut want = before.clone();
                for (j, row) in rows[..added].iter().enumerate() {
                    want.frames.insert(at + j, bits(row));
                }
                view::same("rejected-batch", &want, &after)?;
                cx.see("rejected: batch with a bad frame");
                cx.see_n("frames kept from rejected batches", added as u64);
                b = spare;
            }
        }
        cx.distinct(h);
    }
    let raw = b.clone().extract_frames().len();
    ensure!(raw == b.frames().len() * b.num_channels(), "partial-frame", "{} motion values are left for {} whole frames", raw, b.frames().len());
    cx.sample(|| format!("rejected edits on:\n{}", crate::ctx::show(&model::plain_text(&d))));
    Ok(())
}
