//! C24, C26, C27: results, histories and values.
use super::{edit, errors, save};
use crate::ctx::{clip, show, viol, Ctx, Res};
use crate::model::{self, Cfg, Doc, Num};
use crate::rng::{hash_bytes, mix, Rng};
use crate::view::{self, canon, View};
use crate::{hostile, setup};
use bstr::ByteSlice;
use bvh_anim::write::WriteOptions;
use bvh_anim::Bvh;
use std::time::Duration;

/// All that can be asked of an animation, in one string.
fn asked(b: &Bvh) -> String {
    if cfg!(miri) {
        // Interpreted, formatting costs more than everything else.
        let sum = b.frames().flat_map(|f| f.as_slice().iter().map(|x| canon(*x)).collect::<Vec<_>>()).fold(7, |h, x| mix(h ^ x as u64));
        let kids: Vec<usize> = b.joints().map(|j| j.children().count()).collect();
        let text = b.to_string();
        return format!("View {} {} {:?}", hash_bytes(&text), sum, kids);
    }
    let v = view::view(b);
    let kids: Vec<Vec<usize>> = setup::quiet(|| b.joints().map(|j| j.children().map(|c| c.index()).collect()).collect()).unwrap_or_default();
    let found: Vec<Option<usize>> = v.joints.iter().map(|j| b.joints().find_by_name(&j.name).map(|j| j.index())).collect();
    let tail: Vec<u32> = b.frames().rev().flat_map(|f| f.as_slice().iter().map(|x| canon(*x)).collect::<Vec<_>>()).collect();
    let text = setup::quiet(|| b.to_string());
    let short = setup::quiet(|| WriteOptions::new().with_motion_values_significant_figures(2).with_offset_significant_figures(3).write_to_string(b));
    let sunk = setup::quiet(|| {
        let mut s = vec![];
        b.write_to(&mut s).is_ok().then(|| s)
    });
    format!("{:?} {:?} {:?} {:?} {:?} {:?} {:?}", v, kids, found, tail, text, short, sunk)
}

pub fn digest(bytes: &[u8]) -> String {
    match setup::quiet(|| bvh_anim::from_bytes(bytes)) {
        None => "panicked".into(),
        Some(Err(e)) => format!("{:?} / {}", e, e),
        Some(Ok(b)) => asked(&b),
    }
}

/// The digest made by a process of its own.
fn elsewhere(bytes: &[u8]) -> String {
    use std::io::Write;
    use std::process::{Command, Stdio};
    let exe = std::env::current_exe().expect("harness: own path");
    let mut p = Command::new(exe).arg("--digest").stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().expect("harness: own process");
    let mut to = p.stdin.take().unwrap();
    let b = bytes.to_vec();
    let feed = std::thread::spawn(move || {
        let _ = to.write_all(&b);
    });
    let out = p.wait_with_output().expect("harness: own process");
    let _ = feed.join();
    if out.status.success() {
        String::from_utf8_lossy(&out.stdout).into_owned()
    } else {
        format!("ended with {:?}", out.status)
    }
}

thread_local! {
    /// What the first moments of this process made of a fixed set of inputs.
    static PROBES: std::cell::RefCell<Vec<(Vec<u8>, String)>> = const { std::cell::RefCell::new(Vec::new()) };
}

/// However much has happened since, the same few inputs give what they gave at the start.
fn probes(cx: &mut Ctx) -> Res {
    PROBES.with(|p| {
        let mut p = p.borrow_mut();
        if p.is_empty() {
            let mut r = Rng::for_case(1, "probes", 0);
            for i in 0..8 {
                let b = if i < 5 {
                    let d = model::gen_doc(&mut r, &Cfg::small());
                    model::text(&mut r, &d)
                } else {
                    hostile::gen_irregular(&mut r)
                };
                let d = digest(&b);
                p.push((b, d));
            }
        }
        let (b, want) = &p[cx.case as usize / 8 % p.len()];
        let got = digest(b);
        ensure!(
            &got == want,
            "depends-on-history",
            "an input gives another result than at the start of the process: {} instead of {}; input:\n{}",
            clip(&first_difference(&got, want), 300),
            clip(&first_difference(want, &got), 300),
            clip(&show(b), 800)
        );
        cx.evaluations += 1;
        cx.see("results equal to those at process start");
        Ok(())
    })
}

pub fn pure(cx: &mut Ctx) -> Res {
    let mut r = cx.rng.fork();
    let n = if cx.tiny { 2 } else { 12 };
    let cfg = if cx.tiny { Cfg { max_joints: 2, max_frames: 1, ..Cfg::small() } } else { Cfg { max_joints: 5, max_frames: 3, ..Cfg::small() } };
    if !cx.tiny {
        probes(cx)?;
    }
    let mut inputs: Vec<(Vec<u8>, Option<Doc>)> = vec![];
    for i in 0..n {
        let twin = i % 4 == 1 && r.chance(1, 2);
        inputs.push(match i % 4 {
            // The previous file with one digit changed: as long, and almost the same.
            1 if twin => {
                let mut b = inputs[i - 1].0.clone();
                let digits: Vec<usize> = (0..b.len()).filter(|&k| b[k].is_ascii_digit()).collect();
                // Or one letter of a name, near its end as often as not.
                let names: Vec<usize> = (0..b.len())
                    .filter(|&k| b[k].is_ascii_lowercase() && b[..k].iter().rposition(|c| *c == b'\n').map_or(false, |l| b[l..k].find("JOINT").is_some() || b[l..k].find("ROOT").is_some()))
                    .collect();
                if !names.is_empty() && r.chance(1, 3) {
                    let tails: Vec<usize> = names.iter().copied().filter(|&k| b.get(k + 1).map_or(true, |c| c.is_ascii_whitespace())).collect();
                    let k = if !tails.is_empty() && r.chance(1, 2) { *r.pick(&tails) } else { *r.pick(&names) };
                    b[k] = if b[k] == b'q' { b'r' } else { b'q' };
                } else if !digits.is_empty() {
                    let k = if r.chance(1, 2) { digits[digits.len() - 1] } else { *r.pick(&digits) };
                    b[k] = if b[k] == b'9' { b'1' } else { b[k] + 1 };
                }
                (b, None)
            }
            0 | 1 => {
                let d = model::gen_doc(&mut r, &Cfg { wild_nums: i % 3 == 0, ..cfg });
                (model::text(&mut r, &d), Some(d))
            }
            2 => (hostile::gen_irregular(&mut r), None),
            _ => match super::defect::inject(&mut r) {
                Some(d) => (d.bytes, None),
                None => (hostile::gen(&mut r, true).1, None),
            },
        });
    }
    if let Some((b, _)) = inputs.first() {
        cx.set_witness(b);
    }
    // Each alone, once.
    let base: Vec<String> = inputs.iter().map(|(b, _)| digest(b)).collect();
    for (i, (b, d)) in inputs.iter().enumerate() {
        let rejected = |s: &String| !s.starts_with("View");
        cx.see(if rejected(&base[i]) { "inputs: not loaded" } else { "inputs: loaded" });
        if let (Some(d), false) = (d, rejected(&base[i])) {
            // ... and against the file itself, so that a spoiled base is noticed.
            if let Some(b) = setup::load(cx, b) {
                let want = d.view();
                let got = view::view(&b);
                if view::diff_frames(&want.frames, &got.frames).is_none() && view::diff_joints(&want.joints, &got.joints).is_none() {
                    cx.see("results equal to the file's content");
                }
            }
        }
    }
    let differs = |how: &str, i: usize, got: &str| -> Res {
        ensure!(
            got == base[i],
            format!("depends-on-{}", how),
            "input {} gives another result {}: {} instead of {}; input:\n{}",
            i,
            how,
            clip(&first_difference(got, &base[i]), 300),
            clip(&first_difference(&base[i], got), 300),
            clip(&show(&inputs[i].0), 800)
        );
        Ok(())
    };
    // In a process of its own.
    if cx.case % 40 == 7 && !cx.tiny && !cfg!(miri) {
        for i in 0..n.min(4) {
            cx.evaluations += 1;
            differs("process", i, &elsewhere(&inputs[i].0))?;
            cx.see("results equal to those of a fresh process");
        }
    }
    // In any order, repeatedly, with failures in between.
    let mut order: Vec<usize> = if cx.tiny { (0..n).collect() } else { (0..n).chain(0..n).collect() };
    r.shuffle(&mut order);
    for &i in &order {
        cx.evaluations += 1;
        differs("history", i, &digest(&inputs[i].0))?;
    }
    // From one buffer, overwritten in place: the same address, at times the same length.
    let mut buf = vec![0u8; inputs.iter().map(|(b, _)| b.len()).max().unwrap_or(0)];
    for &i in order.iter().take(if cx.tiny { 1 } else { n }) {
        let b = &inputs[i].0;
        buf[..b.len()].copy_from_slice(b);
        cx.evaluations += 1;
        differs("history", i, &digest(&buf[..b.len()]))?;
        // Its twin, if it has one, right after it.
        for j in [i.wrapping_sub(1), i + 1] {
            if inputs.get(j).map_or(false, |t| t.0.len() == b.len()) {
                buf[..b.len()].copy_from_slice(&inputs[j].0);
                cx.evaluations += 1;
                differs("history", j, &digest(&buf[..b.len()]))?;
                cx.see("buffers changed in place");
            }
        }
    }
    // Half done and abandoned loads in between.
    for i in 0..if cx.tiny { 1 } else { n } {
        let k = r.below(n);
        let cut = r.below(inputs[k].0.len() + 1);
        let _ = digest(&inputs[k].0[..cut]);
        cx.evaluations += 1;
        differs("history", i, &digest(&inputs[i].0))?;
    }
    // Writes that fail half way, and readers and sinks that fail.
    for i in 0..if cx.tiny { 1 } else { n } {
        let k = r.below(n);
        if let Some(Some(b)) = setup::quiet(|| bvh_anim::from_bytes(&inputs[k].0).ok()) {
            let mut small = Full { left: r.below(2000) };
            let o = save::Opt::random(&mut r).fields();
            let _ = setup::quiet(|| if i % 2 == 0 { b.write_to(&mut small) } else { o.write(&b, &mut small) }.is_ok());
            cx.see("writes failed in between");
        }
        cx.evaluations += 1;
        differs("history", i, &digest(&inputs[i].0))?;
    }
    // Interleaved: two loads take turns, one line at a time.
    for _ in 0..if cx.tiny { 1 } else { 4 } {
        let (i, j) = (r.below(n), r.below(n));
        let mut nested = Nested { outer: &inputs[i].0, pos: 0, inner: &inputs[j].0, seen: vec![], most: if cx.tiny { 1 } else { 6 } };
        let got = setup::quiet(|| Bvh::from_reader(&mut nested));
        let got = match got {
            None => "panicked".into(),
            Some(Err(e)) => format!("{:?} / {}", e, e),
            Some(Ok(b)) => asked(&b),
        };
        cx.evaluations += 1;
        differs("interleaving", i, &got)?;
        for s in &nested.seen {
            differs("interleaving", j, s)?;
        }
        cx.see_n("loads nested inside another load", nested.seen.len() as u64);
    }
    // On threads, each with its own order, and on shared animations.
    let loaded: Vec<Option<Bvh>> = inputs.iter().map(|(b, _)| setup::quiet(|| bvh_anim::from_bytes(b).ok()).flatten()).collect();
    let threads = if cx.tiny { 2 } else { 4 };
    let seeds: Vec<Rng> = (0..threads).map(|_| r.fork()).collect();
    let (inputs_ref, base_ref, loaded_ref) = (&inputs, &base, &loaded);
    let results: Vec<Result<u64, (usize, String)>> = std::thread::scope(|s| {
        let hs: Vec<_> = seeds
            .into_iter()
            .map(|mut r| {
                s.spawn(move || {
                    let mut order: Vec<usize> = (0..n).collect();
                    r.shuffle(&mut order);
                    let mut done = 0;
                    for i in order {
                        let got = digest(&inputs_ref[i].0);
                        if got != base_ref[i] {
                            return Err((i, got));
                        }
                        done += 1;
                        let k = r.below(n);
                        if let Some(b) = &loaded_ref[k] {
                            let got = asked(b);
                            if got != base_ref[k] {
                                return Err((k, got));
                            }
                            done += 1;
                            if r.chance(1, 3) {
                                // A private clone may be changed without anyone else noticing.
                                let mut c = b.clone();
                                setup::edit(&mut r, &mut c, 2, false);
                            }
                        }
                    }
                    Ok(done)
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|p| std::panic::resume_unwind(p))).collect()
    });
    for x in results {
        match x {
            Ok(k) => {
                cx.evaluations += k;
                cx.see_n("results compared on threads", k);
            }
            Err((i, got)) => differs("threads", i, &got)?,
        }
    }
    for (b, _) in &inputs {
        cx.distinct(hash_bytes(b));
    }
    cx.sample(|| format!("order {:?} of {} inputs, first:\n{}", order, n, show(&inputs[0].0)));
    Ok(())
}

fn first_difference(a: &str, b: &str) -> String {
    let k = a.bytes().zip(b.bytes()).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
    let mut k = k.saturating_sub(20);
    while !a.is_char_boundary(k) {
        k -= 1;
    }
    a[k..].to_string()
}

/// A sink that fills up.
struct Full {
    left: usize,
}
impl std::io::Write for Full {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if self.left == 0 {
            return Err(std::io::ErrorKind::StorageFull.into());
        }
        let n = b.len().min(self.left);
        self.left -= n;
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Err(std::io::ErrorKind::StorageFull.into())
    }
}

/// A reader that performs a whole other load whenever it is asked for more.
struct Nested<'a> {
    outer: &'a [u8],
    pos: usize,
    inner: &'a [u8],
    seen: Vec<String>,
    most: usize,
}
impl std::io::Read for Nested<'_> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let have = std::io::BufRead::fill_buf(self)?;
        let n = have.len().min(buf.len());
        buf[..n].copy_from_slice(&have[..n]);
        std::io::BufRead::consume(self, n);
        Ok(n)
    }
}
impl std::io::BufRead for Nested<'_> {
    fn fill_buf(&mut self) -> std::io::Result<&[u8]> {
        if self.seen.len() < self.most {
            let d = digest(self.inner);
            self.seen.push(d);
        }
        let rest = &self.outer[self.pos..];
        let n = rest.iter().position(|&c| c == b'\n').map_or(rest.len(), |i| i + 1);
        Ok(&rest[..n])
    }
    fn consume(&mut self, n: usize) {
        self.pos += n;
    }
}

// ---------------------------------------------------------------- C26

struct Hist {
    want: View,
    log: Vec<String>,
}
impl Hist {
    fn check(&self, what: &str, b: &Bvh) -> Res {
        match view::diff(&self.want, &view::view(b)) {
            None => Ok(()),
            Some((sig, m)) => viol(format!("{}-{}", what, sig), format!("after [{}]: {}", self.log.join(", "), m)),
        }
    }
}

pub fn histories(cx: &mut Ctx) -> Res {
    let cfg = Cfg { wild_nums: cx.case % 3 == 0, need_channels: true, max_joints: if cx.case % 10 == 0 { 20 } else { 6 }, ..Cfg::small() }.vast(cx.case);
    let (d, mut b) = match setup::animation(cx, &cfg) {
        Some(x) => x,
        None => return Ok(()),
    };
    let nch = b.num_channels();
    if nch == 0 {
        return Ok(());
    }
    let mut h = Hist { want: view::view(&b), log: vec![] };
    let mut r = cx.rng.fork();
    let mut hash = hash_bytes(&model::plain_text(&d));
    let steps = if cx.tiny { 3 } else { 2 + r.below(10) };
    for _ in 0..steps {
        cx.evaluations += 1;
        let nf = h.want.frames.len();
        let row = |r: &mut Rng| -> Vec<f32> { (0..nch).map(|_| setup::any_f32(r, true)).collect() };
        let bits = |x: &[f32]| -> Vec<u32> { x.iter().map(|&v| canon(v)).collect() };
        let op = r.below(10);
        hash = mix(hash ^ (op as u64) << 8 ^ nf as u64);
        match op {
            0 if r.chance(1, 4) => {
                // More than a file can hold to the nanosecond: shown, and replaced before anything is saved.
                let (x, y) = (r.u64(), r.u32() as u64);
                let t = *r.pick(&[Duration::MAX, Duration::new(u64::MAX, 0), Duration::new(1 << 63, 1), Duration::from_nanos(u64::MAX), Duration::from_nanos(u64::MAX) + Duration::from_nanos(1), Duration::new(1 << 53, 999_999_999), Duration::new(x, 999_999_999), Duration::new(y, 1), Duration::new(1 << 32, 7)]);
                h.log.push(format!("set_frame_time({:?})", t));
                b.set_frame_time(t);
                h.want.frame_time = t;
                h.check("shown", &b)?;
                let c = b.clone();
                h.check("cloned", &c)?;
                let d = *r.pick(&[1u64, 1, 2, 100, 1000, 1_000_000]);
                let t = if r.chance(1, 2) { t.checked_sub(Duration::from_nanos(d)) } else { t.checked_add(Duration::from_nanos(d)) }.unwrap_or(t);
                h.log.push(format!("set_frame_time({:?})", t));
                b.set_frame_time(t);
                h.want.frame_time = t;
                h.check("shown", &b)?;
                cx.see("edit: extreme frame time");
                let t = setup::any_frame_time(&mut r);
                h.log.push(format!("set_frame_time({:?})", t));
                b.set_frame_time(t);
                h.want.frame_time = t;
            }
            0 | 1 => {
                let t = setup::new_frame_time(&mut r, h.want.frame_time);
                h.log.push(format!("set_frame_time({:?})", t));
                b.set_frame_time(t);
                h.want.frame_time = t;
                cx.see("edit: frame time");
            }
            2 | 3 if nf > 0 => {
                let (i, k) = (r.below(nf), r.below(nch));
                let v = setup::any_f32(&mut r, true);
                h.log.push(format!("frame {} value {} = {:?}", i, k, v));
                let ok = match b.frames_mut().nth(i) {
                    Some(mut f) => {
                        if r.chance(1, 2) {
                            f.as_mut_slice()[k] = v;
                            true
                        } else {
                            f.try_set_motion(k, v).is_ok()
                        }
                    }
                    None => false,
                };
                ensure!(ok, "edit-refused", "after [{}]: the frame cannot be edited", h.log.join(", "));
                h.want.frames[i][k] = canon(v);
                cx.see("edit: motion value");
            }
            4 if nf > 0 => {
                h.log.push("scale all".into());
                for (i, mut f) in b.frames_mut().enumerate() {
                    for (k, x) in f.as_mut_slice().iter_mut().enumerate() {
                        *x = (i * 31 + k) as f32 / 7.0;
                        h.want.frames[i][k] = canon(*x);
                    }
                }
                cx.see("edit: all motion values");
            }
            5 | 6 => {
                let at = r.below(nf + 1);
                let rows: Vec<Vec<f32>> = (0..1 + r.below(3)).map(|_| row(&mut r)).collect();
                h.log.push(format!("insert {} frames at {}", rows.len(), at));
                let mut c = b.frame_cursor();
                for _ in 0..at {
                    c.move_next();
                }
                let ok = if rows.len() == 1 { edit::single(&mut r, &mut c, &rows[0]) } else { edit::batch(&mut r, &mut c, &rows, true).0 };
                ensure!(ok, "edit-refused", "after [{}]: the frames are refused", h.log.join(", "));
                for (j, x) in rows.iter().enumerate() {
                    h.want.frames.insert(at + j, bits(x));
                }
                cx.see("edit: insertion");
            }
            7 if nf > 0 => {
                let at = r.below(nf);
                h.log.push(format!("remove {}", at));
                let mut c = b.frame_cursor();
                for _ in 0..at {
                    c.move_next();
                }
                ensure!(c.remove_frame().is_ok(), "edit-refused", "after [{}]: the removal is refused", h.log.join(", "));
                h.want.frames.remove(at);
                cx.see("edit: removal");
            }
            8 => {
                h.log.push("extract_frames".into());
                let raw = b.extract_frames();
                let want: Vec<u32> = h.want.frames.iter().flatten().copied().collect();
                ensure!(bits(&raw) == want, "extract-values", "after [{}]: {} values extracted, not the {} values of the frames in order", h.log.join(", "), raw.len(), want.len());
                h.want.frames.clear();
                ensure!(b.frames().len() == 0 && b.extract_frames().is_empty(), "extract-left", "after [{}]: frames are left", h.log.join(", "));
                cx.see("edit: extraction");
                if r.chance(1, 2) {
                    let back = row(&mut r);
                    h.log.push("insert".into());
                    ensure!(b.frame_cursor().try_insert_frame(&back).is_ok(), "edit-refused", "after [{}]: a frame is refused", h.log.join(", "));
                    h.want.frames.push(bits(&back));
                    cx.see("edit: insertion after extraction");
                }
            }
            _ => {
                h.log.push("remove_all".into());
                if r.chance(1, 3) {
                    b.frame_cursor().remove_all_frames();
                    h.want.frames.clear();
                    cx.see("edit: remove all");
                }
            }
        }
        h.check("shown", &b)?;
        if r.chance(1, 3) {
            saved(cx, &mut r, &h, &mut b)?;
        }
    }
    saved(cx, &mut r, &h, &mut b)?;
    if cx.distinct(hash) {
        let log = h.log.join(", ");
        cx.sample(|| log);
    }
    Ok(())
}

/// Saves, reloads, compares; sometimes goes on with the reloaded animation.
fn saved(cx: &mut Ctx, r: &mut Rng, h: &Hist, b: &mut Bvh) -> Res {
    let w = save::Opt::default_precision(r).build(r);
    let text = w.write_to_string(b);
    let again = match bvh_anim::from_bytes(&text) {
        Ok(x) => x,
        Err(e) => return viol("saved-rejected", format!("after [{}]: what was saved is rejected: {} {}", h.log.join(", "), errors::variant(&e), e)),
    };
    h.check("saved", &again)?;
    cx.see("saved and reloaded");
    if r.chance(1, 2) {
        *b = again;
        cx.see("continued from the reloaded animation");
    }
    Ok(())
}

// ---------------------------------------------------------------- C27

fn other_num(r: &mut Rng, n: &Num) -> Num {
    loop {
        let m = match r.below(4) {
            // The neighbouring single.
            0 => {
                let f = f32::from_bits(n.bits ^ 1);
                if !f.is_finite() {
                    continue;
                }
                Num::new(format!("{:?}", f))
            }
            1 => Num::new(format!("{}", -n.val())),
            _ => model::plain_num(r),
        };
        if m.val() != n.val() {
            return m;
        }
    }
}

/// The same document with one thing changed, and what that was.
fn vary(r: &mut Rng, d: &Doc) -> Option<(Doc, &'static str)> {
    let mut e = d.clone();
    let n = d.joints.len();
    let j = r.below(n);
    let what = match r.below(13) {
        0 => {
            let name = &mut e.joints[j].name;
            match r.below(4) {
                0 => name.push(b'x'),
                1 => {
                    if name.len() > 1 {
                        name.pop();
                    } else {
                        name.push(b'y')
                    }
                }
                2 => {
                    let k = r.below(name.len());
                    name[k] = if name[k] == b'q' { b'r' } else { b'q' };
                }
                _ => {
                    let c = name[0];
                    name[0] = if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else if c.is_ascii_uppercase() { c.to_ascii_lowercase() } else { b'Z' };
                }
            }
            if e.joints[j].name == d.joints[j].name {
                return None;
            }
            "a name"
        }
        1 => {
            let k = r.below(3);
            e.joints[j].offset[k] = other_num(r, &d.joints[j].offset[k]);
            "an offset component"
        }
        2 => {
            let k = r.below(3);
            let s = e.joints[j].end_site.as_mut()?;
            s[k] = other_num(r, &d.joints[j].end_site.as_ref()?[k]);
            "an end site component"
        }
        3 => {
            if e.joints[j].end_site.take().is_some() {
                "an end site removed"
            } else {
                let z = || Num::new("0".into());
                e.joints[j].end_site = Some([z(), z(), z()]);
                "an end site added"
            }
        }
        4 => {
            let k = r.below(d.joints[j].channels.len().max(1));
            let c = e.joints[j].channels.get_mut(k)?;
            *c = (*c + 1 + r.below(5) as u8) % 6;
            "a channel's type"
        }
        5 => {
            let c = &mut e.joints[j].channels;
            if c.len() < 2 {
                return None;
            }
            let (a, b) = (r.below(c.len()), r.below(c.len()));
            c.swap(a, b);
            if e.joints[j].channels == d.joints[j].channels {
                return None;
            }
            "the order of channels"
        }
        6 => {
            // A channel moves to the next joint; the total stays.
            if j + 1 >= n {
                return None;
            }
            let c = e.joints[j].channels.pop()?;
            e.joints[j + 1].channels.insert(0, c);
            "the joint of a channel"
        }
        7 => {
            let t = d.frame_time[0] + Duration::from_nanos(*r.pick(&[3, 1000, 1_000_000, 1_000_000_000]));
            e.frame_time_text = format!("{}.{:09}", t.as_secs(), t.subsec_nanos());
            e.frame_time = model::decimal_duration(&e.frame_time_text);
            if e.frame_time.iter().any(|x| d.frame_time.contains(x)) {
                return None;
            }
            "the frame time"
        }
        8 | 9 => {
            let f = r.below(d.frames.len().max(1));
            let row = e.frames.get_mut(f)?;
            if row.is_empty() {
                return None;
            }
            let k = r.below(row.len());
            row[k] = other_num(r, &d.frames[f][k]);
            "a motion value"
        }
        10 => {
            if d.num_channels() == 0 {
                return None;
            }
            if r.chance(1, 2) {
                e.frames.pop()?;
            } else {
                let row = (0..d.num_channels()).map(|_| Num::new("0".into())).collect();
                e.frames.push(row);
            }
            "the number of frames"
        }
        11 => {
            // The last joint moves to another parent.
            let dep = d.joints[n - 1].depth;
            if n < 3 {
                return None;
            }
            let max = d.joints[n - 2].depth + 1;
            let to = 1 + r.below(max);
            if to == dep {
                return None;
            }
            e.joints[n - 1].depth = to;
            "the parent of a joint"
        }
        _ => {
            // A joint without channels more, or the last one less.
            let mut x = d.joints[n - 1].clone();
            x.channels.clear();
            x.name = b"extra".to_vec();
            x.depth = d.joints[n - 1].depth.max(1);
            e.joints.push(x);
            "the number of joints"
        }
    };
    Some((e, what))
}

pub fn values(cx: &mut Ctx) -> Res {
    let cfg = Cfg { max_joints: 6, max_frames: 3, ..Cfg::small() }.vast(cx.case);
    let d = model::gen_doc(&mut cx.rng, &cfg);
    let mut r = cx.rng.fork();
    let text = model::text(&mut r, &d);
    cx.set_witness(&text);
    let b = match setup::load(cx, &text) {
        Some(b) => b,
        None => return Ok(()),
    };
    ensure!(b == b && !(b != b), "not-reflexive", "an animation does not equal itself");
    // The same content from another text.
    if let Some(c) = {
        let t = model::text(&mut r, &d);
        setup::load(cx, &t)
    } {
        ensure!(b == c && c == b && !(b != c), "equal-differs", "the same content in two layouts compares unequal");
        cx.see("equal pairs");
        cx.evaluations += 1;
    }
    // One thing different. Only what loads as written can be blamed on the comparison.
    for _ in 0..if cx.tiny { 2 } else { 6 } {
        let (e, what) = match vary(&mut r, &d) {
            Some(x) => x,
            None => continue,
        };
        let t = model::text(&mut r, &e);
        let c = match setup::load(cx, &t) {
            Some(c) => c,
            None => continue,
        };
        if view::view(&b) == view::view(&c) {
            cx.see("setup: the change did not load, skipped");
            continue;
        }
        cx.evaluations += 1;
        cx.set_witness(&[&text[..], b"\n--- and ---\n", &t[..]].concat());
        ensure!(b != c && c != b && !(b == c), format!("different-equal: {}", what), "animations that differ in {} compare equal", what);
        cx.see(&format!("unequal pairs: {}", what));
        let mut c = c;
        c.clone_from(&b);
        view::same("clone_from", &view::view(&b), &view::view(&c))?;
        ensure!(c == b || has_nan(&b), "clone-unequal", "an animation that differed in {} is not equal after clone_from", what);
        cx.see("animations overwritten by clone_from");
        cx.distinct(hash_bytes(&text) ^ mix(hash_bytes(&t)));
    }
    // Zeros of the other sign: equal, but not the same.
    let mut e = d.clone();
    let joints = e.joints.iter_mut().flat_map(|j| j.offset.iter_mut().chain(j.end_site.iter_mut().flatten()));
    for x in joints.chain(e.frames.iter_mut().flatten()).filter(|x| x.val() == 0.0) {
        *x = Num::new(if x.bits == 0 { "-0".into() } else { "0".into() });
    }
    let t = model::text(&mut r, &e);
    if let Some(mut c) = setup::load(cx, &t) {
        let (x, y) = (view::view(&b), view::view(&c));
        if numerically(&x) == numerically(&y) {
            cx.evaluations += 1;
            ensure!(b == c, "equal-differs", "animations that differ in the sign of zeros compare unequal");
            c.clone_from(&b);
            view::same("clone_from", &x, &view::view(&c))?;
            let mut k = Bvh::new();
            k.clone_from(&b);
            view::same("clone_from", &x, &view::view(&k))?;
            setup::edit(&mut r, &mut k, 2, false);
            view::same("edit-of-clone-leaks", &x, &view::view(&b))?;
            cx.see(if x == y { "animations without zeros" } else { "animations that differ in the sign of zeros" });
        }
    }
    // Clones.
    let before = view::view(&b);
    let mut orig = b;
    let mut c = orig.clone();
    ensure!(orig == c, "clone-unequal", "a clone does not equal its original");
    view::same("clone", &before, &view::view(&c))?;
    setup::edit(&mut r, &mut c, 1 + (cx.case % 5) as usize, false);
    if cx.case % 3 == 0 {
        let _ = c.extract_frames();
    }
    cx.evaluations += 1;
    view::same("edit-of-clone-leaks", &before, &view::view(&orig))?;
    let kept = view::view(&c);
    setup::edit(&mut r, &mut orig, 3, false);
    view::same("edit-of-original-leaks", &kept, &view::view(&c))?;
    let changed = view::view(&orig);
    // Values without NaN: equality of what is shown is equality.
    let alike = numerically(&changed) == numerically(&kept);
    ensure!((orig == c) == alike, "equality-inexact", "== says {}, but the shown contents are {}", orig == c, if alike { "equal" } else { "different" });
    // The smallest difference there is, made and undone.
    if r.chance(1, 4) {
        let (s, ns) = (r.u64() >> r.below(64), r.below(1_000_000_000) as u32);
        orig.set_frame_time(Duration::new(s, ns));
    }
    let t = *orig.frame_time();
    let mut near = orig.clone();
    if t < Duration::MAX {
        near.set_frame_time(t + Duration::from_nanos(1));
        ensure!(near != orig && orig != near, "different-equal: a nanosecond", "frame times {:?} and {:?} compare equal", t, near.frame_time());
        near.set_frame_time(t);
        ensure!(*near.frame_time() == t, "frame-time-not-set", "set to {:?}, the frame time is {:?}", t, near.frame_time());
        ensure!(numerically(&view::view(&orig)) != numerically(&view::view(&near)) || near == orig || has_nan(&near), "equal-differs", "an animation whose frame time was changed and changed back is unequal");
        cx.see("frame times a nanosecond apart");
    }
    parts(cx, &near, &c)?;
    drop(orig);
    view::same("drop-of-original-leaks", &kept, &view::view(&c))?;
    let copy = c.clone();
    drop(c);
    view::same("clone-of-clone", &kept, &view::view(&copy))?;
    cx.see("clones edited and compared");
    cx.sample(|| show(&text));
    Ok(())
}

fn has_nan(b: &Bvh) -> bool {
    b.frames().any(|f| f.as_slice().iter().any(|x| x.is_nan())) || b.joints().any(|j| j.offset().iter().chain(j.end_site().into_iter().flatten()).any(|x| x.is_nan()))
}

fn hashed<T: std::hash::Hash>(x: &T) -> u64 {
    use std::hash::Hasher;
    let mut h = std::collections::hash_map::DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

/// Joints, frames, channels and options on their own.
fn parts(cx: &mut Ctx, b: &Bvh, other: &Bvh) -> Res {
    for (x, y) in b.joints().zip(other.joints()).take(10) {
        let same = (x.index(), x.parent_index(), x.name(), x.offset(), x.end_site(), x.channels()) == (y.index(), y.parent_index(), y.name(), y.offset(), y.end_site(), y.channels());
        ensure!((x == y) == same && (y == x) == same, "joint-equality", "joint {:?} == {:?} says {}", x, y, x == y);
    }
    let all: Vec<_> = b.joints().take(6).collect();
    for x in &all {
        for y in &all {
            // Two different joints of one tree differ in their place at least.
            ensure!((x == y) == (x.index() == y.index()) || x.offset().iter().chain(x.end_site().into_iter().flatten()).any(|v| v.is_nan()), "joint-equality", "joints {} and {} of one tree: == says {}", x.index(), y.index(), x == y);
            cx.see("joints compared");
        }
    }
    let chans: Vec<_> = all.iter().flat_map(|j| j.channels()).copied().take(16).chain(other.joints().flat_map(|j| j.channels().to_vec()).take(8)).collect();
    for x in &chans {
        for y in &chans {
            let same = (x.channel_type(), x.motion_index()) == (y.channel_type(), y.motion_index());
            ensure!((x == y) == same, "channel-equality", "channels {:?} and {:?}: == says {}", x, y, x == y);
            ensure!(!same || hashed(x) == hashed(y), "channel-hash", "equal channels {:?} hash differently", x);
            let (s, t) = (x.channel_type(), y.channel_type());
            ensure!((s == t) == (s.as_str() == t.as_str()) && (s != t || hashed(&s) == hashed(&t)), "channel-equality", "channel types {:?} and {:?}: == says {}", s, t, s == t);
            let (s, t) = (s.axis(), t.axis());
            ensure!((s == t) == (s.vector() == t.vector()) && (s != t || hashed(&s) == hashed(&t)) && (s.cmp(&t) as i8) == -(t.cmp(&s) as i8), "axis-equality", "axes {:?} and {:?}: == says {}", s, t, s == t);
            cx.see("channels compared");
        }
    }
    for _ in 0..2 {
        let o = save::Opt::random(&mut cx.rng);
        let p = o.vary(&mut cx.rng);
        let (x, y) = (o.fields(), p.fields());
        ensure!((x == y) == o.same(&p) && (y == x) == o.same(&p), "options-equality", "{:?} == {:?} says {}", x, y, x == y);
        let z = o.fields();
        ensure!(x == z && hashed(&x) == hashed(&z) && x.clone() == x && hashed(&x.clone()) == hashed(&x), "options-hash", "options {:?} are unlike themselves", x);
        cx.see("options compared");
    }
    let rows: Vec<_> = b.frames().take(4).chain(other.frames().take(4)).collect();
    // Frames of another width that begin alike.
    let mut near: Vec<Bvh> = vec![];
    if let Some(x) = rows.first() {
        let nch = x.len();
        for n in [1, nch - 1, nch + 1] {
            if n == 0 || n == nch {
                continue;
            }
            let text = format!("HIERARCHY\nROOT r\n{{\nOFFSET 0 0 0\nCHANNELS {}{}\n}}\nMOTION\nFrames: 0\nFrame Time: 1\n", n, " Yrotation".repeat(n));
            if let Some(mut w) = setup::load(cx, text.as_bytes()) {
                let row: Vec<f32> = x.as_slice().iter().copied().chain([0.0]).take(n).collect();
                if w.frame_cursor().try_insert_frame(&row[..]).is_ok() {
                    near.push(w);
                }
            }
        }
    }
    let rows: Vec<_> = rows.into_iter().chain(near.iter().flat_map(|w| w.frames())).collect();
    for x in &rows {
        for y in &rows {
            ensure!((x == y) == (x.as_slice() == y.as_slice()), "frame-equality", "frames {:?} and {:?}: == says {}", x, y, x == y);
            cx.see("frames compared");
        }
    }
    Ok(())
}

/// Numbers as compared by ==: both zeros are one.
fn numerically(v: &View) -> String {
    let z = |b: u32| if b == 0x8000_0000 { 0 } else { b };
    let f: Vec<Vec<u32>> = v.frames.iter().map(|r| r.iter().map(|&b| z(b)).collect()).collect();
    let j: Vec<_> = v
        .joints
        .iter()
        .map(|j| (j.parent, j.name.clone(), j.offset.map(z), j.end_site.map(|e| e.map(z)), j.channels.clone()))
        .collect();
    format!("{:?} {:?} {:?} {:?}", j, v.num_channels, v.frame_time, f)
}
