//! C12-C16: writing.
use crate::ctx::{clip, show, viol, Ctx, Res, Violation};
use crate::io::{Fault, Sink, SinkPlan};
use crate::model::Cfg;
use crate::rng::{hash_bytes, mix, Rng};
use crate::view::{self, View};
use crate::{big, grammar, hostile, setup};
use bvh_anim::write::{IndentStyle, LineTerminator, WriteOptions};
use bvh_anim::Bvh;

#[derive(Clone, Debug)]
pub struct Opt {
    pub unit: Vec<u8>,
    pub crlf: bool,
    pub off: Option<usize>,
    pub time: Option<usize>,
    pub motion: Option<usize>,
}

fn indent(unit: &[u8]) -> IndentStyle {
    match unit.first() {
        None => IndentStyle::NoIndentation,
        Some(b'\t') => IndentStyle::Tabs,
        _ => IndentStyle::with_spaces(unit.len()),
    }
}
fn terminator(crlf: bool) -> LineTerminator {
    if crlf {
        LineTerminator::Windows
    } else {
        LineTerminator::Unix
    }
}

impl Opt {
    pub fn default_precision(r: &mut Rng) -> Opt {
        let unit = match if r.chance(1, 100) { 4 } else { *r.pick(&[0, 1, 2, 3, 5]) } {
            0 => vec![],
            1 => vec![b'\t'],
            2 => vec![b' '; 1],
            3 => vec![b' '; 4],
            4 => vec![b' '; *r.pick(&[63, 64, 65, 127, 128, 129, 255, 256, 257, 300])],
            _ => vec![b' '; 1 + r.below(9)],
        };
        Opt { unit, crlf: r.chance(1, 2), off: None, time: None, motion: None }
    }
    pub fn random(r: &mut Rng) -> Opt {
        let mut o = Opt::default_precision(r);
        let p = |r: &mut Rng| match r.below(8) {
            0 => Some(0),
            1 => Some(1),
            2 => Some(2 + r.below(5)),
            3 => Some(9),
            4 => Some(10 + r.below(50)),
            _ => None,
        };
        o.off = p(r);
        o.time = p(r);
        o.motion = p(r);
        o
    }
    /// Now and then with more decimals than any number has.
    pub fn random_for(r: &mut Rng, b: &bvh_anim::Bvh) -> Opt {
        let mut o = Opt::random(r);
        let numbers = 1 + 6 * b.joints().count() + b.frames().len() * b.num_channels();
        for k in 0..3 {
            if !r.chance(1, 12) {
                continue;
            }
            let p = match r.below(40) {
                0 => *r.pick(&[10_000, 32_767, 32_768, 65_534, 65_535, 65_536, 65_537, 70_000, 131_072]),
                1..=4 => *r.pick(&[1000, 1023, 1024, 1073, 1074, 1075, 1100, 2048, 4096]),
                5..=15 => *r.pick(&[63, 64, 65, 99, 100, 101, 127, 128, 148, 149, 150, 255, 256, 257, 300, 512]),
                16..=25 => 60 + r.below(500),
                _ => 15 + r.below(10),
            };
            if p * numbers < 3_000_000 {
                *[&mut o.off, &mut o.time, &mut o.motion][k] = Some(p);
            }
        }
        o
    }
    /// Through the builder methods, in random order, sometimes set twice.
    pub fn build(&self, r: &mut Rng) -> WriteOptions {
        let mut steps = vec![0, 1, 2, 3, 4];
        r.shuffle(&mut steps);
        let mut w = if r.chance(1, 2) { WriteOptions::new() } else { WriteOptions::default() };
        if r.chance(1, 4) {
            let junk = Opt::random(r);
            w = w
                .with_indent(indent(&junk.unit))
                .with_motion_values_significant_figures(junk.motion)
                .with_offset_significant_figures(junk.off)
                .with_frame_time_significant_figures(junk.time)
                .with_line_terminator(terminator(junk.crlf));
        }
        for s in steps {
            w = match s {
                0 => w.with_indent(indent(&self.unit)),
                1 => w.with_line_terminator(terminator(self.crlf)),
                2 => w.with_offset_significant_figures(self.off),
                3 => w.with_frame_time_significant_figures(self.time),
                _ => w.with_motion_values_significant_figures(self.motion),
            };
        }
        w
    }
    /// One setting of another.
    pub fn vary(&self, r: &mut Rng) -> Opt {
        let (mut o, x) = (self.clone(), Opt::random(r));
        match r.below(5) {
            0 => o.unit = x.unit,
            1 => o.crlf = x.crlf,
            2 => o.off = x.off,
            3 => o.time = x.time,
            _ => o.motion = x.motion,
        }
        o
    }
    pub fn same(&self, o: &Opt) -> bool {
        self.unit == o.unit && self.crlf == o.crlf && self.off == o.off && self.time == o.time && self.motion == o.motion
    }
    /// Through the public fields.
    pub fn fields(&self) -> WriteOptions {
        let mut w = WriteOptions::default();
        w.indent = indent(&self.unit);
        w.line_terminator = terminator(self.crlf);
        w.offset_significant_figures = self.off;
        w.frame_time_significant_figures = self.time;
        w.motion_values_significant_figures = self.motion;
        w
    }
}

/// An animation with a root from any source: loaded, irregular but accepted, edited.
pub fn any_animation(cx: &mut Ctx, nan: bool) -> Option<Bvh> {
    let src = cx.rng.below(6);
    let b = match src {
        0 => {
            let bytes = hostile::gen_irregular(&mut cx.rng);
            cx.set_witness(&bytes);
            match setup::quiet(|| bvh_anim::from_bytes(&bytes)) {
                Some(Ok(b)) if nan || !has_nan(&view::view(&b)) => {
                    cx.see("source: irregular file");
                    Some(b)
                }
                _ => None,
            }
        }
        1 | 2 => {
            let cfg = Cfg { wild_nums: true, ..Cfg::small() }.vast(cx.case);
            let (_, mut b) = setup::animation(cx, &cfg)?;
            let n = 1 + cx.rng.below(5);
            setup::edit(&mut cx.rng, &mut b, n, nan);
            cx.see("source: edited");
            Some(b)
        }
        3 => {
            let cfg = Cfg { wild_nums: true, ..Cfg::small() }.vast(cx.case);
            let (_, b) = setup::animation(cx, &cfg)?;
            cx.see("source: loaded, extreme numbers");
            Some(b)
        }
        _ => {
            let cfg = if cx.rng.chance(1, 6) { Cfg::medium() } else { Cfg::small() }.vast(cx.case);
            let (_, b) = setup::animation(cx, &cfg)?;
            cx.see("source: loaded");
            Some(b)
        }
    };
    b.filter(|b| b.root_joint().is_some())
}

/// ... or, now and then, one without joints.
fn any_or_bare(cx: &mut Ctx, nan: bool) -> Option<Bvh> {
    if cx.case % 150 != 149 {
        return any_animation(cx, nan);
    }
    let mut b = if cx.rng.chance(1, 2) { Bvh::new() } else { Bvh::default() };
    if cx.rng.chance(3, 4) {
        b.set_frame_time(setup::any_frame_time(&mut cx.rng));
    }
    cx.see("source: no joints");
    Some(b)
}

fn has_nan(v: &View) -> bool {
    v.frames.iter().flatten().any(|x| f32::from_bits(*x).is_nan())
        || v.joints.iter().any(|j| j.offset.iter().chain(j.end_site.iter().flatten()).any(|x| f32::from_bits(*x).is_nan()))
}

pub fn roundtrip(cx: &mut Ctx) -> Res {
    let b = match any_animation(cx, true) {
        Some(b) => b,
        None => return Ok(()),
    };
    let before = view::view(&b);
    let opt = Opt::default_precision(&mut cx.rng);
    let w = opt.build(&mut cx.rng);
    let bytes = w.write_to_string(&b);
    let back = match bvh_anim::from_bytes(&bytes) {
        Ok(x) => x,
        Err(e) => {
            return viol("written-rejected", format!("written with {:?}, the file is rejected: {}\n{}", opt, e, clip(&show(&bytes), 1500)))
        }
    };
    cx.evaluations += 1;
    let after = view::view(&back);
    if let Some((sig, m)) = view::diff(&before, &after) {
        return viol(format!("lost-{}", sig), format!("written with {:?}: {}\n{}", opt, m, clip(&show(&bytes), 1500)));
    }
    if !has_nan(&before) {
        ensure!(b == back, "unequal", "what was saved and reloaded compares unequal");
        cx.see("round trips compared by ==");
    }
    let ends_inner = before.joints.iter().any(|j| j.end_site.is_some() && before.joints.iter().any(|k| k.parent == Some(j.index)));
    if ends_inner {
        cx.see("with an end site on an inner joint");
    }
    if before.joints.iter().any(|j| j.end_site.is_none() && !before.joints.iter().any(|k| k.parent == Some(j.index))) {
        cx.see("with a leaf joint without end site");
    }
    cx.see_n("joints round-tripped", before.joints.len() as u64);
    cx.see_n("motion values round-tripped", before.frames.iter().map(|f| f.len() as u64).sum());
    cx.max("longest output", bytes.len() as u64);
    cx.distinct(hash_bytes(&bytes));
    cx.sample(|| show(&bytes));
    Ok(())
}

/// The written skeleton and counts against what the animation shows.
fn compare_structure(v: &View, o: &grammar::Out) -> Res {
    ensure!(v.joints.len() == o.joints.len(), "written-joints", "{} joints, {} written", v.joints.len(), o.joints.len());
    for (i, (j, w)) in v.joints.iter().zip(&o.joints).enumerate() {
        ensure!(j.name == w.name, "written-name", "joint {}: {:?} written as {:?}", i, show(&j.name), show(&w.name));
        ensure!(j.parent == w.parent, "written-parent", "joint {}: parent {:?}, written below {:?}", i, j.parent, w.parent);
        let ch: Vec<u8> = j.channels.iter().map(|c| c.0).collect();
        ensure!(ch == w.channels, "written-channels", "joint {}: channels {:?} written as {:?}", i, ch, w.channels);
        ensure!(j.end_site.is_some() == w.end_site.is_some(), "written-end-site", "joint {}: end site {}, written {}", i, j.end_site.is_some(), w.end_site.is_some());
    }
    ensure!(o.frames == v.frames.len(), "written-frame-count", "{} frames, \"Frames: {}\" written", v.frames.len(), o.frames);
    ensure!(o.rows.len() == v.frames.len(), "written-rows", "{} frames, {} lines written", v.frames.len(), o.rows.len());
    for (i, r) in o.rows.iter().enumerate() {
        ensure!(r.len() == v.num_channels, "written-row-width", "frame {}: {} values for {} channels", i, r.len(), v.num_channels);
    }
    Ok(())
}

fn ascii_ws_free_names(v: &View) -> bool {
    // The line-by-line reader splits at blanks; names hold none by construction of the loader.
    v.joints.iter().all(|j| !j.name.iter().any(|c| c.is_ascii_whitespace()) && !j.name.is_empty())
}

/// What a terminator says of itself.
fn terminators() -> Res {
    let (u, n) = (LineTerminator::Unix, LineTerminator::Windows);
    ensure!(u.as_bytes() == b"\n" && u.as_str() == "\n" && n.as_bytes() == b"\r\n" && n.as_str() == "\r\n", "terminator-text", "the terminators' own texts are {:?} and {:?}", u.as_str(), n.as_str());
    for t in [u, n, bvh_anim::write::LineTerminator::native(), Default::default()] {
        let esc = t.as_str().escape_default().to_string();
        ensure!(t.as_escaped_str() == esc && t.as_escaped_bytes() == esc.as_bytes(), "terminator-text", "the escaped text of {:?} is {:?}", t, t.as_escaped_str());
        ensure!(t.to_string().as_bytes() == t.as_bytes(), "terminator-text", "{:?} is displayed as {:?}", t, t.to_string());
    }
    Ok(())
}

pub fn format(cx: &mut Ctx) -> Res {
    let b = match any_or_bare(cx, true) {
        Some(b) => b,
        None => return Ok(()),
    };
    let v = view::view(&b);
    if !ascii_ws_free_names(&v) || v.frames.len() != b.frames().len() {
        return Ok(());
    }
    let opt = if cx.rng.chance(1, 2) { Opt::default_precision(&mut cx.rng) } else { Opt::random_for(&mut cx.rng, &b) };
    let bytes = opt.build(&mut cx.rng).write_to_string(&b);
    cx.evaluations += 1;
    let o = grammar::read(&bytes, &opt.unit, opt.crlf).map_err(|e| Violation {
        sig: e.sig,
        msg: format!("written with {:?}: {}\n{}", opt, e.msg, clip(&show(&bytes), 1500)),
    })?;
    compare_structure(&v, &o)?;
    cx.see_n("lines read", bytes.iter().filter(|c| **c == b'\n').count() as u64);
    cx.see_n("closing braces matched", o.joints.iter().map(|j| 1 + j.end_site.is_some() as u64).sum());
    cx.max("deepest joint", o.joints.iter().map(|j| j.depth as u64).max().unwrap_or(0));
    terminators()?;
    cx.see(if opt.crlf { "terminator: CRLF" } else { "terminator: LF" });
    cx.see(match opt.unit.first() {
        None => "indent: none",
        Some(b'\t') => "indent: tabs",
        _ => "indent: spaces",
    });
    // The closing braces of a written document, and its order, are checked; a file written by the
    // animation's own method must be in the default layout.
    let own = b.to_string();
    grammar::read(&own, b"\t", cfg!(windows)).map_err(|e| Violation {
        sig: format!("default-{}", e.sig),
        msg: format!("to_string(): {}\n{}", e.msg, clip(&show(&own), 1500)),
    })?;
    cx.distinct(hash_bytes(&bytes));
    cx.sample(|| show(&bytes));
    Ok(())
}

/// `text` must be `v` rounded to `p` decimals.
fn check_rounded(what: &str, text: &str, cands: &[String], p: usize, v: &dyn std::fmt::Debug, neg: bool) -> Res {
    let (sign, digits) = match text.strip_prefix('-') {
        Some(t) => (true, t),
        None => (false, text),
    };
    let frac = digits.split_once('.').map_or(0, |x| x.1.len());
    ensure!(frac == p && (p > 0 || !digits.contains('.')), format!("decimals-{}", what), "{} {:?} with precision {} is written as {:?}", what, v, p, text);
    ensure!(cands.iter().any(|c| c == digits), format!("rounding-{}", what), "{} {:?} with precision {} is written as {:?}, correctly rounded it is {:?}", what, v, p, text, cands);
    let zero = digits.bytes().all(|c| c == b'0' || c == b'.');
    ensure!(zero || sign == neg, format!("sign-{}", what), "{} {:?} is written as {:?}", what, v, text);
    Ok(())
}

fn check_f32(cx: &mut Ctx, what: &str, text: &str, bits: u32, p: Option<usize>) -> Res {
    let v = f32::from_bits(bits);
    match p {
        Some(p) if v.is_finite() => {
            check_rounded(what, text, &big::rounded(v as f64, p), p, &v, v.is_sign_negative())?;
            cx.see("rounded numbers checked");
        }
        _ => {
            let back = text.parse::<f32>().map(view::canon);
            ensure!(back == Ok(bits), format!("full-{}", what), "{} {:?} without precision is written as {:?}", what, v, text);
            cx.see("full-precision numbers checked");
        }
    }
    Ok(())
}

pub fn precision(cx: &mut Ctx) -> Res {
    let cfg = Cfg { max_joints: 5, max_frames: 4, wild_nums: cx.case % 3 != 0, wild_names: false, ..Cfg::small() }.scaled(cx.case);
    let (_, mut b) = match setup::animation(cx, &cfg) {
        Some(x) => x,
        None => return Ok(()),
    };
    if cx.rng.chance(1, 2) {
        setup::edit(&mut cx.rng, &mut b, 2, false);
    }
    let v = view::view(&b);
    let opt = Opt::random_for(&mut cx.rng, &b);
    let w = if cx.rng.chance(1, 2) { opt.build(&mut cx.rng) } else { opt.fields() };
    let bytes = w.write_to_string(&b);
    cx.set_witness(&bytes);
    cx.evaluations += 1;
    // Malformed output is for C13 to report.
    let o = match grammar::read(&bytes, &opt.unit, opt.crlf) {
        Ok(o) if compare_structure(&v, &o).is_ok() => o,
        _ => {
            cx.see("setup: output unreadable, case skipped");
            return Ok(());
        }
    };
    for (j, w) in v.joints.iter().zip(&o.joints) {
        for k in 0..3 {
            check_f32(cx, "offset", &w.offset[k], j.offset[k], opt.off)?;
            if let (Some(e), Some(t)) = (&j.end_site, &w.end_site) {
                check_f32(cx, "end site", &t[k], e[k], opt.off)?;
            }
        }
    }
    for (f, t) in v.frames.iter().zip(&o.rows) {
        for (x, t) in f.iter().zip(t) {
            check_f32(cx, "motion", t, *x, opt.motion)?;
        }
    }
    let secs = v.frame_time.as_secs_f64();
    match opt.time {
        Some(p) => {
            // From the exact nanoseconds or from their double-precision value.
            let mut c = big::rounded(secs, p);
            c.extend(big::rounded_ns(v.frame_time.as_nanos(), p));
            check_rounded("frame time", &o.frame_time, &c, p, &v.frame_time, false)?;
            cx.see("rounded frame times checked");
        }
        None => ensure!(o.frame_time.parse::<f64>() == Ok(secs), "full-frame-time", "frame time {:?} is written as {:?}", v.frame_time, o.frame_time),
    }
    // Nothing else changes: clearing one setting changes that field's text only.
    let mut plain = opt.clone();
    match cx.rng.below(3) {
        0 => plain.off = None,
        1 => plain.time = None,
        _ => plain.motion = None,
    }
    let p2 = plain.fields().write_to_string(&b);
    let o2 = match grammar::read(&p2, &opt.unit, opt.crlf) {
        Ok(o) if compare_structure(&v, &o).is_ok() => o,
        _ => return viol("setting-breaks-layout", format!("with {:?} the output is well-formed, with {:?} it is not", opt, plain)),
    };
    if opt.off == plain.off {
        let f = |o: &grammar::Out| o.joints.iter().map(|j| (j.offset.clone(), j.end_site.clone())).collect::<Vec<_>>();
        ensure!(f(&o) == f(&o2), "setting-touches-offsets", "offsets differ between {:?} and {:?}", opt, plain);
    }
    if opt.time == plain.time {
        ensure!(o.frame_time == o2.frame_time, "setting-touches-frame-time", "frame time differs between {:?} and {:?}", opt, plain);
    }
    if opt.motion == plain.motion {
        ensure!(o.rows == o2.rows, "setting-touches-motion", "motion values differ between {:?} and {:?}", opt, plain);
    }
    if opt.off.is_some() || opt.time.is_some() || opt.motion.is_some() {
        cx.distinct(hash_bytes(&bytes));
        cx.sample(|| format!("{:?}\n{}", opt, show(&bytes)));
    }
    cx.max("highest precision", opt.off.max(opt.time).max(opt.motion).unwrap_or(0) as u64);
    if opt.off.max(opt.time).max(opt.motion) > Some(60) {
        cx.see("more than 60 decimals");
    }
    Ok(())
}

pub fn sinks(cx: &mut Ctx) -> Res {
    let b = match any_or_bare(cx, true) {
        Some(b) => b,
        None => return Ok(()),
    };
    let opt = Opt::random_for(&mut cx.rng, &b);
    let w = opt.fields();
    let want = match setup::quiet(|| w.write_to_string(&b)) {
        Some(x) => x,
        None => return Ok(()),
    };
    cx.set_witness(&want);
    if cx.tiny && want.len() > 600 {
        return Ok(());
    }
    let use_method = cx.rng.chance(1, 3);
    let (w, want) = if use_method { (WriteOptions::default(), b.to_string()) } else { (w, want) };
    let write = |s: &mut Sink| if use_method { b.write_to(s) } else { w.write(&b, s) };
    // Sinks that take what they like.
    for (max, pct) in [(1usize, 0usize), (3, 20), (usize::MAX >> 1, 30), (1 + cx.rng.below(100), 10)] {
        let mut s = Sink::new(SinkPlan::Partial { max, interrupt_pct: pct }, cx.rng.fork());
        let r = write(&mut s);
        cx.evaluations += 1;
        if let Err(e) = r {
            return viol("write-gave-up", format!("the sink only takes up to {} bytes a call and interrupts {}% of calls; the write failed with {:?} after {} of {} bytes", max, pct, e, s.got.len(), want.len()));
        }
        ensure!(s.got == want, "sink-differs", "the write succeeded; the sink holds {} bytes that differ from the {} rendered in memory\n{}", s.got.len(), want.len(), clip(&show(&s.got), 800));
        ensure!(s.flushed_len == Some(want.len()), "not-flushed", "the write succeeded; at the last flush {:?} of {} bytes had been written", s.flushed_len, want.len());
        cx.see_n("partial writes answered", s.partials as u64);
        cx.see_n("interruptions answered", s.interrupts as u64);
        cx.see_n("write calls", s.writes as u64);
    }
    // Failures for good: at every position of a short output, at random ones of a long one.
    let h = hash_bytes(&want);
    let points: Vec<usize> = if cx.tiny { (0..6).map(|_| cx.rng.below(want.len())).collect() } else if want.len() <= 700 { (0..want.len()).collect() } else { (0..150).map(|_| cx.rng.below(want.len())).collect() };
    for at in points {
        let fault = Fault::nth(at + 7 * cx.case as usize);
        let zero = at % 11 == 10;
        let plan = if zero {
            SinkPlan::ZeroAt { cap: at }
        } else {
            SinkPlan::FailAt { cap: at, fault: fault.clone(), max: [1usize << 40, 5, 1][at % 3], interrupt_pct: if at % 5 == 0 { 15 } else { 0 } }
        };
        let mut s = Sink::new(plan.clone(), cx.rng.fork());
        let r = write(&mut s);
        cx.evaluations += 1;
        let e = match r {
            Ok(()) => return viol("failure-swallowed", format!("{:?}: the write reports success", plan)),
            Err(e) => e,
        };
        if !zero {
            let m = s.failed.clone().unwrap_or_default();
            ensure!(fault.is(&e, &m), "failure-altered", "{:?}: the write reports {:?}", plan, e);
        }
        ensure!(s.got == want[..at], "not-a-prefix", "{:?}: the sink holds {:?}, the rendering starts with {:?}", plan, clip(&show(&s.got), 300), clip(&show(&want[..at]), 300));
        cx.see("final failures reported");
        cx.see(&format!("fault kind: {}", if zero { "nothing accepted".into() } else { fault.name() }));
        cx.distinct(mix(h ^ at as u64));
    }
    let fault = Fault::nth(cx.rng.below(1000));
    let mut s = Sink::new(SinkPlan::FailFlush { fault: fault.clone() }, cx.rng.fork());
    match write(&mut s) {
        Ok(()) => return viol("flush-failure-swallowed", format!("flushing failed with {:?}, the write reports success", fault)),
        Err(e) => ensure!(fault.is(&e, &s.failed.clone().unwrap_or_default()), "flush-failure-altered", "flushing failed with {:?}, the write reports {:?}", fault, e),
    }
    ensure!(s.got == want, "sink-differs", "the flush failed; the sink holds {} bytes of {}", s.got.len(), want.len());
    cx.see("flush failures reported");
    cx.sample(|| format!("failure at every position (or 150 random ones) of the {} bytes of:\n{}", want.len(), show(&want)));
    Ok(())
}

pub fn canonical(cx: &mut Ctx) -> Res {
    let b = match any_or_bare(cx, true) {
        Some(b) => b,
        None => return Ok(()),
    };
    let opt = Opt::random_for(&mut cx.rng, &b);
    let w = opt.build(&mut cx.rng);
    let f = opt.fields();
    ensure!(w == f, "options-order", "options built as {:?}, set as {:?}", w, f);
    let a = w.write_to_string(&b);
    cx.set_witness(&a);
    cx.evaluations += 1;
    ensure!(a == w.write_to_string(&b), "twice-differs", "writing twice gives different bytes");
    ensure!(a == f.write_to_string(&b), "options-differ", "equal options write different bytes");
    ensure!(a == w.clone().write_to_string(&b.clone()), "clone-differs", "a clone is written differently");
    let mut v: Vec<u8> = vec![];
    if let Err(e) = w.write(&b, &mut v) {
        return viol("vec-write-failed", format!("writing to a Vec failed: {:?}", e));
    }
    ensure!(a == v, "write-differs", "write() and write_to_string() differ:\n{}\n{}", clip(&show(&a), 500), clip(&show(&v), 500));
    let own = b.to_string();
    let mut own2: Vec<u8> = vec![];
    ensure!(b.write_to(&mut own2).is_ok(), "vec-write-failed", "write_to a Vec failed");
    let dflt = WriteOptions::default().write_to_string(&b);
    ensure!(own == dflt && own2 == dflt, "own-method-differs", "to_string(), write_to() and default options differ");
    let differs = opt.vary(&mut cx.rng);
    let g = differs.fields();
    ensure!((f == g) == opt.same(&differs), "options-equality", "{:?} == {:?} says {}", f, g, f == g);
    ensure!(WriteOptions::new() == WriteOptions::default(), "new-is-not-default", "WriteOptions::new() differs from default()");
    // Each option is independent of the others.
    let base = Opt::random(&mut cx.rng).fields();
    let other = Opt::random(&mut cx.rng);
    let which = cx.rng.below(5);
    let got = match which {
        0 => base.clone().with_indent(indent(&other.unit)),
        1 => base.clone().with_line_terminator(terminator(other.crlf)),
        2 => base.clone().with_offset_significant_figures(other.off),
        3 => base.clone().with_frame_time_significant_figures(other.time),
        _ => base.clone().with_motion_values_significant_figures(other.motion),
    };
    let mut want = base.clone();
    match which {
        0 => want.indent = indent(&other.unit),
        1 => want.line_terminator = terminator(other.crlf),
        2 => want.offset_significant_figures = other.off,
        3 => want.frame_time_significant_figures = other.time,
        _ => want.motion_values_significant_figures = other.motion,
    }
    ensure!(got == want, "option-touches-others", "setting option {} of {:?} gives {:?}", which, base, got);
    if which >= 2 {
        let n = cx.rng.below(20);
        let got = match which {
            2 => base.clone().with_offset_significant_figures(n),
            3 => base.clone().with_frame_time_significant_figures(n),
            _ => base.clone().with_motion_values_significant_figures(n),
        };
        let f = match which {
            2 => got.offset_significant_figures,
            3 => got.frame_time_significant_figures,
            _ => got.motion_values_significant_figures,
        };
        ensure!(f == Some(n), "option-value", "option {} set to {} reads {:?}", which, n, f);
    }
    // Default precision output is a fixed point.
    let stable = Opt { off: None, time: None, motion: None, ..opt.clone() };
    let w = stable.fields();
    let one = w.write_to_string(&b);
    // Whether it loads is for C12 to say.
    if let Some(Ok(back)) = setup::quiet(|| bvh_anim::from_bytes(&one)) {
        let two = w.write_to_string(&back);
        ensure!(one == two, "rewrite-differs", "loading and writing again gives different bytes:\n{}\n{}", clip(&show(&one), 800), clip(&show(&two), 800));
        cx.see("rewritten identically");
    } else {
        cx.see("setup: output did not load");
    }
    cx.distinct(hash_bytes(&a));
    cx.sample(|| format!("{:?}\n{}", opt, show(&a)));
    Ok(())
}
