//! C01-C09: loading.
use super::errors;
use crate::ctx::{clip, show, viol, Ctx, Res, Violation};
use crate::io::{Fault, FaultReader, SegReader};
use crate::model::{self, Cfg, Doc, Layout};
use crate::rng::{hash_bytes, mix, Rng};
use crate::{alloc, hostile, setup, view};
use bstr::{BStr, ByteSlice};
use bvh_anim::errors::LoadError;
use bvh_anim::Bvh;
use std::convert::TryFrom;
use std::str::FromStr;

/// Large inputs: sizes that small cases never reach.
fn huge(r: &mut Rng) -> (&'static str, Vec<u8>) {
    let mut s: Vec<u8> = vec![];
    match r.below(10) {
        0 => {
            let n = if r.chance(1, 3) { 20_000 + r.below(130_000) } else { 2000 + r.below(3000) };
            s.extend(b"HIERARCHY\nROOT r\n{\n");
            for i in 0..n {
                s.extend(format!("JOINT j{}\n{{\n", i).bytes());
            }
            let closes = n + 1 - r.below(2);
            for _ in 0..closes {
                s.extend(b"}\n");
            }
            s.extend(b"MOTION\nFrames: 0\nFrame Time: 1\n");
            ("huge-depth", s)
        }
        1 => {
            s.extend(b"HIERARCHY\nROOT r\n{\n");
            for i in 0..3000 {
                s.extend(format!("JOINT j{}\n{{\nCHANNELS 1 Xposition\n}}\n", i).bytes());
            }
            s.extend(b"}\nMOTION\nFrames: 1\nFrame Time: 1\n");
            s.extend("1 ".repeat(3000).bytes());
            ("huge-width", s)
        }
        2 => {
            let c = *r.pick(b"{}\n 0x.:-");
            s.extend(b"HIERARCHY\n");
            s.extend(std::iter::repeat(c).take(60_000 + r.below(60_000)));
            ("huge-run", s)
        }
        3 => {
            let c = *r.pick(b"{}");
            s.extend(b"HIERARCHY\nROOT r\n");
            for _ in 0..20_000 {
                s.push(c);
                s.push(b'\n');
            }
            ("huge-braces", s)
        }
        4 => {
            s.extend(b"HIERARCHY\nROOT r\n{\nOFFSET 0 0 ");
            s.extend(std::iter::repeat(b'0' + r.below(10) as u8).take(5000));
            if r.chance(1, 2) {
                s.push(b'.');
                s.extend(std::iter::repeat(b'0' + r.below(10) as u8).take(5000));
            }
            if r.chance(1, 2) {
                s.extend(format!("e{}", r.u64() as i64).bytes());
            }
            s.extend(b"\n}\nMOTION\nFrames: 0\nFrame Time: 0.1\n");
            ("huge-number", s)
        }
        5 => {
            s.extend(b"HIERARCHY\nROOT ");
            s.extend(std::iter::repeat(b'n').take(100_000));
            s.extend(b"\n{\nCHANNELS 20000");
            s.extend(" Xposition".repeat(20_000).bytes());
            s.extend(b"\n}\nMOTION\nFrames: 2\nFrame Time: 0.1\n");
            s.extend("0 ".repeat(40_000).bytes());
            ("huge-lines", s)
        }
        6 | 7 => {
            // A very long gap at one place (or several) of a small file.
            let lines = ["", "HIERARCHY", "ROOT r", "{", "OFFSET 0 0 0", "CHANNELS 1 Xposition", "JOINT a", "{", "End Site", "{", "OFFSET 1 1 1", "}", "}", "}", "MOTION", "Frames: 1", "Frame Time: 1", "0.5"];
            let cut = if r.chance(1, 3) { r.below(lines.len()) } else { lines.len() };
            let at = r.below(cut.max(1));
            for (i, l) in lines[..cut].iter().enumerate() {
                s.extend(l.bytes());
                s.push(b'\n');
                if i == at || r.chance(1, 20) {
                    let gap: &[u8] = *r.pick(&[&b"\n"[..], b"\r\n", b" \n", b"\t\t\n", b"{\n", b"}\n", b"x\n", b"0\n", b":\n"]);
                    let n = 50_000 + r.below(400_000);
                    s.extend(std::iter::repeat(gap).take(n).flatten());
                }
            }
            ("huge-gap", s)
        }
        8 => {
            let n = 20_000 + r.below(60_000);
            s.extend(b"HIERARCHY\n");
            let l: &[u8] = *r.pick(&[&b"HIERARCHY\n"[..], b"ROOT r\n", b"JOINT a\n{\n", b"End Site\n{\n", b"OFFSET 0 0 0\n", b"MOTION\n", b"Frames: 1\n", b"End Site\n{\n}\n", b"JOINT a\n{\n}\n"]);
            if r.chance(2, 3) {
                s.extend(b"ROOT r\n{\n");
            }
            let n = if l == &b"JOINT a\n{\n}\n"[..] { n / 10 } else { n };
            s.extend(std::iter::repeat(l).take(n).flatten());
            ("huge-repeat", s)
        }
        _ => {
            s.extend(b"HIERARCHY\nROOT r\n{\nCHANNELS 1 Xposition\n}\nMOTION\nFrames: 30000\nFrame Time: 0.1\n");
            s.extend("0.5\n".repeat(30_000).bytes());
            ("huge-frames", s)
        }
    }
}

pub fn never_panics(cx: &mut Ctx) -> Res {
    let (class, bytes) = if cx.case % 500 == 7 && !cx.tiny { huge(&mut cx.rng) } else { hostile::gen(&mut cx.rng, false) };
    cx.set_witness(if bytes.len() > 20_000 { &bytes[..20_000] } else { &bytes });
    cx.see(&format!("input: {}", class));
    let r = bvh_anim::from_bytes(&bytes);
    cx.evaluations += 1;
    cx.see(&format!("outcome: {}", errors::outcome(&r)));
    // The same through a monitored reader: it objects to endless reading at the end of the input.
    let mut rd = SegReader::new(&bytes, 1 + cx.rng.below(64), 5, cx.rng.fork());
    let r2 = Bvh::from_reader(&mut rd);
    cx.evaluations += 1;
    cx.max("most reads at end of input", rd.eof_reads as u64);
    ensure!(r.is_ok() == r2.is_ok(), "nondeterministic", "from_bytes: {:?}, from_reader: {:?}", r.is_ok(), r2.is_ok());
    if let Err(e) = &r {
        let _ = e.to_string();
    }
    // Non-trivial: the parser got past the HIERARCHY line, i.e. some known keyword is present.
    if bytes.find("ROOT").is_some() || bytes.find("OFFSET").is_some() || bytes.find("MOTION").is_some() || bytes.find("{").is_some() {
        cx.distinct(hash_bytes(&bytes));
        cx.sample(|| show(&bytes));
    }
    Ok(())
}

/// Files that claim far more than they hold.
fn claims(r: &mut Rng) -> Vec<u8> {
    let cfg = Cfg { max_joints: 6, max_frames: 3, need_channels: true, ..Cfg::small() };
    let d = model::gen_doc(r, &cfg);
    let mut ls = model::lines(&d);
    let big = |r: &mut Rng| -> Vec<u8> {
        let v: u64 = match r.below(4) {
            0 => 1u64 << (17 + r.below(47)),
            1 => (1u64 << (17 + r.below(47))).wrapping_sub(1),
            2 => 100_000 + r.below(1_000_000_000_000) as u64,
            _ => *r.pick(&[u64::MAX, u64::MAX / 2, u64::MAX / 4, u64::MAX / 24, 1 << 62, 1 << 61, i64::MAX as u64, 1_000_000, 50_000_000]),
        };
        v.to_string().into_bytes()
    };
    let what = r.below(3);
    for l in ls.iter_mut() {
        match l.kind {
            model::Kind::Channels(_) if what != 0 && r.chance(1, 2) => l.toks[1] = big(r),
            model::Kind::Frames if what != 1 => l.toks[1] = big(r),
            _ => {}
        }
    }
    let lay = Layout::random(r);
    model::render(r, &ls, &lay).bytes
}

const MEM_BASE: usize = 64 * 1024;
const MEM_FACTOR: usize = 256;

pub fn memory(cx: &mut Ctx) -> Res {
    let (class, bytes) = match cx.case % 16 {
        0 if !cx.tiny && cx.case % 160 == 0 => huge(&mut cx.rng),
        1..=7 => ("claims", claims(&mut cx.rng)),
        8 => {
            let d = model::gen_doc(&mut cx.rng, &Cfg { max_joints: 120, max_frames: 60, ..Cfg::small() }.huge(cx.case));
            ("valid-larger", model::text(&mut cx.rng, &d))
        }
        _ => hostile::gen(&mut cx.rng, true),
    };
    cx.set_witness(if bytes.len() > 20_000 { &bytes[..20_000] } else { &bytes });
    let base = alloc::reset_peak();
    let calls = alloc::calls();
    let r = std::panic::catch_unwind(|| Bvh::from_bytes(&bytes));
    let peak = alloc::peak().saturating_sub(base);
    cx.see_n("allocations observed", (alloc::calls() - calls) as u64);
    cx.evaluations += 1;
    cx.see(&format!("input: {}", class));
    let bound = MEM_BASE + MEM_FACTOR * bytes.len();
    ensure!(
        peak <= bound,
        "too-much-memory",
        "loading {} bytes allocated {} bytes at its peak (allowed: {} + {} per byte)",
        bytes.len(),
        peak,
        MEM_BASE,
        MEM_FACTOR
    );
    match r {
        Ok(r) => cx.see(if r.is_ok() { "load: accepted" } else { "load: rejected" }),
        // Not this property's business, unless it is an allocation that could not be made.
        Err(p) => {
            let m = p.downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| p.downcast_ref::<String>().cloned()).unwrap_or_default();
            ensure!(!m.contains("capacity overflow"), "capacity-overflow", "loading {} bytes tried to allocate beyond any bound: {}", bytes.len(), m);
            cx.see("load: panicked");
        }
    }
    cx.max("peak bytes", peak as u64);
    cx.max("peak per mille of the bound", (peak as u64) * 1000 / bound as u64);
    if bytes.len() >= 20 {
        cx.distinct(hash_bytes(&bytes));
    }
    if class == "claims" {
        cx.sample(|| show(&bytes));
    }
    Ok(())
}

fn must_load(bytes: &[u8]) -> Result<Bvh, Violation> {
    match bvh_anim::from_bytes(bytes) {
        Ok(b) => Ok(b),
        Err(e) => viol("well-formed-rejected", format!("a well-formed file was rejected: {}", clip(&e.to_string(), 300))),
    }
}

fn doc_features(cx: &mut Ctx, d: &Doc) {
    let n = d.joints.len();
    cx.see_n("joints checked", n as u64);
    cx.see_n("frames checked", d.frames.len() as u64);
    for (i, j) in d.joints.iter().enumerate() {
        let leaf = d.is_leaf(i);
        match (leaf, j.end_site.is_some()) {
            (true, true) => cx.see("leaf with end site"),
            (true, false) => cx.see("leaf without end site"),
            (false, true) => cx.see("inner joint with end site"),
            (false, false) => {}
        }
        if i == 0 && j.end_site.is_some() {
            cx.see("root with end site");
        }
        if j.channels.len() > 6 {
            cx.see("joint with more than 6 channels");
        }
        if j.name.len() > 24 {
            cx.see("name beyond inline storage");
        }
        if j.name.contains(&b':') {
            cx.see("name with a colon");
        }
        if !j.name.is_ascii() {
            cx.see("name with non-ASCII bytes");
        }
    }
    cx.max("most joints", n as u64);
    cx.max("most channels of one joint", d.joints.iter().map(|j| j.channels.len()).max().unwrap_or(0) as u64);
    cx.max("longest name", d.joints.iter().map(|j| j.name.len()).max().unwrap_or(0) as u64);
    cx.max("deepest joint", d.joints.iter().map(|j| j.depth).max().unwrap_or(0) as u64);
}

pub fn skeleton(cx: &mut Ctx) -> Res {
    let mut cfg = if cx.case % 8 == 0 { Cfg::medium() } else { Cfg::small() };
    if cx.case % 64 == 5 && !cx.tiny {
        cfg.max_joints = 150;
        cfg.max_frames = 1;
    }
    cfg = cfg.huge(cx.case);
    if cx.case % 80_021 == 77 {
        cfg.scale = 3;
    }
    let d = model::gen_doc(&mut cx.rng, &cfg);
    let bytes = model::text(&mut cx.rng, &d);
    cx.set_witness(&bytes);
    let b = must_load(&bytes)?;
    cx.evaluations += 1;
    let (want, got) = (d.view(), view::joints(&b));
    if let Some((sig, m)) = view::diff_joints(&want.joints, &got) {
        return viol(format!("skeleton-{}", sig), m);
    }
    ensure!(b.num_channels() == want.num_channels, "skeleton-num-channels", "expected {} channels, got {}", want.num_channels, b.num_channels());
    for j in b.joints() {
        ensure!(j.has_end_site() == j.end_site().is_some(), "has-end-site", "has_end_site() disagrees with end_site()");
        ensure!(j.is_child() != j.is_root(), "is-child", "is_child() disagrees with is_root()");
    }
    doc_features(cx, &d);
    if d.joints.len() > 1 {
        cx.distinct(hash_bytes(&bytes));
        cx.sample(|| show(&bytes));
    }
    Ok(())
}

pub fn numbers(cx: &mut Ctx) -> Res {
    let cfg = Cfg {
        max_joints: 6,
        max_frames: if cx.case % 16 == 0 && !cx.tiny { 60 } else { 6 },
        wild_nums: cx.case % 4 != 0,
        wild_names: false,
        ..Cfg::small()
    }
    .huge(cx.case);
    let d = model::gen_doc(&mut cx.rng, &cfg);
    let bytes = model::text(&mut cx.rng, &d);
    cx.set_witness(&bytes);
    let b = must_load(&bytes)?;
    cx.evaluations += 1;
    let (want, got) = (d.view(), view::view(&b));
    ensure!(got.joints.len() == want.joints.len(), "joint-count", "expected {} joints, got {}", want.joints.len(), got.joints.len());
    for (i, (w, g)) in want.joints.iter().zip(&got.joints).enumerate() {
        for k in 0..3 {
            ensure!(w.offset[k] == g.offset[k], "offset-value", "joint {} offset {}: {:?} loaded as {:?}", i, k, d.joints[i].offset[k].text, f32::from_bits(g.offset[k]));
        }
        if let (Some(w), Some(g)) = (&w.end_site, &g.end_site) {
            for k in 0..3 {
                ensure!(w[k] == g[k], "end-site-value", "joint {} end site {}: {:?} loaded as {:?}", i, k, d.joints[i].end_site.as_ref().unwrap()[k].text, f32::from_bits(g[k]));
            }
        }
        ensure!(w.end_site.is_some() == g.end_site.is_some(), "end-site-value", "joint {}: end site value lost or invented", i);
    }
    ensure!(got.frames.len() == want.frames.len(), "frame-count", "{} frames declared, {} loaded", want.frames.len(), got.frames.len());
    for (f, (w, g)) in want.frames.iter().zip(&got.frames).enumerate() {
        ensure!(w.len() == g.len(), "frame-len", "frame {} has {} values instead of {}", f, g.len(), w.len());
        for (c, (x, y)) in w.iter().zip(g).enumerate() {
            ensure!(x == y, "motion-value", "frame {} channel {}: {:?} loaded as {:?} instead of {:?}", f, c, d.frames[f][c].text, f32::from_bits(*y), f32::from_bits(*x));
        }
    }
    ensure!(d.frame_time.contains(&got.frame_time), "frame-time", "{:?} loaded as {:?} instead of {:?}", d.frame_time_text, got.frame_time, d.frame_time);
    let n: usize = d.frames.iter().map(|f| f.len()).sum();
    cx.see_n("motion values compared", n as u64);
    cx.max("most frames", d.frames.len() as u64);
    cx.max("most channels", want.num_channels as u64);
    cx.see_n("offset components compared", 3 * d.joints.len() as u64);
    if cfg.wild_nums {
        for x in d.frames.iter().flatten().chain(d.joints.iter().flat_map(|j| j.offset.iter())) {
            let a = x.val().abs();
            cx.see(if a.is_infinite() {
                "number: overflows to infinity"
            } else if a == 0.0 {
                "number: zero or underflows"
            } else if a < f32::MIN_POSITIVE {
                "number: subnormal"
            } else if x.text.contains(|c| c == 'e' || c == 'E') {
                "number: with exponent"
            } else if x.text.len() > 17 {
                "number: more digits than a double holds"
            } else {
                "number: other"
            });
        }
        cx.distinct(hash_bytes(&bytes));
        cx.sample(|| show(&bytes));
    }
    Ok(())
}

pub fn layout(cx: &mut Ctx) -> Res {
    let cfg = Cfg { wild_nums: cx.case % 3 == 0, ..Cfg::small() }.scaled(cx.case);
    let d = model::gen_doc(&mut cx.rng, &cfg);
    let mut ls = model::lines(&d);
    let base = model::render(&mut cx.rng, &ls, &Layout::plain()).bytes;
    let first = bvh_anim::from_bytes(&base);
    cx.evaluations += 1;
    for _ in 0..3 {
        let lay = Layout::random(&mut cx.rng);
        if cx.rng.chance(1, 4) {
            // Blanks around the colon of the frame count.
            let l = ls.iter_mut().find(|l| l.kind == model::Kind::Frames).unwrap();
            let n = d.frames.len();
            let t = match cx.rng.below(4) {
                0 => format!("Frames:{}", n),
                1 => format!("Frames : {}", n),
                2 => format!("Frames :{}", n),
                _ => format!("Frames: {}", n),
            };
            l.toks = t.split(' ').map(|t| t.as_bytes().to_vec()).collect();
        }
        let bytes = model::render(&mut cx.rng, &ls, &lay).bytes;
        if lay.gap > 0 {
            cx.see("layouts with a long gap");
        }
        cx.set_witness(&bytes);
        let other = bvh_anim::from_bytes(&bytes);
        cx.evaluations += 1;
        match (&first, &other) {
            (Ok(a), Ok(b)) => {
                view::same("layout", &view::view(a), &view::view(b))?;
                ensure!(a == b, "layout-unequal", "the layouts load to animations that compare unequal");
                cx.see("pairs compared");
            }
            (Err(_), Err(_)) => {
                cx.see("both rejected");
            }
            (a, b) => {
                return viol(
                    "layout-decides",
                    format!("plain layout: {}, layout {:?}: {}", errors::outcome(a), lay, errors::outcome(b)),
                )
            }
        }
        if bytes != base {
            cx.distinct(mix(hash_bytes(&bytes)));
            cx.sample(|| show(&bytes));
        }
    }
    Ok(())
}

pub fn sound(cx: &mut Ctx) -> Res {
    let bytes = if cx.case % 4 == 0 { hostile::gen(&mut cx.rng, true).1 } else { hostile::gen_irregular(&mut cx.rng) };
    let bytes = if cx.case % 24 == 5 { hostile::affix(&mut cx.rng, bytes) } else { bytes };
    cx.set_witness(&bytes);
    let r = setup::quiet(|| bvh_anim::from_bytes(&bytes));
    cx.evaluations += 1;
    match r {
        Some(Ok(b)) => {
            view::soundness(&b)?;
            cx.see("accepted and checked");
            cx.see_n("joints of accepted animations", b.joints().count() as u64);
            if cx.distinct(hash_bytes(&bytes)) {
                cx.sample(|| show(&bytes));
            }
        }
        Some(Err(e)) => cx.see(&format!("rejected: {}", errors::variant(&e))),
        None => cx.see("panicked"),
    }
    Ok(())
}

/// Comparable form of a result.
pub fn canon(r: &Result<Bvh, LoadError>) -> String {
    match r {
        Ok(b) => format!("{:?}", view::view(b)),
        Err(e) => format!("{:?}", e),
    }
}

pub fn entry_points(cx: &mut Ctx) -> Res {
    let bytes = match cx.case % 4 {
        0 => hostile::gen_irregular(&mut cx.rng),
        1 => hostile::gen(&mut cx.rng, false).1,
        2 => {
            // One defect, so that errors and their lines are compared too.
            let mut r = cx.rng.fork();
            super::defect::inject(&mut r).map(|d| d.bytes).unwrap_or_default()
        }
        _ => {
            let d = model::gen_doc(&mut cx.rng, &Cfg::small().scaled(cx.case));
            model::text(&mut cx.rng, &d)
        }
    };
    // What only some of the ways in might strip or stop at.
    let bytes = if cx.case % 10 == 3 { hostile::affix(&mut cx.rng, bytes) } else { bytes };
    cx.set_witness(&bytes);
    let base = Bvh::from_bytes(&bytes[..]);
    let want = canon(&base);
    let mut n = 0;
    let mut check = |how: &str, r: Result<Bvh, LoadError>| -> Res {
        n += 1;
        let got = canon(&r);
        ensure!(got == want, format!("disagrees-{}", how), "{} gives {} where from_bytes gives {}", how, clip(&got, 400), clip(&want, 400));
        if let (Ok(a), Ok(b)) = (&r, &base) {
            let nan = view::view(a).frames.iter().flatten().any(|x| f32::from_bits(*x).is_nan())
                || a.joints().any(|j| j.offset().iter().chain(j.end_site().into_iter().flatten()).any(|x| x.is_nan()));
            ensure!(nan || a == b, format!("unequal-{}", how), "{} gives an animation that compares unequal", how);
        }
        Ok(())
    };
    check("free from_bytes", bvh_anim::from_bytes(&bytes))?;
    check("from_bytes of Vec", Bvh::from_bytes(&bytes.to_vec()))?;
    check("TryFrom<&[u8]>", Bvh::try_from(&bytes[..]))?;
    check("TryFrom<&BStr>", Bvh::try_from(<&BStr>::from(&bytes[..])))?;
    check("from_reader of slice", Bvh::from_reader(&bytes[..]))?;
    check("free from_reader", bvh_anim::from_reader(&bytes[..]))?;
    if let Ok(s) = std::str::from_utf8(&bytes) {
        check("FromStr", Bvh::from_str(s))?;
        check("str::parse", s.parse::<Bvh>())?;
        check("free from_str", bvh_anim::from_str(s))?;
        check("TryFrom<&str>", Bvh::try_from(s))?;
        check("from_bytes of str", Bvh::from_bytes(s))?;
        cx.counters.entry("string entry points compared".into()).and_modify(|c| *c += 5).or_insert(5);
    }
    let few = if cx.tiny { 1 } else { 4 };
    for &seg in [1usize, 2, 1 + cx.rng.below(8), 1 + cx.rng.below(200)].iter().take(few) {
        for pct in [0, 30] {
            let mut rd = SegReader::new(&bytes, seg, pct, cx.rng.fork());
            let r = Bvh::from_reader(&mut rd);
            check("from_reader of segments", r)?;
            let (f, i) = (rd.fills as u64, rd.interrupts as u64);
            *cx.counters.entry("buffer fills delivered".into()).or_insert(0) += f;
            *cx.counters.entry("interruptions delivered".into()).or_insert(0) += i;
        }
    }
    {
        let cap = 1 + cx.rng.below(40);
        check("from_reader of BufReader", Bvh::from_reader(std::io::BufReader::with_capacity(cap, &bytes[..])))?;
        let k = cx.rng.below(bytes.len() + 1);
        use std::io::Read;
        check("from_reader of a chain", bvh_anim::from_reader((&bytes[..k]).chain(&bytes[k..])))?;
    }
    cx.evaluations += n;
    cx.see(if base.is_ok() { "inputs: accepted" } else { "inputs: rejected" });
    cx.distinct(hash_bytes(&bytes));
    cx.sample(|| show(&bytes));
    Ok(())
}

/// Every position of an ordinary file, some of a large one.
fn stride(cx: &mut Ctx, len: usize) -> (usize, usize) {
    let large = len > 6000;
    let step = if cx.tiny {
        len / 6 + 1
    } else if large {
        len / (40_000_000 / (len + 1)).clamp(20, 400) + 1
    } else {
        1
    };
    (if large { cx.rng.below(step) } else { 0 }, step)
}

pub fn faults(cx: &mut Ctx) -> Res {
    let cfg = Cfg { max_joints: if cx.case % 8 == 0 { 12 } else { 4 }, max_frames: 4, ..Cfg::small() }.scaled(cx.case);
    let d = model::gen_doc(&mut cx.rng, &cfg);
    let bytes = model::text(&mut cx.rng, &d);
    cx.set_witness(&bytes);
    if cx.tiny && bytes.len() > 400 {
        return Ok(());
    }
    cx.sample(|| format!("read fault at every one of {} positions of:\n{}", bytes.len(), show(&bytes)));
    let doc_hash = hash_bytes(&bytes);
    let (first, step) = stride(cx, bytes.len());
    for at in (first..bytes.len()).step_by(step) {
        let fault = Fault::nth(at + 7 * cx.case as usize);
        let after = ((at / 9) % 3) as u8;
        let seg = match at % 4 {
            0 => 1,
            1 => 7,
            2 => 1 + cx.rng.below(64),
            _ => bytes.len(),
        };
        let msg = format!("injected read failure {}", at);
        let mut rd = FaultReader::new(&bytes, at, fault.clone(), msg.clone(), after, seg);
        let r = Bvh::from_reader(&mut rd);
        cx.evaluations += 1;
        let place = |m: String| format!("read failed with {:?} at byte {} of {} (then {}): {}", fault, at, bytes.len(), ["fails again", "end of file", "goes on"][after as usize], m);
        ensure!(rd.fired > 0, "fault-not-reached", "{}", place("the loader returned before reading that far".into()));
        match r {
            Ok(_) => return viol("fault-swallowed", place("an animation was returned".into())),
            Err(e) => match errors::io_error(&e) {
                None => return viol("fault-misreported", place(format!("reported as {:?}", e))),
                Some(x) => {
                    ensure!(fault.is(x, &msg), "fault-altered", "{}", place(format!("reported as {:?}", x)));
                    errors::inspect(&e)?;
                    cx.see(match e.kind() {
                        bvh_anim::errors::LoadErrorKind::Joints(_) => "faults reported from the hierarchy",
                        bvh_anim::errors::LoadErrorKind::Motion(_) => "faults reported from the motion section",
                    });
                }
            },
        }
        cx.see(&format!("fault kind: {}", fault.name()));
        cx.distinct(mix(doc_hash ^ at as u64));
    }
    Ok(())
}

pub fn truncation(cx: &mut Ctx) -> Res {
    let mut cfg = Cfg { max_joints: if cx.case % 8 == 0 { 14 } else { 5 }, max_frames: 4, wild_nums: cx.case % 3 == 0, ..Cfg::small() }.scaled(cx.case);
    if cx.case % 197 == 3 {
        cfg.scale = 5;
    }
    let d = model::gen_doc(&mut cx.rng, &cfg);
    let ls = model::lines(&d);
    let lay = Layout::random(&mut cx.rng);
    let rd = model::render(&mut cx.rng, &ls, &lay);
    cx.set_witness(&rd.bytes);
    let last = rd.tok_at.iter().flatten().last().copied().unwrap();
    if cx.tiny && last.0 > 400 {
        return Ok(());
    }
    cx.sample(|| format!("cut at every one of the first {} positions of:\n{}", last.0 + 1, show(&rd.bytes)));
    let h = hash_bytes(&rd.bytes);
    let (first, step) = stride(cx, last.0);
    // The end is where least is missing.
    let end = if step > 1 && !cx.tiny { last.0.saturating_sub(60)..=last.0 } else { 1..=0 };
    for at in (first..=last.0).step_by(step).chain(end) {
        let r = setup::quiet(|| bvh_anim::from_bytes(&rd.bytes[..at]));
        cx.evaluations += 1;
        match r {
            Some(Ok(_)) => {
                return viol("cut-accepted", format!("the file cut to its first {} of {} bytes is accepted; what is left ends in {:?}", at, rd.bytes.len(), show(&rd.bytes[at.saturating_sub(40)..at])))
            }
            Some(Err(e)) => cx.see(&format!("rejected: {}", errors::variant(&e))),
            None => cx.see("panicked"),
        }
        cx.distinct(mix(h ^ at as u64));
    }
    Ok(())
}
