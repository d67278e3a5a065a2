//! Reference model of a BVH document: generation, rendering to text, and the view a loader must produce.
use crate::rng::Rng;
use crate::view::{JointView, View};
use std::time::Duration;

pub const CHANNELS: [&str; 6] =
    ["Xposition", "Yposition", "Zposition", "Xrotation", "Yrotation", "Zrotation"];

#[derive(Clone, Debug, PartialEq)]
pub struct Num {
    pub text: String,
    pub bits: u32,
}

impl Num {
    pub fn new(text: String) -> Num {
        let bits = text.parse::<f32>().expect("harness: decimal").to_bits();
        Num { text, bits }
    }
    pub fn val(&self) -> f32 {
        f32::from_bits(self.bits)
    }
}

#[derive(Clone, Debug)]
pub struct JointM {
    pub name: Vec<u8>,
    pub depth: usize,
    pub parent: Option<usize>,
    pub offset: [Num; 3],
    pub channels: Vec<u8>,
    pub end_site: Option<[Num; 3]>,
}

#[derive(Clone, Debug)]
pub struct Doc {
    /// Pre-order.
    pub joints: Vec<JointM>,
    pub frames: Vec<Vec<Num>>,
    pub frame_time_text: String,
    /// Acceptable loaded values (two only next to a half-nanosecond tie).
    pub frame_time: Vec<Duration>,
}

#[derive(Clone, Copy, Debug)]
pub struct Cfg {
    pub max_joints: usize,
    pub max_frames: usize,
    pub wild_nums: bool,
    pub wild_names: bool,
    pub min_frames: usize,
    /// At least one channel in the document.
    pub need_channels: bool,
    /// Distinct, order-revealing motion values.
    pub unique_motion: bool,
    /// 1: large in one dimension, past 256; 2: past 65,536; 3: more than 65,536 deep; 4: thousands;
    /// 5: thousands of motion values.
    pub scale: u8,
}

impl Cfg {
    pub fn small() -> Cfg {
        Cfg { max_joints: 8, max_frames: 4, wild_nums: false, wild_names: true, min_frames: 0, need_channels: false, unique_motion: false, scale: 0 }
    }
    /// Now and then large in one dimension.
    pub fn scaled(self, case: u64) -> Cfg {
        Cfg { scale: if case % 2503 == 1009 { 4 } else { (case % 211 == 7) as u8 }, ..self }
    }
    /// Rarely huge in one dimension.
    pub fn huge(self, case: u64) -> Cfg {
        Cfg { scale: if case % 40_009 == 23 { 2 } else { self.scaled(case).scale }, ..self }
    }
    /// The same without huge numbers of joints.
    pub fn vast(self, case: u64) -> Cfg {
        Cfg { scale: if case % 10_007 == 23 { 6 } else { self.scaled(case).scale }, ..self }
    }
    pub fn medium() -> Cfg {
        Cfg { max_joints: 30, max_frames: 12, ..Cfg::small() }
    }
}

// ---------------------------------------------------------------- numbers

fn digits(r: &mut Rng, n: usize) -> String {
    (0..n).map(|_| (b'0' + r.below(10) as u8) as char).collect()
}

/// Ordinary decimals.
pub fn plain_num(r: &mut Rng) -> Num {
    let neg = if r.chance(1, 3) { "-" } else { "" };
    let t = match r.below(6) {
        0 => format!("{}{}", neg, r.below(400)),
        1 => format!("{}{}.{}", neg, r.below(200), digits(r, 1)),
        2 => format!("{}{}.{}", neg, r.below(200), digits(r, 4)),
        3 => format!("{}0.{}", neg, digits(r, 6)),
        4 => format!("{}{}.{}", neg, r.below(100000), digits(r, 2)),
        _ => format!("{}{}.{}", neg, r.below(50), digits(r, 9)),
    };
    Num::new(t)
}

/// A finite single-precision bit pattern, all binades alike.
pub fn any_finite(r: &mut Rng) -> f32 {
    loop {
        let f = f32::from_bits(r.u32());
        if f.is_finite() {
            return f;
        }
    }
}

/// Decimals that provoke rounding, overflow, underflow and parsing corner cases. Each has a digit
/// before any point or exponent.
pub fn wild_num(r: &mut Rng) -> Num {
    let sign = *r.pick(&["", "", "-", "-", "+"]);
    let t = match r.below(14) {
        0 => format!("{}0", sign),
        1 => format!("{}0.{}", sign, "0".repeat(1 + r.below(60))),
        2 => format!("{}", any_finite(r)),
        3 => format!("{:e}", any_finite(r)),
        4 | 5 => {
            // Exactly half way between two neighbouring singles, or a hair off it.
            let f = any_finite(r).abs();
            let g = f32::from_bits(f.to_bits().wrapping_add(1));
            if !g.is_finite() || f == 0.0 {
                format!("{}1.5", sign)
            } else {
                let mid = (f as f64 + g as f64) / 2.0;
                let mut t = format!("{}", mid);
                if !t.contains('.') {
                    t.push_str(".0");
                }
                match r.below(3) {
                    0 => {}
                    1 => t.push_str(&format!("{}1", "0".repeat(r.below(30)))),
                    _ => {
                        // Just below: decrement the last digit, then nines.
                        let mut b = t.into_bytes();
                        let i = b.iter().rposition(|c| (b'1'..=b'9').contains(c));
                        if let Some(i) = i {
                            b[i] -= 1;
                        }
                        t = String::from_utf8(b).unwrap();
                        t.push_str("999999");
                    }
                }
                format!("{}{}", sign, t)
            }
        }
        6 => {
            let (n, m) = (1 + r.below(40), 1 + r.below(60));
            format!("{}{}.{}", sign, digits(r, n), digits(r, m))
        }
        7 => {
            let (n, m) = (1 + r.below(12), 1 + r.below(12));
            format!("{}{}.{}e{}", sign, digits(r, n), digits(r, m), r.below(80) as i64 - 60)
        }
        8 => {
            let n = 1 + r.below(9);
            format!("{}{}E+{}", sign, digits(r, n), r.below(30))
        }
        9 => format!("{}{:05}.{}", sign, r.below(1000), digits(r, 3)),
        10 => format!("{}{}", sign, digits(r, 19)),
        11 => format!("{}1e{}", sign, r.below(700) as i64 - 350),
        12 => format!("{}16777217{}", sign, *r.pick(&["", ".0", ".00000000000001"])),
        _ => format!("{}{}", sign, *r.pick(&[
            "3.4028235e38", "3.4028236e38", "340282356779733661637539395458142568447",
            "340282356779733661637539395458142568448", "1.1754944e-38", "1.1754942e-38",
            "1.4e-45", "7.006492321624085e-46", "7.006492321624086e-46", "0.1", "0.3", "2.5", "8388608.5",
            "8388609.5", "33554434", "33554435",
        ])),
    };
    Num::new(t)
}

pub fn num(r: &mut Rng, wild: bool) -> Num {
    if wild && r.chance(3, 4) {
        wild_num(r)
    } else {
        plain_num(r)
    }
}

/// A frame time literal and its acceptable values.
pub fn frame_time(r: &mut Rng, wild: bool) -> (String, Vec<Duration>) {
    if !wild || r.chance(1, 3) {
        let common = ["0.033333333", "0.0333333", "0.008333", "0.016667", "1", "0.04", "0.0", "0", "0.041667", "0.5"];
        if r.chance(1, 4) {
            // The usual rates, to so many places.
            let rate = *r.pick(&[24.0, 25.0, 30.0, 48.0, 50.0, 60.0, 72.0, 90.0, 100.0, 120.0, 144.0, 240.0, 1000.0, 29.97, 23.976, 59.94]);
            let places = 3 + r.below(if wild { 11 } else { 7 });
            let t = format!("{:.*}", places, 1.0 / rate);
            let d = decimal_duration(&t);
            return (t, d);
        }
        if r.chance(1, 2) {
            let t = r.pick(&common).to_string();
            let d = decimal_duration(&t);
            return (t, d);
        }
    }
    if wild && r.chance(1, 8) {
        return long_frame_time(r);
    }
    let secs = match r.below(5) {
        0 => 0,
        1 => r.below(10),
        2 => r.below(1000),
        3 => r.below(100_000),
        _ => r.below(1_000_000),
    };
    let nd = 1 + r.below(if wild { 14 } else { 9 });
    let mut t = format!("{}.{}", secs, digits(r, nd));
    if wild && r.chance(1, 6) {
        // The same value with a shifted exponent.
        let all: String = t.chars().filter(|c| *c != '.').collect();
        t = format!("{}e-{}", all, nd);
        let plain = format!("{}.{}", &all[..all.len() - nd], &all[all.len() - nd..]);
        return (t, decimal_duration(&plain));
    }
    if wild && r.chance(1, 10) {
        let d = decimal_duration(&t);
        return (format!("+{}", t), d);
    }
    let d = decimal_duration(&t);
    (t, d)
}

/// A frame time written at length: what counts may stand far from the start.
fn long_frame_time(r: &mut Rng) -> (String, Vec<Duration>) {
    let nd = 1 + r.below(9);
    let secs = r.below(1_000_000);
    let secs = if r.chance(1, 2) { secs % 10 } else { secs };
    let plain = format!("{}.{}", secs, digits(r, nd));
    let d = decimal_duration(&plain);
    let all: String = plain.chars().filter(|c| *c != '.').collect();
    let zeros = r.range(1, 60);
    let t = match r.below(5) {
        // Leading zeros.
        0 => format!("{}{}", "0".repeat(zeros), plain),
        // Trailing zeros.
        1 => format!("{}{}", plain, "0".repeat(zeros)),
        // The point moved right, or left, and moved back by the exponent.
        2 => format!("{}{}e-{}", all, "0".repeat(zeros), nd + zeros),
        3 => format!("0.{}{}e{}", "0".repeat(zeros), all, all.len() - nd + zeros),
        _ => {
            // Digits past the nanosecond, too small to change it.
            let z = "0".repeat(9 - nd);
            let more = 1 + r.below(40);
            let t = format!("{}{}0{}", plain, z, digits(r, more));
            return (t.clone(), decimal_duration(&t));
        }
    };
    (t, d)
}

/// Exact decimal seconds -> nanoseconds, to nearest; next to a tie both neighbours are acceptable.
pub fn decimal_duration(t: &str) -> Vec<Duration> {
    let (i, f) = t.split_once('.').unwrap_or((t, ""));
    let secs: u64 = i.parse().expect("harness: secs");
    let mut femto: u128 = 0;
    for k in 0..15 {
        let d = f.as_bytes().get(k).map(|c| (c - b'0') as u128).unwrap_or(0);
        femto = femto * 10 + d;
    }
    let ns = femto / 1_000_000;
    let rem = femto % 1_000_000;
    let mk = |ns: u128| Duration::from_secs(secs) + Duration::from_nanos(ns as u64);
    // Double precision below a million seconds errs by less than 0.12 ns.
    if (350_000..=650_000).contains(&rem) {
        vec![mk(ns), mk(ns + 1)]
    } else if rem < 500_000 {
        vec![mk(ns)]
    } else {
        vec![mk(ns + 1)]
    }
}

// ---------------------------------------------------------------- names

pub fn gen_name(r: &mut Rng, wild: bool, idx: usize) -> Vec<u8> {
    if !wild || r.chance(1, 2) {
        let base = *r.pick(&["Hips", "Chest", "LeftArm", "RightLeg", "Neck", "j", "Spine_"]);
        return format!("{}{}", base, idx).into_bytes();
    }
    match r.below(10) {
        0 => r.pick(&["JOINT", "ROOT", "End", "Site", "OFFSET", "CHANNELS", "{", "}", "MOTION", "HIERARCHY", "Frames"]).as_bytes().to_vec(),
        1 => format!("mixamorig:Bone{}", idx).into_bytes(),
        2 => {
            // Around the inline capacity of the small-string storage, and well past it.
            let n = *r.pick(&[22, 23, 24, 25, 26, 48, 49, 100, 300]);
            (0..n).map(|_| b'a' + r.below(26) as u8).collect()
        }
        3 => {
            // Arbitrary non-UTF-8, ASCII-compatible bytes.
            let n = 1 + r.below(12);
            (0..n).map(|_| *r.pick(&[0x80u8, 0xff, 0xfe, 0xc0, 0xa9, b'x', b'_', 0x00, 0x7f, 0x01])).collect()
        }
        4 => "Größe".as_bytes().to_vec(),
        5 => "骨格".as_bytes().to_vec(),
        6 => b"dup".to_vec(),
        8 => {
            // What text handling strips, though it is no ASCII whitespace.
            let odd = *r.pick(&["\u{feff}", "\u{200b}", "\u{a0}", "\u{3000}", "\u{2028}", "\u{85}", "\u{2003}", "\u{200e}", "\u{301}", "\u{0}", "\u{1f}"]);
            match r.below(4) {
                0 => odd.to_string(),
                1 => format!("{}j{}", odd, idx),
                2 => format!("j{}{}", idx, odd),
                _ => format!("a{}b{}{}", odd, idx, odd),
            }
            .into_bytes()
        }
        7 => {
            let n = 1 + r.below(6);
            (0..n).map(|_| *r.pick(b":.-_#/0123456789'\"\\")).collect()
        }
        _ => {
            let n = 1 + r.below(3);
            (0..n).map(|_| 0x21 + r.below(0x5e) as u8).collect()
        }
    }
}

// ---------------------------------------------------------------- documents

/// Set once at the start when running under an interpreter: documents stay small.
pub static TINY: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

/// What random choice hardly ever makes: zeros throughout, and things that are equal to one another.
fn coincide(r: &mut Rng, cfg: &Cfg, joints: &mut [JointM], frames: &mut [Vec<Num>]) {
    let n = joints.len();
    let same = |r: &mut Rng| -> [Num; 3] {
        let x = match r.below(8) {
            0 | 1 | 2 => "0".to_string(),
            3 => "0.0".to_string(),
            4 => "-0".to_string(),
            5 => "1".to_string(),
            6 => "-1.0".to_string(),
            _ => format!("{}", r.below(1000)),
        };
        [Num::new(x.clone()), Num::new(x.clone()), Num::new(x)]
    };
    for _ in 0..1 + r.below(n.min(12)) {
        let i = r.below(n);
        let k = if i > 0 && r.chance(1, 2) { joints[i].parent.unwrap_or(0) } else { r.below(n) };
        match r.below(8) {
            0 => joints[i].offset = same(r),
            1 | 2 if joints[i].end_site.is_some() => joints[i].end_site = Some(same(r)),
            1 | 2 => joints[i].offset[r.below(3)] = Num::new("0".into()),
            3 => joints[i].offset = joints[k].offset.clone(),
            4 if joints[i].end_site.is_some() => joints[i].end_site = Some(joints[k].offset.clone()),
            4 | 5 if joints[i].end_site.is_some() => {
                // The end site lies at the joint, or mirrors it.
                joints[i].end_site = Some(joints[i].offset.clone())
            }
            6 if cfg.wild_names && joints[k].name.len() < 100 => joints[i].name = joints[k].name.clone(),
            7 if !joints[i].channels.is_empty() => {
                let c = joints[i].channels[0];
                joints[i].channels.iter_mut().for_each(|x| *x = c);
            }
            _ => {}
        }
    }
    if cfg.unique_motion || frames.is_empty() || frames[0].is_empty() {
        return;
    }
    let (nf, nch) = (frames.len(), frames[0].len());
    match r.below(8) {
        0 => frames.iter_mut().flatten().for_each(|x| *x = Num::new("0".into())),
        1 => {
            let x = same(r)[0].clone();
            frames.iter_mut().flatten().for_each(|y| *y = x.clone());
        }
        2 => {
            let i = r.below(nf);
            frames[i].iter_mut().for_each(|x| *x = Num::new("0".into()));
        }
        3 | 4 => {
            let (i, k) = (r.below(nf), r.below(nf));
            frames[i] = frames[k].clone();
        }
        5 => {
            let first = frames[0].clone();
            frames.iter_mut().for_each(|f| *f = first.clone());
        }
        6 => {
            let i = r.below(nf);
            let x = frames[i][0].clone();
            frames[i].iter_mut().for_each(|y| *y = x.clone());
        }
        _ => {
            let k = r.below(nch);
            frames.iter_mut().for_each(|f| f[k] = Num::new("0".into()));
        }
    }
}

pub fn gen_doc(r: &mut Rng, cfg: &Cfg) -> Doc {
    let cfg = &if TINY.load(std::sync::atomic::Ordering::Relaxed) {
        Cfg { max_joints: cfg.max_joints.min(3), max_frames: cfg.max_frames.min(2).max(cfg.min_frames), scale: 0, ..*cfg }
    } else {
        *cfg
    };
    let mut n = match r.below(8) {
        0 => 1,
        1 => 2,
        2 => 1 + r.below(4),
        _ => 1 + r.below(cfg.max_joints),
    }
    .min(cfg.max_joints);
    let mut shape = r.below(5);
    let standard_ends = r.chance(2, 5);
    let mut chan_style = r.below(4);
    // Large in one dimension.
    let (mut long_name, mut many_channels, mut many_frames, mut comb, mut bulk) = (0, 0, 0, 0, 0);
    match (cfg.scale, if cfg.scale > 0 { r.below(6) } else { 0 }) {
        (0, _) => {}
        (1, 0) => n = 257 + r.below(300),
        (1, 1) => {
            shape = 0;
            n = 257 + r.below(60);
            if r.chance(1, 2) {
                // Back up from far below, to any depth.
                shape = 5;
                comb = 257 + r.below(60);
                n = comb + 2 + r.below(60);
            }
        }
        (1, 2) => many_channels = 257 + r.below(300),
        (1, 3) => many_frames = 257 + r.below(300),
        (1, 4) => long_name = 257 + r.below(2000),
        (1, _) => {
            // Many channels altogether, a few in each joint.
            n = 90 + r.below(60);
            chan_style = 0;
        }
        (4, 0) | (4, 1) => {
            n = 1000 + r.below(4500);
            // No chains: written out, they are as long as their depth squared.
            shape = if shape == 0 { 3 } else { shape };
            chan_style = *r.pick(&[0, 2]);
        }
        (4, 2) => many_channels = 1000 + r.below(9000),
        (4, 3) => many_frames = 1000 + r.below(9000),
        (4, 4) => long_name = 3000 + r.below(20_000),
        (4, _) => {
            shape = 1;
            n = 1000 + r.below(4500);
            chan_style = 2;
        }
        (2, 0) => {
            n = 65_537 + r.below(600);
            shape = 3;
            chan_style = *r.pick(&[0, 2]);
        }
        (6, 0) | (6, 1) | (2, 1) | (2, 2) => many_channels = 65_537 + r.below(600),
        (6, 2) | (6, 3) | (2, 3) | (2, 4) => many_frames = 65_537 + r.below(600),
        (6, _) | (2, _) => long_name = 65_537 + r.below(600),
        (5, _) => {
            // Many motion values: tens of frames, hundreds of channels, or the other way round.
            n = 1 + r.below(20);
            bulk = 4_000 + r.below(26_000);
            chan_style = 2;
            many_channels = 20 + r.below(400);
            many_frames = bulk / many_channels;
        }
        _ => {
            shape = 5;
            comb = 65_537 + r.below(600);
            n = comb + 1 + r.below(40);
            chan_style = 2;
        }
    }
    if many_frames > 0 && bulk == 0 {
        n = n.min(3);
        chan_style = 2;
    }
    let special = r.below(n);
    let mut joints: Vec<JointM> = vec![];
    for i in 0..n {
        let depth = if i == 0 {
            0
        } else {
            let prev = joints[i - 1].depth;
            match shape {
                0 => prev + 1,                                             // chain
                5 if i <= comb => prev + 1,                                // comb
                1 => 1,                                                    // star
                2 => if r.chance(3, 4) { prev + 1 } else { 1 + r.below(prev + 1) }, // chains with drops
                3 => if r.chance(1, 2) { (prev + 1).min(3) } else { 1 + r.below(prev.max(1)) },
                _ => 1 + r.below(prev + 1),
            }
        };
        let parent = if i == 0 {
            None
        } else if depth == 1 {
            Some(0)
        } else {
            Some(joints.iter().rposition(|j| j.depth + 1 == depth).unwrap())
        };
        let nch = match chan_style {
            0 => if i == 0 { 6 } else { 3 },
            1 => r.below(10),
            2 => *r.pick(&[0, 0, 1, 3]),
            _ => *r.pick(&[3, 3, 3, 6, 1, 2, 0, 4, 5, 7, 9, 12]),
        };
        let mut channels: Vec<u8> = (0..nch).map(|_| r.below(6) as u8).collect();
        if chan_style == 0 {
            let all: Vec<u8> = if i == 0 { vec![0, 1, 2, 5, 3, 4] } else { vec![5, 3, 4] };
            channels = all;
        }
        if many_channels > 0 && i == special {
            channels = (0..many_channels).map(|_| r.below(6) as u8).collect();
        }
        let mut name = gen_name(r, cfg.wild_names, i);
        if long_name > 0 && i == special {
            name = (0..long_name).map(|_| if cfg.wild_names && r.chance(1, 3) { *r.pick(&[0x80u8, 0xff, 0xc3, b':']) } else { b'a' + r.below(26) as u8 }).collect();
        }
        joints.push(JointM {
            name,
            depth,
            parent,
            offset: [num(r, cfg.wild_nums), num(r, cfg.wild_nums), num(r, cfg.wild_nums)],
            channels,
            end_site: None,
        });
    }
    for i in 0..n {
        let leaf = i + 1 == n || joints[i + 1].depth <= joints[i].depth;
        let has = if standard_ends {
            leaf
        } else if leaf {
            r.chance(4, 5)
        } else {
            r.chance(1, 6)
        };
        if has {
            joints[i].end_site = Some([num(r, cfg.wild_nums), num(r, cfg.wild_nums), num(r, cfg.wild_nums)]);
        }
    }
    if (cfg.need_channels || many_frames > 0) && joints.iter().all(|j| j.channels.is_empty()) {
        let k = r.below(n);
        joints[k].channels = vec![r.below(6) as u8];
    }
    let nch: usize = joints.iter().map(|j| j.channels.len()).sum();
    let nf = if nch == 0 { 0 } else if many_frames > 0 { many_frames } else if cfg.scale > 1 { cfg.min_frames.max(1) } else { r.range(cfg.min_frames, cfg.max_frames.max(cfg.min_frames)) };
    let mut k = 0u32;
    let base = r.below(1000) as u32;
    let mut frames: Vec<Vec<Num>> = (0..nf)
        .map(|_| {
            (0..nch)
                .map(|_| {
                    k += 1;
                    if cfg.unique_motion {
                        Num::new(format!("{}.5", base + k))
                    } else {
                        num(r, cfg.wild_nums)
                    }
                })
                .collect()
        })
        .collect();
    if r.chance(1, 4) {
        coincide(r, cfg, &mut joints, &mut frames);
    }
    let (frame_time_text, frame_time) = frame_time(r, cfg.wild_nums);
    Doc { joints, frames, frame_time_text, frame_time }
}

impl Doc {
    pub fn num_channels(&self) -> usize {
        self.joints.iter().map(|j| j.channels.len()).sum()
    }
    pub fn is_leaf(&self, i: usize) -> bool {
        i + 1 >= self.joints.len() || self.joints[i + 1].depth <= self.joints[i].depth
    }
    /// What loading this document must produce.
    pub fn view(&self) -> View {
        let mut idx = 0usize;
        let joints = self
            .joints
            .iter()
            .enumerate()
            .map(|(i, j)| JointView {
                index: i,
                parent: j.parent,
                name: j.name.clone(),
                offset: [j.offset[0].bits, j.offset[1].bits, j.offset[2].bits],
                end_site: j.end_site.as_ref().map(|e| [e[0].bits, e[1].bits, e[2].bits]),
                channels: j
                    .channels
                    .iter()
                    .map(|&c| {
                        idx += 1;
                        (c, idx - 1)
                    })
                    .collect(),
                is_root: i == 0,
            })
            .collect();
        View {
            joints,
            num_channels: idx,
            frame_time: self.frame_time[0],
            frames: self.frames.iter().map(|f| f.iter().map(|n| n.bits).collect()).collect(),
        }
    }
    /// Number of nesting-relevant facts, for non-triviality rules.
    pub fn branching(&self) -> bool {
        let mut kids = vec![0; self.joints.len()];
        for j in &self.joints {
            if let Some(p) = j.parent {
                kids[p] += 1;
            }
        }
        kids.iter().any(|&k| k > 1)
    }
}

// ---------------------------------------------------------------- lines

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
    Hierarchy,
    Header(usize),
    Open(usize),
    Offset(usize),
    Channels(usize),
    End(usize),
    EndOpen(usize),
    EndOffset(usize),
    EndClose(usize),
    Close(usize),
    Motion,
    Frames,
    FrameTime,
    Row(usize),
    /// Added by a defect injector.
    Extra,
}

#[derive(Clone, Debug)]
pub struct Line {
    pub kind: Kind,
    pub depth: usize,
    pub toks: Vec<Vec<u8>>,
}

fn t(s: &str) -> Vec<u8> {
    s.as_bytes().to_vec()
}

pub fn line(kind: Kind, depth: usize, toks: Vec<Vec<u8>>) -> Line {
    Line { kind, depth, toks }
}

pub fn lines(d: &Doc) -> Vec<Line> {
    let mut out = vec![line(Kind::Hierarchy, 0, vec![t("HIERARCHY")])];
    let mut open: Vec<usize> = vec![];
    let off = |o: &[Num; 3]| vec![t("OFFSET"), t(&o[0].text), t(&o[1].text), t(&o[2].text)];
    for (i, j) in d.joints.iter().enumerate() {
        while let Some(&top) = open.last() {
            if d.joints[top].depth >= j.depth {
                out.push(line(Kind::Close(top), d.joints[top].depth, vec![t("}")]));
                open.pop();
            } else {
                break;
            }
        }
        let dep = j.depth;
        out.push(line(Kind::Header(i), dep, vec![t(if i == 0 { "ROOT" } else { "JOINT" }), j.name.clone()]));
        out.push(line(Kind::Open(i), dep, vec![t("{")]));
        out.push(line(Kind::Offset(i), dep + 1, off(&j.offset)));
        let mut ch = vec![t("CHANNELS"), t(&j.channels.len().to_string())];
        ch.extend(j.channels.iter().map(|&c| t(CHANNELS[c as usize])));
        out.push(line(Kind::Channels(i), dep + 1, ch));
        if let Some(e) = &j.end_site {
            out.push(line(Kind::End(i), dep + 1, vec![t("End"), t("Site")]));
            out.push(line(Kind::EndOpen(i), dep + 1, vec![t("{")]));
            out.push(line(Kind::EndOffset(i), dep + 2, off(e)));
            out.push(line(Kind::EndClose(i), dep + 1, vec![t("}")]));
        }
        open.push(i);
    }
    while let Some(top) = open.pop() {
        out.push(line(Kind::Close(top), d.joints[top].depth, vec![t("}")]));
    }
    out.push(line(Kind::Motion, 0, vec![t("MOTION")]));
    out.push(line(Kind::Frames, 0, vec![t("Frames:"), t(&d.frames.len().to_string())]));
    out.push(line(Kind::FrameTime, 0, vec![t("Frame"), t("Time:"), t(&d.frame_time_text)]));
    for (f, row) in d.frames.iter().enumerate() {
        out.push(line(Kind::Row(f), 0, row.iter().map(|n| t(&n.text)).collect()));
    }
    out
}

// ---------------------------------------------------------------- layout

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Eol {
    Lf,
    Crlf,
    Mixed,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Indent {
    None,
    Tabs,
    Spaces(usize),
    Random,
}
#[derive(Clone, Copy, Debug)]
pub struct Layout {
    pub eol: Eol,
    pub indent: Indent,
    /// Blank (or whitespace-only) lines between lines, in percent.
    pub blank: usize,
    /// Random separators between tokens.
    pub wide: bool,
    /// Trailing whitespace, in percent of lines.
    pub trailing: usize,
    pub final_newline: bool,
    /// So many blanks, or blank lines, at one place.
    pub gap: usize,
    /// 0: those are blank lines.
    pub gap_kind: Option<usize>,
}

impl Layout {
    pub fn plain() -> Layout {
        Layout { eol: Eol::Lf, indent: Indent::Spaces(2), blank: 0, wide: false, trailing: 0, final_newline: true, gap: 0, gap_kind: None }
    }
    pub fn random(r: &mut Rng) -> Layout {
        Layout {
            eol: *r.pick(&[Eol::Lf, Eol::Lf, Eol::Crlf, Eol::Mixed]),
            indent: match r.below(5) {
                0 => Indent::None,
                1 => Indent::Tabs,
                2 => Indent::Spaces(2),
                3 => Indent::Spaces(1 + r.below(9)),
                _ => Indent::Random,
            },
            blank: *r.pick(&[0, 0, 10, 50]),
            wide: r.chance(1, 2),
            trailing: *r.pick(&[0, 0, 20, 80]),
            final_newline: r.chance(3, 4),
            gap: match r.below(if TINY.load(std::sync::atomic::Ordering::Relaxed) { 1 } else { 600 }) {
                1 | 2 => 250 + r.below(1500),
                3 => 4000 + r.below(10_000),
                4 if r.chance(1, 5) => 65_500 + r.below(500),
                _ => 0,
            },
            gap_kind: None,
        }
    }
}

pub struct Rendered {
    pub bytes: Vec<u8>,
    /// Zero-based physical line number of each logical line.
    pub line_no: Vec<usize>,
    /// Byte range of every token of every logical line.
    pub tok_at: Vec<Vec<(usize, usize)>>,
    /// Zero-based number of the last physical line.
    pub last_line: usize,
}

fn ws(r: &mut Rng, max: usize, out: &mut Vec<u8>) {
    for _ in 0..r.below(max + 1) {
        out.push(if r.chance(1, 3) { b'\t' } else { b' ' });
    }
}

pub fn render(r: &mut Rng, ls: &[Line], lay: &Layout) -> Rendered {
    let mut out: Vec<u8> = vec![];
    let mut line_no = vec![];
    let mut tok_at = vec![];
    let mut no = 0usize;
    let eol = |r: &mut Rng, out: &mut Vec<u8>| {
        let crlf = match lay.eol {
            Eol::Lf => false,
            Eol::Crlf => true,
            Eol::Mixed => r.chance(1, 2),
        };
        if crlf {
            out.push(b'\r');
        }
        out.push(b'\n');
    };
    // Which line, and where: lines before it, its indentation, between two tokens, behind it, one line of blanks before it.
    let gap_at = if lay.gap > 0 { (r.below(ls.len()), lay.gap_kind.unwrap_or_else(|| r.below(5)), r.below(6)) } else { (usize::MAX, 0, 0) };
    let gap = |here: bool, out: &mut Vec<u8>| {
        if here {
            let c = if gap_at.2 % 2 == 0 { b' ' } else { b'\t' };
            out.extend(std::iter::repeat(c).take(lay.gap));
        }
    };
    for (i, l) in ls.iter().enumerate() {
        if gap_at.0 == i && gap_at.1 == 0 {
            for _ in 0..lay.gap {
                eol(r, &mut out);
            }
            no += lay.gap;
        }
        if gap_at.0 == i && gap_at.1 == 4 {
            gap(true, &mut out);
            eol(r, &mut out);
            no += 1;
        }
        while r.chance(lay.blank, 100 + lay.blank) {
            if r.chance(1, 2) {
                ws(r, 4, &mut out);
            }
            eol(r, &mut out);
            no += 1;
        }
        match lay.indent {
            Indent::None => {}
            Indent::Tabs => out.extend(std::iter::repeat(b'\t').take(l.depth)),
            Indent::Spaces(n) => out.extend(std::iter::repeat(b' ').take(n * l.depth)),
            Indent::Random => ws(r, 6, &mut out),
        }
        gap(gap_at.0 == i && gap_at.1 == 1, &mut out);
        let mut at = vec![];
        for (k, tok) in l.toks.iter().enumerate() {
            if k > 0 {
                if lay.wide {
                    ws(r, 3, &mut out);
                    out.push(if r.chance(1, 4) { b'\t' } else { b' ' });
                } else {
                    out.push(b' ');
                }
            }
            gap(gap_at.0 == i && gap_at.1 == 2 && k > 0 && (k - 1) % 3 == gap_at.2 / 2, &mut out);
            at.push((out.len(), out.len() + tok.len()));
            out.extend_from_slice(tok);
        }
        gap(gap_at.0 == i && gap_at.1 == 3, &mut out);
        if r.chance(lay.trailing, 100) {
            out.push(b' ');
            ws(r, 3, &mut out);
        }
        line_no.push(no);
        tok_at.push(at);
        if i + 1 < ls.len() || lay.final_newline {
            eol(r, &mut out);
            no += 1;
        }
    }
    if lay.final_newline {
        if gap_at.1 == 4 && gap_at.2 == 5 {
            gap(true, &mut out);
            eol(r, &mut out);
            no += 1;
        }
        while r.chance(lay.blank, 100 + lay.blank) {
            ws(r, 2, &mut out);
            eol(r, &mut out);
            no += 1;
        }
    }
    // `no` newlines were written; the last line is the one before the final newline, or the rest.
    let last_line = if out.last() == Some(&b'\n') { no.saturating_sub(1) } else { no };
    Rendered { bytes: out, line_no, tok_at, last_line }
}

/// Indentation of very deep documents would dwarf everything else.
fn fit(lay: Layout, d: &Doc) -> Layout {
    let deep = d.joints.iter().map(|j| j.depth).max().unwrap_or(0) > 1000;
    Layout { indent: if deep { Indent::None } else { lay.indent }, ..lay }
}
pub fn text(r: &mut Rng, d: &Doc) -> Vec<u8> {
    let lay = fit(Layout::random(r), d);
    render(r, &lines(d), &lay).bytes
}
pub fn plain_text(d: &Doc) -> Vec<u8> {
    let mut r = Rng::for_case(0, "plain", 0);
    render(&mut r, &lines(d), &fit(Layout::plain(), d)).bytes
}
