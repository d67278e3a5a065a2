//! C10, C11: well-formed files with exactly one defect, each with what must be said about it.
use super::errors;
use crate::ctx::{clip, show, viol, Ctx, Res};
use crate::model::{self, Cfg, Doc, Kind, Layout, Line};
use crate::rng::{hash_bytes, Rng};
use crate::{hostile, setup};
use bvh_anim::errors::{LoadErrorKind, LoadJointsError, LoadMotionError};
use bvh_anim::Axis;

#[derive(Clone, Debug)]
pub enum Expect {
    /// Some error.
    Any,
    JointName { line: usize },
    NumChannels { line: usize, missing: bool },
    Channel { line: usize, text: Vec<u8> },
    OffsetParse { line: usize, axis: Axis },
    OffsetMissing { line: usize, axis: Axis },
    Motion { line: usize },
    NumFrames { line: usize, missing: bool },
    FrameTime { line: usize, missing: Option<bool> },
    Value { line: usize, index: usize },
    Count { actual: usize, expected: Option<usize>, frames: usize, channels: usize },
}

pub struct Defect {
    pub name: &'static str,
    pub bytes: Vec<u8>,
    pub expect: Expect,
}

const AXES: [Axis; 3] = [Axis::X, Axis::Y, Axis::Z];

fn tok(s: &str) -> Vec<u8> {
    s.as_bytes().to_vec()
}

/// What stands there, with something on it that a careless reader would overlook.
fn spoilt(r: &mut Rng, good: &[u8], suffixes: &[&str], prefixes: &[&str]) -> Vec<u8> {
    if r.chance(1, 3) {
        [r.pick(prefixes).as_bytes(), good].concat()
    } else {
        [good, r.pick(suffixes).as_bytes()].concat()
    }
}
fn bad_float(r: &mut Rng, good: &[u8]) -> Vec<u8> {
    if r.chance(1, 2) {
        let last = *good.last().unwrap_or(&b'0');
        if good.len() > 1 && r.chance(1, 8) {
            // Something in the middle of it.
            let at = 1 + r.below(good.len() - 1);
            return [&good[..at], r.pick(&["_", ",", "'", "x", "\0"]).as_bytes(), &good[at..]].concat();
        }
        if last.is_ascii_digit() {
            return spoilt(
                r,
                good,
                &["s", "ms", "f", "f32", "f64", ",", ";", "d", "_", "\0", "%", "x", "-", "+", "e", "E", "e+", "e-", "e1.5", "\u{b0}", "\"", "{", "}", "#", "/", "L", "\u{feff}", "\u{200b}", "\u{660}", "..", "'"],
                &["x", "=", "$", "\"", "_", "--", "++", "+-", "\0", ",", "\u{feff}", "\u{2212}", "#", "(", "'", "~", "*", "\u{660}"],
            );
        }
    }
    tok(r.pick(&["x", "1.0.0", "--1", "1,5", "1e", "0x10", "abc", "1_0", "-", "1.5f", "e5", "1e5.5", "\u{b2}", "1/2", "1.0;", "12a"]))
}
fn bad_count(r: &mut Rng, good: &[u8]) -> Vec<u8> {
    if r.chance(1, 2) {
        return spoilt(
            r,
            good,
            &[".0", ".", ".00", ".5", "e0", "e1", "E0", "x", ",", ";", "u", "_", "f", "\0", "+", "-", "{", "\"", "L", "#", "%", "/", "\u{200b}", "\u{660}", "'"],
            &["x", "=", "-", "0x", "$", "\"", "_", ".", "#", "\0", "--", "++", "\u{feff}", "~", "(", ",", "'", "\u{2212}", "\u{660}"],
        );
    }
    tok(r.pick(&["x", "-1", "3.5", "1e3", "three", "0x3", "3,", "99999999999999999999999", "\u{b3}", "3x", "--3", "18446744073709551616"]))
}

fn find(r: &mut Rng, ls: &[Line], f: impl Fn(&Kind) -> bool) -> Option<usize> {
    let c: Vec<usize> = ls.iter().enumerate().filter(|(_, l)| f(&l.kind)).map(|(i, _)| i).collect();
    if c.is_empty() {
        None
    } else {
        Some(*r.pick(&c))
    }
}

pub const DEFECTS: usize = 55;

pub fn inject(r: &mut Rng) -> Option<Defect> {
    let which = r.below(DEFECTS);
    let mut cfg = Cfg { max_joints: 7, max_frames: 4, need_channels: true, ..Cfg::small() }.scaled(r.below(211) as u64);
    if (41..=44).contains(&which) && r.chance(1, 40) {
        cfg.scale = 5;
    }
    let mut d = model::gen_doc(r, &cfg);
    if which == 42 && r.chance(1, 6) {
        // No channels at all: any value is one too many.
        for j in &mut d.joints {
            j.channels.clear();
        }
        for f in &mut d.frames {
            f.clear();
        }
    }
    inject_into(r, &d, which)
}

/// None: this document has no place for that defect.
pub fn inject_into(r: &mut Rng, d: &Doc, which: usize) -> Option<Defect> {
    let mut ls = model::lines(d);
    let nch = d.num_channels();
    let nf = d.frames.len();
    // The expectation in terms of an index into `ls`; made into a line number after rendering.
    enum At {
        Line(usize),
        Last,
    }
    let mut cut = false;
    let root_close = ls.iter().rposition(|l| matches!(l.kind, Kind::Close(_))).unwrap();
    let extra = |d: usize, s: &str| model::line(Kind::Extra, d, s.split(' ').map(tok).collect());
    let (name, at, expect): (&'static str, At, Expect) = match which {
        0 => {
            ls.remove(0);
            ("HIERARCHY missing", At::Line(0), Expect::Any)
        }
        1 => {
            let i = r.below(root_close + 1);
            ls.insert(i, extra(0, "HIERARCHY"));
            ("HIERARCHY repeated", At::Line(i), Expect::Any)
        }
        2 => {
            ls.remove(1);
            ("ROOT line missing", At::Line(1), Expect::Any)
        }
        3 => {
            let i = 1 + r.below(root_close);
            ls.insert(i, extra(0, "ROOT again"));
            ("ROOT repeated", At::Line(i), Expect::Any)
        }
        4 | 5 => {
            let i = find(r, &ls, |k| matches!(k, Kind::Header(_)))?;
            ls[i].toks.truncate(1);
            ("joint name missing", At::Line(i), Expect::JointName { line: 0 })
        }
        6 => {
            let i = find(r, &ls, |k| matches!(k, Kind::Header(j) if *j > 0))?;
            ls.remove(i);
            ("JOINT line missing", At::Line(i), Expect::Any)
        }
        7 => {
            let i = find(r, &ls, |k| matches!(k, Kind::Header(j) if *j > 0))?;
            let l = ls[i].clone();
            ls.insert(i, l);
            ("JOINT line repeated", At::Line(i), Expect::Any)
        }
        8 => {
            // Outside of any joint, or inside an end site.
            let i = match r.below(3) {
                0 => r.below(2) + 1,
                1 => find(r, &ls, |k| matches!(k, Kind::EndOpen(_)))? + 1 + r.below(2),
                _ => root_close + 1,
            };
            let all = ["JOINT stray", "{", "OFFSET 0 0 0", "CHANNELS 0", "}"];
            let (offset, channels) = (r.chance(2, 3), r.chance(1, 2));
            let some = all.iter().enumerate().filter(|(k, _)| (*k != 2 || offset) && (*k != 3 || channels));
            for (k, (_, s)) in some.enumerate() {
                ls.insert(i + k, extra(1, s));
            }
            ("JOINT misplaced", At::Line(i), Expect::Any)
        }
        9 => {
            let i = find(r, &ls, |k| matches!(k, Kind::Open(_) | Kind::EndOpen(_)))?;
            ls.remove(i);
            ("opening brace missing", At::Line(i), Expect::Any)
        }
        10 => {
            let i = find(r, &ls, |k| matches!(k, Kind::Open(_) | Kind::EndOpen(_)))?;
            let l = ls[i].clone();
            ls.insert(i, l);
            ("opening brace repeated", At::Line(i), Expect::Any)
        }
        11 => {
            let i = find(r, &ls, |k| matches!(k, Kind::Close(_) | Kind::EndClose(_)))?;
            ls.remove(i);
            ("closing brace missing", At::Line(i), Expect::Any)
        }
        12 => {
            let i = find(r, &ls, |k| matches!(k, Kind::Close(_) | Kind::EndClose(_)))?;
            let l = ls[i].clone();
            ls.insert(i, l);
            ("closing brace repeated", At::Line(i), Expect::Any)
        }
        13 => {
            // An opening brace where nothing was announced.
            let i = 1 + r.below(root_close);
            ls.insert(i, extra(0, "{"));
            ("opening brace misplaced", At::Line(i), Expect::Any)
        }
        14 => {
            let i = r.below(root_close + 1);
            ls.insert(i, extra(0, "}"));
            ("closing brace misplaced", At::Line(i), Expect::Any)
        }
        15 | 16 => {
            let i = find(r, &ls, |k| matches!(k, Kind::Channels(_)))?;
            let l = ls[i].clone();
            let j = i + r.below(2);
            ls.insert(j, l);
            ("CHANNELS repeated", At::Line(i + 1), Expect::Any)
        }
        17 => {
            // The line moves out of its joint's own section.
            let i = find(r, &ls, |k| matches!(k, Kind::Channels(_)))?;
            let l = ls.remove(i);
            let j = match r.below(4) {
                0 => 0,
                1 => 1,
                2 => ls.iter().position(|l| l.kind == Kind::Motion).unwrap(),
                _ => find(r, &ls, |k| matches!(k, Kind::EndOpen(_)))? + 1,
            };
            ls.insert(j, l);
            ("CHANNELS misplaced", At::Line(j), Expect::Any)
        }
        18 => {
            // To behind a child joint or an end site of the same joint.
            let i = find(r, &ls, |k| matches!(k, Kind::Channels(_)))?;
            let j = match ls[i].kind {
                Kind::Channels(j) => j,
                _ => unreachable!(),
            };
            let end = ls.iter().position(|l| l.kind == Kind::Close(j))?;
            let later: Vec<usize> = (i + 1..end).filter(|&k| matches!(ls[k].kind, Kind::EndClose(_) | Kind::Close(_))).collect();
            if later.is_empty() {
                return None;
            }
            let k = *r.pick(&later);
            let l = ls.remove(i);
            ls.insert(k, l);
            ("CHANNELS behind a child", At::Line(k), Expect::Any)
        }
        19 | 20 => {
            let i = find(r, &ls, |k| matches!(k, Kind::Channels(_)))?;
            ls[i].toks[1] = bad_count(r, &ls[i].toks[1]);
            ("channel count unreadable", At::Line(i), Expect::NumChannels { line: 0, missing: false })
        }
        21 => {
            let i = find(r, &ls, |k| matches!(k, Kind::Channels(_)))?;
            ls[i].toks.remove(1);
            let missing = ls[i].toks.len() == 1;
            ("channel count missing", At::Line(i), Expect::NumChannels { line: 0, missing })
        }
        22 | 23 | 24 => {
            let i = find(r, &ls, |k| matches!(k, Kind::Channels(_)))?;
            let n = ls[i].toks.len();
            if n < 3 {
                return None;
            }
            let k = 2 + r.below(n - 2);
            let text = match r.below(5) {
                4 => {
                    // A long one: what is said has all of it.
                    let n = *r.pick(&[40usize, 63, 64, 65, 127, 130, 255, 256, 300, 1000, 1024, 1025, 4095, 4097, 9000, 70_000]);
                    let n = if model::TINY.load(std::sync::atomic::Ordering::Relaxed) { n.min(130) } else { n };
                    let mut t: Vec<u8> = (0..n).map(|_| b'a' + r.below(26) as u8).collect();
                    if r.chance(1, 4) {
                        t[n / 2] = 0xff;
                    }
                    t
                }
                0 => tok(r.pick(&["Wrotation", "xposition", "Xposition2", "Xpositio", "XPOSITION", "rotation", "X", "0", "Xscale", "Xposition,"])),
                1 => {
                    let mut t = ls[i].toks[k].clone();
                    let p = r.below(t.len());
                    t[p] ^= 1 << r.below(3);
                    if model::CHANNELS.iter().any(|c| c.as_bytes() == &t[..]) {
                        return None;
                    }
                    t
                }
                2 => vec![0xff, b'x', 0xfe],
                _ => {
                    let mut t = ls[i].toks[k].clone();
                    t.push(b'x');
                    t
                }
            };
            ls[i].toks[k] = text.clone();
            ("channel name unreadable", At::Line(i), Expect::Channel { line: 0, text })
        }
        25 | 26 | 27 => {
            let i = find(r, &ls, |k| matches!(k, Kind::Offset(_) | Kind::EndOffset(_)))?;
            let k = r.below(3);
            ls[i].toks[1 + k] = bad_float(r, &ls[i].toks[1 + k]);
            // Components behind it may be bad as well: the first one counts.
            ("offset component unreadable", At::Line(i), Expect::OffsetParse { line: 0, axis: AXES[k] })
        }
        28 | 29 => {
            let i = find(r, &ls, |k| matches!(k, Kind::Offset(_) | Kind::EndOffset(_)))?;
            let k = 1 + r.below(3);
            for _ in 0..k {
                let p = 1 + r.below(ls[i].toks.len() - 1);
                ls[i].toks.remove(p);
            }
            ("offset component missing", At::Line(i), Expect::OffsetMissing { line: 0, axis: AXES[3 - k] })
        }
        30 => {
            let m = root_close + 1;
            ls.remove(m);
            ("MOTION missing", At::Line(m), Expect::Motion { line: 0 })
        }
        31 => {
            let m = root_close + 1;
            if r.chance(1, 3) {
                ls[m].toks.push(tok(r.pick(&["3", "MOTION", "Frames:", "{", "x", ":", "0.5", "\u{feff}"])));
                if r.chance(1, 3) {
                    ls[m].toks.swap(0, 1);
                }
                if ls[m].toks[0] == ls[m].toks[1] {
                    ("MOTION twice on a line", At::Line(m), Expect::Motion { line: 0 })
                } else {
                    ("more than MOTION on its line", At::Line(m), Expect::Motion { line: 0 })
                }
            } else if r.chance(1, 2) {
                ls[m].toks = vec![if r.chance(1, 2) {
                    tok(r.pick(&["MOTIONS", "motion", "MOTIO", "Motion", "MOTION:", "M"]))
                } else {
                    spoilt(r, b"MOTION", &["_", ".", "=", "2", "\0", "{", "-", ",", ";", "\u{200b}"], &["_", ".", "\u{feff}", "#", "2", "\0", "-", ":"])
                }];
                ("MOTION unreadable", At::Line(m), Expect::Motion { line: 0 })
            } else {
                let l = ls[m].clone();
                ls.insert(m, l);
                ("MOTION repeated", At::Line(m + 1), Expect::NumFrames { line: 0, missing: true })
            }
        }
        32 => {
            // The file ends early in the motion header.
            let m = root_close + 1;
            cut = true;
            match r.below(3) {
                0 => {
                    ls.truncate(m);
                    ("ends before MOTION", At::Last, Expect::Motion { line: 0 })
                }
                1 => {
                    ls.truncate(m + 1);
                    ("ends before Frames", At::Last, Expect::NumFrames { line: 0, missing: true })
                }
                _ => {
                    ls.truncate(m + 2);
                    ("ends before Frame Time", At::Last, Expect::FrameTime { line: 0, missing: Some(true) })
                }
            }
        }
        33 => {
            let m = root_close + 2;
            if r.chance(1, 2) {
                ls.remove(m);
                ("Frames line missing", At::Line(m), Expect::NumFrames { line: 0, missing: true })
            } else {
                ls[m].toks[0] = if r.chance(1, 2) {
                    tok(r.pick(&["Frame:", "frames:", "Fram:", "FRAMES:", "F"]))
                } else {
                    let mut t = spoilt(r, b"Frames", &["=", ";", ".", "_", "-", "s", "2", "\0", ",", "/"], &["=", "#", ".", "_", "-", "Num", "\0", "n", "\u{feff}"]);
                    t.push(b':');
                    t
                };
                ("Frames line unreadable", At::Line(m), Expect::NumFrames { line: 0, missing: true })
            }
        }
        34 | 35 => {
            let m = root_close + 2;
            if r.chance(1, 4) {
                ls[m].toks.truncate(1);
                ("frame count missing", At::Line(m), Expect::NumFrames { line: 0, missing: true })
            } else {
                ls[m].toks[1] = bad_count(r, &ls[m].toks[1]);
                ("frame count unreadable", At::Line(m), Expect::NumFrames { line: 0, missing: false })
            }
        }
        36 => {
            let m = root_close + 3;
            if r.chance(1, 2) {
                ls.remove(m);
                let at = if m < ls.len() { At::Line(m) } else { At::Last };
                ("Frame Time line missing", at, Expect::FrameTime { line: 0, missing: Some(true) })
            } else {
                let k = r.below(2);
                ls[m].toks[k] = match (k, r.below(3)) {
                    (_, 0) => tok(r.pick(&["Frames", "frame", "time:", "Times:", "Time", "TIME:", "X"])),
                    (0, _) => spoilt(r, b"Frame", &["s", "_", "-", ".", "=", "\0", ":", ",", "x"], &["_", "#", ".", "-", "x", "\0", "\u{feff}"]),
                    _ => spoilt(r, b"Time:", &[":", "=", ".", "_", "-", "s", "0", ","], &["_", "#", ".", "-", "x", "\0", ":", "="]),
                };
                ("Frame Time line unreadable", At::Line(m), Expect::FrameTime { line: 0, missing: Some(true) })
            }
        }
        37 => {
            let m = root_close + 3;
            if r.chance(1, 3) {
                ls[m].toks.truncate(2);
                ("frame time missing", At::Line(m), Expect::FrameTime { line: 0, missing: Some(true) })
            } else {
                ls[m].toks[2] = bad_float(r, &ls[m].toks[2]);
                ("frame time unreadable", At::Line(m), Expect::FrameTime { line: 0, missing: Some(false) })
            }
        }
        38 => {
            let m = root_close + 3;
            let t = match r.below(4) {
                3 => format!("-{}{}", r.pick(&["1e-", "4.5e-", "0.00002e-", "1234567e-", "0.1E-"]), r.below(290)),
                0 => format!("-{}.{}1", r.below(100), r.below(1000)),
                1 => r.pick(&["-1", "-0.033333", "-1e-3", "-1e300", "-5e-1"]).to_string(),
                _ => r.pick(&["inf", "nan", "NaN", "-inf", "1e400", "-1e999", "infinity", "+inf"]).to_string(),
            };
            ls[m].toks[2] = t.into_bytes();
            ("frame time negative or not finite", At::Line(m), Expect::FrameTime { line: 0, missing: None })
        }
        39 | 40 => {
            let i = find(r, &ls, |k| matches!(k, Kind::Row(_)))?;
            let k = r.below(ls[i].toks.len());
            ls[i].toks[k] = bad_float(r, &ls[i].toks[k]);
            let (mut i, mut k) = (i, k);
            // The position is that in the line, whichever way the values are spread over lines.
            match r.below(6) {
                0 if matches!(ls[i - 1].kind, Kind::Row(_)) => {
                    let t = ls.remove(i).toks;
                    i -= 1;
                    k += ls[i].toks.len();
                    ls[i].toks.extend(t);
                }
                1 if ls[i].toks.len() > 1 => {
                    let at = 1 + r.below(ls[i].toks.len() - 1);
                    let rest = ls[i].toks.split_off(at);
                    let kind = ls[i].kind.clone();
                    ls.insert(i + 1, model::line(kind, 0, rest));
                    if k >= at {
                        i += 1;
                        k -= at;
                    }
                }
                _ => {}
            }
            ("motion value unreadable", At::Line(i), Expect::Value { line: 0, index: k })
        }
        41 => {
            let i = find(r, &ls, |k| matches!(k, Kind::Row(_)))?;
            let n = 1 + r.below(ls[i].toks.len());
            for _ in 0..n {
                let k = r.below(ls[i].toks.len());
                ls[i].toks.remove(k);
            }
            if ls[i].toks.is_empty() {
                ls.remove(i);
            }
            ("motion values missing", At::Last, Expect::Count { actual: nf * nch - n, expected: Some(nf * nch), frames: nf, channels: nch })
        }
        42 if nch == 0 => {
            let n = 1 + r.below(4);
            let at = root_close + 4 + r.below(ls.len() - root_close - 3);
            ls.insert(at, model::line(Kind::Extra, 0, vec![tok("7.5"); n]));
            ("values without channels", At::Last, Expect::Count { actual: n, expected: Some(0), frames: nf, channels: 0 })
        }
        42 => {
            let i = find(r, &ls, |k| matches!(k, Kind::Row(_)))?;
            let n = 1 + r.below(nch + 2);
            for _ in 0..n {
                let k = r.below(ls[i].toks.len() + 1);
                ls[i].toks.insert(k, tok("7.5"));
            }
            ("too many motion values", At::Last, Expect::Count { actual: nf * nch + n, expected: Some(nf * nch), frames: nf, channels: nch })
        }
        43 => {
            // Whole frames too many or too few.
            if nf > 0 && r.chance(1, 2) {
                ls.pop();
                ("a frame is missing", At::Last, Expect::Count { actual: (nf - 1) * nch, expected: Some(nf * nch), frames: nf, channels: nch })
            } else {
                let row = (0..nch).map(|_| tok("1.25")).collect();
                ls.push(model::line(Kind::Row(nf), 0, row));
                ("a frame too many", At::Last, Expect::Count { actual: (nf + 1) * nch, expected: Some(nf * nch), frames: nf, channels: nch })
            }
        }
        44 => {
            let m = root_close + 2;
            if r.chance(1, 3) {
                // Right if a number in the computation had fewer bits.
                let k = *r.pick(&[8u32, 16, 24, 31, 32, 32, 48, 52, 53, 63, 64, 64, 64]);
                let odd = nch.trailing_zeros().min(k);
                let step = if r.chance(1, 3) { 1u128 << k } else { 1u128 << (k - odd) };
                let n = nf as u128 + step * (1 + r.below(3) as u128);
                ls[m].toks[1] = n.to_string().into_bytes();
                let name = "frame count wrong in the high bits";
                match usize::try_from(n) {
                    Ok(n) => (name, At::Last, Expect::Count { actual: nf * nch, expected: n.checked_mul(nch), frames: n, channels: nch }),
                    Err(_) => (name, At::Line(m), Expect::NumFrames { line: 0, missing: false }),
                }
            } else {
            let n = match r.below(4) {
                0 => nf + 1 + r.below(3),
                1 => nf.wrapping_sub(1 + r.below(nf.max(1))),
                2 => nf + 1 + r.below(1_000_000_000),
                _ => usize::MAX / (1 + r.below(3)),
            };
            if n == nf || (nf == 0 && n > usize::MAX / 2 && r.chance(1, 2)) {
                return None;
            }
            ls[m].toks[1] = n.to_string().into_bytes();
            ("frame count wrong", At::Last, Expect::Count { actual: nf * nch, expected: n.checked_mul(nch), frames: n, channels: nch })
            }
        }
        45 => {
            // OFFSET outside of a joint's own section.
            let i = match r.below(2) {
                0 => r.below(2),
                _ => root_close + 1,
            };
            ls.insert(i, extra(1, "OFFSET 1 2 3"));
            ("OFFSET misplaced", At::Line(i), Expect::Any)
        }
        46 => {
            let i = find(r, &ls, |k| matches!(k, Kind::Offset(_) | Kind::EndOffset(_)))?;
            let mut l = ls[i].clone();
            if r.chance(1, 2) {
                l.toks = ["OFFSET", "1", "2", "3"].iter().map(|s| tok(s)).collect();
            }
            let mut j = i + r.below(2);
            if matches!(ls[i].kind, Kind::Offset(_)) && matches!(ls[i + 1].kind, Kind::Channels(_)) && r.chance(1, 2) {
                j = i + 2;
            }
            ls.insert(j, l);
            ("OFFSET repeated", At::Line(j), Expect::Any)
        }
        47 => {
            // Behind a child joint or an end site of the same joint.
            let i = find(r, &ls, |k| matches!(k, Kind::Offset(_)))?;
            let j = match ls[i].kind {
                Kind::Offset(j) => j,
                _ => unreachable!(),
            };
            let end = ls.iter().position(|l| l.kind == Kind::Close(j))?;
            let later: Vec<usize> = (i + 1..end).filter(|&k| matches!(ls[k].kind, Kind::EndClose(_) | Kind::Close(_))).collect();
            if later.is_empty() {
                return None;
            }
            let k = *r.pick(&later);
            // The line after the closing one, whether or not the section moved.
            let (at, l) = if r.chance(1, 2) { (k, ls.remove(i)) } else { (k + 1, ls[i].clone()) };
            ls.insert(at, l);
            ("OFFSET behind a child", At::Line(at), Expect::Any)
        }
        48 => {
            let i = find(r, &ls, |k| matches!(k, Kind::End(_)))?;
            match r.below(3) {
                0 => {
                    ls.remove(i);
                    ("End Site missing", At::Line(i), Expect::Any)
                }
                1 => {
                    if r.chance(1, 3) {
                        ls[i].toks.truncate(1);
                        ("End without Site", At::Line(i), Expect::Any)
                    } else {
                        let k = usize::from(r.chance(3, 4));
                        ls[i].toks[k] = match (k, r.below(4)) {
                            (1, 0) => spoilt(r, b"Site", &["s", "X", "_", ".", "2", ",", "{"], &["x", "_", ".", "-"]),
                            (1, 1) => tok(r.pick(&["site", "SITE", "Sit", "S", "sIte", "Sight", "Effector", "{", "End"])),
                            (1, _) => tok(r.pick(&["JOINT", "0", "Sitesite", "Sitee", "Sitf", "Sitd", "Siti"])),
                            (_, 0) => tok(r.pick(&["end", "END", "En", "E"])),
                            _ => spoilt(r, b"End", &["s", "ing", "_", "Site", "d"], &["x", "_", ".", "-"]),
                        };
                        ("End Site unreadable", At::Line(i), Expect::Any)
                    }
                }
                _ => {
                    let l = ls[i].clone();
                    ls.insert(i, l);
                    ("End Site repeated", At::Line(i), Expect::Any)
                }
            }
        }
        49 => {
            // A second end site, one in an end site, one behind a child, one outside.
            let i = match r.below(4) {
                0 => find(r, &ls, |k| matches!(k, Kind::EndClose(_)))? + 1,
                1 => find(r, &ls, |k| matches!(k, Kind::EndOpen(_)))? + 1 + r.below(2),
                2 => find(r, &ls, |k| matches!(k, Kind::Close(j) if *j > 0))? + 1,
                _ => *r.pick(&[0, 1, root_close + 1]),
            };
            let all: &[&str] = if r.chance(1, 3) { &["End Site", "{", "}"] } else { &["End Site", "{", "OFFSET 0 0 0", "}"] };
            for (k, s) in all.iter().enumerate() {
                ls.insert(i + k, extra(1, s));
            }
            ("End Site misplaced", At::Line(i), Expect::Any)
        }
        50 => {
            // A header line of the motion section once more, somewhere in that section.
            let m = root_close + 1;
            let l = ls[m + r.below(3)].clone();
            let at = m + r.below(ls.len() - m + 1);
            ls.insert(at, l);
            ("motion header line repeated", At::Line(at), Expect::Any)
        }
        51 => {
            let m = root_close + 1;
            let k = m + r.below(3);
            let l = ls.remove(k);
            let mut at = m + r.below(ls.len() - m + 1);
            if at == k {
                at = if k + 1 <= ls.len() { k + 1 } else { k - 1 };
            }
            ls.insert(at, l);
            ("motion header line moved", At::Line(at), Expect::Any)
        }
        52 => {
            // A line that is no values, before, between or behind the lines of values.
            let m = root_close + 4;
            let at = m + if r.chance(1, 2) { ls.len() - m } else { r.below(ls.len() - m + 1) };
            let s = *r.pick(&["x", "}", "{", "# end", "// end", "EOF", "END", "\x1a", "\0", "\0\0\0\0", "-", "; 1 2", "MOTION", "Frames: 1", "\u{feff}", "\u{200b}", "...", "JOINT a", "#1 2 3", "%"]);
            ls.insert(at, extra(0, s));
            ("something else among the motion values", At::Line(at), Expect::Value { line: 0, index: 0 })
        }
        53 => {
            // A keyword that is none.
            let (i, good) = match r.below(3) {
                0 => (0, &b"HIERARCHY"[..]),
                1 => (1, &b"ROOT"[..]),
                _ => (find(r, &ls, |k| matches!(k, Kind::Header(j) if *j > 0))?, &b"JOINT"[..]),
            };
            ls[i].toks[0] = match r.below(3) {
                0 => spoilt(r, good, &["S", "_", ".", "-", "=", "\0", ",", "x", "2"], &["_", "#", ".", "-", "x", "\0", "\u{feff}"]),
                1 => good[..good.len() - 1].to_vec(),
                _ => good.to_ascii_lowercase(),
            };
            ("keyword unreadable", At::Line(i), Expect::Any)
        }
        _ => {
            // All of one joint's (or end site's) braces, at once or one of them where the other belongs.
            let o = find(r, &ls, |k| matches!(k, Kind::Open(_) | Kind::EndOpen(_)))?;
            ls[o].toks = vec![tok("}")];
            ("closing brace for an opening one", At::Line(o), Expect::Any)
        }
    };
    let lay = if cut { Layout { blank: *r.pick(&[0, 0, 30]), ..Layout::random(r) } } else { Layout::random(r) };
    let mut lay = lay;
    if !model::TINY.load(std::sync::atomic::Ordering::Relaxed) && r.chance(1, 400) {
        // Line numbers past sixteen bits.
        lay.gap = 65_400 + r.below(400);
        lay.gap_kind = Some(0);
    }
    let rd = model::render(r, &ls, &lay);
    let no = match at {
        At::Line(i) => *rd.line_no.get(i).unwrap_or(&rd.last_line),
        At::Last => rd.last_line,
    };
    let expect = match expect {
        Expect::JointName { .. } => Expect::JointName { line: no },
        Expect::NumChannels { missing, .. } => Expect::NumChannels { line: no, missing },
        Expect::Channel { text, .. } => Expect::Channel { line: no, text },
        Expect::OffsetParse { axis, .. } => Expect::OffsetParse { line: no, axis },
        Expect::OffsetMissing { axis, .. } => Expect::OffsetMissing { line: no, axis },
        Expect::Motion { .. } => Expect::Motion { line: no },
        Expect::NumFrames { missing, .. } => Expect::NumFrames { line: no, missing },
        Expect::FrameTime { missing, .. } => Expect::FrameTime { line: no, missing },
        Expect::Value { index, .. } => Expect::Value { line: no, index },
        e => e,
    };
    Some(Defect { name, bytes: rd.bytes, expect })
}

pub fn rejected(cx: &mut Ctx) -> Res {
    let mut r = cx.rng.fork();
    let d = match inject(&mut r) {
        Some(d) => d,
        None => return Ok(()),
    };
    cx.set_witness(&d.bytes);
    cx.evaluations += 1;
    let r = setup::quiet(|| bvh_anim::from_bytes(&d.bytes));
    match r {
        Some(Ok(_)) => return viol(format!("accepted: {}", d.name), format!("a file with one defect ({}) is accepted", d.name)),
        Some(Err(_)) => cx.see(&format!("rejected: {}", d.name)),
        // "Rejected with an error" is not a panic.
        None => return viol(format!("panicked: {}", d.name), format!("a file with one defect ({}) makes the loader panic", d.name)),
    }
    if cx.distinct(hash_bytes(&d.bytes)) {
        cx.sample(|| format!("{}:\n{}", d.name, show(&d.bytes)));
    }
    Ok(())
}

pub fn named(cx: &mut Ctx) -> Res {
    if cx.case % 4 == 3 {
        // Any error at all can be formatted and carries its line.
        let (_, bytes) = hostile::gen(&mut cx.rng, false);
        cx.set_witness(&bytes);
        if let Some(Err(e)) = setup::quiet(|| bvh_anim::from_bytes(&bytes)) {
            cx.evaluations += 1;
            errors::inspect(&e)?;
            cx.see(&format!("inspected: {}", errors::variant(&e)));
        }
        return Ok(());
    }
    let mut r = cx.rng.fork();
    let d = match inject(&mut r) {
        Some(d) => d,
        None => return Ok(()),
    };
    cx.set_witness(&d.bytes);
    let e = match setup::quiet(|| bvh_anim::from_bytes(&d.bytes)) {
        Some(Err(e)) => e,
        // Whether it is rejected at all is decided by C10.
        _ => {
            cx.see("not rejected");
            return Ok(());
        }
    };
    cx.evaluations += 1;
    errors::inspect(&e)?;
    let got = format!("{:?}", e.kind());
    let line = e.line();
    use LoadErrorKind::{Joints as J, Motion as M};
    use LoadJointsError as LJ;
    use LoadMotionError as LM;
    let ok = match (&d.expect, e.kind()) {
        (Expect::Any, _) => true,
        (Expect::JointName { line: l }, J(LJ::MissingJointName { .. })) => line == Some(*l),
        (Expect::NumChannels { line: l, missing }, J(LJ::ParseNumChannelsError { error, .. })) => line == Some(*l) && error.is_none() == *missing,
        (Expect::Channel { line: l, .. }, J(LJ::ParseChannelError { .. })) => line == Some(*l),
        (Expect::OffsetParse { line: l, axis }, J(LJ::ParseOffsetError { axis: a, .. })) => line == Some(*l) && a == axis,
        (Expect::OffsetMissing { line: l, axis }, J(LJ::MissingOffsetAxis { axis: a, .. })) => line == Some(*l) && a == axis,
        (Expect::Motion { line: l }, M(LM::MissingMotionSection { .. })) => line == Some(*l),
        (Expect::NumFrames { line: l, missing }, M(LM::MissingNumFrames { parse_error, .. })) => line == Some(*l) && parse_error.is_none() == *missing,
        (Expect::FrameTime { line: l, missing }, M(LM::MissingFrameTime { parse_error, .. })) => {
            line == Some(*l) && missing.map_or(true, |m| parse_error.is_none() == m)
        }
        (Expect::Value { line: l, index }, M(LM::ParseMotionSection { channel_index, .. })) => line == Some(*l) && channel_index == index,
        (
            Expect::Count { actual, expected, frames, channels },
            M(LM::MotionCountMismatch { actual_total_motion_values: a, expected_total_motion_values: x, expected_num_frames: f, expected_num_clips: c }),
        ) => {
            let s = e.to_string();
            // Where frames times channels has no representation, the total is not claimed.
            let e_ok = expected.map_or(true, |v| v == *x && s.contains(&v.to_string()));
            a == actual && f == frames && c == channels && e_ok && s.contains(&actual.to_string())
        }
        _ => false,
    };
    if !ok {
        return viol(
            format!("misreported: {}", d.name),
            format!("defect: {}; expected {:?}; reported {}", d.name, d.expect, clip(&got, 400)),
        );
    }
    if let (Expect::Channel { text, .. }, LoadErrorKind::Joints(LJ::ParseChannelError { .. })) = (&d.expect, e.kind()) {
        if let J(LJ::ParseChannelError { error, .. }) = e.into_kind() {
            let inner = error.into_inner();
            ensure!(&inner == text, "channel-text", "the error carries {:?} instead of {:?}", show(&inner), show(text));
        }
    }
    if !matches!(d.expect, Expect::Any) {
        cx.see(&format!("named: {}", d.name));
        if cx.distinct(hash_bytes(&d.bytes)) {
            cx.sample(|| format!("{} -> {}:\n{}", d.name, got, show(&d.bytes)));
        }
    }
    Ok(())
}
