//! Hostile inputs: everything from raw bytes to almost valid files.
use crate::model::{self, Cfg, Kind, Layout, Line};
use crate::rng::Rng;

const DICT: &[&str] = &[
    "HIERARCHY", "ROOT", "JOINT", "End", "Site", "OFFSET", "CHANNELS", "MOTION", "Frames:", "Frame", "Time:", "{", "}",
    "Frames", ":", "Time", "hierarchy", "Joint", "End Site", "Frame Time:", "HIERARCHY:", "}{", "{}", "{{", "}}",
    "Xposition", "Yposition", "Zposition", "Xrotation", "Yrotation", "Zrotation", "xrotation", "Wrotation",
    "0", "1", "2", "3", "6", "-1", "-0", "0.0", "1.5", "-2.5", "1e5", "+3", ".5", "5.", "1e", "e5", "-", "+", ".", "--1",
    "nan", "NaN", "inf", "-inf", "infinity", "1e308", "1e309", "-1e309", "1e400", "1e-400", "1e18", "1e19", "1e20", "-1e-9", "-0.0001",
    "18446744073709551615", "18446744073709551616", "9223372036854775807", "9223372036854775808", "4611686018427387904",
    "2305843009213693952", "4294967295", "4294967296", "2147483648", "1000000000", "1000000", "99999999999999999999999999",
    "1152921504606846976", "3074457345618258603", "0x10", "1_000", "a", "Hips", "\u{feff}", "\u{a0}", "\u{3000}", "\u{85}", "\0", "#", "//",
];

fn tok(r: &mut Rng) -> Vec<u8> {
    match r.below(12) {
        0 => {
            let n = r.below(12);
            (0..n).map(|_| r.u32() as u8).collect()
        }
        1 => model::wild_num(r).text.into_bytes(),
        _ => r.pick(DICT).as_bytes().to_vec(),
    }
}

fn random_line(r: &mut Rng) -> Line {
    let n = 1 + r.below(6);
    let mut toks: Vec<Vec<u8>> = (0..n).map(|_| tok(r)).collect();
    if r.chance(2, 3) {
        toks[0] = r.pick(&DICT[..13]).as_bytes().to_vec();
    }
    match r.below(8) {
        0 => toks = vec![b"{".to_vec()],
        1 | 2 => toks = vec![b"}".to_vec()],
        3 => toks = vec![b"End".to_vec(), b"Site".to_vec()],
        4 => toks = vec![b"CHANNELS".to_vec(), b"1".to_vec(), b"Xposition".to_vec()],
        5 => toks = vec![b"JOINT".to_vec(), b"x".to_vec()],
        _ => {}
    }
    model::line(Kind::Extra, r.below(4), toks)
}

/// Line- and token-level edits of a valid document's lines.
pub fn edit_lines(r: &mut Rng, ls: &mut Vec<Line>, n: usize) {
    for _ in 0..n {
        if ls.is_empty() {
            ls.push(random_line(r));
            continue;
        }
        let i = r.below(ls.len());
        match r.below(14) {
            0 | 1 => {
                ls.remove(i);
            }
            2 | 3 => {
                let l = ls[i].clone();
                let j = r.below(ls.len() + 1);
                ls.insert(j, l);
            }
            4 => {
                let j = r.below(ls.len());
                ls.swap(i, j);
            }
            5 => {
                let l = ls.remove(i);
                let j = r.below(ls.len() + 1);
                ls.insert(j, l);
            }
            6 | 7 => {
                let k = r.below(ls[i].toks.len().max(1));
                let t = tok(r);
                if ls[i].toks.is_empty() {
                    ls[i].toks.push(t)
                } else {
                    ls[i].toks[k] = t
                }
            }
            8 => {
                let k = r.below(ls[i].toks.len() + 1);
                let t = tok(r);
                ls[i].toks.insert(k, t);
            }
            9 => {
                if !ls[i].toks.is_empty() {
                    let k = r.below(ls[i].toks.len());
                    ls[i].toks.remove(k);
                }
            }
            10 | 11 => {
                let l = random_line(r);
                ls.insert(i, l);
            }
            12 => {
                // Two lines become one.
                if i + 1 < ls.len() {
                    let l = ls.remove(i + 1);
                    ls[i].toks.extend(l.toks);
                }
            }
            _ => {
                // One line becomes two.
                if ls[i].toks.len() > 1 {
                    let k = 1 + r.below(ls[i].toks.len() - 1);
                    let rest = ls[i].toks.split_off(k);
                    let d = ls[i].depth;
                    ls.insert(i + 1, model::line(Kind::Extra, d, rest));
                }
            }
        }
    }
}

fn edit_bytes(r: &mut Rng, b: &mut Vec<u8>, n: usize) {
    for _ in 0..n {
        if b.is_empty() {
            b.push(r.u32() as u8);
            continue;
        }
        let i = r.below(b.len());
        match r.below(8) {
            0 => b[i] ^= 1 << r.below(8),
            1 => b[i] = r.u32() as u8,
            2 => b[i] = *r.pick(b"{}:0 9\n\r\t-+.eE\0\xff"),
            3 => b.insert(i, *r.pick(b"{}:0 9\n\r\t-+.eE\0\xff")),
            4 => {
                b.remove(i);
            }
            5 => {
                let k = (i + 1 + r.below(8)).min(b.len());
                b.drain(i..k);
            }
            6 => {
                let k = (i + 1 + r.below(40)).min(b.len());
                let part: Vec<u8> = b[i..k].to_vec();
                let j = r.below(b.len());
                let tail = b.split_off(j);
                b.extend(part);
                b.extend(tail);
            }
            _ => b.truncate(i),
        }
    }
}

/// (class, bytes)
pub fn gen(r: &mut Rng, big: bool) -> (&'static str, Vec<u8>) {
    if r.chance(1, 16) {
        let d = model::gen_doc(r, &Cfg { max_joints: 4, max_frames: 2, ..Cfg::small() });
        let t = model::text(r, &d);
        return ("odd bytes at an edge", affix(r, t));
    }
    let cfg = Cfg { max_joints: if big { 25 } else { 6 }, max_frames: 3, wild_nums: r.chance(1, 3), ..Cfg::small() };
    match r.below(20) {
        0 => {
            let n = r.below(300);
            ("raw", (0..n).map(|_| r.u32() as u8).collect())
        }
        1 => {
            let n = r.below(300);
            ("raw-text", (0..n).map(|_| *r.pick(b"HROJ{}:0129.-eE \t\n\r\nOFSETCHANLMIm")).collect())
        }
        2 | 3 => {
            let n = r.below(25);
            let mut ls: Vec<Line> = (0..n).map(|_| random_line(r)).collect();
            if r.chance(1, 2) {
                let k = *r.pick(&[1usize, 2, 3]);
                let head: [&[&str]; 3] = [&["HIERARCHY"], &["ROOT", "r"], &["{"]];
                for (i, h) in head.iter().take(k).enumerate() {
                    ls.insert(i, model::line(Kind::Extra, 0, h.iter().map(|s| s.as_bytes().to_vec()).collect()));
                }
            }
            let lay = Layout::random(r);
            ("token-soup", model::render(r, &ls, &lay).bytes)
        }
        4 | 5 | 6 => {
            let d = model::gen_doc(r, &cfg);
            let mut b = model::text(r, &d);
            let n = 1 + r.below(4);
            edit_bytes(r, &mut b, n);
            ("byte-edits", b)
        }
        7 => {
            // Two documents spliced.
            let (a, b) = (model::gen_doc(r, &cfg), model::gen_doc(r, &cfg));
            let (mut la, lb) = (model::lines(&a), model::lines(&b));
            let (i, j) = (r.below(la.len() + 1), r.below(lb.len() + 1));
            la.truncate(i);
            la.extend_from_slice(&lb[j..]);
            let lay = Layout::random(r);
            ("splice", model::render(r, &la, &lay).bytes)
        }
        8 => {
            let d = model::gen_doc(r, &cfg);
            ("valid", model::text(r, &d))
        }
        9 => {
            // Motion section edits only.
            let d = model::gen_doc(r, &cfg);
            let ls = model::lines(&d);
            let m = ls.iter().position(|l| l.kind == Kind::Motion).unwrap();
            let mut tail = ls[m..].to_vec();
            let n = 1 + r.below(3);
            edit_lines(r, &mut tail, n);
            let mut all = ls[..m].to_vec();
            all.extend(tail);
            let lay = Layout::random(r);
            ("motion-edits", model::render(r, &all, &lay).bytes)
        }
        10 => {
            // One number replaced by an extreme one.
            let d = model::gen_doc(r, &cfg);
            let mut ls = model::lines(&d);
            let cands: Vec<(usize, usize)> = ls
                .iter()
                .enumerate()
                .flat_map(|(i, l)| {
                    let v: Vec<(usize, usize)> = match l.kind {
                        Kind::Channels(_) | Kind::Frames => vec![(i, 1)],
                        Kind::FrameTime => vec![(i, 2), (i, 2)],
                        Kind::Offset(_) | Kind::EndOffset(_) => vec![(i, 1 + r.below(3))],
                        Kind::Row(_) => vec![(i, r.below(l.toks.len()))],
                        _ => vec![],
                    };
                    v
                })
                .collect();
            let (i, k) = *r.pick(&cands);
            let t = tok(r);
            ls[i].toks[k] = t;
            let lay = Layout::random(r);
            ("number-edit", model::render(r, &ls, &lay).bytes)
        }
        _ => {
            let d = model::gen_doc(r, &cfg);
            let mut ls = model::lines(&d);
            let n = 1 + r.below(4);
            edit_lines(r, &mut ls, n);
            let lay = Layout::random(r);
            ("line-edits", model::render(r, &ls, &lay).bytes)
        }
    }
}

/// Irregular files that keep a complete frame (keyword order, balanced braces, matching counts) but
/// repeat, drop or move sections: most likely to be accepted.
pub fn gen_irregular(r: &mut Rng) -> Vec<u8> {
    let cfg = Cfg { max_joints: 6, max_frames: 2, ..Cfg::small() };
    let d = model::gen_doc(r, &cfg);
    let mut ls = model::lines(&d);
    let n = 1 + r.below(3);
    for _ in 0..n {
        let m = ls.iter().position(|l| l.kind == Kind::Motion).unwrap_or(ls.len());
        let body: Vec<usize> = (0..m).filter(|&i| i > 2).collect();
        if body.is_empty() {
            break;
        }
        let i = *r.pick(&body);
        let ch = |r: &mut Rng, d: usize| {
            let n = r.below(4);
            let mut t = vec![b"CHANNELS".to_vec(), n.to_string().into_bytes()];
            t.extend((0..n).map(|_| r.pick(&model::CHANNELS).as_bytes().to_vec()));
            model::line(Kind::Extra, d, t)
        };
        let dep = ls[i].depth;
        match r.below(9) {
            0 => {
                let l = ch(r, dep);
                ls.insert(i, l)
            }
            1 => ls.insert(i, model::line(Kind::Extra, dep, vec![b"OFFSET".to_vec(), b"1".to_vec(), b"2".to_vec(), b"3".to_vec()])),
            2 => {
                let mk = |s: &[&str]| model::line(Kind::Extra, dep, s.iter().map(|x| x.as_bytes().to_vec()).collect());
                let mut blk = vec![mk(&["End", "Site"]), mk(&["{"])];
                if r.chance(2, 3) {
                    blk.push(mk(&["OFFSET", "7", "8", "9"]));
                }
                if r.chance(1, 5) {
                    blk.push(ch(r, dep));
                }
                blk.push(mk(&["}"]));
                for (k, l) in blk.into_iter().enumerate() {
                    ls.insert(i + k, l);
                }
            }
            3 => {
                let mk = |s: &[&str]| model::line(Kind::Extra, dep, s.iter().map(|x| x.as_bytes().to_vec()).collect());
                let mut blk = vec![mk(&["JOINT", "extra"])];
                if r.chance(3, 4) {
                    blk.push(mk(&["{"]));
                }
                if r.chance(1, 2) {
                    blk.push(ch(r, dep));
                }
                if r.chance(3, 4) {
                    blk.push(mk(&["}"]));
                }
                for (k, l) in blk.into_iter().enumerate() {
                    ls.insert(i + k, l);
                }
            }
            4 => {
                // A header without its block, or a block without its header.
                if let Some(p) = (i..m).find(|&p| matches!(ls[p].kind, Kind::Header(_) | Kind::End(_) | Kind::Open(_) | Kind::EndOpen(_) | Kind::Close(_) | Kind::EndClose(_))) {
                    if p > 2 {
                        ls.remove(p);
                    }
                }
            }
            5 => {
                if matches!(ls[i].kind, Kind::Offset(_) | Kind::Channels(_) | Kind::EndOffset(_)) {
                    ls.remove(i);
                }
            }
            6 => ls.insert(i, model::line(Kind::Extra, dep, vec![r.pick(&["{", "}"]).as_bytes().to_vec()])),
            7 => {
                let j = *r.pick(&body);
                ls.swap(i, j);
            }
            _ => ls.insert(i, model::line(Kind::Extra, dep, vec![b"# note".to_vec()])),
        }
    }
    // Keep the declared counts right, so that only the hierarchy is irregular.
    let m = ls.iter().position(|l| l.kind == Kind::Motion).unwrap_or(ls.len());
    let total: usize = ls[..m]
        .iter()
        .filter(|l| l.toks.first().map_or(false, |t| t == b"CHANNELS"))
        .map(|l| l.toks.len().saturating_sub(2))
        .sum();
    ls.retain(|l| !matches!(l.kind, Kind::Row(_)));
    let frames = if total == 0 { 0 } else { r.below(3) };
    for l in ls.iter_mut() {
        if l.kind == Kind::Frames {
            l.toks[1] = frames.to_string().into_bytes();
        }
    }
    let total = if r.chance(1, 6) { total + 1 } else { total };
    for f in 0..frames {
        ls.push(model::line(Kind::Row(f), 0, (0..total).map(|k| k.to_string().into_bytes()).collect()));
    }
    model::render(r, &ls, &Layout::plain()).bytes
}

/// Bytes before the first keyword, after the last value, or throughout, that some reader might treat as if they were not there.
pub fn affix(r: &mut Rng, b: Vec<u8>) -> Vec<u8> {
    const PRE: &[&[u8]] = &[
        b"\xef\xbb\xbf", b"\xff\xfe", b"\xfe\xff", b"\0", b"\x0b", b"\x0c", b" ", b"\t", b"\r", b"\n", b"\r\n", b"\n\n\n", b"\xc2\xa0", b"\xe2\x80\x8b",
        b"\xe3\x80\x80", b"\xc2\x85", b"\xe2\x80\xa8", b"\x1a", b"\x1b", b";", b"#", b"//", b"\x85", b"\xa0",
    ];
    let n = 1 + (r.below(6) == 0) as usize;
    let bit: Vec<u8> = (0..n).flat_map(|_| r.pick(PRE).to_vec()).collect();
    match r.below(6) {
        0 | 1 => [&bit[..], &b[..]].concat(),
        2 => [&b[..], &bit[..]].concat(),
        3 => [&bit[..], b"\n", &b[..]].concat(),
        4 => {
            // At the start of some line.
            let starts: Vec<usize> = std::iter::once(0).chain(b.iter().enumerate().filter(|x| *x.1 == b'\n').map(|x| x.0 + 1)).collect();
            let k = *r.pick(&starts);
            [&b[..k], &bit[..], &b[k..]].concat()
        }
        _ => {
            // At the end of some line.
            let ends: Vec<usize> = b.iter().enumerate().filter(|x| *x.1 == b'\n').map(|x| x.0).collect();
            if ends.is_empty() {
                return b;
            }
            let k = *r.pick(&ends);
            [&b[..k], &bit[..], &b[k..]].concat()
        }
    }
}
