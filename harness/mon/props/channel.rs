//! C25: channel names.
use crate::ctx::{show, viol, Ctx, Res};
use crate::model::CHANNELS;
use crate::rng::{hash_bytes, Rng};
use crate::view::code;
use bstr::BStr;
use bvh_anim::errors::ParseChannelError;
use bvh_anim::{Axis, ChannelType};
use std::convert::TryFrom;
use std::str::FromStr;

const TYPES: [ChannelType; 6] = [
    ChannelType::PositionX,
    ChannelType::PositionY,
    ChannelType::PositionZ,
    ChannelType::RotationX,
    ChannelType::RotationY,
    ChannelType::RotationZ,
];

fn convert_all(s: &[u8]) -> Vec<(&'static str, Result<ChannelType, ParseChannelError>)> {
    let mut v = vec![
        ("from_bytes(&[u8])", ChannelType::from_bytes(s)),
        ("from_bytes(&Vec)", ChannelType::from_bytes(&s.to_vec())),
        ("from_bytes(&BStr)", ChannelType::from_bytes(<&BStr>::from(s))),
        ("TryFrom<&[u8]>", ChannelType::try_from(s)),
    ];
    if let Ok(t) = std::str::from_utf8(s) {
        v.push(("from_bytes(&str)", ChannelType::from_bytes(t)));
        v.push(("TryFrom<&str>", ChannelType::try_from(t)));
        v.push(("FromStr", ChannelType::from_str(t)));
        v.push(("parse", t.parse()));
    }
    v
}

fn one(cx: &mut Ctx, s: &[u8]) -> Res {
    let want = CHANNELS.iter().position(|k| k.as_bytes() == s);
    for (how, r) in convert_all(s) {
        cx.evaluations += 1;
        match (r, want) {
            (Ok(t), Some(k)) => ensure!(code(t) as usize == k, "wrong-type", "{} of {:?} gives {:?}", how, show(s), t),
            (Ok(t), None) => return viol("accepted", format!("{} accepts {:?} as {:?}", how, show(s), t)),
            (Err(_), Some(_)) => return viol("rejected", format!("{} rejects {:?}", how, show(s))),
            (Err(e), None) => {
                let _ = format!("{} {:?}", e, e);
                let got = e.into_inner();
                ensure!(got == s, "error-string", "{} rejects {:?} with an error that returns {:?}", how, show(s), show(&got));
            }
        }
    }
    cx.see(if want.is_some() { "keywords converted" } else { "other strings rejected" });
    if want.is_none() {
        cx.distinct(hash_bytes(s));
    }
    Ok(())
}

fn types(cx: &mut Ctx) -> Res {
    for (k, t) in TYPES.iter().enumerate() {
        let kw = CHANNELS[k];
        cx.evaluations += 1;
        ensure!(t.as_str() == kw, "as-str", "{:?} is called {:?}", t, t.as_str());
        ensure!(t.to_string() == kw && format!("{}", t) == kw, "display", "{:?} is displayed as {:?}", t, t.to_string());
        for (how, r) in convert_all(t.as_str().as_bytes()) {
            match r {
                Ok(u) => ensure!(u == *t, "not-back", "{:?} converts to {:?} and by {} back to {:?}", t, kw, how, u),
                Err(e) => return viol("rejected", format!("{} rejects {:?}: {:?}", how, kw, e)),
            }
        }
        let axis = [Axis::X, Axis::Y, Axis::Z][k % 3];
        ensure!(t.axis() == axis, "axis", "the axis of {} is {:?}", kw, t.axis());
        ensure!(t.is_position() == (k < 3) && t.is_rotation() == (k >= 3), "kind", "{}: is_position {} is_rotation {}", kw, t.is_position(), t.is_rotation());
        let mut v = [0.0f32; 3];
        v[k % 3] = 1.0;
        ensure!(t.axis().vector() == v, "axis", "the vector of {:?} is {:?}", axis, axis.vector());
        ensure!(axis.to_string().to_lowercase() == ["x", "y", "z"][k % 3], "axis", "{:?} is displayed as {}", axis, axis);
        cx.see("types round-tripped");
    }
    Ok(())
}

/// The i-th string at most one edit away from a keyword, over all 256 bytes.
fn neighbour(i: u64) -> Option<Vec<u8>> {
    // Per keyword of length 9: substitutions 9*256, insertions 10*256, deletions 9, itself 1.
    let per = 9 * 256 + 10 * 256 + 9 + 1;
    let k = (i / per) as usize;
    let mut j = (i % per) as usize;
    let mut s = CHANNELS.get(k)?.as_bytes().to_vec();
    if j < 9 * 256 {
        s[j / 256] = (j % 256) as u8;
        return Some(s);
    }
    j -= 9 * 256;
    if j < 10 * 256 {
        s.insert(j / 256, (j % 256) as u8);
        return Some(s);
    }
    j -= 10 * 256;
    if j < 9 {
        s.remove(j);
    }
    Some(s)
}

fn other(r: &mut Rng) -> Vec<u8> {
    let mut s = r.pick(&CHANNELS).as_bytes().to_vec();
    if r.chance(1, 4000) {
        let n = *r.pick(&[250, 65_520, 65_536, 70_000, 200_000]) + r.below(20);
        let fill = *r.pick(b"nX\0 \xff");
        let at = r.below(10);
        let tail = s.split_off(at);
        s.extend(std::iter::repeat(fill).take(n));
        s.extend(tail);
        return s;
    }
    match r.below(10) {
        0 => s.iter_mut().for_each(|c| {
            if r.chance(1, 2) {
                *c = if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }
            }
        }),
        1 => {
            let n = r.below(12);
            s = (0..n).map(|_| r.u32() as u8).collect()
        }
        2 => {
            let (i, j) = (r.below(9), r.below(9));
            s.swap(i, j)
        }
        3 => s.truncate(r.below(9)),
        4 => s = s[r.below(9)..].to_vec(),
        5 => {
            let o = r.pick(&CHANNELS).as_bytes().to_vec();
            s.extend(o)
        }
        6 => {
            for _ in 0..2 {
                let i = r.below(9);
                s[i] = r.u32() as u8;
            }
        }
        7 => {
            let n = 1 + r.below(300);
            for _ in 0..n {
                let i = r.below(s.len() + 1);
                s.insert(i, *r.pick(b"\0 \t\nxX"));
            }
        }
        8 => s.reverse(),
        _ => {
            let mut t = vec![*r.pick(b"WwXxYyZz")];
            t.extend_from_slice(*r.pick(&[&b"rotation"[..], b"position", b"scale", b"Rotation", b"_rotation", b"rot", b""]));
            s = t
        }
    }
    s
}

pub fn channels(cx: &mut Ctx) -> Res {
    if cx.case == 0 {
        types(cx)?;
        one(cx, b"")?;
        for a in 0..=255u8 {
            one(cx, &[a])?;
        }
    }
    let block = if cx.tiny { 8 } else { 64 };
    for k in 0..block {
        if let Some(s) = neighbour(cx.case * block + k) {
            cx.set_witness(&s);
            one(cx, &s)?;
            cx.see("strings at most one edit from a keyword");
        }
    }
    for _ in 0..block {
        let mut r = cx.rng.fork();
        let s = other(&mut r);
        cx.set_witness(&s);
        one(cx, &s)?;
        cx.sample(|| show(&s));
    }
    types(cx)
}
