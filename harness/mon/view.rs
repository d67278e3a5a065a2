//! What the public API shows of an animation, in comparable form.
use crate::ctx::{show, Violation};
use bvh_anim::{Bvh, ChannelType};
use std::time::Duration;

#[derive(Clone, Debug, PartialEq)]
pub struct JointView {
    pub index: usize,
    pub parent: Option<usize>,
    pub name: Vec<u8>,
    pub offset: [u32; 3],
    pub end_site: Option<[u32; 3]>,
    /// (channel type code, motion index)
    pub channels: Vec<(u8, usize)>,
    pub is_root: bool,
}

#[derive(Clone, Debug, PartialEq)]
pub struct View {
    pub joints: Vec<JointView>,
    pub num_channels: usize,
    pub frame_time: Duration,
    pub frames: Vec<Vec<u32>>,
}

pub fn code(c: ChannelType) -> u8 {
    match c {
        ChannelType::PositionX => 0,
        ChannelType::PositionY => 1,
        ChannelType::PositionZ => 2,
        ChannelType::RotationX => 3,
        ChannelType::RotationY => 4,
        ChannelType::RotationZ => 5,
    }
}

/// NaNs are all one value; everything else is compared bit for bit.
pub fn canon(f: f32) -> u32 {
    if f.is_nan() {
        0x7fc0_0000
    } else {
        f.to_bits()
    }
}
fn canon3(o: &[f32; 3]) -> [u32; 3] {
    [canon(o[0]), canon(o[1]), canon(o[2])]
}

pub fn joints(b: &Bvh) -> Vec<JointView> {
    b.joints()
        .map(|j| JointView {
            index: j.index(),
            parent: j.parent_index(),
            name: j.name().to_vec(),
            offset: canon3(j.offset()),
            end_site: j.end_site().map(canon3),
            channels: j.channels().iter().map(|c| (code(c.channel_type()), c.motion_index())).collect(),
            is_root: j.is_root(),
        })
        .collect()
}

pub fn frames(b: &Bvh) -> Vec<Vec<u32>> {
    b.frames().map(|f| f.as_slice().iter().map(|&x| canon(x)).collect()).collect()
}

pub fn view(b: &Bvh) -> View {
    View { joints: joints(b), num_channels: b.num_channels(), frame_time: *b.frame_time(), frames: frames(b) }
}

fn f3(b: &[u32; 3]) -> String {
    format!("[{:?}, {:?}, {:?}]", f32::from_bits(b[0]), f32::from_bits(b[1]), f32::from_bits(b[2]))
}

/// First difference in the skeletons.
pub fn diff_joints(want: &[JointView], got: &[JointView]) -> Option<(&'static str, String)> {
    if want.len() != got.len() {
        return Some(("joint-count", format!("expected {} joints, got {}", want.len(), got.len())));
    }
    for (i, (w, g)) in want.iter().zip(got).enumerate() {
        if w.name != g.name {
            return Some(("name", format!("joint {}: expected name {:?}, got {:?}", i, show(&w.name), show(&g.name))));
        }
        if w.index != g.index {
            return Some(("index", format!("joint {}: index {}", i, g.index)));
        }
        if w.is_root != g.is_root {
            return Some(("root", format!("joint {}: is_root {}", i, g.is_root)));
        }
        if w.parent != g.parent {
            return Some(("parent", format!("joint {}: expected parent {:?}, got {:?}", i, w.parent, g.parent)));
        }
        if w.offset != g.offset {
            return Some(("offset", format!("joint {}: expected offset {}, got {}", i, f3(&w.offset), f3(&g.offset))));
        }
        if w.end_site != g.end_site {
            return Some((
                "end-site",
                format!("joint {}: expected end site {:?}, got {:?}", i, w.end_site.as_ref().map(f3), g.end_site.as_ref().map(f3)),
            ));
        }
        if w.channels != g.channels {
            return Some(("channels", format!("joint {}: expected channels {:?}, got {:?}", i, w.channels, g.channels)));
        }
    }
    None
}

pub fn diff_frames(want: &[Vec<u32>], got: &[Vec<u32>]) -> Option<(&'static str, String)> {
    if want.len() != got.len() {
        return Some(("frame-count", format!("expected {} frames, got {}", want.len(), got.len())));
    }
    for (i, (w, g)) in want.iter().zip(got).enumerate() {
        if w.len() != g.len() {
            return Some(("frame-len", format!("frame {}: expected {} values, got {}", i, w.len(), g.len())));
        }
        for (c, (x, y)) in w.iter().zip(g).enumerate() {
            if x != y {
                return Some((
                    "motion-value",
                    format!("frame {} channel {}: expected {:?}, got {:?}", i, c, f32::from_bits(*x), f32::from_bits(*y)),
                ));
            }
        }
    }
    None
}

pub fn diff(want: &View, got: &View) -> Option<(&'static str, String)> {
    if let Some(d) = diff_joints(&want.joints, &got.joints) {
        return Some(d);
    }
    if want.num_channels != got.num_channels {
        return Some(("num-channels", format!("expected {} channels, got {}", want.num_channels, got.num_channels)));
    }
    if let Some(d) = diff_frames(&want.frames, &got.frames) {
        return Some(d);
    }
    if want.frame_time != got.frame_time {
        return Some(("frame-time", format!("expected frame time {:?}, got {:?}", want.frame_time, got.frame_time)));
    }
    None
}

pub fn same(what: &str, want: &View, got: &View) -> Result<(), Violation> {
    match diff(want, got) {
        None => Ok(()),
        Some((sig, m)) => Err(Violation { sig: format!("{}-{}", what, sig), msg: format!("{}: {}", what, m) }),
    }
}

/// Any deviation from a structurally sound animation.
pub fn soundness(b: &Bvh) -> Result<(), Violation> {
    let bad = |sig: &str, msg: String| Err(Violation { sig: sig.to_string(), msg });
    let v = view(b);
    if v.joints.is_empty() {
        return bad("no-root", "accepted, but there is no joint".into());
    }
    let mut next_channel = 0usize;
    let mut path: Vec<usize> = vec![];
    for (i, j) in v.joints.iter().enumerate() {
        if j.index != i {
            return bad("index", format!("joint at position {} says its index is {}", i, j.index));
        }
        if j.name.is_empty() {
            return bad("nameless", format!("joint {} has no name", i));
        }
        if i == 0 {
            if !j.is_root || j.parent.is_some() {
                return bad("root", format!("first joint: is_root {}, parent {:?}", j.is_root, j.parent));
            }
            path.push(0);
        } else {
            if j.is_root {
                return bad("two-roots", format!("joint {} is a second root", i));
            }
            let p = match j.parent {
                Some(p) => p,
                None => return bad("orphan", format!("joint {} has no parent", i)),
            };
            if p >= i {
                return bad("parent-order", format!("joint {} has parent {}", i, p));
            }
            // Depth-first: the parent is on the path from the root to the previous joint.
            while path.last().map_or(false, |&q| q != p) {
                path.pop();
            }
            if path.is_empty() {
                return bad("not-depth-first", format!("parent {} of joint {} was already closed", p, i));
            }
            path.push(i);
        }
        for (_, m) in &j.channels {
            if *m != next_channel {
                return bad(
                    "channel-numbering",
                    format!("joint {}: a channel has motion index {}, expected {}", i, m, next_channel),
                );
            }
            next_channel += 1;
        }
    }
    if next_channel != v.num_channels {
        return bad("channel-total", format!("joints have {} channels, animation says {}", next_channel, v.num_channels));
    }
    if b.frames().len() != v.frames.len() {
        return bad("frame-len", format!("len {} but {} frames", b.frames().len(), v.frames.len()));
    }
    if let Some(f) = v.frames.iter().find(|f| f.len() != v.num_channels) {
        return bad("frame-width", format!("a frame has {} values for {} channels", f.len(), v.num_channels));
    }
    let raw = b.clone().extract_frames();
    let flat: Vec<u32> = v.frames.iter().flatten().copied().collect();
    if raw.iter().map(|&x| canon(x)).collect::<Vec<_>>() != flat {
        return bad("partial-frame", format!("{} motion values, frames hold {}", raw.len(), flat.len()));
    }
    Ok(())
}
