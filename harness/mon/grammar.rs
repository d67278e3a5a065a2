//! Independent, strict, line-by-line reader of written BVH: the oracle of C13 and C14. It accepts only the
//! documented format in exactly the requested layout and returns the numbers as text.
use crate::ctx::{clip, show, Violation};
use crate::model::CHANNELS;

#[derive(Clone, Debug)]
pub struct OutJoint {
    pub name: Vec<u8>,
    pub parent: Option<usize>,
    pub depth: usize,
    pub offset: [String; 3],
    pub channels: Vec<u8>,
    pub end_site: Option<[String; 3]>,
}
#[derive(Clone, Debug)]
pub struct Out {
    pub joints: Vec<OutJoint>,
    pub frames: usize,
    pub frame_time: String,
    pub rows: Vec<Vec<String>>,
}

struct Rd<'a> {
    lines: Vec<&'a [u8]>,
    at: usize,
    unit: Vec<u8>,
}

fn bad<T>(sig: &str, msg: String) -> Result<T, Violation> {
    Err(Violation { sig: format!("format-{}", sig), msg })
}

impl<'a> Rd<'a> {
    fn peek(&self, depth: usize) -> Option<Vec<&'a [u8]>> {
        let l = self.lines.get(self.at)?;
        let skip = (self.unit.len() * depth).min(l.len());
        Some(toks(&l[skip..]))
    }
    fn next(&mut self, depth: usize, what: &str) -> Result<Vec<&'a [u8]>, Violation> {
        let l = match self.lines.get(self.at) {
            Some(l) => *l,
            None => return bad("short", format!("output ends where {} is expected", what)),
        };
        let mut rest = l;
        for _ in 0..depth {
            match rest.strip_prefix(&self.unit[..]) {
                Some(x) => rest = x,
                None => {
                    return bad("indent", format!("line {} ({}): {:?} is not indented by {} levels", self.at, what, show(l), depth))
                }
            }
        }
        if rest.first().map_or(true, |c| c.is_ascii_whitespace()) {
            return bad("indent", format!("line {} ({}): {:?} is indented by more than {} levels, or empty", self.at, what, show(l), depth));
        }
        self.at += 1;
        Ok(toks(rest))
    }
    fn expect(&mut self, depth: usize, want: &[&str]) -> Result<(), Violation> {
        let n = self.at;
        let t = self.next(depth, &want.join(" "))?;
        if t.len() != want.len() || t.iter().zip(want).any(|(a, b)| *a != b.as_bytes()) {
            return bad("keyword", format!("line {}: expected {:?}, found {:?}", n, want.join(" "), show(&t.join(&b' '))));
        }
        Ok(())
    }
    fn offset(&mut self, depth: usize) -> Result<[String; 3], Violation> {
        let n = self.at;
        let t = self.next(depth, "OFFSET")?;
        if t.len() != 4 || t[0] != b"OFFSET" {
            return bad("offset", format!("line {}: expected OFFSET x y z, found {:?}", n, show(&t.join(&b' '))));
        }
        Ok([num(t[1], n)?, num(t[2], n)?, num(t[3], n)?])
    }
}

fn toks(l: &[u8]) -> Vec<&[u8]> {
    l.split(|c| matches!(c, b' ' | b'\t')).filter(|t| !t.is_empty()).collect()
}

fn num(t: &[u8], line: usize) -> Result<String, Violation> {
    match std::str::from_utf8(t).ok().filter(|s| s.parse::<f64>().is_ok()) {
        Some(s) => Ok(s.to_string()),
        None => bad("number", format!("line {}: {:?} is not a number", line, show(t))),
    }
}

/// `unit`: the indentation of one level. `crlf`: every line must end in CRLF, else in LF alone.
pub fn read(bytes: &[u8], unit: &[u8], crlf: bool) -> Result<Out, Violation> {
    if bytes.last() != Some(&b'\n') {
        return bad("terminator", format!("output does not end with a line terminator: {:?}", clip(&show(bytes), 200)));
    }
    let mut lines = vec![];
    for (i, l) in bytes[..bytes.len() - 1].split(|&c| c == b'\n').enumerate() {
        let l = if crlf {
            match l.strip_suffix(b"\r") {
                Some(l) => l,
                None => return bad("terminator", format!("line {} does not end in CRLF: {:?}", i, show(l))),
            }
        } else {
            l
        };
        if l.contains(&b'\r') {
            return bad("terminator", format!("line {} has a stray carriage return: {:?}", i, show(l)));
        }
        lines.push(l);
    }
    let mut rd = Rd { lines, at: 0, unit: unit.to_vec() };
    rd.expect(0, &["HIERARCHY"])?;
    let mut joints: Vec<OutJoint> = vec![];
    let mut open: Vec<usize> = vec![];
    let ascii = |t: &[u8]| t.is_ascii();
    loop {
        let depth = open.len();
        let t = match rd.peek(depth) {
            Some(t) => t,
            None => break,
        };
        let first = t.first().copied().unwrap_or(b"");
        let here = rd.at;
        if joints.is_empty() {
            if first == b"MOTION" {
                break;
            }
        } else if open.is_empty() {
            break;
        }
        // In a joint body: either a child joint or the closing brace (which is one level further out).
        if !open.is_empty() {
            let outer = rd.peek(depth - 1).unwrap_or_default();
            if outer == [b"}"] {
                rd.expect(depth - 1, &["}"])?;
                open.pop();
                continue;
            }
        }
        let t = rd.next(depth, if joints.is_empty() { "ROOT" } else { "JOINT or }" })?;
        let kw: &[u8] = if joints.is_empty() { b"ROOT" } else { b"JOINT" };
        if first != kw || t.len() != 2 {
            return bad("joint", format!("line {}: expected {} <name>, found {:?}", here, show(kw), show(&t.join(&b' '))));
        }
        let name = t[1].to_vec();
        rd.expect(depth, &["{"])?;
        let offset = rd.offset(depth + 1)?;
        let n = rd.at;
        let t = rd.next(depth + 1, "CHANNELS")?;
        if t.len() < 2 || t[0] != b"CHANNELS" {
            return bad("channels", format!("line {}: expected CHANNELS, found {:?}", n, show(&t.join(&b' '))));
        }
        let count = std::str::from_utf8(t[1]).ok().and_then(|s| s.parse::<usize>().ok());
        if count != Some(t.len() - 2) {
            return bad("channel-count", format!("line {}: count {:?} with {} channels listed", n, show(t[1]), t.len() - 2));
        }
        let mut channels = vec![];
        for c in &t[2..] {
            match CHANNELS.iter().position(|k| k.as_bytes() == *c) {
                Some(k) => channels.push(k as u8),
                None => return bad("channel", format!("line {}: {:?} is not a channel", n, show(c))),
            }
        }
        let mut end_site = None;
        if rd.peek(depth + 1).map_or(false, |t| t == [&b"End"[..], &b"Site"[..]]) {
            rd.expect(depth + 1, &["End", "Site"])?;
            rd.expect(depth + 1, &["{"])?;
            end_site = Some(rd.offset(depth + 2)?);
            rd.expect(depth + 1, &["}"])?;
        }
        joints.push(OutJoint { name, parent: open.last().copied(), depth, offset, channels, end_site });
        open.push(joints.len() - 1);
    }
    if !open.is_empty() {
        return bad("unclosed", format!("{} joints are not closed", open.len()));
    }
    let motion_at = rd.at;
    rd.expect(0, &["MOTION"])?;
    let n = rd.at;
    let t = rd.next(0, "Frames:")?;
    let frames = match (t.len(), t.first()) {
        (2, Some(&b"Frames:")) => std::str::from_utf8(t[1]).ok().and_then(|s| s.parse::<usize>().ok()),
        _ => None,
    };
    let frames = match frames {
        Some(f) => f,
        None => return bad("frames", format!("line {}: {:?}", n, show(&t.join(&b' ')))),
    };
    let n = rd.at;
    let t = rd.next(0, "Frame Time:")?;
    if t.len() != 3 || t[0] != b"Frame" || t[1] != b"Time:" {
        return bad("frame-time", format!("line {}: {:?}", n, show(&t.join(&b' '))));
    }
    let frame_time = num(t[2], n)?;
    let mut rows = vec![];
    while rd.at < rd.lines.len() {
        let n = rd.at;
        let t = rd.next(0, "motion values")?;
        rows.push(t.iter().map(|t| num(t, n)).collect::<Result<Vec<_>, _>>()?);
    }
    if rd.lines[motion_at..].iter().any(|l| !ascii(l)) {
        return bad("ascii", "motion section is not ASCII".into());
    }
    Ok(Out { joints, frames, frame_time, rows })
}
