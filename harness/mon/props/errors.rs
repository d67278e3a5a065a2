//! Reading errors from the outside.
use crate::ctx::{clip, Violation};
use bvh_anim::errors::{LoadError, LoadErrorKind, LoadJointsError, LoadMotionError};
use bvh_anim::Bvh;
use std::error::Error;

/// The name of the error's variant, from its Debug form.
pub fn variant(e: &LoadError) -> String {
    let s = match e.kind() {
        LoadErrorKind::Joints(e) => format!("{:?}", e),
        LoadErrorKind::Motion(e) => format!("{:?}", e),
    };
    s.chars().take_while(|c| c.is_ascii_alphanumeric()).collect()
}

pub fn outcome(r: &Result<Bvh, LoadError>) -> String {
    match r {
        Ok(_) => "accepted".into(),
        Err(e) => variant(e),
    }
}

pub fn io_error(e: &LoadError) -> Option<&std::io::Error> {
    match e.kind() {
        LoadErrorKind::Joints(LoadJointsError::Io(e)) | LoadErrorKind::Motion(LoadMotionError::Io(e)) => Some(e),
        _ => None,
    }
}

/// Formats the error in every way, walks its sources, and checks that its line is in the message.
pub fn inspect(e: &LoadError) -> Result<(), Violation> {
    let shown = e.to_string();
    let _ = format!("{:?}", e);
    let mut cur: Option<&(dyn Error + 'static)> = e.source();
    let mut n = 0;
    while let Some(s) = cur {
        let _ = format!("{} {:?}", s, s);
        cur = s.source();
        n += 1;
        ensure!(n < 20, "endless-sources", "the error's sources do not end");
    }
    let inner = match e.kind() {
        LoadErrorKind::Joints(j) => {
            ensure!(j.line() == e.line(), "line-disagrees", "line() of the error and of its kind differ");
            j.to_string()
        }
        LoadErrorKind::Motion(m) => {
            ensure!(m.line() == e.line(), "line-disagrees", "line() of the error and of its kind differ");
            m.to_string()
        }
    };
    let first = e.source();
    ensure!(first.map(|s| s.to_string()) == Some(inner.clone()), "source-missing", "the first source of {:?} is {:?}", shown, first.map(|s| s.to_string()));
    let behind = match e.kind() {
        LoadErrorKind::Joints(LoadJointsError::Io(x)) | LoadErrorKind::Motion(LoadMotionError::Io(x)) => Some(x.to_string()),
        LoadErrorKind::Joints(LoadJointsError::ParseChannelError { error, .. }) => Some(error.to_string()),
        _ => None,
    };
    if let Some(b) = behind {
        let second = first.and_then(|s| s.source());
        ensure!(second.map(|s| s.to_string()) == Some(b.clone()), "source-missing", "the error behind {:?} is {:?}, its sources lead to {:?}", shown, b, second.map(|s| s.to_string()));
    }
    if let Some(line) = e.line() {
        for m in [&shown, &inner] {
            let has = m.split(|c: char| !c.is_ascii_digit()).any(|t| t == line.to_string());
            ensure!(has, "line-not-shown", "the message {:?} does not carry line {}", clip(m, 200), line);
        }
    }
    ensure!(!shown.is_empty(), "no-message", "empty message");
    Ok(())
}
