//! Verdicts, counters and evidence of one worker run.
use crate::rng::Rng;
use std::collections::{BTreeMap, HashSet};

/// A refuted property: `sig` identifies the kind of failure, `msg` is the witness.
#[derive(Clone, Debug)]
pub struct Violation {
    pub sig: String,
    pub msg: String,
}
pub type Res = Result<(), Violation>;

pub fn viol<T>(sig: impl Into<String>, msg: impl Into<String>) -> Result<T, Violation> {
    Err(Violation { sig: sig.into(), msg: msg.into() })
}


macro_rules! ensure {
    ($cond:expr, $sig:expr, $($arg:tt)*) => {
        if !$cond {
            return Err($crate::ctx::Violation { sig: String::from($sig), msg: format!($($arg)*) });
        }
    };
}

pub struct Ctx {
    pub rng: Rng,
    pub thorough: bool,
    /// Under an interpreter or valgrind: keep every case small.
    pub tiny: bool,
    pub case: u64,
    pub evaluations: u64,
    pub counters: BTreeMap<String, u64>,
    pub maxima: BTreeMap<String, u64>,
    pub hashes: HashSet<u64>,
    pub samples: Vec<String>,
    /// The input or history of the current case, for the replay file.
    pub witness: Vec<u8>,
}

impl Ctx {
    pub fn new(thorough: bool, tiny: bool) -> Ctx {
        Ctx {
            rng: Rng::for_case(0, "", 0),
            thorough,
            tiny,
            case: 0,
            evaluations: 0,
            counters: BTreeMap::new(),
            maxima: BTreeMap::new(),
            hashes: HashSet::new(),
            samples: vec![],
            witness: vec![],
        }
    }
    pub fn see(&mut self, key: &str) {
        self.see_n(key, 1)
    }
    pub fn see_n(&mut self, key: &str, n: u64) {
        match self.counters.get_mut(key) {
            Some(c) => *c += n,
            None => {
                self.counters.insert(key.to_string(), n);
            }
        }
    }
    pub fn max(&mut self, key: &str, v: u64) {
        let e = self.maxima.entry(key.to_string()).or_insert(0);
        *e = (*e).max(v);
    }
    /// Counts a distinct, non-trivial case by a hash of what it was (a lower bound beyond two million per worker).
    pub fn distinct(&mut self, h: u64) -> bool {
        self.hashes.len() < 2_000_000 && self.hashes.insert(h)
    }
    pub fn set_witness(&mut self, b: &[u8]) {
        self.witness.clear();
        self.witness.extend_from_slice(b);
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.samples.len() < 3 {
            let mut s = f();
            if s.len() > 1500 {
                let mut cut = 1500;
                while !s.is_char_boundary(cut) {
                    cut -= 1;
                }
                s.truncate(cut);
                s.push_str("...");
            }
            self.samples.push(s);
        }
    }
}

/// Bytes as readable text.
pub fn show(b: &[u8]) -> String {
    let mut s = String::new();
    for &c in b {
        match c {
            b'\n' => s.push('\n'),
            b'\\' => s.push_str("\\\\"),
            0x20..=0x7e => s.push(c as char),
            _ => s.push_str(&format!("\\x{:02x}", c)),
        }
    }
    s
}

pub fn clip(s: &str, n: usize) -> String {
    if s.chars().count() <= n {
        s.to_string()
    } else {
        let mut t: String = s.chars().take(n).collect();
        t.push_str("...");
        t
    }
}
