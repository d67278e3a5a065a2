//! Worker of the runtime monitors: runs cases of one property against the real library and judges every
//! execution. `check.py` builds it, spawns shards of it, and merges what they report.
#[macro_use]
mod ctx;
mod alloc;
mod big;
mod grammar;
mod hostile;
mod io;
mod model;
mod props;
mod rng;
mod setup;
mod view;

use ctx::{Ctx, Violation};
use std::io::{Seek, Write};
use std::panic::{self, AssertUnwindSafe};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[global_allocator]
static GLOBAL: alloc::Counting = alloc::Counting;

/// Where the last panic happened.
static LAST_PANIC: Mutex<Option<(String, String)>> = Mutex::new(None);

fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Args {
    prop: String,
    seed: u64,
    thorough: bool,
    tiny: bool,
    shard: u64,
    nshards: u64,
    cases: u64,
    /// Cases before this one are skipped.
    from: u64,
    only: Option<u64>,
    out: Option<String>,
    hashes: Option<String>,
    case_file: Option<String>,
    replay: Option<String>,
    budget: f64,
    known: Vec<String>,
    /// Functional verdicts are not this run's business (sanitizer runs).
    mem_only: bool,
}

fn parse_args() -> Args {
    let mut it = std::env::args().skip(1);
    let mut a = Args {
        prop: it.next().expect("usage: bvhmon PROP [options]"),
        seed: 1,
        thorough: false,
        tiny: false,
        shard: 0,
        nshards: 1,
        cases: 1000,
        from: 0,
        only: None,
        out: None,
        hashes: None,
        case_file: None,
        replay: None,
        budget: 1e9,
        known: vec![],
        mem_only: false,
    };
    while let Some(k) = it.next() {
        let mut v = || it.next().unwrap_or_else(|| panic!("{} needs a value", k));
        match k.as_str() {
            "--seed" => a.seed = v().parse().unwrap(),
            "--tier" => a.thorough = v() == "thorough",
            "--tiny" => a.tiny = true,
            "--stacked" => {} // says which rules Miri is to apply; nothing changes here
            "--optimized" => {} // says which build this is
            "--mem-only" => a.mem_only = true,
            "--shard" => a.shard = v().parse().unwrap(),
            "--nshards" => a.nshards = v().parse().unwrap(),
            "--cases" => a.cases = v().parse().unwrap(),
            "--from" => a.from = v().parse().unwrap(),
            "--only" => a.only = Some(v().parse().unwrap()),
            "--out" => a.out = Some(v()),
            "--hashes" => a.hashes = Some(v()),
            "--case-file" => a.case_file = Some(v()),
            "--replay" => a.replay = Some(v()),
            "--budget" => a.budget = v().parse().unwrap(),
            "--known" => a.known.push(v()),
            _ => panic!("unknown option {}", k),
        }
    }
    a
}

enum Outcome {
    Fine,
    Bad(Violation),
    Harness(String),
}

fn run_case(prop: &str, cx: &mut Ctx) -> Outcome {
    let r = panic::catch_unwind(AssertUnwindSafe(|| props::run(prop, cx)));
    match r {
        Ok(Ok(())) => Outcome::Fine,
        Ok(Err(v)) => Outcome::Bad(v),
        Err(p) => {
            if let Some(v) = p.downcast_ref::<Violation>() {
                return Outcome::Bad(v.clone());
            }
            let (at, msg) = LAST_PANIC.lock().unwrap().take().unwrap_or_default();
            if at.starts_with("mon/") || at.contains("/harness/mon/") {
                return Outcome::Harness(format!("panic in the monitor at {}: {}", at, msg));
            }
            let file = at.split(':').next().unwrap_or("?").rsplit('/').next().unwrap_or("?").to_string();
            Outcome::Bad(Violation { sig: format!("panic-in-{}", file), msg: format!("panicked at {}: {}", at, msg) })
        }
    }
}

fn main() {
    if std::env::args().nth(1).as_deref() == Some("--digest") {
        // A process that has done nothing else.
        panic::set_hook(Box::new(|_| {}));
        let mut b = vec![];
        std::io::Read::read_to_end(&mut std::io::stdin(), &mut b).expect("stdin");
        std::io::stdout().write_all(props::value::digest(&b).as_bytes()).expect("stdout");
        return;
    }
    let a = parse_args();
    panic::set_hook(Box::new(|info| {
        let at = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let p = info.payload();
        let msg = p
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| p.downcast_ref::<String>().cloned())
            .unwrap_or_default();
        // No unwinding from these: the process is about to abort, and the reason must be seen.
        if ["unsafe precondition", "misaligned pointer dereference", "null pointer dereference"].iter().any(|k| msg.contains(k)) {
            eprintln!("{}: {}", at, msg);
        }
        *LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner()) = Some((at, msg));
    }));
    model::TINY.store(a.tiny, std::sync::atomic::Ordering::Relaxed);
    let mut cx = Ctx::new(a.thorough, a.tiny);
    let mut case_file = a.case_file.as_ref().map(|p| std::fs::File::create(p).expect("case file"));
    let start = Instant::now();
    let mut known_hits: std::collections::BTreeMap<String, u64> = Default::default();
    let mut bad: Option<(u64, Violation)> = None;
    let mut harness: Option<String> = None;
    let mut ran = 0u64;
    let mut ignored = 0u64;
    let from = a.from;
    let list: Box<dyn Iterator<Item = u64>> = match a.only {
        Some(i) => Box::new(std::iter::once(i)),
        None => Box::new((a.shard..a.cases).step_by(a.nshards as usize).filter(move |&c| c >= from)),
    };
    for case in list {
        if start.elapsed() > Duration::from_secs_f64(a.budget) {
            break;
        }
        if let Some(f) = case_file.as_mut() {
            f.rewind().unwrap();
            write!(f, "{:<20}", case).unwrap();
        }
        cx.case = case;
        cx.rng = rng::Rng::for_case(a.seed, &a.prop, case);
        cx.witness.clear();
        ran += 1;
        match run_case(&a.prop, &mut cx) {
            Outcome::Fine => {}
            Outcome::Bad(_) if a.mem_only => ignored += 1,
            Outcome::Harness(_) if a.mem_only => ignored += 1,
            Outcome::Bad(v) if a.known.contains(&v.sig) => *known_hits.entry(v.sig).or_insert(0) += 1,
            Outcome::Bad(v) => {
                bad = Some((case, v));
                break;
            }
            Outcome::Harness(m) => {
                harness = Some(format!("case {}: {}", case, m));
                break;
            }
        }
    }
    if let Some(p) = &a.hashes {
        let mut b = Vec::with_capacity(cx.hashes.len() * 8);
        for h in &cx.hashes {
            b.extend_from_slice(&h.to_le_bytes());
        }
        put(p, &b);
    }
    if let Some(p) = &a.out {
        let map = |m: &std::collections::BTreeMap<String, u64>| {
            m.iter().map(|(k, v)| format!("{}: {}", jstr(k), v)).collect::<Vec<_>>().join(", ")
        };
        let s = format!(
            "{{\"cases\": {}, \"evaluations\": {}, \"ignored\": {}, \"counters\": {{{}}}, \"maxima\": {{{}}}, \"known\": {{{}}}, \"samples\": [{}]}}\n",
            ran,
            cx.evaluations,
            ignored,
            map(&cx.counters),
            map(&cx.maxima),
            map(&known_hits),
            cx.samples.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(", ")
        );
        put(p, s.as_bytes());
    }
    if let Some(m) = harness {
        eprintln!("HARNESS ERROR {}", m);
        std::process::exit(4);
    }
    if let Some((case, v)) = bad {
        println!("case {}: {}: {}", case, v.sig, v.msg);
        if let Some(p) = &a.replay {
            let s = format!(
                "{{\"property\": {}, \"seed\": {}, \"tier\": {}, \"case\": {}, \"signature\": {}, \"message\": {}, \"witness\": {}}}\n",
                jstr(&a.prop),
                a.seed,
                jstr(if a.thorough { "thorough" } else { "quick" }),
                case,
                jstr(&v.sig),
                jstr(&v.msg),
                jstr(&ctx::show(&cx.witness))
            );
            put(p, s.as_bytes());
        }
        std::process::exit(3);
    }
    if a.out.is_none() {
        println!("{} cases, {} evaluations, {} distinct", ran, cx.evaluations, cx.hashes.len());
        for (k, v) in cx.counters.iter().chain(cx.maxima.iter()) {
            println!("  {:<40} {}", k, v);
        }
    }
}

/// Whoever ends this process early finds the file complete or not at all.
fn put(path: &str, b: &[u8]) {
    let tmp = format!("{}.part", path);
    std::fs::write(&tmp, b).expect("written");
    std::fs::rename(&tmp, path).expect("renamed");
}
