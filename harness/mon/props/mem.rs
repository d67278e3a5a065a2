//! C23: everything, as a workload for the memory sanitizers. Whether results are right is decided elsewhere.
use crate::ctx::{Ctx, Res};

const ALL: [&str; 28] = [
    "C17", "C28", "C01", "C19", "C12", "C20", "C06", "C21", "C03", "C18", "C13", "C26", "C28", "C29", "C04", "C27", "C07", "C15", "C10", "C16", "C05",
    "C11", "C14", "C24", "C25", "C08", "C09", "C02",
];

pub fn everything(cx: &mut Ctx) -> Res {
    if cx.tiny && cx.case == 0 {
        // Decimals on the slow paths of the number parser, the same in every run.
        for n in ["2.4703282292062327208e-324", "9007199254740993", "1.00000005960464477539062500001"].iter() {
            let t = format!("HIERARCHY\nROOT a\n{{\nOFFSET {0} 0 0\nCHANNELS 1 Xposition\n}}\nMOTION\nFrames: 1\nFrame Time: {0}\n{0}\n", n);
            let _ = bvh_anim::from_bytes(t.as_bytes());
            cx.evaluations += 1;
        }
    }
    let p = ALL[cx.case as usize % ALL.len()];
    cx.see(&format!("workload of {}", p));
    let before = cx.evaluations;
    // Counters of the borrowed workload keep their own meaning; only its failures are not ours.
    let _ = super::run(p, cx);
    if cx.evaluations == before {
        cx.evaluations += 1;
    }
    Ok(())
}

/// A string that is not UTF-8 is an invalid value, which no sanitizer looks for.
pub fn text(what: &str, s: &str) {
    let b = std::hint::black_box(s.as_bytes());
    if std::str::from_utf8(b).is_err() {
        eprintln!("Undefined Behavior: the text of {} is not UTF-8: {:?}", what, &b[..b.len().min(200)]);
        std::process::abort();
    }
}
