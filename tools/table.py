"""One entry per property: how much a quick run does, what a case is, and what makes it count."""

HOSTILE = "token soup, raw bytes, and generated files whose bytes, tokens or lines were deleted, duplicated, swapped or replaced by hostile ones"
DOC = "files generated from a document model (any tree shape, 0-9+ channels per joint, end sites on any subset of joints, arbitrary name bytes, decimals of every form) in a random layout"

TABLE = {
    "C01": dict(cases=900_000, rule="Each case loads one hostile input (" + HOSTILE + ") in a watched process; reads after the end of input are counted. Non-trivial: the input is not empty; distinct by content."),
    "C02": dict(cases=150_000, rule="Each case loads one small file with large claimed counts, or one big file, under a counting allocator, peak compared with 64 KiB + 256 bytes per input byte. Non-trivial and distinct by content."),
    "C03": dict(cases=400_000, rule="Each case loads one of the " + DOC + " and compares every joint with the model. Non-trivial: more than the bare root; distinct by content."),
    "C04": dict(cases=400_000, rule="Each case loads one of the " + DOC + " and compares every number bit for bit with the value std's correctly rounding parser gives, at its own position. Non-trivial: has frames or odd decimals; distinct by content."),
    "C05": dict(cases=250_000, rule="Each case lays out one generated document in several ways and compares the loaded animations. Distinct by document."),
    "C06": dict(cases=900_000, rule="Each case loads one irregular or hostile input and, where it is accepted, checks the structure of what came out. Non-trivial: accepted; distinct by content."),
    "C07": dict(cases=100_000, rule="Each case loads one valid or invalid input through every entry point and through readers that split it at random or at every place, with interruptions, and compares results. Distinct by content."),
    "C08": dict(cases=7_000, level="fault_enumeration", rule="Each case takes one generated file and makes the reader fail at every byte position (every fill boundary), with several error kinds. One evaluation is one failing load. Distinct by content."),
    "C09": dict(cases=6_000, level="fault_enumeration", rule="Each case takes one generated file with motion data and loads every proper prefix that lacks a token. One evaluation is one prefix. Distinct by content."),
    "C10": dict(cases=600_000, rule="Each case injects one of 55 kinds of defect at a random place of a generated file, lays it out at random, and loads it. Distinct by content."),
    "C11": dict(cases=600_000, rule="Each case injects one defect of known kind, line, axis or position, and compares the error with it; a quarter of the cases format the error of a hostile input. Distinct by content."),
    "C12": dict(cases=300_000, rule="Each case writes an animation (generated, edited, or accepted from an irregular file) with one layout, loads the output and compares bit for bit. Distinct by output."),
    "C13": dict(cases=200_000, rule="Each case parses the written output of one animation and layout with a separate strict line grammar and compares it with the animation. Distinct by output."),
    "C14": dict(cases=150_000, rule="Each case writes one animation with a random combination of precisions and checks each number with exact integer arithmetic, and all other bytes against the output without precisions. Distinct by output."),
    "C15": dict(cases=12_000, level="fault_enumeration", rule="Each case writes one animation to sinks that take part of a buffer, interrupt, and fail at every write call, at every byte count, or at the flush. One evaluation is one write to one sink. Distinct by output."),
    "C16": dict(cases=150_000, rule="Each case writes one animation in all ways with random options, reloads and rewrites it. Distinct by output."),
    "C17": dict(cases=400_000, rule="Each case is a random history of cursor operations on one animation, compared with a list after every step. One evaluation is one step. Distinct by history."),
    "C18": dict(cases=400_000, rule="Each case tries rejected edits at several cursor positions after a random history and compares the animation before and after. Distinct by situation."),
    "C19": dict(cases=400_000, rule="Each case takes several iterators of one animation through random sequences of front and back steps, skips and length queries, compared with a list. One evaluation is one step. Distinct by sequence."),
    "C20": dict(cases=250_000, rule="Each case addresses every frame of one animation through every channel and through indices and ranges inside and outside, reads and sets. One evaluation is one access. Distinct by shape and access."),
    "C21": dict(cases=400_000, rule="Each case asks every joint of one skeleton for all its relations and searches names present and absent. One evaluation is one joint or one name. Distinct by shape."),
    "C22": dict(floor=60, floor_distinct=60, rule="Each case is one bvh! literal, compiled into a generated program together with the same text as a file; the two animations are compared by equality, by every public accessor and by written bytes. Every channel count 0-9 at root and below it, every tree of up to four joints with and without end sites, and random literals. Distinct by text."),
    "C23": dict(cases=10_000, deep=20, rule="Each case is one case of another property's workload, run under AddressSanitizer (and, smaller, under Miri, once with Tree Borrows and once with Stacked Borrows; thorough: also under valgrind memcheck). One evaluation is one evaluation of that workload. Distinct by what that workload counts."),
    "C24": dict(cases=4_000, deep=25, rule="Each case takes 12 inputs, digests all that can be asked of each alone, then again in random order, after abandoned loads, nested in one another, on 4 threads sharing animations, and against the start of the process; a few more under Miri's data race detector. One evaluation is one compared result. Distinct by input."),
    "C25": dict(cases=30_000, rule="Each case converts keywords, their one-edit neighbours, case variants, prefixes, extensions and random bytes by every conversion. One evaluation is one string. Distinct by string."),
    "C26": dict(cases=200_000, rule="Each case is a random history of edits with saves and reloads in between, compared with a model after every step. One evaluation is one step. Distinct by history."),
    "C27": dict(cases=200_000, rule="Each case compares one animation with its clone, with single-field variants of it, and after edits of either. One evaluation is one comparison. Distinct by content."),
    "C28": dict(cases=250_000, level="fault_enumeration", rule="Each case runs six faults on one animation: panics in the caller's iterator, size hint, frame, reader or sink at a random step, frames and size hints that lie, cursors and iterators dropped early or leaked; what is left is compared with a list, and edited again. One evaluation is one fault. Distinct by animation and faults."),
    "C29": dict(cases=30_000, rule="Each case formats one animation with its joints, channels, frames, cursors, iterators and writer options, or one error, in several forms, twice, and to a target that refuses after a random number of bytes. One evaluation is one formatting. Distinct by what is shown."),
}
for v in TABLE.values():
    v.setdefault("level", "exploration")

TECHNIQUE = {
    "C01": "runtime monitoring: watched worker processes under hostile inputs (panic, abort, CPU time, reads after end of input)",
    "C02": "runtime monitoring: counting global allocator, peak against a linear bound",
    "C03": "runtime monitoring: executable document model as oracle over loads",
    "C04": "runtime monitoring: independent decimal oracle over loaded numbers",
    "C05": "runtime monitoring: metamorphic comparison of loads of differently laid out files",
    "C06": "runtime monitoring: invariant checker on every accepted input",
    "C07": "runtime monitoring: differential comparison of entry points and read schedules",
    "C08": "runtime monitoring with injected read faults at every position",
    "C09": "runtime monitoring with every truncation point",
    "C10": "runtime monitoring: defect injection, acceptance monitor",
    "C11": "runtime monitoring: defect injection, error report compared with the injected defect",
    "C12": "runtime monitoring: write/load round-trip monitor, bitwise",
    "C13": "runtime monitoring: independent output grammar as trace checker",
    "C14": "runtime monitoring: exact rounding oracle over written numbers",
    "C15": "runtime monitoring with injected write faults, recording sink",
    "C16": "runtime monitoring: differential comparison of writers and of rewrites",
    "C17": "runtime monitoring: history checked step by step against a sequential list model",
    "C18": "runtime monitoring: before/after monitor on rejected edits",
    "C19": "runtime monitoring: iterator histories checked against a sequential model",
    "C20": "runtime monitoring: access histories checked against a sequential model",
    "C21": "runtime monitoring: tree invariants over all navigation answers",
    "C22": "runtime monitoring of generated literal programs, compared with the loaded text",
    "C23": "sanitizers: AddressSanitizer, Miri, valgrind memcheck over all workloads",
    "C24": "runtime monitoring of repeated, interleaved and threaded runs; Miri data race detector",
    "C25": "runtime monitoring: reference table as oracle over conversions",
    "C26": "runtime monitoring: edit histories with save/reload checked against a model",
    "C27": "runtime monitoring: equality and clone isolation monitor over generated pairs",
    "C28": "runtime monitoring with injected panics and lies in the caller's code, wholeness monitor",
    "C29": "runtime monitoring of Debug and Display, with refusing targets",
}

NOTE = {
    "C01": "Held on the inputs generated; a worker that panics, aborts or spends 60 s of CPU time in one case is a violation.",
    "C02": "The bound is generous (64 KiB + 256 bytes per byte of input); only allocation out of proportion is seen.",
    "C08": "Complete over fault positions for each file tried; the files are generated.",
    "C09": "Complete over cut positions for each file tried; the files are generated.",
    "C15": "Complete over failing calls for each animation tried, up to a cap for long outputs; the animations are generated.",
    "C28": "Fault positions are random, not exhausted, per animation.",
    "C22": "Complete over channel counts and small trees, otherwise sampled; needs the library itself to compile.",
    "C23": "Held on the executions observed. AddressSanitizer misses accesses inside live allocations, Miri sees only small cases.",
    "C24": "Interleavings are those the scheduler and Miri's seeds produced.",
}
DEFAULT_NOTE = "Held on the executions observed; trusts the monitors in /verif/harness and the public accessors they look through (cross-checked against the document model)."
