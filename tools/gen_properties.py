#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (source of truth for the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["observe_at"] = observe or ["public API"]
    a["hook_needed"] = None
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

PARSE, LIB, WRITE, JOINT = "src/parse.rs", "src/lib.rs", "src/write.rs", "src/joint.rs"
FC, FI, MAC, ERR = "src/frame_cursor.rs", "src/frame_iter.rs", "src/macros.rs", "src/errors.rs"

prop("C01", "Loading never panics, aborts or hangs, whatever the bytes",
 "Loading a BVH from any byte sequence terminates and returns either an animation or an error. It never panics (arithmetic overflow included), aborts the process or keeps reading once the input has ended.",
 ["inputs"], "every byte string: random bytes, token soup, and valid files with lines, tokens or bytes deleted, duplicated, swapped, or replaced by hostile ones (huge, negative or non-finite numbers, stray braces, misplaced keywords)",
 "The tests load two valid files and a handful of valid snippets; none feeds the loader a malformed file, although the Readme promises that parsing always returns an error on failure and never panics.",
 [PARSE, LIB], [("line-driven hierarchy state machine", "src/parse.rs read_joints"), ("motion section reader", "src/parse.rs read_motion"), ("blank-line skipping", "src/lib.rs next_non_empty_line")])

prop("C02", "Loading a file takes memory in proportion to the file, not to its claims",
 "The memory that loading allocates at its peak is bounded by a constant plus a fixed multiple of the number of bytes in the input, whether the load succeeds or fails. Numbers declared inside the file (how many channels, how many frames) cannot by themselves make the loader allocate more.",
 ["inputs"], "every input, in particular those whose CHANNELS or Frames counts are far larger than the data that follows",
 "No test observes allocation, and all test files declare exactly what they contain.",
 [PARSE], [("channel list growth", "src/parse.rs read_joints CHANNELS"), ("motion value storage growth", "src/parse.rs read_motion")])

prop("C03", "A loaded skeleton is exactly the one the file describes",
 "For every well-formed file the loaded animation has exactly the file's joints in file order, each with the file's name (any bytes without ASCII whitespace), parent, offset, channel types in order and, if it has one, end site; the joint declared ROOT is the root and comes first. An end site is reported for exactly those joints that declare one (the root and joints that also have children included, leaf joints without one too) and never alters the joint's own offset. Channel motion indices number the channels 0,1,2,... in file order.",
 ["inputs"], "every well-formed skeleton: any tree shape, depth and fan-out, any channel list, any name bytes, end sites on any subset of the joints",
 "The tests check two skeletons, one a single chain; trees differ in where joints close, and errors in depth or parent bookkeeping appear only for particular shapes.",
 [PARSE, JOINT, LIB], [("depth/brace tracking and parent lookup", "src/parse.rs read_joints"), ("joint storage", "src/joint.rs JointData")],
 state=[("joints", "pre-order list of joints with self/parent index and depth", "src/lib.rs Bvh.joints")])

prop("C04", "Loaded numbers are the correctly rounded values of the file's decimals",
 "Every offset, end site and motion value is loaded as the single-precision number nearest to the decimal written in the file, in its own position (frame by frame, channel by channel), and the frame time (below a million seconds) as the written number of seconds to the nanosecond. The number of frames is the number the file declares (given at least one channel).",
 ["inputs"], "every decimal literal (signs, leading zeros, long mantissas, exponents, halfway cases, subnormal, overflow) at every position, every frame/channel matrix size",
 "The tests use a few short decimals, mostly 0.0 and 1.0, which hide transpositions and rounding errors.",
 [PARSE, LIB], [("offset parsing", "src/parse.rs parse_axis!"), ("motion values and frame time parsing", "src/parse.rs read_motion"), ("frame slicing", "src/lib.rs Bvh::frames")])

prop("C05", "Layout does not change what is loaded",
 "Two files that differ only in line terminators (LF or CRLF), indentation, blank lines, the amount of spaces and tabs between tokens, at line ends or around the colon of the frame count, or the presence of a final newline load to equal animations.",
 ["inputs"], "every well-formed file and every combination of such layout changes at every line",
 "Every test file uses one layout; the loader trims, splits and skips in several separate places, each of which could mishandle one layout at one kind of line.",
 [PARSE, LIB], [("trimming and tokenising", "src/parse.rs read_joints/read_motion"), ("blank-line skipping", "src/lib.rs next_non_empty_line")])

prop("C06", "Whatever is accepted is a structurally sound animation",
 "Whenever loading succeeds, even on an irregular file, the result is sound: there is one root, which comes first; every other joint's parent comes before it and joints are in depth-first order; every joint has a non-empty name; the joints' channels together number 0..num_channels exactly once in order; and the motion data consists of whole frames, one value per channel.",
 ["inputs"], "every accepted byte string, including files with repeated, missing or misplaced sections",
 "Tests never load an irregular file, so they cannot see a lenient path that accepts input and yields a broken structure.",
 [PARSE, JOINT, LIB], [("section placement checks", "src/parse.rs read_joints"), ("motion count check", "src/parse.rs read_motion")],
 state=[("num_channels / motion_values", "values per frame and flat value storage", "src/lib.rs Bvh")])

prop("C07", "All loading entry points agree, however the bytes are delivered",
 "For the same bytes, every way of loading (from a reader, from bytes, from a string, through FromStr or TryFrom, free function or method) gives the same animation or the same error. It does not matter how the reader splits the bytes into buffers, or whether reads are interrupted and retried.",
 ["inputs", "schedules"], "every input, valid or not, and every segmentation of it into buffer fills with interruptions in between",
 "Tests load from one file reader and in-memory slices with valid data only; a line, token or CRLF split across two fills never occurs.",
 [LIB, PARSE], [("entry points", "src/lib.rs from_reader/from_bytes/from_str/TryFrom"), ("line iteration over a BufRead", "src/lib.rs CachedEnumerate")])

prop("C08", "A read failure is always reported, never mistaken for the end of the file",
 "If the reader fails with an I/O error at any point before the end of the data, loading fails and reports that same I/O error. It never returns an animation built from the part that was read.",
 ["fault_sequences", "inputs"], "every well-formed file and every byte position at which a read can fail, any non-retryable error kind",
 "No test uses a failing reader.",
 [PARSE, LIB, ERR], [("error propagation from line reads", "src/parse.rs read_joints/read_motion"), ("Io error variants", "src/errors.rs")])

prop("C09", "A file cut short is never accepted",
 "Any proper prefix of a well-formed file that lacks at least one whole token of it is rejected with an error; in particular a file cut anywhere before its last motion value never loads.",
 ["crash_points", "inputs"], "every well-formed file with motion data and every byte offset at which it may be cut",
 "Tests never truncate a file; acceptance of a torn file depends on where exactly it is cut.",
 [PARSE], [("end-of-input checks", "src/parse.rs read_joints/read_motion"), ("motion count check", "src/parse.rs read_motion MotionCountMismatch")])

prop("C10", "A file with a defect is rejected, not guessed at",
 "A file that would be well-formed but for one defect is rejected with an error: a missing, repeated or misplaced HIERARCHY, ROOT, JOINT or End Site line or brace; a missing joint name; a repeated or misplaced OFFSET or CHANNELS line; a MOTION, Frames or Frame Time line missing, or repeated or moved within the motion section; anything else on the MOTION line; an unreadable channel name; an unreadable or missing offset component, channel count, frame count, frame time or motion value; a negative or non-finite frame time; more or fewer motion values than frames times channels.",
 ["inputs"], "every well-formed file, every kind of single defect listed, at every place it can occur",
 "The tests contain no invalid file at all, so each rejection path is unexercised.",
 [PARSE, ERR], [("validation in the hierarchy and motion readers", "src/parse.rs"), ("error kinds", "src/errors.rs")])

prop("C11", "Load errors name the right problem at the right place",
 "When a file is rejected for a missing joint name, an unreadable channel name, an unreadable or missing offset component, channel count, MOTION line, frame count or frame time, or an unreadable motion value, the error's kind names that problem, its line is the zero-based number of the line at fault (the last line if the file ended early), and it carries the right axis, offending channel text or position of the value within its line; a wrong number of motion values is reported with the actual and expected totals, frames and channels. Formatting any load error, and walking its sources, always succeeds, leads to the error's kind and on to the channel or I/O error behind it, and the message carries the line number.",
 ["inputs"], "every well-formed file with one such defect injected at any place, under any blank-line layout and line terminator",
 "No test inspects an error value.",
 [PARSE, ERR, LIB], [("line enumeration", "src/lib.rs CachedEnumerate"), ("error construction", "src/parse.rs"), ("kind/line/Display/source", "src/errors.rs")])

prop("C12", "Saving and reloading loses nothing",
 "Writing any animation that has a root joint (and a frame time below a million seconds) with default precision and any indentation and line terminator, and loading the result, gives back an equal animation: same joints, names, hierarchy, offsets, end sites, channels, frame time and motion values, bit for bit.",
 ["inputs", "configurations"], "every animation obtainable by loading, by the literal macro or by editing, finite, infinite and NaN values included (NaN-ness only for NaN), frame times below a million seconds; every indent/terminator configuration",
 "The round-trip test covers one two-joint chain with values that print in one decimal.",
 [WRITE, PARSE], [("chunked writer", "src/write.rs next_chunk"), ("loader", "src/parse.rs")])

prop("C13", "Written files are well-formed BVH in the requested layout",
 "The writer's output is, line by line, the documented BVH format: keywords, one brace per line with every brace closed, channel counts that match the channels listed, the true number of frames and one line per frame holding one value per channel. Each hierarchy line is indented by its nesting depth in the requested unit, every line ends in the requested terminator (the text that terminator value itself gives, and gives escaped as a string literal would spell it), and everything except joint names is ASCII.",
 ["inputs", "configurations"], "every animation (any tree shape, end sites anywhere, no frames, no channels, no joints) and every indentation/terminator setting",
 "Tests compare the output for one two-joint chain in one layout; brace closing depends on depth differences that only branching skeletons have.",
 [WRITE], [("chunked writer state machine", "src/write.rs next_chunk"), ("indent and terminator", "src/write.rs IndentStyle/LineTerminator")])

prop("C14", "Precision settings round correctly and touch only their own fields",
 "With a precision of p for offsets, frame time or motion values, each such number is written with exactly p decimals and is the correctly rounded p-decimal value of the stored number (of the frame time, its double-precision value in seconds). Fields without a precision setting are written in full, and no setting changes anything else in the output.",
 ["inputs", "configurations"], "every animation and every combination of the three precision settings (absent, or 0 to a few hundred decimals) with every layout",
 "Tests use precision 1 with values that have one decimal, where mixed-up settings or truncation cannot be seen.",
 [WRITE], [("with_*_significant_figures options", "src/write.rs WriteOptions"), ("number formatting", "src/write.rs next_chunk")])

prop("C15", "Writing delivers every byte in order or reports the failure",
 "When writing to a sink succeeds, the sink has received exactly the bytes of the in-memory rendering, once and in order, and has been flushed after the last of them; a sink that accepts only part of a buffer or asks to retry does not make the write fail or lose data. If the sink fails for good, the write returns that error and what the sink received is a prefix of the rendering.",
 ["fault_sequences", "inputs", "configurations"], "every animation, every pattern of partial writes and interruptions, and every point at which a write or flush can fail",
 "Tests write only to memory; partial writes, interruptions and failures never happen there.",
 [WRITE, LIB], [("write loop", "src/write.rs WriteOptions::write"), ("Bvh::write_to", "src/lib.rs")])

prop("C16", "Output is canonical: every way of writing agrees and re-writing is stable",
 "Writing the same animation with the same options always gives the same bytes, whether to a sink or to memory, through the options object or the animation's own methods (which use the default options). Loading default-precision output and writing it again with the same options reproduces it byte for byte, and setting one option leaves the others as they were.",
 ["inputs", "configurations", "histories"], "every animation with a root, every options value, every order of setting the options, any number of load/write rounds",
 "The single identity test uses one fixed file and options.",
 [WRITE, LIB], [("write / write_to_string", "src/write.rs"), ("option setters", "src/write.rs WriteOptions::with_*")])

prop("C17", "The frame cursor edits the animation like a list with an insertion point",
 "Under any sequence of cursor operations the animation's frames equal those of a plain list edited at a gap position: inserting puts the new frame or frames at the cursor, in order, and moves the cursor past them; removing takes out the frame after the cursor and leaves the cursor; moves step by one, or to either end, and stop at the ends; removing all leaves an empty list. After every step the reported index, length and neighbouring frames (shared or mutable) agree with that list, no other frame is changed, lost, duplicated or reordered, and no operation panics.",
 ["histories", "inputs"], "every sequence of cursor operations on animations of every frame and channel count at least one, across several cursors created one after another",
 "The doc tests insert only at the end and remove only at the start; the unit test of the splice helper uses equal lengths only, where a wrong shift distance cannot be seen.",
 [FC, LIB, FI], [("insertion splice", "src/frame_cursor.rs vec_insert_slice"), ("removal and movement", "src/frame_cursor.rs FrameCursor")],
 state=[("index", "gap position 0..=len", "src/frame_cursor.rs FrameCursor.index"), ("motion_values", "flat frame storage", "src/lib.rs Bvh")])

prop("C18", "A rejected edit reports an error and leaves the animation intact",
 "Inserting a frame of the wrong length, removing where there is no frame after the cursor, and setting a motion value at an index outside the frame each return an error that names the lengths or the index at fault, and change neither frames nor cursor. If a batch insertion contains a wrong-length frame it returns an error, and the animation afterwards is the old one with at most the batch's frames before the bad one inserted at the cursor.",
 ["histories", "inputs"], "every frame length, cursor position, batch composition and index, after any history of edits",
 "No test performs a failing edit.",
 [FC, FI, ERR], [("length check", "src/frame_cursor.rs try_insert_frame"), ("bounds check", "src/frame_cursor.rs remove_frame"), ("try_set_motion", "src/frame_iter.rs FrameMut")])

prop("C19", "Frame iteration visits every frame once, in order, from both ends",
 "Iterating over frames, shared or mutable, from the front, the back or any mix of both, yields each frame exactly once and in order, reports the exact number remaining at every step, and stays exhausted once exhausted. An iterator obtained from a cursor yields exactly the frames after the cursor, and what is written through the mutable iterator lands in that frame and no other.",
 ["histories", "inputs"], "every frame and channel count (none included) and every interleaving of front and back steps, skips and length queries",
 "Tests only iterate forward to the end.",
 [FI, LIB, FC], [("Frames / FramesMut", "src/frame_iter.rs"), ("into_frames, into_frames_mut", "src/frame_cursor.rs")])

prop("C20", "A channel addresses exactly its own value in every frame",
 "Looking up or setting a frame's value through a joint's channel, or through an index or range, reads or changes exactly the value stored for that channel in that frame: all access forms agree, a set returns the previous value, and every other value stays as it was. The fallible forms report an address outside the frame as absent or as an error instead of panicking, and indexing outside never yields a value.",
 ["inputs", "histories"], "every joint, channel and frame of every animation, every index or range inside or outside the frame, any sequence of sets",
 "No test indexes a frame by channel.",
 [FI, LIB], [("FrameIndex for Channel/usize/ranges", "src/frame_iter.rs"), ("Channel motion index", "src/lib.rs Channel")])

prop("C21", "Skeleton navigation is total and consistent",
 "Every joint can be asked for its parent, children, index, name and channels without panicking, and the answers describe one tree: joints are listed once each in file order, a joint's children are exactly the joints whose parent it is, in order, leaves have none, and following parents from any joint reaches the root. Searching by name returns the first joint with exactly that name or nothing; in a listing already begun, or among children, it searches what is left of them and the listing goes on behind the joint found. Shared and mutable listings have equally many joints, and as many as their size hints allow.",
 ["inputs"], "every skeleton and every joint of it, every name present or absent",
 "Tests never call children or parent and only look at joints of a chain.",
 [JOINT, LIB], [("Joints iterator", "src/joint.rs Joints"), ("parent/children", "src/joint.rs Joint")])

prop("C22", "A bvh! literal equals the file with the same text",
 "Every bvh! literal in the supported syntax (any nesting of joints, 0 to 9 channels per joint, optional end sites, any number of frames) compiles and evaluates to an animation equal to the one loaded from the same text as a file, and it writes to the same bytes. A literal without any joint is an animation without joints or frames that has the frame time it says.",
 ["programs"], "every literal in the documented syntax, negative and exponent numbers and integer frame times included",
 "Tests use three literals, with 0, 3 and 6 channels; each other channel count expands a separate macro rule that no test instantiates.",
 [MAC, PARSE], [("macro rules", "src/macros.rs bvh!/parse_joints_internal!"), ("literal builder", "src/macros.rs BvhLiteralBuilder")])

prop("C23", "Using the library never causes undefined behaviour",
 "No sequence of calls to the library's safe API (loading any bytes, navigating, editing, iterating, writing) causes undefined behaviour: out-of-bounds or use-after-free access, reads of uninitialised memory, invalid values, aliasing violations or data races.",
 ["inputs", "histories", "schedules"], "every input and call sequence, on one or several threads",
 "Ordinary test runs do not observe undefined behaviour, and the tests reach few of the paths into the unsafe code of the small-vector, byte-string and number-parsing dependencies.",
 [LIB, PARSE, WRITE, JOINT, FC, FI], [("deny(unsafe_code) and safe dependencies", "src/lib.rs"), ("small-vector names and channels", "src/joint.rs")],
 observe=["AddressSanitizer", "Miri", "valgrind memcheck"])

prop("C24", "Results depend only on the arguments, not on history or other threads",
 "What loading, navigating or writing returns is a function of its arguments alone: repeating it, interleaving it with other animations' work (failed loads included), or running it on several threads at once, sharing animations for reading, gives the same results as running it alone.",
 ["schedules", "histories"], "every set of concurrent and earlier operations and every interleaving of them",
 "Tests run each operation once, in isolation.",
 [LIB, PARSE, WRITE], [("no global state; Send + Sync value types", "src/lib.rs Bvh")])

prop("C25", "Channel names and channel types correspond one to one",
 "Each of the six channel types converts to its BVH keyword and back to itself by every conversion offered, and its axis and its rotation/position kind are those its keyword says. Every other byte string is rejected, by every conversion, with an error that returns exactly that string.",
 ["inputs"], "every byte string, in particular those one edit away from a keyword, differing in case, or extending or cutting one",
 "Tests convert one valid and one invalid name.",
 [LIB, ERR], [("ChannelType::from_bytes/as_str/axis/is_rotation", "src/lib.rs"), ("ParseChannelError", "src/errors.rs")])

prop("C26", "Edits change what they say, persist through save, and nothing else",
 "After any history of edits (setting frame time, changing motion values through mutable frames, cursor insertions and removals, extracting all frames), the animation shows exactly those changes, saving and reloading it (with a frame time below a million seconds) shows them again, and the skeleton is what it was before. Extracting returns all motion values frame by frame and leaves an animation with no frames to which frames can be added again.",
 ["histories"], "every sequence of edits with saves and reloads at any point in between",
 "Tests perform single edits and never save an edited animation.",
 [LIB, FC, FI, WRITE], [("frames_mut, set_frame_time, extract_frames", "src/lib.rs"), ("cursor edits", "src/frame_cursor.rs")])

prop("C27", "Animations are values: clones are independent, equality is exact",
 "A clone (an animation overwritten by clone_from included) equals its original bit for bit, and later edits to either never affect the other. Two animations with non-NaN values compare equal exactly when their names, hierarchy, offsets, end sites, channels, frame time and motion values are all equal, so changing any single one of them (a nanosecond of frame time included) makes them unequal. Joints, frames, channels and write options compare by their contents in the same way, and equal ones hash alike.",
 ["inputs", "histories"], "every animation, every single-field difference, every edit made after cloning",
 "Tests compare equal animations only; an equality that ignores a field passes them all.",
 [LIB, JOINT], [("Clone/PartialEq of Bvh and JointData", "src/lib.rs, src/joint.rs")])

prop("C28", "Panics in the caller's code and abandoned cursors leave the animation whole",
 "If the caller's iterator, frame type, reader or writer panics inside a call, the panic reaches the caller; if one of them answers inconsistently (short of announcing more frames than memory can hold), or a cursor or iterator is dropped early or leaked, nothing else happens. In every case the animation stays whole: its skeleton is unchanged, its frames are the old ones with the edits completed so far, each of full length and in place (for a batch, at most the frames handed out before the panic, at the cursor), and later operations on it work as usual.",
 ["fault_sequences", "histories"], "every operation that calls into the caller's code, every point at which that code panics or lies, every cursor and iterator abandoned after any history",
 "Tests pass well-behaved vectors and drop every cursor normally.",
 [FC, FI, WRITE, PARSE], [("try_insert_frame, try_insert_frames", "src/frame_cursor.rs"), ("Frames / FramesMut", "src/frame_iter.rs"), ("WriteOptions::write", "src/write.rs")])

prop("C29", "Every value can be shown",
 "Formatting any value of the library (animations, joints, channels, frames, cursors, iterators, errors, options) with Debug, and with Display where offered, terminates without panicking, gives the same valid text each time and for a clone, reports a refusal by the formatting target as an error and succeeds otherwise, never leaves an error's message empty, and changes nothing.",
 ["inputs"], "every value of every public type, names and channels made of arbitrary bytes included, every point at which the target refuses",
 "No test formats anything but errors of failing assertions.",
 [LIB, JOINT, FC, FI, WRITE, ERR], [("Debug and Display implementations", "src/joint.rs, src/lib.rs, src/errors.rs, src/frame_cursor.rs, src/frame_iter.rs")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
