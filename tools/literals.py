"""C22: bvh! literals, generated, compiled against /repo, run, and compared with the same text loaded as a file."""
import hashlib, itertools, json, os, random, re, shutil, subprocess

CH = ["Xposition", "Yposition", "Zposition", "Xrotation", "Yrotation", "Zrotation"]
NAMES = ["Hips", "LeftArm", "a", "_b", "J1", "End", "Site", "JOINT", "OFFSET", "CHANNELS", "ROOT", "MOTION", "HIERARCHY", "Frames", "Time",
         "fn", "type", "x_y_z", "Xposition", "Head2", "bvh", "builder", "offset", "new_bvh", "Duration", "a_very_long_joint_name_which_does_not_fit_inline",
         "exactly_twenty_four_char", "exactly_twenty_five_chars"]

MAIN = r'''
use std::panic::{catch_unwind, AssertUnwindSafe};
@MODS@
const ALL: &[(usize, fn() -> bvh_anim::Bvh, &[u8])] = &[@LIST@];

fn dump(b: &bvh_anim::Bvh) -> String {
    let mut s = format!("channels {} frame time {:?} frames {}\n", b.num_channels(), b.frame_time(), b.frames().len());
    for j in b.joints() {
        s += &format!("joint {} {:?} parent {:?} root {} offset {:?} end {:?}", j.index(), j.name(), j.parent_index(), j.is_root(),
            j.offset().iter().map(|x| x.to_bits()).collect::<Vec<_>>(), j.end_site().map(|e| e.iter().map(|x| x.to_bits()).collect::<Vec<_>>()));
        for c in j.channels() {
            s += &format!(" {} {}", c.channel_type().as_str(), c.motion_index());
        }
        s.push('\n');
    }
    for f in b.frames() {
        s += &format!("frame {:?}\n", f.as_slice().iter().map(|x| x.to_bits()).collect::<Vec<_>>());
    }
    s
}

fn first(a: &str, b: &str) -> String {
    for (x, y) in a.lines().zip(b.lines()) {
        if x != y {
            return format!("literal: {} / file: {}", x, y);
        }
    }
    format!("literal has {} lines, file has {}", a.lines().count(), b.lines().count())
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    for (i, f, text) in ALL {
        println!("BEGIN {}", i);
        let r = catch_unwind(AssertUnwindSafe(|| -> Result<String, String> {
            // Without a skeleton no file says the same: an animation of nothing with that frame time.
            let words: Vec<&str> = std::str::from_utf8(text).unwrap_or("").split_whitespace().collect();
            let bare = !words.contains(&"ROOT");
            let file = if bare {
                let mut b = bvh_anim::Bvh::new();
                if let Some(k) = words.iter().position(|w| *w == "Time:") {
                    b.set_frame_time(std::time::Duration::from_secs_f64(words[k + 1].parse().map_err(|_| "no frame time".to_string())?));
                }
                b
            } else { match catch_unwind(|| bvh_anim::from_bytes(*text)) {
                Ok(Ok(b)) => b,
                // Whether a well-formed file loads is decided elsewhere.
                _ => return Ok("the file does not load".into()),
            } };
            let lit = catch_unwind(f).map_err(|p| {
                let m = p.downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| p.downcast_ref::<String>().cloned()).unwrap_or_default();
                format!("evaluating the literal panics: {}", m)
            })?;
            let (a, b) = (dump(&lit), dump(&file));
            if a != b {
                return Err(format!("the literal differs from the file: {}", first(&a, &b)));
            }
            if !(lit == file && file == lit) {
                return Err("the literal is not equal to the file although nothing differs".into());
            }
            let (ta, tb) = (lit.to_string(), file.to_string());
            if ta != tb {
                return Err(format!("the literal writes other bytes: {}", first(&format!("{:?}", ta), &format!("{:?}", tb))));
            }
            Ok("equal".into())
        }));
        match r {
            Ok(Ok(s)) => println!("OK {} {}", i, s),
            Ok(Err(m)) => println!("BAD {} {}", i, m.replace('\n', " ")),
            Err(_) => println!("BAD {} asking or writing the animations panics", i),
        }
    }
    println!("END");
}
'''


def flt(r, wild=True):
    k = r.randrange(12)
    if k == 0: return "0.0"
    if k == 1: return "-0.0"
    if k == 2: return "%d.0" % r.randrange(-99999, 99999)
    if k == 3: return "%.6f" % r.uniform(-200, 200)
    if k == 4: return "%.17f" % r.uniform(-1, 1)
    if k == 5 and wild: return "%de%d" % (r.randrange(1, 99), r.randrange(-40, 36))
    if k == 6 and wild: return "-%d.%de%s%d" % (r.randrange(10), r.randrange(1, 999), r.choice(["", "-"]), r.randrange(0, 30))
    if k == 7 and wild: return "%d.%dE%+d" % (r.randrange(10), r.randrange(1, 99), r.randrange(-9, 9))
    if k == 8: return "16777217.0" if r.random() < .5 else "0.1"
    if k == 9 and wild: return r.choice(["3.4028235e38", "1e-45", "1.17549435e-38", "33554433.5", "0.000000000000000000000000001"])
    return "%.3f" % r.uniform(-90, 90)


def secs(r):
    k = r.randrange(8)
    if k == 0: return "0"
    if k == 1: return str(r.randrange(1, 1000))
    if k == 2: return "0.0"
    if k == 3: return "0.033333333333"
    if k == 4: return "%.9f" % r.uniform(0, 2)
    if k == 5: return "%de-%d" % (r.randrange(1, 999), r.randrange(1, 9))
    if k == 6: return "%.20f" % r.uniform(0, 1)
    return "%.4f" % r.uniform(0, 5000)


class Joint:
    def __init__(self, name, offset, channels, kids, end):
        self.name, self.offset, self.channels, self.kids, self.end = name, offset, channels, kids, end

    def count(self):
        return 1 + sum(k.count() for k in self.kids)

    def nch(self):
        return len(self.channels) + sum(k.nch() for k in self.kids)

    def lines(self, depth, out):
        t = "\t" * depth
        out += [t + ("JOINT " if depth else "ROOT ") + self.name, t + "{"]
        out.append(t + "\tOFFSET " + " ".join(self.offset))
        out.append(t + "\tCHANNELS " + " ".join([str(len(self.channels))] + self.channels))
        for k in self.kids:
            k.lines(depth + 1, out)
        if self.end:
            out += [t + "\tEnd Site", t + "\t{", t + "\t\tOFFSET " + " ".join(self.end), t + "\t}"]
        out.append(t + "}")


def literal(root, frames, time):
    out = ["HIERARCHY"]
    root.lines(0, out)
    out += ["MOTION", "Frames: %d" % len(frames), "Frame Time: " + time]
    out += [" ".join(f) for f in frames]
    return "\n".join(out) + "\n"


def vec(r):
    return [flt(r), flt(r), flt(r)]


def chans(r, n):
    if n <= 6 and r.random() < .7:
        return r.sample(CH, n)
    return [r.choice(CH) for _ in range(n)]


def name(r):
    return r.choice(NAMES) if r.random() < .6 else "".join(r.choice("abcdefgXYZ_0123") for _ in range(r.randrange(1, 30))).replace(" ", "")


def ident(r):
    n = name(r)
    return n if re.match(r"[A-Za-z_]", n) and n != "_" else "j" + n


def frames(r, n, k):
    return [[flt(r) for _ in range(n)] for _ in range(k)] if n else []


def shapes(n):
    """Every ordered tree of n nodes, as nested tuples."""
    if n == 1:
        return [()]
    out = []
    def forests(m):
        if m == 0:
            return [()]
        res = []
        for k in range(1, m + 1):
            for first in shapes(k):
                for rest in forests(m - k):
                    res.append((first,) + rest)
        return res
    return forests(n - 1)


def from_shape(r, s, ends, n=None):
    kids = [from_shape(r, k, ends, n) for k in s]
    end = None
    if not s:
        end = vec(r) if ends.pop() else None
    return Joint(ident(r), vec(r), chans(r, r.randrange(0, 10) if n is None else n), kids, end)


def leaves(s):
    return 1 if not s else sum(leaves(k) for k in s)


def rand_joint(r, depth, budget, hi):
    kids = []
    while budget[0] > 0 and depth < hi and r.random() < (.75 if not kids else .4):
        budget[0] -= 1
        kids.append(rand_joint(r, depth + 1, budget, hi))
    end = vec(r) if not kids and r.random() < .6 else None
    return Joint(ident(r), vec(r), chans(r, r.choice([0, 1, 2, 3, 3, 4, 5, 6, 6, 7, 8, 9])), kids, end)


def generate(seed, tier):
    """(kind, text) pairs; the text is the literal and the file."""
    r = random.Random("C22 %d" % seed)
    out = []
    def add(kind, root, k):
        fs = frames(r, root.nch(), k)
        out.append((kind, literal(root, fs, secs(r))))
    for n in range(10):
        add("every channel count, at the root", Joint(ident(r), vec(r), chans(r, n), [], vec(r)), 2 if n else 0)
        add("every channel count, below the root", Joint("R", vec(r), chans(r, 3), [Joint("J", vec(r), chans(r, n), [], vec(r)),
            Joint("K", vec(r), chans(r, n), [Joint("L", vec(r), chans(r, 1), [], None)], None)], None), 1)
    # Each channel type at each position of each channel count, over a few literals.
    for n in range(1, 10):
        for shift in range(0, 6, 2):
            ch = [CH[(i + shift) % 6] for i in range(n)]
            add("every channel type at every position", Joint("R", vec(r), ch, [Joint("J", vec(r), [CH[(i + shift + 1) % 6] for i in range(n)], [], vec(r))], None), 1)
    for n in range(1, 5):
        for s in shapes(n):
            for ends in itertools.product([False, True], repeat=leaves(s)):
                add("every tree of up to four joints", from_shape(r, s, list(ends)), r.randrange(3))
    d = Joint("tip", vec(r), chans(r, 2), [], vec(r))
    for i in range(11):
        d = Joint("d%d" % i, vec(r), chans(r, r.randrange(0, 4)), [d], None)
    add("a deep chain", d, 2)
    add("a wide root", Joint("R", vec(r), chans(r, 6), [Joint("k%d" % i, vec(r), chans(r, r.randrange(10)), [], vec(r) if i % 3 else None) for i in range(12)], None), 2)
    add("more than 256 channels", Joint("R", vec(r), chans(r, 9), [Joint("k%d" % i, vec(r), chans(r, 9), [], None) for i in range(33)], None), 1)
    add("many frames", Joint("R", vec(r), chans(r, 3), [], None), 60)
    for t in [None] + [secs(r) for _ in range(6)] + ["0.5", "7"]:
        out.append(("without a skeleton", "HIERARCHY\nMOTION\nFrames: 0\n" + ("Frame Time: %s\n" % t if t else "")))
    out.append(("without a skeleton", "HIERARCHY\nMOTION\n"))
    for i in range(40 if tier == "quick" else 900):
        add("random", rand_joint(r, 0, [r.randrange(0, 9)], 7), r.choice([0, 1, 2, 3, 5]))
    return out


def write_crate(d, lits, repo):
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(os.path.join(d, "src"))
    open(os.path.join(d, "Cargo.toml"), "w").write(
        '[package]\nname = "literals"\nversion = "0.1.0"\nedition = "2021"\n[dependencies]\nbvh_anim = { path = "%s" }\n[workspace]\n'
        '[profile.dev]\nopt-level = 0\ndebug = false\nincremental = false\n' % repo)
    mods, lst = "", ""
    for i, text in lits:
        open(os.path.join(d, "src", "l%d.rs" % i), "w").write(
            "pub fn literal() -> bvh_anim::Bvh {\n    bvh_anim::bvh! {\n%s    }\n}\npub const TEXT: &[u8] = br#\"%s\"#;\n" % (text, text))
        mods += "mod l%d;\n" % i
        lst += "(%d, l%d::literal, l%d::TEXT), " % (i, i, i)
    open(os.path.join(d, "src", "main.rs"), "w").write(MAIN.replace("@MODS@", mods).replace("@LIST@", lst))


def build(d, chk, lib_only=False):
    shutil.copy(os.path.join(chk.HARNESS, "Cargo.lock"), os.path.join(d, "Cargo.lock"))
    env = chk.base_env(RUSTFLAGS="--cap-lints allow")
    args = ["+stable", "build", "--offline"] + (["-p", "bvh_anim"] if lib_only else [])
    return chk.cargo(args, env, os.path.join(chk.WORK, "c22-target"), crate=d)


def execute(chk):
    exe = os.path.join(chk.WORK, "c22-target", "debug", "literals")
    p = subprocess.run(chk.limited([exe], 200, 6 << 30), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=300)
    return p.returncode, p.stdout.decode("utf-8", "replace"), p.stderr.decode("utf-8", "replace")


def judge(d, lits, chk, run, kinds):
    """Compiles and runs the literals; True when it went through all of them."""
    texts = dict(lits)
    write_crate(d, lits, chk.REPO)
    rc, out = build(d, chk)
    if rc != 0:
        rc2, out2 = build(d, chk, lib_only=True)
        if rc2 != 0:
            raise chk.NoAnswer("the library does not compile:\n" + out2[-2000:])
        bad = sorted({int(x) for x in re.findall(r"--> src/l(\d+)\.rs", out)})
        if not bad:
            raise chk.NoAnswer("the literals do not compile, for a reason which is not in any one of them:\n" + out[-2000:])
        i = bad[0]
        # Alone, and the rest without it: it is this literal, and nothing else.
        write_crate(d, [(i, texts[i])], chk.REPO)
        rc3, out3 = build(d, chk)
        if rc3 != 0 and "--> src/l%d.rs" % i in out3:
            msg = "a literal does not compile: " + re.sub(r"\s+", " ", out3)[:700] + "\n" + texts[i]
            run.violations.append(("does-not-compile", msg, {"property": "C22", "text": texts[i], "message": msg}))
        else:
            raise chk.NoAnswer("literals do not compile together but do alone:\n" + out[-2000:])
        return False
    rc, out, err = execute(chk)
    begun, ended = None, False
    for l in out.splitlines():
        w = l.split(" ", 2)
        if w[0] == "BEGIN":
            begun = int(w[1])
        elif w[0] == "OK":
            i = int(w[1])
            run.cases += 1
            if w[2] == "equal":
                run.evaluations += 1
                run.counters[kinds[i]] = run.counters.get(kinds[i], 0) + 1
                run.hashes.add(int.from_bytes(hashlib.sha256(texts[i].encode()).digest()[:8], "little"))
            else:
                run.counters["files not loaded"] = run.counters.get("files not loaded", 0) + 1
        elif w[0] == "BAD":
            i = int(w[1])
            sig = "literal-panics" if "panics" in w[2] else "literal-differs"
            run.violations.append((sig, w[2] + "\n" + texts[i], {"property": "C22", "text": texts[i], "message": w[2]}))
        elif w[0] == "END":
            ended = True
    if not ended and not run.violations:
        if rc in (-6, -11, -4, -7, -24) and begun is not None:
            run.violations.append(("literal-crashes", "the program ends with %d in this literal:\n%s\n%s" % (rc, err[-500:], texts[begun]),
                                   {"property": "C22", "text": texts[begun], "message": "crash"}))
        else:
            run.no_answer.append("the program of literals ended with %s after literal %s" % (rc, begun))
    return ended


def decide(run, seed, tier, chk, cov):
    lits = generate(seed, tier)
    kinds = {i: k for i, (k, _) in enumerate(lits)}
    d = os.path.join(chk.WORK, "c22-crate")
    step = 250
    try:
        for a in range(0, len(lits), step):
            part = [(i, lits[i][1]) for i in range(a, min(a + step, len(lits)))]
            if not judge(d, part, chk, run, kinds):
                break
    except subprocess.TimeoutExpired:
        raise chk.NoAnswer("the program of literals did not end within 300 s")
    finally:
        shutil.rmtree(d, ignore_errors=True)
    run.samples = [lits[i][1] for i in (0, 30, len(lits) - 1)]
    cov["programs"] = len(lits)


def replay(rec, chk):
    os.makedirs(chk.WORK, exist_ok=True)
    run = chk.Run()
    d = os.path.join(chk.WORK, "c22-crate")
    judge(d, [(0, rec["text"])], chk, run, {0: "replayed"})
    shutil.rmtree(d, ignore_errors=True)
    for sig, msg, _ in run.violations:
        chk.say("%s: %s\nVIOLATION property=C22 replay=given" % (sig, msg))
    return 1 if run.violations else 0
