#!/usr/bin/env python3
"""Runtime monitors for bvh_anim.

    check.py PROPERTY [--tier quick|thorough] [--seed N]      decide one property on /repo's working tree
    check.py PROPERTY --replay FILE                           run one recorded violation again
    check.py setup                                            build everything once

Exit 0: held on everything observed. Exit 1, with a VIOLATION line: refuted. Exit 2: no answer (the build failed, the
monitor itself failed, a run was killed from outside, or too little was observed).
"""
import argparse, glob, hashlib, json, os, re, shutil, signal, subprocess, sys, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
WORK = os.path.join(HERE, "work")
HARNESS = os.path.join(HERE, "harness")
sys.path.insert(0, os.path.join(HERE, "tools"))
sys.dont_write_bytecode = True
from table import TABLE, TECHNIQUE  # noqa: E402

NCPU = max(2, min(8, os.cpu_count() or 2))
HANG_CPU = 60.0     # seconds of CPU time in one case before it counts as hanging (usual: milliseconds)
STUCK_WALL = 300.0  # seconds without any progress at all: no answer
T0 = time.time()


class NoAnswer(Exception):
    pass


def say(*a):
    print(*a, flush=True)


# ------------------------------------------------------------------ building

def base_env(**kw):
    env = {k: v for k, v in os.environ.items() if not k.startswith(("CARGO_", "RUST", "MIRI", "ASAN_"))}
    for k in ("CARGO_HOME", "RUSTUP_HOME"):
        if k in os.environ:
            env[k] = os.environ[k]
    env.update({"CARGO_NET_OFFLINE": "true", "CARGO_TERM_COLOR": "never", "RUST_BACKTRACE": "0"})
    env.update(kw)
    return env


def tree_hash():
    h = hashlib.sha256()
    names = [os.path.join(REPO, "Cargo.toml")]
    for d, dirs, files in os.walk(os.path.join(REPO, "src")):
        dirs.sort()
        names += [os.path.join(d, f) for f in sorted(files)]
    for n in names:
        h.update(n.encode() + b"\0" + open(n, "rb").read() + b"\0")
    return h.hexdigest()


def cargo(args, env, target, crate=HARNESS, timeout=600, pkg="bvh_anim"):
    """Builds from /repo's current content; what was built from other content is thrown away, whatever its dates."""
    os.makedirs(target, exist_ok=True)
    stamp = os.path.join(target, ".tree")
    want = tree_hash()
    have = open(stamp).read() if os.path.exists(stamp) else None
    tc = [a for a in args if a.startswith("+")]
    if have != want and have is not None:
        tgt = []
        if "--target" in args:
            tgt = ["--target", args[args.index("--target") + 1]]
        subprocess.run(["cargo", *tc, "clean", "--offline", "-p", pkg, "--target-dir", target, *tgt],
                       cwd=crate, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=120)
    try:
        p = subprocess.run(["cargo", *args, "--target-dir", target], cwd=crate, env=env, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise NoAnswer("building took more than %d s" % timeout)
    if p.returncode == 0:
        open(stamp, "w").write(want)
    return p.returncode, p.stdout.decode("utf-8", "replace")


def build_plain():
    target = os.path.join(HARNESS, "target")
    rc, out = cargo(["+stable", "build", "--offline"], base_env(RUSTFLAGS="--cap-lints allow"), target)
    if rc != 0:
        raise NoAnswer("the harness does not build:\n" + out[-3000:])
    return os.path.join(target, "debug", "bvhmon")


def build_optimized():
    """As users ship it: optimized, overflow wraps, no debug assertions."""
    target = os.path.join(HARNESS, "target-optimized")
    rc, out = cargo(["+stable", "build", "--release", "--offline"], base_env(RUSTFLAGS="--cap-lints allow"), target)
    if rc != 0:
        raise NoAnswer("the harness does not build optimized:\n" + out[-3000:])
    return os.path.join(target, "release", "bvhmon")


class Later:
    """Something done meanwhile."""

    def __init__(self, f):
        self.error = self.value = None

        def go():
            try:
                self.value = f()
            except Exception as e:
                self.error = e
        self.t = threading.Thread(target=go, daemon=True)
        self.t.start()

    def get(self):
        self.t.join()
        if self.error:
            raise self.error
        return self.value


def build_asan():
    target = os.path.join(HARNESS, "target-asan")
    triple = "x86_64-unknown-linux-gnu"
    rc, out = cargo(["+nightly", "build", "--offline", "--target", triple],
                    base_env(RUSTFLAGS="--cap-lints allow -Zsanitizer=address"), target)
    if rc != 0:
        raise NoAnswer("the harness does not build with AddressSanitizer:\n" + out[-3000:])
    return os.path.join(target, triple, "debug", "bvhmon")


MIRI_TARGET = os.path.join(HARNESS, "target-miri")


def miri_env(seed, stacked=False):
    """Aliasing is judged by Tree Borrows; C23 also runs the stricter, older Stacked Borrows rules."""
    return base_env(MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-seed=%d%s" % (seed, "" if stacked else " -Zmiri-tree-borrows"))


def build_miri():
    rc, out = cargo_miri_zero()  # `miri run` builds; a run of no cases leaves everything built
    if rc != 0:
        raise NoAnswer("the harness does not build under Miri:\n" + out[-3000:])
    return ["cargo", "+nightly", "miri", "run", "--offline", "-q", "--target-dir", MIRI_TARGET, "--"]


def cargo_miri_zero():
    target = MIRI_TARGET
    os.makedirs(target, exist_ok=True)
    stamp, want = os.path.join(target, ".tree"), tree_hash()
    if os.path.exists(stamp) and open(stamp).read() != want:
        shutil.rmtree(target)
        os.makedirs(target)
    try:
        p = subprocess.run(["cargo", "+nightly", "miri", "run", "--offline", "--target-dir", target, "--", "C25", "--cases", "0"],
                           cwd=HARNESS, env=miri_env(0), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
    except subprocess.TimeoutExpired:
        raise NoAnswer("building for Miri took more than 600 s")
    if p.returncode == 0:
        open(stamp, "w").write(want)
    return p.returncode, p.stdout.decode("utf-8", "replace")


# ------------------------------------------------------------------ workers

class Run:
    """What the workers of one check observed, merged."""

    def __init__(self):
        self.cases = self.evaluations = self.ignored = 0
        self.counters, self.maxima, self.samples, self.known = {}, {}, [], {}
        self.hashes = set()
        self.violations = []   # (signature, message, replay dict)
        self.no_answer = []
        self.skipped = 0       # cases that ended the process without being this property's business

    def add(self, out, hashes):
        d = None
        if os.path.exists(out):
            try:
                d = json.load(open(out))
            except ValueError:
                pass  # stopped while writing it, because another worker had found something
        if d:
            self.cases += d["cases"]
            self.evaluations += d["evaluations"]
            self.ignored += d["ignored"]
            for k, v in d["counters"].items():
                self.counters[k] = self.counters.get(k, 0) + v
            for k, v in d["maxima"].items():
                self.maxima[k] = max(self.maxima.get(k, 0), v)
            for k, v in d["known"].items():
                self.known[k] = self.known.get(k, 0) + v
            if len(self.samples) < 4:
                self.samples += d["samples"][:1]
        if os.path.exists(hashes):
            b = open(hashes, "rb").read()
            b = b[:len(b) // 8 * 8]
            if len(self.hashes) < 20_000_000:
                import array
                a = array.array("Q")
                a.frombytes(b)
                self.hashes.update(a)


def limited(argv, cpu=None, mem=None):
    """The command with limits on CPU time and address space (started with process_group=0, to be ended as one)."""
    a = ["prlimit", "--core=0:0"]
    if cpu:
        a.append("--cpu=%d:%d" % (cpu, cpu + 5))
    if mem:
        a.append("--as=%d:%d" % (mem, mem))
    return a + ["--"] + list(argv)


def cpu_time(pid):
    try:
        f = open("/proc/%d/stat" % pid).read().rsplit(")", 1)[1].split()
        return (int(f[11]) + int(f[12])) / os.sysconf("SC_CLK_TCK")
    except (OSError, IndexError, ValueError):
        return 0.0


def kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        pass
    p.wait()


UB = re.compile(r"Undefined Behavior|unsafe precondition\(s\) violated|misaligned pointer dereference: address|null pointer dereference occurred|ERROR: AddressSanitizer: (?!out-of-memory|allocation-size-too-big|calloc-overflow|stack-overflow|rss-limit)[\w-]+|Invalid (read|write) of size|depends on uninitialised|Use of uninitialised|Data race detected")


def ub_signature(err):
    """Stacked Borrows reports are told apart by what was done where, so that one can be listed as known."""
    m = re.search(r"error: Undefined Behavior: (.*)", err)
    if m and "Stacked Borrows rules it violated" in err:
        f = re.search(r"\n\s+0: (.*)\n\s+at (\S+)", err)
        fn = re.sub(r"(::)?<.*", "", f.group(1)) if f else "?"
        crate = re.search(r".*/([\w.-]+)/src/", f.group(2)) if f else None
        kind = re.search(r"attempting a (\w+) access|trying to (\w+)", m.group(1))
        return "stacked-borrows %s in %s of %s" % (next((g for g in kind.groups() if g), "?") if kind else "?", fn or "?", crate.group(1) if crate else "?")
    return "undefined-behaviour"


class Worker:
    def __init__(self, run, prop, cmd, shard, nshards, cases, seed, tier, budget, workdir, env, extra, mem, mem_only, limit_cpu):
        self.__dict__.update(locals())
        self.frm = 0
        self.end = time.time() + budget
        self.files = {k: os.path.join(workdir, "%s.%d" % (k, shard)) for k in ("out", "hashes", "case", "replay", "stdout", "stderr")}
        self.done = False
        self.start()

    def argv(self, *more):
        a = [*self.cmd, self.prop, "--seed", str(self.seed), "--tier", self.tier, *self.extra, *more]
        if self.mem_only:
            a.append("--mem-only")
        return a

    def start(self):
        for k in self.files:
            if os.path.exists(self.files[k]):
                os.remove(self.files[k])
        f = self.files
        known = []
        for s in known_signatures(self.prop):
            known += ["--known", s]
        argv = self.argv("--shard", str(self.shard), "--nshards", str(self.nshards), "--cases", str(self.cases), "--from", str(self.frm),
                         "--budget", "%.1f" % max(1.0, self.end - time.time()), "--out", f["out"], "--hashes", f["hashes"],
                         "--case-file", f["case"], "--replay", f["replay"], *known)
        with open(f["stdout"], "wb") as o, open(f["stderr"], "wb") as e:
            self.p = subprocess.Popen(limited(argv, mem=self.mem), cwd=HARNESS, env=self.env, stdout=o, stderr=e, process_group=0)
        self.case, self.case_cpu, self.case_wall, self.hung = None, 0.0, time.time(), False

    def current(self):
        try:
            return int(open(self.files["case"]).read())
        except (OSError, ValueError):
            return None

    def text(self, k):
        try:
            return open(self.files[k], "rb").read().decode("utf-8", "replace")
        except OSError:
            return ""

    def poll(self):
        rc = self.p.poll()
        if rc is None:
            c, t = self.current(), cpu_time(self.p.pid)
            if c != self.case:
                self.case, self.case_cpu, self.case_wall = c, t, time.time()
            elif self.limit_cpu and t - self.case_cpu > HANG_CPU and c is not None:
                kill(self.p)
                self.finish_hang(c)
            elif time.time() - self.case_wall > STUCK_WALL * (1 if self.limit_cpu else 2):
                kill(self.p)
                self.run.no_answer.append("worker %d made no progress in case %s" % (self.shard, c))
                self.done = True
            return
        self.finish(rc)

    def collect(self):
        self.run.add(self.files["out"], self.files["hashes"])

    def alone(self, case, cpu=None):
        """The same case in a process of its own."""
        out = self.files["stdout"] + ".alone"
        err = self.files["stderr"] + ".alone"
        with open(out, "wb") as o, open(err, "wb") as e:
            p = subprocess.Popen(limited(self.argv("--only", str(case)), cpu, self.mem), cwd=HARNESS, env=self.env, stdout=o, stderr=e,
                                 process_group=0)
            try:
                rc = p.wait(timeout=600)
            except subprocess.TimeoutExpired:
                kill(p)
                rc = None
        return rc, open(out, "rb").read().decode("utf-8", "replace"), open(err, "rb").read().decode("utf-8", "replace")

    def violate(self, case, sig, msg):
        self.run.violations.append((sig, msg, {"property": self.prop, "seed": self.seed, "tier": self.tier, "case": case, "signature": sig,
                                               "message": msg, "extra": self.extra}))

    def finish_hang(self, case):
        self.done = True
        self.collect()
        rc, _, _ = self.alone(case, cpu=HANG_CPU)
        if rc == -signal.SIGXCPU:
            if self.mem_only:
                self.run.no_answer.append("case %d does not end within %d s of CPU time" % (case, HANG_CPU))
            else:
                self.violate(case, "hang", "case %d does not end within %d s of CPU time" % (case, HANG_CPU))
        else:
            self.run.no_answer.append("case %d took long once and ended with %s when repeated" % (case, rc))

    def finish(self, rc):
        self.done = True
        self.collect()
        out, err = self.text("stdout"), self.text("stderr")
        case = self.current()
        if UB.search(err):
            if case is not None and rc not in (0, 3, 4):
                lines = [l for l in err.splitlines() if UB.search(l)]
                sig = ub_signature(err)
                if sig in known_signatures(self.prop):
                    self.run.known[sig] = self.run.known.get(sig, 0) + 1
                    self.run.cases += 1
                    if time.time() < self.end:
                        self.frm = case + 1
                        self.done = False
                        self.start()
                    return
                self.violate(case, sig, "case %d: %s" % (case, (lines or ["?"])[0].strip()[:600] + "\n" + err[-4000:]))
                return
        if rc == 0:
            return
        if rc == 3:
            m = re.match(r"(?s)case (\d+): (.*)", out)
            try:
                d = json.load(open(self.files["replay"]))
            except (OSError, ValueError):
                self.run.no_answer.append("worker %d reported something and left no record of it: %s" % (self.shard, out[-800:]))
                return
            d["extra"] = self.extra
            self.run.violations.append((d["signature"], d["message"], d))
            return
        if rc == 4:
            self.run.no_answer.append(err.strip()[-1500:])
            return
        if case is None or rc == -signal.SIGKILL or rc > 0 and rc not in (99, 101, 134):
            self.run.no_answer.append("worker %d ended with %s; %s" % (self.shard, rc, err[-800:]))
            return
        # The process died in a case: does it again, alone?
        rc2, out2, err2 = self.alone(case)
        if UB.search(err2):
            self.violate(case, ub_signature(err2), err2[-3000:])
        elif self.mem_only:
            # Aborting is not undefined behaviour; another property decides whether it is right. On to the next case.
            if rc2 in (-signal.SIGSEGV, -signal.SIGBUS, -signal.SIGILL) and "overflowed its stack" not in err2:
                self.violate(case, "crash", "case %d ends with signal %d; %s" % (case, -rc2, err2[-1500:]))
                return
            self.run.skipped += 1
            if self.run.skipped > 200:
                self.run.no_answer.append("too many cases end the process: " + err[-500:])
                return
            self.frm = case + 1
            self.done = False
            self.start()
        elif rc2 == rc and rc2 is not None:
            why = "memory could not be allocated" if "memory allocation of" in err2 else err2.strip()[-800:]
            self.violate(case, "crash", "case %d ends the process with %s: %s" % (case, "signal %d" % -rc if rc < 0 else "status %d" % rc, why))
        else:
            self.run.no_answer.append("case %d ended the process with %s, alone with %s" % (case, rc, rc2))


def run_workers(run, prop, cmd, cases, seed, tier, budget, env=None, extra=(), mem=6 << 30, mem_only=False, limit_cpu=True, nshards=None):
    nshards = nshards or NCPU
    workdir = os.path.join(WORK, "%s.%d.%d" % (prop, os.getpid(), len(os.listdir(WORK)) if os.path.isdir(WORK) else 0))
    os.makedirs(workdir, exist_ok=True)
    ws = []
    try:
        for i in range(nshards):
            e = env(i) if callable(env) else (env or base_env())
            ws.append(Worker(run, prop, cmd, i, nshards, cases, seed, tier, budget, workdir, e, list(extra), mem, mem_only, limit_cpu))
        while not all(w.done for w in ws):
            for w in ws:
                if not w.done:
                    w.poll()
            if run.violations:
                break
            time.sleep(0.05)
    finally:
        for w in ws:
            if not w.done:
                kill(w.p)
                w.collect()
        shutil.rmtree(workdir, ignore_errors=True)


# ------------------------------------------------------------------ known findings

KNOWN = os.path.join(HERE, "known-findings.txt")


def known_entries(prop):
    """Lines `known: property=<id> signature=<exact signature> :: <what fails>`; `fixed:` lines suppress nothing."""
    r = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r"known: property=(\S+) signature=(.*?) :: (.*)", l.strip())
            if m and m.group(1) == prop:
                r.append((m.group(2), m.group(3)))
    return r


def known_signatures(prop):
    return [s for s, _ in known_entries(prop)]


# ------------------------------------------------------------------ the checks

def decide(prop, tier, seed):
    t = TABLE[prop]
    run = Run()
    thorough = tier == "thorough"
    cases = t.get("cases", 0) * (t.get("deep", 40) if thorough else 1)
    budget = 600.0 if thorough else 150.0
    extra_cov = {}
    if prop == "C22":
        import literals
        literals.decide(run, seed, tier, sys.modules[__name__], extra_cov)
    elif prop == "C23":
        asan = build_asan()
        r = Run()
        aenv = base_env(ASAN_OPTIONS="exitcode=99:detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=1")
        run_workers(r, prop, [asan], cases, seed, tier, budget, env=aenv, mem=None, mem_only=True)
        extra_cov["address_sanitizer"] = {"cases": r.cases, "evaluations": r.evaluations, "aborted_cases_skipped": r.skipped}
        merge(run, r)
        if not run.violations:
            miri = build_miri()
            r = Run()
            run_workers(r, prop, miri, 800 if thorough else 75, seed, tier, 400.0 if thorough else 80.0, env=lambda i: miri_env(seed * 100 + i),
                        extra=["--tiny"], mem=None, mem_only=True, limit_cpu=False)
            extra_cov["miri_tree_borrows"] = {"cases": r.cases, "evaluations": r.evaluations}
            if not r.violations and r.cases < 5:
                r.no_answer.append("Miri interpreted only %d cases" % r.cases)
            merge(run, r)
        if not run.violations:
            r = Run()
            run_workers(r, prop, miri, 600 if thorough else 50, seed, tier, 300.0 if thorough else 50.0, env=lambda i: miri_env(seed * 100 + i, True),
                        extra=["--tiny", "--stacked"], mem=None, mem_only=True, limit_cpu=False)
            extra_cov["miri_stacked_borrows"] = {"cases": r.cases, "evaluations": r.evaluations, "known_reports": dict(r.known)}
            merge(run, r)
        if thorough and not run.violations and shutil.which("valgrind"):
            plain = build_plain()
            r = Run()
            vg = ["valgrind", "-q", "--error-exitcode=99", "--leak-check=no", "--track-origins=no", plain]
            run_workers(r, prop, vg, 4000, seed, tier, 300.0, mem=None, mem_only=True, limit_cpu=False)
            extra_cov["valgrind_memcheck"] = {"cases": r.cases, "evaluations": r.evaluations}
            merge(run, r)
    else:
        plain = build_plain()
        later = Later(build_optimized)
        run_workers(run, prop, [plain], cases, seed, tier, budget)
        if run.violations:
            later.t.join()
        else:
            optimized = later.get()
            r = Run()
            run_workers(r, prop, [optimized], max(cases // 3, 8 * NCPU), seed + 500_000, tier, budget / 2, extra=["--optimized"])
            extra_cov["optimized_build"] = {"cases": r.cases, "evaluations": r.evaluations, "overflow_checks": False, "debug_assertions": False}
            merge(run, r)
        if prop == "C24" and not run.violations:
            miri = build_miri()
            r = Run()
            run_workers(r, prop, miri, 160 if thorough else 24, seed, tier, 400.0 if thorough else 60.0, env=lambda i: miri_env(seed * 100 + i),
                        extra=["--tiny"], mem=None, limit_cpu=False)
            extra_cov["miri_race_detector"] = {"cases": r.cases, "evaluations": r.evaluations, "schedules_seeded": NCPU}
            merge(run, r)
    return run, extra_cov


def merge(run, r):
    run.cases += r.cases
    run.evaluations += r.evaluations
    run.ignored += r.ignored
    run.skipped += r.skipped
    for a, b, f in ((run.counters, r.counters, lambda x, y: x + y), (run.maxima, r.maxima, max), (run.known, r.known, lambda x, y: x + y)):
        for k, v in b.items():
            a[k] = f(a.get(k, 0), v)
    run.samples = (run.samples + r.samples)[:4]
    run.hashes |= r.hashes
    run.violations += r.violations
    run.no_answer += r.no_answer


def check(prop, tier, seed):
    t = TABLE[prop]
    os.makedirs(WORK, exist_ok=True)
    os.makedirs(os.path.join(HERE, "replay"), exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    ev = os.path.join(HERE, "evidence", prop + ".json")
    if os.path.exists(ev):
        os.remove(ev)
    run, extra = decide(prop, tier, seed)
    coverage = {
        "evaluations": run.evaluations,
        "distinct_nontrivial": len(run.hashes),
        "rule": t["rule"],
        "samples": run.samples[:4],
        "cases": run.cases,
        "observed": dict(sorted(run.counters.items())),
        "largest": dict(sorted(run.maxima.items())),
        **extra,
    }
    json.dump({"property": prop, "tier": tier, "seed": seed, "level": t["level"], "coverage": coverage,
               "assumptions": t.get("assumes", []) + ["/repo built with the stable toolchain; overflow checks and debug assertions on, except where coverage says otherwise"],
               "wall_s": round(time.time() - T0, 2), "violations": len(run.violations)},
              open(ev, "w"), indent=1, ensure_ascii=True)
    for sig, what in known_entries(prop):
        if run.known.get(sig):
            say("KNOWN-FINDING: property=%s %s" % (prop, what))
    if run.violations:
        seen = set()
        for sig, msg, rep in run.violations:
            if sig in seen or len(seen) >= 3:
                continue
            seen.add(sig)
            path = os.path.join(HERE, "replay", "%s-%s.json" % (prop, re.sub(r"[^A-Za-z0-9]+", "-", sig)[:60]))
            json.dump(rep, open(path, "w"), indent=1)
            say("%s: %s" % (sig, msg[:1500]))
            say("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    need = t.get("need", {})
    for k, v in need.items():
        have = run.counters.get(k, 0)
        if have < v:
            run.no_answer.append("observed only %d of '%s', at least %d are needed for an answer" % (have, k, v))
    floor = t.get("floor", 400)
    if run.evaluations < floor or len(run.hashes) < t.get("floor_distinct", 100):
        run.no_answer.append("observed too little: %d evaluations, %d distinct" % (run.evaluations, len(run.hashes)))
    if run.no_answer:
        for m in run.no_answer[:4]:
            say("NO ANSWER: " + m)
        return 2
    say("%s held: %d cases, %d evaluations, %d distinct non-trivial, %.1f s" % (prop, run.cases, run.evaluations, len(run.hashes), time.time() - T0))
    return 0


def replay(prop, path):
    d = json.load(open(path))
    if prop == "C22":
        import literals
        return literals.replay(d, sys.modules[__name__])
    extra = d.get("extra", [])
    if prop == "C23":
        cmd, env = [build_asan()], base_env(ASAN_OPTIONS="exitcode=99:detect_leaks=0:allocator_may_return_null=1")
        if "--tiny" in extra:
            cmd, env = build_miri(), miri_env(d["seed"], "--stacked" in extra)
        extra = extra + ["--mem-only"]
    else:
        cmd, env = [build_optimized() if "--optimized" in extra else build_plain()], base_env()
        if "--tiny" in extra:
            cmd, env = build_miri(), miri_env(d["seed"])
    p = subprocess.run(limited([*cmd, prop, "--seed", str(d["seed"]), "--tier", d["tier"], "--only", str(d["case"]), *extra], HANG_CPU * 3),
                       cwd=HARNESS, env=env)
    if p.returncode != 0:
        say("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    say("not violated any more")
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    a = ap.parse_args()
    try:
        if a.property == "setup":
            os.makedirs(WORK, exist_ok=True)
            build_plain()
            build_optimized()
            build_asan()
            build_miri()
            say("built")
            return 0
        if a.replay:
            return replay(a.property, a.replay)
        return check(a.property, a.tier, a.seed)
    except NoAnswer as e:
        say("NO ANSWER: %s" % e)
        return 2
    except Exception:
        import traceback
        say("NO ANSWER: the check itself failed:\n" + traceback.format_exc())
        return 2


if __name__ == "__main__":
    sys.exit(main())
