#!/usr/bin/env python3
"""Run the check of one property: check.py C01 [--thorough] [--replay FILE]

Exit 0: held on everything observed. Exit 1 and a VIOLATION line: broken. Exit 2: inconclusive
(build failure, time limit, too few observations); never used for a violation."""
import argparse, json, os, re, shutil, signal, subprocess, sys, time, glob, threading

V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
TARGET = os.path.join(V, "target")
H = os.path.join(V, "harness")
B = os.path.join(V, "browser")
TRIPLE = "x86_64-unknown-linux-gnu"
T0 = time.time()


class Inconclusive(Exception):
    pass


class Violation(Exception):
    def __init__(self, what, detail, replay):
        self.what, self.detail, self.replay = what, detail, replay


def log(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, flush=True)


# ------------------------------------------------------------------ builds

def base_env():
    e = dict(os.environ)
    for k in list(e):
        if k.startswith("RUST") or k.startswith("CARGO_") or k in ("MIRIFLAGS",):
            if k not in ("RUSTUP_HOME", "CARGO_HOME"):
                del e[k]
    e["CARGO_NET_OFFLINE"] = "true"
    # anyhow takes a backtrace for every error otherwise
    e["RUST_BACKTRACE"] = "0"
    e["RUST_LIB_BACKTRACE"] = "0"
    e["CARGO_TERM_COLOR"] = "never"
    return e


MIRI_TARGET = {"miri": TRIPLE, "miri-i686": "i686-unknown-linux-gnu", "miri-s390x": "s390x-unknown-linux-gnu"}


def miri_argv(kind, bin):
    argv = ["cargo", "+nightly", "miri", "run", "--offline", "-q", "--bin", bin]
    if kind != "miri":
        argv += ["--target", MIRI_TARGET[kind]]
    return argv + ["--"]


def build_cmd(kind):
    """-> (argv, env, target dir, output dir)"""
    e = base_env()
    if kind in ("chk", "release"):
        t = os.path.join(TARGET, "std")
        argv = ["cargo", "build", "--offline", "--profile", kind, "--bins"]
        out = os.path.join(t, kind)
    elif kind in ("bchk", "brelease"):
        t = os.path.join(TARGET, "browser")
        argv = ["cargo", "build", "--offline", "--profile", kind[1:], "--bins"]
        out = os.path.join(t, kind[1:])
    elif kind == "asan":
        t = os.path.join(TARGET, "asan")
        e["RUSTFLAGS"] = "-Zsanitizer=address -Cforce-frame-pointers=yes"
        argv = ["cargo", "+nightly", "build", "--offline", "--profile", "chk", "--target", TRIPLE, "--bin", "vh"]
        out = os.path.join(t, TRIPLE, "chk")
    elif kind == "tsan":
        t = os.path.join(TARGET, "tsan")
        e["RUSTFLAGS"] = "-Zsanitizer=thread -Cforce-frame-pointers=yes"
        argv = ["cargo", "+nightly", "build", "--offline", "-Zbuild-std", "--profile", "chk", "--target", TRIPLE, "--bin", "vh"]
        out = os.path.join(t, TRIPLE, "chk")
    elif kind == "msan":
        t = os.path.join(TARGET, "msan")
        e["RUSTFLAGS"] = "-Zsanitizer=memory -Zsanitizer-memory-track-origins -Cforce-frame-pointers=yes"
        argv = ["cargo", "+nightly", "build", "--offline", "-Zbuild-std", "--profile", "chk", "--target", TRIPLE, "--bin", "vh"]
        out = os.path.join(t, TRIPLE, "chk")
    elif kind in ("i686", "bi686"):
        # native 32 bit code, like in a browser
        t = os.path.join(TARGET, "i686")
        e["RUSTFLAGS"] = "-Clinker=%s -Crelocation-model=static" % os.path.join(H, "link32.sh")
        argv = ["cargo", "+nightly", "build", "--offline", "-Zbuild-std", "--profile", "chk", "--target", "i686-unknown-linux-gnu", "--bin", "vb" if kind == "bi686" else "vh"]
        out = os.path.join(t, "i686-unknown-linux-gnu", "chk")
    elif kind in MIRI_TARGET:
        t = os.path.join(TARGET, kind)
        e["MIRIFLAGS"] = MIRIFLAGS
        argv = miri_argv(kind, "vh") + ["c01", "--cases", "0"]
        out = None
    else:
        raise Inconclusive("unknown build " + kind)
    e["CARGO_TARGET_DIR"] = t
    return argv, e, t, out


NO_MEM = ("asan", "tsan", "msan", "miri", "miri-i686", "miri-s390x")
MIRIFLAGS = "-Zmiri-disable-isolation -Zmiri-disable-stacked-borrows -Zmiri-ignore-leaks"


def forget(t):
    """drop what cargo believes about the crates that may have changed, so that they are rebuilt"""
    for depth in ("", "*/", "*/*/", "*/*/*/"):
        for crate in ("radixdb", "vharness", "sample", "bharness"):
            for pat in (depth + ".fingerprint/%s-*" % crate, depth + "build/%s" % crate):
                for p in glob.glob(os.path.join(t, pat)):
                    shutil.rmtree(p, ignore_errors=True)


def build(kinds):
    procs = []
    dirs = {}
    for k in kinds:
        argv, e, t, out = build_cmd(k)
        os.makedirs(t, exist_ok=True)
        dirs.setdefault(t, []).append((k, argv, e, out))
    for t in dirs:
        forget(t)
    outs = {}
    for t, l in dirs.items():
        # one directory at a time per process, different directories in parallel
        script = []
        procs.append((t, l, []))
    running = []
    errs = []

    def work(l):
        for k, argv, e, out in l:
            p = subprocess.run(argv, cwd=B if k in ("bchk", "brelease", "bi686") else H, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if p.returncode != 0:
                errs.append((k, p.stdout[-6000:]))
                return
            outs[k] = out
    for t, l, _ in procs:
        th = threading.Thread(target=work, args=(l,))
        th.start()
        running.append(th)
    for th in running:
        th.join()
    if errs:
        for k, o in errs:
            print(o)
        raise Inconclusive("build %s failed" % errs[0][0])
    log("built", ", ".join(kinds))
    return outs


# ------------------------------------------------------------------ running

def rlimit(gb):
    def f():
        import resource
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if gb:
            resource.setrlimit(resource.RLIMIT_AS, (gb << 30, gb << 30))
    return f


def san_env(kind, e):
    if kind == "asan":
        e["ASAN_OPTIONS"] = "halt_on_error=1:abort_on_error=0:exitcode=99:detect_leaks=%d:detect_stack_use_after_return=0:allocator_may_return_null=1:max_allocation_size_mb=4096" % 0
        sym = glob.glob(os.path.expanduser("/usr/bin/llvm-symbolizer*"))
        if sym:
            e["ASAN_SYMBOLIZER_PATH"] = sym[0]
    if kind == "msan":
        e["MSAN_OPTIONS"] = "halt_on_error=1:exitcode=96"
        sym = glob.glob(os.path.expanduser("/usr/bin/llvm-symbolizer*"))
        if sym:
            e["MSAN_SYMBOLIZER_PATH"] = sym[0]
    if kind == "tsan":
        e["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=98:history_size=4:second_deadlock_stack=1"
        sym = glob.glob(os.path.expanduser("/usr/bin/llvm-symbolizer*"))
        if sym:
            e["TSAN_SYMBOLIZER_PATH"] = sym[0]
    return e


class Runner:
    def __init__(self, prop, conf, tier, seed):
        self.prop, self.conf, self.tier, self.seed = prop, conf, tier, seed
        self.scratch = os.path.join(V, "scratch", "%s-%d" % (prop, os.getpid()))
        os.makedirs(self.scratch, exist_ok=True)
        self.stats, self.cases, self.ops, self.distinct = {}, 0, 0, 0
        self.samples, self.runs = [], []
        self.outs = {}
        self.lock = threading.Lock()
        self.digests = []

    def command(self, run, out=None, progress=None, case=None, start=None, cases=None):
        kind = run["build"]
        e = base_env()
        if kind in MIRI_TARGET:
            e["CARGO_TARGET_DIR"] = os.path.join(TARGET, kind)
            e["MIRIFLAGS"] = MIRIFLAGS + " " + run.get("miriflags", "")
            argv = miri_argv(kind, run.get("bin", "vh"))
            run = dict({"small": True, "threads": 1}, **run)
            run["args"] = ["--samples", "0"] + run.get("args", [])
        else:
            argv = [os.path.join(self.outs[kind], run.get("bin", "vb" if kind in ("bchk", "brelease", "bi686") else "vh"))]
            san_env(kind, e)
        e.update(run.get("env", {}))
        e["VERIF_SCRATCH"] = self.scratch
        argv += [run["suite"], "--seed", str(run.get("seed", self.seed))]
        if self.tier == "thorough":
            argv.append("--thorough")
        if run.get("small"):
            argv.append("--small")
        argv += run.get("args", [])
        if case is not None:
            return argv + ["--case", str(case)], e
        argv += ["--cases", str(cases if cases is not None else run["cases"]), "--start", str(start or 0),
                 "--secs", str(run["secs"]), "--threads", str(run.get("threads", 8))]
        if out:
            argv += ["--out", out]
        if progress:
            argv += ["--progress", progress]
        return argv, e

    def exec(self, argv, e, limit, mem):
        try:
            p = subprocess.Popen(argv, cwd=H, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                                 preexec_fn=rlimit(mem), start_new_session=True)
            try:
                o, _ = p.communicate(timeout=limit)
                return p.returncode, o.decode("utf8", "replace")
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL)
                o, _ = p.communicate()
                return None, o.decode("utf8", "replace")
        finally:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except Exception:
                pass

    def replay_file(self, run, what, trace, case):
        d = os.path.join(V, "replays")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "%s-%s-%s-seed%s-case%s.json" % (self.prop, run["suite"], run["build"], run.get("seed", self.seed), case))
        json.dump({"property": self.prop, "what": what, "run": run, "case": case, "seed": run.get("seed", self.seed), "tier": self.tier,
                   "rerun": "python3 check.py %s --replay %s" % (self.prop, os.path.relpath(p, V)),
                   "trace": trace[-200:]}, open(p, "w"), indent=1)
        return p

    def single(self, run, case, tries=1):
        """re-run one case verbosely -> (bad, text)"""
        for _ in range(tries):
            argv, e = self.command(run, case=case)
            rc, o = self.exec(argv, e, run.get("single_limit", 240), run.get("mem", 0 if run["build"] in NO_MEM else 24))
            if rc not in (0,):
                return rc, o
        return 0, o

    def go(self, run):
        """a run, possibly split over several processes"""
        n = run.get("shards", 1)
        if n == 1:
            return self.part(run, "", 0, run["cases"])
        per = -(-run["cases"] // n)
        errs = []

        def work(k):
            sub = dict(run)
            if run["build"] in MIRI_TARGET:
                sub["miriflags"] = run.get("miriflags", "") + " -Zmiri-seed=%d" % (self.seed * 64 + k)
            try:
                self.part(sub, "-%d" % k, k * per, per)
            except Exception as x:
                errs.append(x)
        ths = [threading.Thread(target=work, args=(k,)) for k in range(n)]
        for t in ths:
            t.start()
        for t in ths:
            t.join()
        for x in errs:
            if isinstance(x, Violation):
                raise x
        if errs:
            raise errs[0]

    def compare(self):
        """the same case must have stored the same in every build"""
        seen = {}
        for run, ds in self.digests:
            key = (run["suite"], run.get("seed", self.seed), bool(run.get("small") or run["build"] in MIRI_TARGET))
            ref = seen.setdefault(key, {})
            for case, d in sorted(ds.items(), key=lambda x: int(x[0])):
                if case not in ref:
                    ref[case] = (d, run)
                    continue
                self.stats["ev.digests_compared"] = self.stats.get("ev.digests_compared", 0) + 1
                if ref[case][0] != d:
                    other = ref[case][1]
                    what = "case %s of suite %s stores other bytes when built for %s (digest %s) than for %s (digest %s)" % (case, run["suite"], run["build"], d, other["build"], ref[case][0])
                    _, o = self.single(run, int(case))
                    raise Violation(what, o[-3000:], self.replay_file(dict(run, reference=other), what, o.splitlines(), int(case)))

    def part(self, run, tag, start, cases):
        kind = run["build"]
        out = os.path.join(self.scratch, "out%s.json" % tag)
        prog = os.path.join(self.scratch, "progress" + tag)
        for p in (out, prog):
            if os.path.exists(p):
                os.unlink(p)
        argv, e = self.command(run, out, prog, start=start, cases=cases)
        mem = run.get("mem", 0 if kind in NO_MEM else 24)
        t = time.time()
        rc, o = self.exec(argv, e, run["secs"] + 200, mem)
        wall = time.time() - t
        if rc is None:
            raise Inconclusive("suite %s (%s) exceeded its wall clock limit\n%s" % (run["suite"], kind, o[-2000:]))
        if rc == 0:
            if not os.path.exists(out):
                raise Inconclusive("suite %s wrote no report" % run["suite"])
            d = json.load(open(out))
            if d["cases"] < min(cases, run.get("min_cases", cases // 8 or 1)):
                raise Inconclusive("suite %s (%s) ran only %d of %d cases within its time" % (run["suite"], kind, d["cases"], cases))
            self.lock.acquire()
            self.digests.append((run, d.get("digests", {})))
            self.cases += d["cases"]
            self.ops += d["ops"]
            self.distinct += d["distinct_nontrivial"]
            for k, v in d["stats"].items():
                if k.startswith("max."):
                    self.stats[k] = max(self.stats.get(k, 0), v)
                else:
                    self.stats[k] = self.stats.get(k, 0) + v
            self.samples += [dict(s, suite=run["suite"], build=kind) for s in d["samples"]]
            self.runs.append({"suite": run["suite"], "build": kind, "seed": run.get("seed", self.seed), "cases": d["cases"],
                              "operations": d["ops"], "distinct_nontrivial": d["distinct_nontrivial"], "wall_s": round(wall, 1)})
            self.lock.release()
            log("suite %s (%s): %d cases, %d operations, %d distinct non-trivial, %.1fs" % (run["suite"], kind, d["cases"], d["ops"], d["distinct_nontrivial"], wall))
            return
        if rc != 0 and run.get("selftest"):
            raise Inconclusive("the monitor does not work here: " + o[-2000:])
        if rc == 1 and os.path.exists(out):
            d = json.load(open(out))
            fs = d["failures"]
            f = fs[0]
            known = load_known(self.prop)
            case = f["case"]
            _, o2 = self.single(run, case)
            raise Violation(f["what"], o2[-3000:], self.replay_file(run, f["what"], o2.splitlines(), case))
        m = re.search(r"HANG suite=(\S+) case=(\d+) kind=(\S+)", o)
        if rc == 97 and m:
            case = int(m.group(2))
            r2, o2 = self.single(dict(run, single_limit=90), case)
            if r2 is None or r2 != 0:
                what = "case %d did not terminate (%s)" % (case, m.group(3))
                raise Violation(what, o2[-2000:], self.replay_file(run, what, o2.splitlines(), case))
            raise Inconclusive("case %d looked like a hang, but terminates when run alone" % case)
        # a crash: signal, abort, sanitizer or interpreter report
        if rc in (-signal.SIGKILL,):
            raise Inconclusive("suite %s was killed (out of memory?)" % run["suite"])
        if "unsupported operation" in o and kind in MIRI_TARGET:
            raise Inconclusive("miri: unsupported operation\n" + o[-3000:])
        if rc == 2 or rc == 101 or (kind in MIRI_TARGET and "error: could not compile" in o):
            raise Inconclusive("suite %s (%s) failed to run (rc %s)\n%s" % (run["suite"], kind, rc, o[-3000:]))
        cands = []
        if os.path.exists(prog):
            for l in open(prog).read().split("\n"):
                try:
                    c = int(l)
                except ValueError:
                    continue
                if c >= 0:
                    cands.append(c)
        what = crash_summary(kind, rc, o)
        if kind not in MIRI_TARGET:
            for c in sorted(cands):
                r2, o2 = self.single(run, c, tries=3 if kind in ("tsan",) or run.get("racy") else 1)
                if r2 not in (0, None):
                    w2 = crash_summary(kind, r2, o2)
                    raise Violation(w2, o2[-3000:], self.replay_file(run, w2, o2.splitlines(), c))
        raise Violation(what, o[-3000:], self.replay_file(run, what, o.splitlines(), cands[0] if cands else "all"))


def crash_summary(kind, rc, o):
    for pat in (r"ERROR: AddressSanitizer: [^\n]*", r"WARNING: ThreadSanitizer: [^\n]*", r"WARNING: MemorySanitizer: [^\n]*", r"error: Undefined Behavior: [^\n]*",
                r"SUMMARY: [^\n]*", r"memory allocation of \d+ bytes failed", r"has overflowed its stack", r"case \d+: FAILED: [^\n]*",
                r"error: [^\n]*", r"thread '[^\n]*panicked[^\n]*\n[^\n]*"):
        m = re.search(pat, o)
        if m:
            return "%s (exit %s)" % (m.group(0).replace("\n", " "), rc)
    if rc is not None and rc < 0:
        try:
            return "process died with " + signal.Signals(-rc).name
        except ValueError:
            pass
    return "process ended with code %s" % rc


def load_known(prop):
    """lines: finding: property=<id> match=<exact text of the failure> ## what fails"""
    res = []
    p = os.path.join(V, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) suite=(\S+) (.*)$", l.strip())
            if m and m.group(1) == prop:
                res.append((m.group(2), m.group(3)))
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--thorough", action="store_true")
    ap.add_argument("--replay")
    ap.add_argument("--scale", type=float, default=1.0)
    a = ap.parse_args()
    from props import PROPS
    prop = a.prop
    conf = PROPS[prop]
    tier = "thorough" if a.thorough or os.environ.get("VERIF_TIER") == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    r = Runner(prop, conf, tier, seed)
    code = 0
    violations = 0
    try:
        if a.replay:
            d = json.load(open(a.replay))
            r.seed, r.tier = d["seed"], d["tier"]
            run = d["run"]
            r.outs = build([run["build"]])
            if d["case"] == "all":
                r.go(run)
            else:
                rc, o = r.single(run, d["case"], tries=5 if run.get("racy") else 1)
                print(o)
                if rc == 0 and "reference" in run:
                    r.outs.update(build([run["reference"]["build"]]))
                    _, o2 = r.single(run["reference"], d["case"])
                    dg = [re.findall(r"digest (\w+)", x) for x in (o, o2)]
                    print("digests:", dg)
                    if dg[0] != dg[1]:
                        raise Violation(d["what"], "", a.replay)
                if rc == 1 or (rc is not None and rc != 0):
                    raise Violation(d["what"], "", a.replay)
            print("replay: held")
            return 0
        runs = conf["runs"](tier, seed)
        for run in runs:
            if "cases" in run:
                run["cases"] = max(1, int(run["cases"] * a.scale))
        r.outs = build(sorted(set(x["build"] for x in runs)))
        for run in runs:
            r.go(run)
        r.compare()
        # a run that observed too little proves nothing
        low = {k: (r.stats.get(k, 0), v) for k, v in conf.get("min", {}).items() if r.stats.get(k, 0) < v * min(1.0, a.scale)}
        if low:
            raise Inconclusive("too few observations: " + ", ".join("%s %d < %d" % (k, x, y) for k, (x, y) in low.items()))
        for suite, what in load_known(prop):
            # its demonstration, for the record; the outcome does not decide anything
            rc, _ = r.single(dict(build="chk", suite=suite, secs=60, single_limit=60), 0)
            r.stats["finding.%s.reproduced" % suite] = int(rc != 0)
            print("KNOWN-FINDING: property=%s %s" % (prop, what))
        log("held on everything observed")
    except Violation as v:
        violations = 1
        code = 1
        print(v.detail)
        print("what: " + v.what[:1500])
        print("VIOLATION property=%s replay=%s" % (prop, v.replay))
    except Inconclusive as i:
        code = 2
        print("INCONCLUSIVE property=%s %s" % (prop, i))
    finally:
        shutil.rmtree(r.scratch, ignore_errors=True)
    if not a.replay:
        ev = {
            "property": prop, "tier": tier, "seed": seed, "level": conf.get("level", "exploration"),
            "coverage": {
                "evaluations": r.cases, "distinct_nontrivial": r.distinct, "rule": conf["rule"],
                "samples": r.samples[:6] or [{"note": "no run completed"}],
                "operations": r.ops, "events": dict(sorted(r.stats.items())), "runs": r.runs,
            },
            "assumptions": conf.get("assumptions", []),
            "wall_s": round(time.time() - T0, 1), "violations": violations,
        }
        os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(V, "evidence", prop + ".json"), "w"), indent=1)
    sys.stdout.flush()
    return code


if __name__ == "__main__":
    sys.exit(main())
