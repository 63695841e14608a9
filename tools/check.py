#!/usr/bin/env python3
"""Decide one property of fuel-merkle on /repo's working tree.

  check.py <ID> [--thorough]         build the monitor variants, run them, merge
  check.py <ID> --variant V --case w:i --seed S     one case, with its history
  check.py setup                     build the main variants once

Exit 0: the property held on everything explored. Exit 1 and a line
"VIOLATION property=<id> replay=<path>": it is broken. Exit 2: no answer.
VERIF_SEED and VERIF_TIER select the workloads.
"""
import concurrent.futures as cf
import fcntl, glob, json, os, re, shutil, signal, subprocess, sys, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HARNESS = os.path.join(ROOT, "harness")
EVID = os.path.join(ROOT, "evidence")
REPL = os.path.join(ROOT, "replays")
TARGET = "x86_64-unknown-linux-gnu"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = "thorough" if "--thorough" in sys.argv else os.environ.get("VERIF_TIER", "quick") or "quick"
if TIER not in ("quick", "thorough"):
    TIER = "quick"

# variant -> (profile, std?, kind)
VARIANTS = {
    "checked": ("checked", True, "plain"),
    "optimised": ("optimised", True, "plain"),
    "nostd-checked": ("checked", False, "plain"),
    "nostd-optimised": ("optimised", False, "plain"),
    "miri": ("dev", True, "miri"),
    "asan": ("checked", True, "asan"),
    "tsan": ("checked", True, "tsan"),
    "msan": ("checked", True, "msan"),
}
# the constants of the tree under test steer the generators (replays on the same tree get the same)
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(ROOT, "tools"))
import literals
try:
    os.environ["FM_DICT"] = literals.dictionary("/repo")
except Exception as e:  # a dictionary is a help, not a need
    os.environ["FM_DICT"] = ""
# sanitizers whose runtime needs an instrumented standard library, built from the toolchain's sources
BUILD_STD = ("tsan", "msan")
SANITIZED = ("asan",) + BUILD_STD
NIGHTLY = "+nightly"


def plan(pid):
    """(variant, extra arguments) of the runs that decide a property"""
    thorough = TIER == "thorough"
    if pid == "C23":
        return [(v, []) for v in ("checked", "optimised", "nostd-checked", "nostd-optimised")]
    if pid == "C24":
        runs = [("checked", []), ("asan", ["--scale", "0.3" if not thorough else "0.2"]), ("miri", [])]
        runs += [("tsan", ["--scale", "0.05"]), ("msan", ["--scale", "0.1"])]
        if thorough:
            runs += [("optimised", []), ("nostd-checked", ["--scale", "0.3"])]
        return runs
    return [("checked", []), ("optimised", [])]


def log(*a):
    print(*a, file=sys.stderr, flush=True)


class Broken(Exception):
    """no answer"""


class BuildBroken(Exception):
    def __init__(self, variant, text):
        super().__init__(text)
        self.variant, self.text = variant, text


def spec_of(pid):
    for l in open(os.path.join(ROOT, "properties.jsonl")):
        p = json.loads(l)
        if p["id"] == pid:
            return p
    return None


def manifest_level(pid):
    m = json.load(open(os.path.join(ROOT, "MANIFEST.json")))
    for c in m["checks"]:
        if c["property"] == pid:
            return c["level"]
    return "exploration"


def features(pid, std):
    f = [pid]
    if std:
        f.append("std")
    if pid in ("C25", "C34", "C36", "all"):
        f.append("helpers")
    return ",".join(f)


def env_of(kind):
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "MIRIFLAGS", "CARGO_TARGET_DIR", "RUSTC_WRAPPER", "CARGO_BUILD_TARGET"):
        e.pop(k, None)
    e["CARGO_NET_OFFLINE"] = "true"
    if kind == "asan":
        e["RUSTFLAGS"] = "-Zsanitizer=address"
    if kind == "tsan":
        e["RUSTFLAGS"] = "-Zsanitizer=thread"
    if kind == "msan":
        e["RUSTFLAGS"] = "-Zsanitizer=memory -Zsanitizer-memory-track-origins"
    if kind == "miri":
        e["MIRIFLAGS"] = "-Zmiri-disable-isolation"
    return e


def build(pid, variant):
    """builds the monitor in one configuration; returns the command prefix to run it"""
    profile, std, kind = VARIANTS[variant]
    tdir = os.path.join(HARNESS, "target-" + variant)
    os.makedirs(tdir, exist_ok=True)
    feats = features(pid, std)
    with open(os.path.join(tdir, ".check-lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if kind == "miri":
            cmd = ["cargo", NIGHTLY, "miri", "run", "--offline", "--features", feats, "--target-dir", tdir, "--", "none"]
        else:
            cmd = ["cargo"] + ([NIGHTLY] if kind in SANITIZED else []) + ["build", "--offline", "--profile", profile, "--features", feats, "--target-dir", tdir]
            if kind in SANITIZED:
                cmd += ["--target", TARGET]
            if kind in BUILD_STD:
                cmd += ["-Zbuild-std"]
        r = subprocess.run(cmd, cwd=HARNESS, env=env_of(kind), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        if kind == "miri":
            if "unknown property" not in r.stdout:
                raise BuildBroken(variant, r.stdout)
            return ["cargo", NIGHTLY, "miri", "run", "--offline", "--features", feats, "--target-dir", tdir, "--"]
        if r.returncode != 0:
            raise BuildBroken(variant, r.stdout)
        sub = os.path.join(tdir, TARGET) if kind in SANITIZED else tdir
        src = os.path.join(sub, "debug" if profile == "dev" else profile, "fm-monitor")
        dst = os.path.join(tdir, f"monitor-{pid}-{os.getpid()}")
        shutil.copy2(src, dst)
        return [dst]


def run_env(kind, leaks=True):
    e = env_of(kind)
    if kind == "asan":
        e["ASAN_OPTIONS"] = f"detect_leaks={int(leaks)}:exitcode=77:allocator_may_return_null=1:detect_stack_use_after_return=1"
    if kind == "tsan":
        e["TSAN_OPTIONS"] = "exitcode=66:halt_on_error=1"
    if kind == "msan":
        e["MSAN_OPTIONS"] = "exitcode=78:halt_on_error=1"
    return e


class Result:
    def __init__(self, variant):
        self.variant = variant
        self.data = []  # result JSONs
        self.violation = None  # (message, replay path)
        self.notes = []


def call(cmd, kind, limit, leaks=True):
    p = subprocess.Popen(cmd, cwd=HARNESS, env=run_env(kind, leaks), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", start_new_session=True)
    try:
        out, err = p.communicate(timeout=limit)
        return p.returncode, out, err
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        out, err = p.communicate()
        return None, out, err


def read_json(path):
    try:
        return json.load(open(path))
    except (OSError, ValueError):
        return None


SAN = re.compile(r"(ERROR: AddressSanitizer[^\n]*|ERROR: LeakSanitizer[^\n]*|WARNING: ThreadSanitizer[^\n]*|SUMMARY: ThreadSanitizer[^\n]*|WARNING: MemorySanitizer[^\n]*|error: Undefined Behavior[^\n]*|error: memory leaked[^\n]*|error: abnormal termination[^\n]*|error: deadlock[^\n]*|error: the evaluated program (?:deadlocked|aborted)[^\n]*)")


def seed_for(pid, variant):
    """C23 needs the same cases everywhere; elsewhere another build explores other cases"""
    if pid == "C23" or variant == "checked":
        return SEED
    return SEED + 1000003 * (1 + list(VARIANTS).index(variant))


def run_variant(pid, variant, extra, cmd, tmp, limit):
    profile, std, kind = VARIANTS[variant]
    seed = seed_for(pid, variant)
    res = Result(variant)
    jobs = []
    base = cmd + [pid, "--tier", TIER, "--seed", str(seed), "--variant", variant]
    if kind == "miri":
        cap, shards = ("20", 8) if TIER == "quick" else ("160", 8)
        for i in range(shards):
            jobs.append((f"{variant}-{i}", ["--threads", "1", "--cap", cap, "--shard", f"{i}/{shards}", "--announce", "--no-min"]))
        # fresh processes in which several threads are the first to use the library
        for i in range(2 if TIER == "quick" else 8):
            jobs.insert(0, (f"{variant}-cold-{i}", ["--case", f"c24_cold:{i}"]))
    else:
        jobs.append((variant, list(extra)))

    def one(job):
        name, more = job
        out = os.path.join(tmp, name + ".json")
        rep = os.path.join(REPL, f"{pid}-{name}.txt")
        args = base + more + ["--out", out, "--replay", rep]
        if pid == "C23":
            args += ["--digests", os.path.join(tmp, variant + ".digests")]
        lim = limit if kind != "miri" else min(limit, 240 if TIER == "quick" else 3000)
        rc, so, se = call(args, kind, lim)
        if kind == "asan" and "LeakSanitizer has encountered a fatal error" in se:
            # leak detection needs ptrace; leaks are then decided by Miri alone
            res.notes.append("leak detection unavailable under AddressSanitizer here; decided by Miri")
            rc, so, se = call(args, kind, lim, leaks=False)
        d = read_json(out)
        m = SAN.search(se)
        if rc == 1 and d and d.get("violation"):
            return ("viol", d, d["violation"]["message"], rep)
        if m and (rc is not None):
            with open(rep, "w") as f:
                f.write(f"property: {pid}\nbuild variant: {variant}\nviolation: {m.group(1)}\ncommand: {' '.join(args)}\n--- report ---\n{se[-20000:]}\n")
            return ("viol", d, m.group(1), rep)
        if rc is None:
            if kind == "miri":
                res.notes.append(f"{name}: stopped after {lim:.0f} s")
                return ("ok", d, None, None)
            raise Broken(f"{name}: no result within {lim:.0f} s")
        if rc in (0,) and d:
            return ("ok", d, None, None)
        if rc == 3 and d:
            raise Broken(f"{name}: inconclusive: {'; '.join(d.get('inconclusive', []))}")
        if kind == "miri" and "unsupported operation" in se:
            res.notes.append(f"{name}: the interpreter does not support an operation")
            return ("ok", d, None, None)
        sig = -rc if rc < 0 else (rc - 128 if rc > 128 else 0)
        if sig in (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGILL, signal.SIGFPE, signal.SIGTRAP):
            return crash(pid, variant, kind, base, more, sig, se, rep, limit)
        raise Broken(f"{name}: exit status {rc}\n{se[-2000:]}")

    with cf.ThreadPoolExecutor(max_workers=8) as ex:
        for what, d, msg, rep in ex.map(one, jobs):
            if d:
                res.data.append(d)
            if what == "viol" and res.violation is None:
                res.violation = (msg, rep)
    return res


def crash(pid, variant, kind, base, more, sig, err, rep, limit):
    """the process died: find the case, see it die again"""
    rc, so, se = call(base + more + ["--threads", "1", "--announce", "--no-min"], kind, limit)
    cases = re.findall(r"^CASE (\S+)$", se, re.M)
    if rc in (0, 1, 3, None) or not cases:
        raise Broken(f"{variant}: died by signal {sig} once, not again\n{err[-1500:]}")
    again = [call(base + ["--case", cases[-1]], kind, limit)[0] for _ in range(2)]
    if any(r is None or r in (0, 1, 2, 3) for r in again):
        raise Broken(f"{variant}: died by signal {sig}, but {cases[-1]} alone does not\n{err[-1500:]}")
    msg = f"the process dies by signal {sig} in case {cases[-1]}: " + " ".join(err.strip().splitlines()[-3:])[:300]
    with open(rep, "w") as f:
        f.write(f"property: {pid}\nbuild variant: {variant}\nviolation: {msg}\nrerun: python3 tools/check.py {pid} --variant {variant} --case {cases[-1]} --seed {base[base.index('--seed') + 1]}\n--- output ---\n{err[-8000:]}\n")
    return ("viol", None, msg, rep)


def known_findings(pid):
    """signature -> text of the findings recorded for this property"""
    out = {}
    path = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(path):
        for l in open(path):
            m = re.match(r"known: property=(\S+) signature=(\S+) (.*)", l.strip())
            if m and m.group(1) == pid:
                out[m.group(2)] = m.group(3)
    return out


def compare_digests(tmp, variants):
    """C23: every case must have had the same outcome in every build"""
    ref = None
    for v in variants:
        path = os.path.join(tmp, v + ".digests")
        rows = dict(l.split() for l in open(path)) if os.path.exists(path) else {}
        if ref is None:
            ref = (v, rows)
            continue
        for k in sorted(set(rows) | set(ref[1]), key=lambda s: (s.split(":")[0], int(s.split(":")[1]))):
            if rows.get(k) != ref[1].get(k):
                return k, ref[0], v
    return None


def merge_stats(results):
    ev = dis = calls = 0
    counters, maxima, samples, per = {}, {}, [], {}
    for r in results:
        vev = vdis = 0
        cases = {}
        for d in r.data:
            vev += d["evaluations"]
            vdis += d["distinct"]
            calls += d["calls"]
            for k, v in d["counters"].items():
                counters[k] = counters.get(k, 0) + v
            for k, v in d["maxima"].items():
                maxima[k] = max(maxima.get(k, 0), v)
            for k, v in d["cases"].items():
                cases[k] = cases.get(k, 0) + v
            samples += [s for s in d["samples"] if s not in samples]
        per[r.variant] = dict(evaluations=vev, distinct_nontrivial=vdis, cases=cases,
                              wall_s=round(max([d["wall_s"] for d in r.data] or [0]), 2))
        if r.notes:
            per[r.variant]["notes"] = r.notes
        ev += vev
        dis = max(dis, vdis)
    return ev, dis, calls, counters, maxima, [s[:600] for s in samples[:9]], per


def write_evidence(pid, results, t0, violations, extra=None):
    spec = spec_of(pid)
    ev, dis, calls, counters, maxima, samples, per = merge_stats(results)
    cov = dict(evaluations=ev, distinct_nontrivial=dis,
               rule=RULES.get(pid, RULE) + " Distinct cases are counted per build by a 64-bit digest of the generated case; the largest such count of one build is given.",
               samples=samples, library_calls=calls, observed=counters, largest=maxima, builds=per)
    if extra:
        cov.update(extra)
    e = dict(property=pid, tier=TIER, seed=SEED, level=manifest_level(pid), coverage=cov,
             assumptions=["The reference models of the harness (written from the specification, self-tested against published vectors at every start) are right.",
                          "SHA-256 collisions do not occur."],
             wall_s=round(time.time() - t0, 2), violations=violations)
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, pid + ".json"), "w") as f:
        json.dump(e, f, indent=1)
        f.write("\n")


RULE = "Histories are generated from the seed by the workloads listed under builds; each monitored step of a history is one evaluation, non-trivial when the tree then held at least two entries (or the step met the condition the property is about)."
RULES = {
    "C07": "Every storage call of an append, at every size, is made to fail once (before and after taking effect); one evaluation per injected failure that hit.",
    "C13": "Storage calls of sparse operations are made to fail one by one (before and after taking effect); one evaluation per injected failure that hit.",
    "C18": "Every storage call of an append or root read is made to fail once (before and after taking effect); one evaluation per injected failure that hit.",
    "C19": "All positions of dense ranges, all heights, and random and boundary positions over 64 bits; one evaluation per position, non-trivial unless it is position 0.",
    "C20": "All leaves of all small leaf counts, random and boundary (leaf, count) pairs up to 2^62, and descents of perfect trees; one evaluation per path.",
    "C21": "Random operation sequences over few and many keys; one evaluation per operation, non-trivial when the map held more than one key.",
    "C31": "Trees whose storage is damaged or failing in one chosen way; one evaluation per error compared with the injected cause.",
    "C33": "One evaluation per library call whose allocations were measured, non-trivial when the tree held at least two entries.",
    "C35": "The recorded writes of each operation are cut at every point and the tree is reopened there; one evaluation per crash point.",
    "C36": "Vectors made from the reference models, true or falsified in one way; one evaluation per executed vector.",
    "C29": "Fee sequences that pass 2^64-1 at a chosen append by 1, a little or a lot; non-trivial evaluations are the appends and reads beyond the limit.",
}


def one_case(pid, argv):
    get = lambda k, d: argv[argv.index(k) + 1] if k in argv else d
    variant = get("--variant", "checked")
    cmd = build(pid, variant)
    kind = VARIANTS[variant][2]
    os.makedirs(REPL, exist_ok=True)
    rc, so, se = call(cmd + [pid, "--tier", TIER, "--variant", variant, "--seed", get("--seed", str(SEED)), "--case", get("--case", "")], kind, 600)
    print(se[-20000:])
    return 1 if rc else 0


def main():
    argv = sys.argv[1:]
    if not argv:
        print(__doc__)
        return 2
    t0 = time.time()
    pid = argv[0]
    os.makedirs(REPL, exist_ok=True)
    if pid == "setup":
        with cf.ThreadPoolExecutor() as ex:
            list(ex.map(lambda v: build("all", v), ["checked", "optimised"]))
        print("monitors build")
        return 0
    if spec_of(pid) is None:
        log(f"unknown property {pid}")
        return 2
    if "--case" in argv:
        return one_case(pid, argv)

    tmp = os.path.join(HARNESS, f"target-run-{pid}-{os.getpid()}")
    os.makedirs(tmp)
    for f in glob.glob(os.path.join(REPL, f"{pid}-*")):
        os.unlink(f)
    runs = plan(pid)
    limit = 780 if TIER == "quick" else 6 * 3600
    results, cmds = [], {}
    try:
        violation = None
        extra = {}
        with cf.ThreadPoolExecutor() as ex:
            futs = {v: ex.submit(build, pid, v) for v, _ in runs}
            broken = {}
            for v, f in futs.items():
                try:
                    cmds[v] = f.result()
                except BuildBroken as b:
                    broken[v] = b.text
        if pid == "C24" and "checked" in cmds:
            # an instrumented standard library is a bonus: without it the other builds still decide
            for v in [v for v in broken if v in BUILD_STD]:
                extra.setdefault("builds_left_out", {})[v] = broken.pop(v)[-300:]
                runs = [r for r in runs if r[0] != v]
        if broken:
            v, text = sorted(broken.items())[0]
            own = re.search(r"could not compile `fuel-merkle`", text)
            if pid == "C23" and own and "checked" in cmds and "optimised" in cmds:
                rep = os.path.join(REPL, f"{pid}-{v}.txt")
                open(rep, "w").write(text[-20000:])
                violation = (f"the {v} configuration does not even compile", rep)
            else:
                raise Broken(f"the {v} build fails:\n{text[-4000:]}")
        if violation is None:
            # the interpreter and the sanitizers run beside the native builds
            heavy = [r for r in runs if VARIANTS[r[0]][2] == "miri"]
            light = [r for r in runs if r not in heavy]
            spent = lambda: limit - (time.time() - t0)
            with cf.ThreadPoolExecutor() as ex:
                hf = [ex.submit(run_variant, pid, v, a, cmds[v], tmp, spent()) for v, a in heavy]
                err = None
                for v, a in light:
                    try:
                        results.append(run_variant(pid, v, a, cmds[v], tmp, spent()))
                    except Broken as b:
                        err = err or b
                for h in hf:
                    try:
                        results.append(h.result())
                    except Broken as b:
                        err = err or b
            for r in results:
                if r.violation and violation is None:
                    violation = r.violation
            if violation is None and err:
                raise err
        if violation is None and pid == "C23":
            diff = compare_digests(tmp, [v for v, _ in runs])
            if diff:
                k, a, b = diff
                rep = os.path.join(REPL, f"{pid}-difference.txt")
                with open(rep, "w") as f:
                    f.write(f"property: C23\ncase {k} has different outcomes in the builds {a} and {b}\n")
                    for v in (a, b):
                        rc, so, se = call(cmds[v] + [pid, "--tier", TIER, "--seed", str(SEED), "--variant", v, "--case", k], "plain", 300)
                        f.write(f"--- {v}\n{se[-20000:]}\n")
                violation = (f"case {k} has different outcomes in the builds {a} and {b}", rep)
            extra["builds_compared"] = len(runs)
        known = known_findings(pid)
        hit = {}
        for r in results:
            for d in r.data:
                for s, m in d.get("findings", {}).items():
                    hit.setdefault(s, (m, r.variant))
        for s, (m, v) in sorted(hit.items()):
            if s in known:
                print(f"KNOWN-FINDING: property={pid} {known[s]} [{m}]")
            elif violation is None:
                rep = os.path.join(REPL, f"{pid}-finding.txt")
                open(rep, "w").write(f"property: {pid}\nbuild variant: {v}\nviolation: {m}\n")
                violation = (m, rep)
        write_evidence(pid, results, t0, 1 if violation else 0, extra)
        if violation:
            print(f"{pid}: {violation[0]}")
            print(f"VIOLATION property={pid} replay={violation[1]}", flush=True)
            return 1
        ev, dis, *_ = merge_stats(results)
        print(f"{pid}: held on {ev} evaluations ({dis} distinct non-trivial) in {len(results)} builds, {time.time() - t0:.1f} s")
        return 0
    except Broken as b:
        log(f"{pid}: no answer: {b}")
        return 2
    finally:
        for v, c in cmds.items():
            if len(c) == 1 and os.path.basename(c[0]).startswith("monitor-"):
                try:
                    os.unlink(c[0])
                except OSError:
                    pass
        shutil.rmtree(tmp, ignore_errors=True)


sys.exit(main())
