#!/usr/bin/env python3
"""Runs the check of one property against /repo's working tree.

  run.py C05                 quick or thorough, by VERIF_TIER (default quick), seed VERIF_SEED
  run.py C05 --replay FILE   re-runs a recorded violation with a full trace
  run.py --setup             builds everything once (a smoke test of the toolchain)

Exit 0: held on everything explored. Exit 1 + VIOLATION line: violated.
Anything else: the check could not decide (build failure, too little observed).
"""
import concurrent.futures as cf
import glob, hashlib, json, os, re, shutil, signal, struct, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
CXX = "clang++-18" if shutil.which("clang++-18") else "clang++"
NJ = os.cpu_count() or 8
BASE = ["-std=c++20", "-g1", "-fno-omit-frame-pointer", "-ffp-contract=off", "-pthread",
        "-D_GLIBCXX_ASSERTIONS", "-Wno-everything",
        "-I" + os.path.join(VERIF, "shim"), "-I" + REPO, "-I" + os.path.join(VERIF, "harness")]
COV = ["-fsanitize-coverage=trace-pc-guard"]
UBF = ["-fsanitize=undefined,float-cast-overflow", "-fno-sanitize-recover=all"]
VARIANTS = {
    # name: (compile flags, extra flags for repo objects, link flags, environment)
    "plain": (["-O1"], COV, [], {}),
    "steps": (["-O1", "-DVERIF_COUNT_EDGES"], COV, [], {}),
    "asan": (["-O1", "-fsanitize=address"] + UBF, COV, ["-fsanitize=address"] + UBF,
             {"ASAN_OPTIONS": "abort_on_error=0:exitcode=86:detect_leaks=1:allocator_may_return_null=0:max_allocation_size_mb=4096:detect_stack_use_after_return=1:strict_init_order=1",
              "UBSAN_OPTIONS": "print_stacktrace=1:exitcode=86"}),
    "tsan": (["-O1", "-fsanitize=thread"], COV, ["-fsanitize=thread"],
             {"TSAN_OPTIONS": "halt_on_error=1:exitcode=86:second_deadlock_stack=1"}),
    "valgrind": (["-O1", "-g"], COV, [], {}),
}
# Every installed abseil library: a change may start to use another one.
LIBS = sorted("-l" + os.path.basename(p)[3:-2] for p in glob.glob("/usr/lib/*/libabsl_*.a")) + ["-Wl,--as-needed"]

# property: {tier: [(variant, cases, cpu seconds allowed per case)]}
PLAN = json.load(open(os.path.join(VERIF, "plan.json")))


def die(msg, code=2):
    print("CHECK ERROR: " + msg, flush=True)
    sys.exit(code)


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def read(p):
    with open(p, "rb") as f:
        return f.read()


def repo_sources():
    src = []
    for root, _, files in os.walk(os.path.join(REPO, "ink_stroke_modeler")):
        for f in files:
            if f.endswith(".cc") and not f.endswith("_test.cc") and f != "type_matchers.cc":
                src.append(os.path.join(root, f))
    return sorted(src)


def headers_hash(dirs):
    parts = []
    for d in dirs:
        for root, _, files in sorted(os.walk(d)):
            for f in sorted(files):
                if f.endswith((".h", ".hpp", ".inc")):
                    p = os.path.join(root, f)
                    parts += [p, read(p)]
    return sha(*parts)


def compile_one(cmd, src, obj, key):
    stamp = obj + ".key"
    if os.path.exists(obj) and os.path.exists(stamp) and read(stamp).decode() == key:
        return None
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    tmp = obj + ".tmp%d.o" % os.getpid()
    r = subprocess.run(cmd + ["-c", src, "-o", tmp], capture_output=True, text=True, errors="replace")
    if r.returncode != 0:
        return "%s\n%s" % (src, (r.stderr or "")[-4000:])
    os.replace(tmp, obj)
    with open(stamp, "w") as f:
        f.write(key)
    return None


def build(prop, variant):
    flags, repo_flags, link, _ = VARIANTS[variant]
    out = os.path.join(BUILD, variant)
    os.makedirs(out, exist_ok=True)
    hr = headers_hash([os.path.join(REPO, "ink_stroke_modeler"), os.path.join(VERIF, "shim")])
    hh = headers_hash([os.path.join(VERIF, "harness")])
    jobs = []
    objs = []
    for s in repo_sources():
        rel = os.path.relpath(s, REPO).replace("/", "_")
        o = os.path.join(out, "repo_" + rel[:-3] + ".o")
        cmd = [CXX] + BASE + flags + repo_flags
        jobs.append((cmd, s, o, sha(*cmd, s, read(s), hr)))
        objs.append(o)
    for name in ["common", "gen", "ref", "sty", prop.lower()]:
        s = os.path.join(VERIF, "harness", name + ".cc")
        if not os.path.exists(s):
            die("missing " + s)
        o = os.path.join(out, name + ".o")
        cmd = [CXX] + BASE + flags
        jobs.append((cmd, s, o, sha(*cmd, s, read(s), hr, hh)))
        objs.append(o)
    # Longest first.
    jobs.sort(key=lambda j: -os.path.getsize(j[1]))
    with cf.ThreadPoolExecutor(NJ) as ex:
        errs = [e for e in ex.map(lambda j: compile_one(*j), jobs) if e]
    if errs:
        die("build failed:\n" + "\n".join(errs))
    exe = os.path.join(out, prop.lower())
    tmp = exe + ".tmp%d" % os.getpid()
    r = subprocess.run([CXX, "-pthread"] + link + objs + ["-Wl,--start-group"] + LIBS + ["-Wl,--end-group", "-o", tmp],
                       capture_output=True, text=True, errors="replace")
    if r.returncode != 0:
        die("link failed:\n" + r.stderr[-4000:])
    os.replace(tmp, exe)
    return exe


def limits(gb):
    import resource
    def f():
        os.setsid()
        if gb:
            resource.setrlimit(resource.RLIMIT_AS, (gb << 30, gb << 30))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    return f


def wrap(variant, exe):
    if variant == "valgrind":
        return ["valgrind", "--quiet", "--error-exitcode=86", "--exit-on-first-error=yes",
                "--leak-check=full", "--errors-for-leak-kinds=definite,indirect", "--num-callers=20", exe]
    return [exe]


class Group:
    """Shards of one (variant, cases) run."""

    def __init__(self, prop, variant, cases, cpu, seed, tier, tmp):
        self.prop, self.variant, self.cases, self.cpu = prop, variant, cases, cpu
        self.seed, self.tier, self.tmp = seed, tier, tmp

    def argv(self, exe, extra):
        a = wrap(self.variant, exe) + ["--seed", str(self.seed), "--cases", str(self.cases), "--cpu", str(self.cpu)]
        if self.tier == "thorough":
            a.append("--thorough")
        return a + extra

    def env(self):
        e = dict(os.environ)
        e.update(VARIANTS[self.variant][3])
        if self.prop == "C01" and "ASAN_OPTIONS" in e:
            # No call may ask for more than its output limit (at most 20000
            # results here) explains.
            e["ASAN_OPTIONS"] = e["ASAN_OPTIONS"].replace("max_allocation_size_mb=4096", "max_allocation_size_mb=16")
        return e

    def gb(self):
        return 0 if self.variant in ("asan", "tsan", "valgrind") else 8

    def run(self, exe, budget):
        n = min(NJ, self.cases)
        procs = []
        for i in range(n):
            out = os.path.join(self.tmp, "%s.%d.json" % (self.variant, i))
            prog = os.path.join(self.tmp, "%s.%d.prog" % (self.variant, i))
            err = open(os.path.join(self.tmp, "%s.%d.err" % (self.variant, i)), "w+b")
            p = subprocess.Popen(self.argv(exe, ["--shard", str(i), "--nshards", str(n), "--out", out, "--progress", prog]),
                                 stdout=err, stderr=err, env=self.env(), preexec_fn=limits(self.gb()))
            procs.append((p, out, prog, err))
        deadline = time.time() + budget
        results = []
        for p, out, prog, err in procs:
            timed_out = False
            try:
                p.wait(max(1, deadline - time.time()))
            except subprocess.TimeoutExpired:
                timed_out = True
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
                p.wait()
            err.seek(0)
            text = err.read().decode(errors="replace")
            idx = state = None
            if os.path.exists(prog) and os.path.getsize(prog) >= 16:
                idx, state = struct.unpack("QQ", read(prog)[:16])
            results.append(dict(rc=p.returncode, out=out, idx=idx, state=state, text=text, timeout=timed_out))
        return results

    def replay(self, exe, idx, cpu=None):
        a = self.argv(exe, ["--replay", str(idx)])
        if cpu:
            a[a.index("--cpu") + 1] = str(cpu)
        try:
            r = subprocess.run(a, capture_output=True, env=self.env(), preexec_fn=limits(self.gb()),
                               timeout=(cpu or self.cpu) * 6 + 60)
            return r.returncode, (r.stdout + r.stderr).decode(errors="replace")
        except subprocess.TimeoutExpired as e:
            return 97, ((e.stdout or b"") + (e.stderr or b"")).decode(errors="replace")


def load_findings():
    p = os.path.join(VERIF, "known_findings.json")
    return json.load(open(p))["findings"] if os.path.exists(p) else []


def describe_crash(rc, text):
    for pat in [r"(SUMMARY: .*)", r"(.*runtime error: .*)", r"(==\d+== [A-Z].*)", r"(.*Assertion.*failed.*)",
                r"(terminate called.*)", r"(CPU WATCHDOG.*)"]:
        m = re.search(pat, text)
        if m:
            return re.sub(r"==\d+==", "", m.group(1)).strip()[:300]
    if rc is not None and rc < 0:
        return "killed by signal %d" % -rc
    return "exit status %s" % rc


def write_replay(prop, group, idx, key, msg, trace):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s-%s-%s.txt" % (prop, group.variant, group.seed, idx))
    with open(path, "w") as f:
        f.write("property: %s\nvariant: %s\nseed: %s\ncase: %s\ncases: %s\ntier: %s\nkey: %s\n" %
                (prop, group.variant, group.seed, idx, group.cases, group.tier, key))
        f.write("what: %s\n---- trace ----\n%s\n" % (msg, trace[-400000:]))
    return path


def main():
    args = sys.argv[1:]
    if args and args[0] == "--setup":
        for prop in sorted(PLAN):
            for variant in sorted({v for v, _, _ in PLAN[prop]["quick"]}):
                build(prop, variant)
        print("built", len(PLAN), "monitors")
        return 0
    prop = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in args:
        tier = args[args.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if "--replay" in args:
        f = dict(re.findall(r"^(\w+): (.*)$", open(args[args.index("--replay") + 1]).read().split("---- trace")[0], re.M))
        g = Group(prop, f["variant"], int(f["cases"]), 60, int(f["seed"]), f["tier"], "/tmp")
        rc, text = g.replay(build(prop, f["variant"]), int(f["case"]))
        print(text)
        print("replay exit status", rc)
        return 1 if rc else 0

    t0 = time.time()
    tmp = os.path.join(BUILD, "run-%s-%d" % (prop, os.getpid()))
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    counters, floors, distinct, samples, findings = {}, {}, set(), [], {}
    evaluations = nontrivial = 0
    rule, edges = "", {}
    violation = None
    inconclusive = []
    runs = []
    # Coverage-guided fuzzing and similar extras are plain plan entries too.
    budget_total = 840 if tier == "quick" else 6 * 3600
    for variant, cases, cpu in PLAN[prop][tier]:
        exe = build(prop, variant)
        g = Group(prop, variant, cases, cpu, seed, tier, tmp)
        t1 = time.time()
        res = g.run(exe, max(60, budget_total - (time.time() - t0)))
        vevals = 0
        slowest = (0, 0)
        for r in res:
            ok_file = os.path.exists(r["out"])
            j = None
            if ok_file:
                try:
                    j = json.load(open(r["out"]))
                except ValueError:
                    j = None
            if j:
                vevals += j["evaluations"]
                nontrivial += j["nontrivial"]
                distinct.update(j["distinct"])
                rule = j["rule"]
                for k, v in j["counters"].items():
                    counters[k] = counters.get(k, 0) + v
                for k, v in j["floors"].items():
                    floors[k] = v
                e = j["edges"]
                if e:
                    old = edges.get(variant, "0" * len(e))
                    edges[variant] = "".join("1" if a == "1" or b == "1" else "0" for a, b in zip(old, e))
                if j["sample"] and len(samples) < 3:
                    samples.append({"variant": variant, "seed": seed, "trace": j["sample"].split("\n")[:60]})
                slowest = max(slowest, tuple(j["slowest"]))
                for f in j["findings"]:
                    findings[f["key"]] = f["msg"]
                if j["violation"] and not violation:
                    v = j["violation"]
                    rc, trace = g.replay(exe, v["index"])
                    violation = (g, v["index"], v["key"], v["msg"], trace)
            if r["rc"] in (0, 1) and j:
                continue
            # The process died: crash, sanitizer report, watchdog or timeout.
            if r["rc"] == 99:
                die("harness error: " + r["text"][-2000:])
            if violation:
                continue
            idx = r["idx"]
            if r["state"] == 1 and idx is not None:
                rc, trace = g.replay(exe, idx, cpu=2 * cpu)
                if rc not in (0, 1, 99):
                    if not violation:
                        what = describe_crash(rc, trace)
                        kind = "hang" if rc == 97 else "crash"
                        violation = (g, idx, kind, what, trace)
                    continue
                if rc == 1 and not violation:
                    violation = (g, idx, "violation", "see trace", trace)
                    continue
                if rc == 0 and r["rc"] == 86 and not violation:
                    # Reported by a sanitizer, but schedule-dependent: the
                    # report itself is the witness.
                    violation = (g, idx, "crash", describe_crash(86, r["text"]), r["text"])
                    continue
            elif r["rc"] == 86 and not violation:
                # Reported at exit (leak) or between cases.
                violation = (g, idx if idx is not None else 0, "crash", describe_crash(86, r["text"]), r["text"])
                continue
            inconclusive.append("%s shard died (rc %s, case %s): %s" % (variant, r["rc"], idx, r["text"][-500:]))
        evaluations += vevals
        runs.append({"variant": variant, "cases": vevals, "wall_s": round(time.time() - t1, 2),
                     "slowest_case_cpu_s": slowest[0], "slowest_case": slowest[1]})
        if violation:
            break

    # Findings of directed cases: known ones are reported, others are violations.
    known = {f["key"]: f for f in load_findings() if f.get("property") == prop and f.get("status") == "known"}
    printed = []
    for k, msg in sorted(findings.items()):
        if k in known:
            printed.append("KNOWN-FINDING: property=%s %s" % (prop, known[k]["what"]))
        elif not violation:
            g = Group(prop, PLAN[prop][tier][0][0], PLAN[prop][tier][0][1], 60, seed, tier, tmp)
            violation = (g, 0, k, msg, msg)

    low = ["%s=%d (needs %d)" % (k, counters.get(k, 0), m) for k, m in floors.items() if counters.get(k, 0) < m]
    cov = {
        "evaluations": evaluations,
        "distinct_nontrivial": len(distinct),
        "rule": rule,
        "samples": samples,
        "observed": {k: counters[k] for k in sorted(counters)},
        "runs": runs,
        "code_edges_reached": {v: "%d of %d" % (e.count("1"), len(e)) for v, e in edges.items()},
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": ["x86-64, clang 18, abseil 20220623 with the formatting shim in /verif/shim",
                          "held on the executions counted here; no claim beyond them"],
          "wall_s": round(time.time() - t0, 2), "violations": 1 if violation else 0}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    shutil.rmtree(tmp, ignore_errors=True)
    for line in printed:
        print(line)
    if violation:
        g, idx, key, msg, trace = violation
        path = write_replay(prop, g, idx, key, msg, trace)
        print("%s: %s: %s" % (prop, key, msg))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if inconclusive:
        die("inconclusive: " + "; ".join(inconclusive)[:3000])
    if low:
        die("too little observed: " + ", ".join(low))
    print("%s held: %d cases, %d distinct non-trivial, %.1f s (%s)" %
          (prop, evaluations, len(distinct), time.time() - t0,
           ", ".join("%s:%d" % (r["variant"], r["cases"]) for r in runs)))
    return 0


if __name__ == "__main__":
    sys.exit(main())
