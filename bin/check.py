#!/usr/bin/env python3
"""Decides one property of xmem: builds the monitored workloads from /repo's current
tree, runs them, collects what the oracles saw, writes the evidence file.

  check.py <property>            tier from VERIF_TIER (quick/thorough), seed from VERIF_SEED
  check.py --replay <file>       runs the recorded case of a violation again, verbosely

Exit 0: held on everything explored.  1: violation (line VIOLATION ...).  2: no answer.
"""
import concurrent.futures as cf
import json, os, re, shutil, signal, struct, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("XMEM_REPO", "/repo")
HARN = os.path.join(VERIF, "harness")
OUT = os.path.join(VERIF, "out")
sys.path.insert(0, os.path.join(VERIF, "bin"))
sys.dont_write_bytecode = True
import plans  # noqa: E402

DEADLINE = 300 if os.environ.get("VERIF_TIER", "quick") != "thorough" else 5400
NPROC = min(8, os.cpu_count() or 8)
T0 = time.time()


def log(*a):
    print("[%6.1f]" % (time.time() - T0), *a, flush=True)


ENV = dict(os.environ)
for k in ("CFLAGS", "CXXFLAGS", "LDFLAGS", "CPATH", "CPLUS_INCLUDE_PATH", "LD_PRELOAD"):
    ENV.pop(k, None)
_common = "exitcode=99:allocator_may_return_null=1:print_stacktrace=1:symbolize=%s" % os.environ.get("HV_SYMBOLIZE", "1")
ENV["ASAN_OPTIONS"] = _common + ":detect_leaks=0:quarantine_size_mb=64:detect_stack_use_after_return=0:use_sigaltstack=0:max_malloc_fill_size=4096:malloc_fill_byte=205"
ENV["UBSAN_OPTIONS"] = _common
ENV["MSAN_OPTIONS"] = _common
ENV["TSAN_OPTIONS"] = "exitcode=99:halt_on_error=1:history_size=4:report_signal_unsafe=0:second_deadlock_stack=0"
ENV["LC_ALL"] = "C"


class Inconclusive(Exception):
    pass


# ------------------------------------------------------------------ building
def run_compile(cmd, timeout=600):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=ENV, timeout=timeout,
                           cwd=HARN, text=True, errors="replace")
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return -999, "compiler timed out"


FENCES = set()


def uses_fences(name, obj):
    """ThreadSanitizer does not understand fences: where the code has any its race reports mean nothing
    (the runtime of harness/vsched.cpp does, and decides alone)"""
    p = subprocess.run(["nm", "-u", obj], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
    if p.returncode or "atomic_thread_fence" in p.stdout:
        FENCES.add(name)


ORDERS = {"monotonic": 0, "acquire": 2, "release": 3, "acq_rel": 4, "seq_cst": 5}
WEAK_CAS = re.compile(r"= cmpxchg weak( volatile)? ptr ([^,]+), i(8|16|32|64) ([^,]+), i\d+ ([^ ]+) (\w+) (\w+), align \d+")
WRAPPER = """
declare i32 @__tsan_atomic{n}_compare_exchange_weak(ptr, ptr, i{n}, i32, i32) nounwind
define internal {{ i{n}, i1 }} @vs_weak_cas_{n}(ptr %p, i{n} %e, i{n} %d, i32 %mo, i32 %fmo) alwaysinline nounwind {{
  %s = alloca i{n}
  store i{n} %e, ptr %s
  %r = call i32 @__tsan_atomic{n}_compare_exchange_weak(ptr %p, ptr %s, i{n} %d, i32 %mo, i32 %fmo)
  %ok = icmp ne i32 %r, 0
  %v = load i{n}, ptr %s
  %a = insertvalue {{ i{n}, i1 }} undef, i{n} %v, 0
  %b = insertvalue {{ i{n}, i1 }} %a, i1 %ok, 1
  ret {{ i{n}, i1 }} %b
}}
"""


def compile_weak(cmd, exe):
    """The TSan pass of clang turns a weak compare-exchange into a strong one: hand it to the runtime as what it is,
    so that it can fail without a reason."""
    ll = exe + ".ll"
    i = cmd.index("-o")
    rc, msg = run_compile(cmd[:1] + ["-S", "-emit-llvm", "-Xclang", "-disable-llvm-passes"] + [c for c in cmd[1:i] if c != "-c"] + ["-o", ll] + cmd[i + 2:])
    if rc:
        return rc, msg
    text = open(ll).read()
    used = set()

    def call(m):
        n = m.group(3)
        used.add(n)
        return "= call { i%s, i1 } @vs_weak_cas_%s(ptr %s, i%s %s, i%s %s, i32 %d, i32 %d)" % (
            n, n, m.group(2), n, m.group(4), n, m.group(5), ORDERS[m.group(6)], ORDERS[m.group(7)])
    text = WEAK_CAS.sub(call, text)
    for n in sorted(used):
        text += WRAPPER.format(n=n)
    open(ll, "w").write(text)
    drop = ("-std", "-D", "-w", "-I")
    rc, msg = run_compile(cmd[:1] + ["-c", ll, "-o", cmd[i + 1], "-Wno-unused-command-line-argument"] + [c for c in cmd[1:i] + cmd[i + 2:] if c != "-c" and not c.endswith(".cpp") and not c.startswith(drop)])
    os.unlink(ll)
    return (rc, msg) if rc == 0 else run_compile(cmd)


def build_one(b, bdir):
    """returns (ok, path, message)"""
    exe = os.path.join(bdir, b["name"])
    objs = []
    for i, (cxx, src, flags) in enumerate(b.get("objs", [])):
        o = os.path.join(bdir, "%s.%d.o" % (b["name"], i))
        rc, msg = run_compile([cxx, "-c", src, "-o", o] + flags)
        if rc:
            return False, None, msg
        objs.append(o)
    inc = ["-I" + os.path.join(REPO, "code"), "-I" + HARN]
    if "-fsanitize=thread" in b["flags"]:   # two steps: see uses_fences
        o = exe + ".main.o"
        cmd = [b["cxx"], "-c", b["src"], "-o", o] + b["flags"] + inc
        rc, msg = compile_weak(cmd, exe) if b.get("two_step") else run_compile(cmd)
        if rc == 0:
            uses_fences(b["name"], o)
            link = [] if b.get("two_step") else [f for f in b["flags"] if f in ("-fsanitize=thread", "-pthread")]
            rc, msg = run_compile([b["cxx"], o] + objs + ["-o", exe] + link + b.get("ldflags", []))
    else:
        cmd = [b["cxx"], b["src"], "-o", exe] + b["flags"] + inc + objs + b.get("ldflags", [])
        rc, msg = run_compile(cmd)
    if rc:
        return False, None, msg
    return True, exe, " ".join(cmd)


def sanity(bdir, cxx):
    """does a translation unit that merely includes the headers compile?"""
    src = os.path.join(bdir, "sanity-%s.cpp" % os.path.basename(cxx))
    with open(src, "w") as f:
        f.write("#include <memory>\nint main() { std::shared_ptr<int> p = std::make_shared<int>(1); return *p - 1; }\n")
    rc, msg = run_compile([cxx, "-std=c++17", src, "-o", src + ".exe"])
    return rc == 0


# ------------------------------------------------------------------ running
class Proc:
    """one process over a range of cases"""

    def __init__(self, job, exe, seed, frm, step, cases, tag, bdir, only=None):
        self.job, self.exe = job, exe
        self.seed, self.frm, self.step, self.cases = seed, frm, step, cases
        self.hashes = os.path.join(bdir, "h-%s" % tag)
        self.progress = os.path.join(bdir, "p-%s" % tag)
        self.args = [exe, "--seed", str(seed), "--profile", job["profile"], "--hashes", self.hashes, "--progress", self.progress]
        if only is not None:
            self.args += ["--only", str(only)]
        else:
            self.args += ["--from", str(frm), "--step", str(step), "--cases", str(cases)]
        self.args = job.get("wrap", []) + self.args

    def case_now(self):
        try:
            with open(self.progress, "rb") as f:
                return struct.unpack("q", f.read(8))[0]
        except (OSError, struct.error):
            return -1

    def run(self, timeout, stop=None):
        """timeout: for the whole process; a single case may take job["stall"] seconds"""
        for f in (self.hashes, self.progress):
            if os.path.exists(f):
                os.unlink(f)
        env = dict(ENV)
        env.update(self.job.get("env", {}))
        p = subprocess.Popen(self.args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, start_new_session=True)
        self.timedout = self.cancelled = False
        begin = moved = time.time()
        at = -1
        while True:
            try:
                so, se = p.communicate(timeout=0.5)
                break
            except subprocess.TimeoutExpired:
                now, c = time.time(), self.case_now()
                if c != at:
                    at, moved = c, now
                self.cancelled = bool(stop and stop.is_set())
                self.timedout = now - begin > timeout or now - moved > self.job.get("stall", 30)
                if self.cancelled or self.timedout:
                    try:
                        os.killpg(p.pid, signal.SIGKILL)
                    except ProcessLookupError:
                        pass
                    so, se = p.communicate()
                    break
        self.rc = p.returncode
        self.out = so.decode("utf-8", "replace")
        self.err = se.decode("utf-8", "replace")
        self.at = self.case_now()
        return self


def sanitizer_key(err, rc):
    m = re.search(r"ERROR: AddressSanitizer: ([\w-]+)", err)
    if m:
        return "sanitizer.asan." + m.group(1)
    m = re.search(r"runtime error: (.*)", err)
    if m:
        return "sanitizer.ubsan." + re.sub(r"[^a-z]+", "-", re.sub(r"0x[0-9a-f]+|'[^']*'", "", m.group(1).lower()))[:60].strip("-")
    m = re.search(r"WARNING: MemorySanitizer: ([\w-]+)", err)
    if m:
        return "sanitizer.msan." + m.group(1)
    m = re.search(r"(?:WARNING|ERROR): ThreadSanitizer: ([\w -]+)", err)
    if m:
        return "sanitizer.tsan." + m.group(1).strip().split(" (")[0].replace(" ", "-")
    m = re.search(r"==\d+== (Invalid \w+|Conditional jump|Use of uninit|Mismatched free|Syscall param|Source and dest)", err)
    if m:
        return "sanitizer.valgrind." + m.group(1).lower().replace(" ", "-")
    if "terminate called" in err or "libc++abi: terminating" in err:
        return "crash.terminate"
    if "heap_leak" in err:
        return "leak"
    if rc < 0:
        return "crash.signal%d" % -rc
    return "crash.exit%d" % rc


class Result:
    def __init__(self):
        self.lock = threading.Lock()
        self.stats = {}
        self.samples = []
        self.violations = []     # (key, msg, job, case, seed, detail)
        self.known = []
        self.foreign = {}
        self.inconclusive = []
        self.hfiles = []
        self.jobstats = {}

    def absorb(self, pr):
        jn = pr.job["build"] + ":" + pr.job["profile"]
        vs, ks = [], []
        for line in pr.out.splitlines():
            if line.startswith("@S "):
                try:
                    _, n, v = line.split(" ", 2)
                    v = int(v)
                except ValueError:
                    continue
                with self.lock:
                    self.stats[n] = self.stats.get(n, 0) + v
                    d = self.jobstats.setdefault(jn, {})
                    d[n] = d.get(n, 0) + v
            elif line.startswith("@M "):
                with self.lock:
                    if sum(1 for s in self.samples if s[0] == jn) < 1:
                        self.samples.append((jn, line[3:]))
            elif line.startswith("@V "):
                vs.append(line[3:].split("\t", 1))
            elif line.startswith("@K "):
                ks.append(line[3:].split("\t", 1))
        if os.path.exists(pr.hashes):
            with self.lock:
                self.hfiles.append("%s.%d" % (pr.hashes, len(self.hfiles)))
                os.rename(pr.hashes, self.hfiles[-1])
        return vs, ks

    def distinct(self, bdir):
        exe = os.path.join(bdir, "hashcount")
        rc, _ = run_compile(["g++", "-O1", "-std=c++17", "hashcount.cpp", "-o", exe])
        if rc == 0:
            return int(subprocess.run([exe] + self.hfiles, stdout=subprocess.PIPE, text=True).stdout or 0)
        return 0


def accepted(key, accept):
    if key.startswith("harness"):
        return False
    if accept == "*" or key.startswith(("crash.", "memory.", "progress.", "hang")):
        return True
    if key.startswith("sanitizer."):
        return "data-race" not in key or any(a == "race" for a in accept)
    return any(key == a or key.startswith(a) for a in accept)


def run_shard(job, exe, seed, frm, step, cases, tag, bdir, res, stop):
    done = 0
    restarts = 0
    tmo = job.get("timeout", 400)
    while done < cases and not stop.is_set():
        pr = Proc(job, exe, seed, frm + done * step, step, cases - done, tag, bdir).run(tmo, stop)
        vs, ks = res.absorb(pr)
        for k in ks:
            with res.lock:
                res.known.append((k[0], k[1] if len(k) > 1 else ""))
        if pr.rc == 0 and not pr.timedout:
            if vs:
                handle(vs, pr, job, accept=job["accept"], res=res, stop=stop)
            return
        if pr.cancelled:
            return
        case = pr.at
        at = (case - frm) // step if case >= 0 else done
        if pr.timedout or pr.rc == -signal.SIGKILL:
            # inconclusive by itself (loaded machine, memory): run the case it was at again
            again = None
            if case >= 0:
                again = Proc(job, exe, seed, 0, 1, 1, tag + "r", bdir, only=case).run(60)
            if again and again.timedout:
                if job["build"].startswith(("tsan", "gtsan")):
                    # ThreadSanitizer's own locks starve under many spinning threads; the other builds decide
                    with res.lock:
                        res.inconclusive.append("%s:%s case %d does not finish under ThreadSanitizer" % (job["build"], job["profile"], case))
                        n = len(res.inconclusive)
                    if n > 3:
                        return
                    done = max(at + 1, done + 1)
                    continue
                with res.lock:
                    res.violations.append(("hang", "case %d does not finish (twice, 60 s)" % case, job, case, seed, again.err[-3000:]))
                stop.set()
                return
            if again and again.rc != 0:
                pr = again
                vs, ks = res.absorb(again)
            else:
                with res.lock:
                    res.inconclusive.append("%s:%s shard stopped at case %d (%s)" % (job["build"], job["profile"], case, "time" if pr.timedout else "killed"))
                    n = len(res.inconclusive)
                if n > 3:
                    return
                done = max(at + 1, done + 1)
                continue
        if pr.rc == 10 and vs:
            handle(vs, pr, job, job["accept"], res, stop)
        elif pr.rc in (3, 13):
            with res.lock:
                res.inconclusive.append("%s:%s harness error: %s" % (job["build"], job["profile"], pr.err[-300:]))
        else:
            key = sanitizer_key(pr.err, pr.rc)
            m = re.search(r"(ERROR: \w+Sanitizer.*|runtime error.*|WARNING: \w+Sanitizer.*|==\d+== (?:Invalid|Cond|Use|Mism).*|terminate called.*)", pr.err)
            msg = (m.group(1) if m else "process ended with %d" % pr.rc)[:400]
            handle([[key, msg]], pr, job, job["accept"], res, stop)
        done = max(at + 1, done + 1)
        restarts += 1
        if restarts > 300 or time.time() - T0 > DEADLINE:
            with res.lock:
                res.inconclusive.append("%s:%s: stopped after %d cases ended early" % (job["build"], job["profile"], restarts))
            return


def handle(vs, pr, job, accept, res, stop):
    for v in vs:
        key, msg = v[0], v[1] if len(v) > 1 else ""
        with res.lock:
            if key in KNOWN:
                res.known.append((key, msg))
            elif accepted(key, accept):
                res.violations.append((key, msg, job, pr.at, pr.seed, pr.err[-4000:]))
                stop.set()
            else:
                f = res.foreign.setdefault(key, [0, msg])
                f[0] += 1


KNOWN = {}


def load_known(pid):
    path = os.path.join(VERIF, "known_findings.txt")
    if not os.path.exists(path):
        return
    for line in open(path):
        m = re.match(r"known: property=(\w+) key=(\S+) (.*)", line)
        if m and m.group(1) == pid:
            KNOWN[m.group(2)] = m.group(3).strip()


def main():
    if len(sys.argv) > 2 and sys.argv[1] == "--replay":
        return replay(sys.argv[2])
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    plan = plans.PLANS[pid]
    load_known(pid)
    bdir = os.path.join(VERIF, "build", "%s-%d" % (pid, os.getpid()))
    os.makedirs(bdir, exist_ok=True)
    os.makedirs(os.path.join(OUT, "replays"), exist_ok=True)
    try:
        return check(pid, plan, tier, seed, bdir)
    finally:
        shutil.rmtree(bdir, ignore_errors=True)


def check(pid, plan, tier, seed, bdir):
    res = Result()
    jobs = [dict(j) for j in plan["jobs"] if j.get(tier, 0)]
    used = []
    for j in jobs:
        if j["build"] not in used:
            used.append(j["build"])
    builds = {n: dict(plans.BUILDS[n], name=n) for n in used}
    log("%s: %d builds, %d jobs, tier %s, seed %d" % (pid, len(builds), len(jobs), tier, seed))
    stop = threading.Event()
    exes, cmds = {}, {}
    failed = []
    only_soft_missing = []
    pool = cf.ThreadPoolExecutor(NPROC)
    futs = {pool.submit(build_one, b, bdir): n for n, b in builds.items()}
    runs = []

    def submit_jobs(name):
        for ji, j in enumerate(jobs):
            if j["build"] != name:
                continue
            cases = j[tier]
            shards = min(j.get("shards", NPROC), max(1, cases))
            jseed = (seed * 7919 + ji * 104729 + 17) if not j.get("fixed_seed") else seed
            for s in range(shards):
                n = (cases - s + shards - 1) // shards
                if n > 0:
                    runs.append(pool.submit(run_shard, j, exes[name], jseed, s, shards, n, "%d-%d" % (ji, s), bdir, res, stop))

    for f in cf.as_completed(futs):
        n = futs[f]
        ok, exe, msg = f.result()
        if ok:
            exes[n], cmds[n] = exe, msg
            if n in FENCES and not builds[n].get("two_step"):
                log("%s: the code uses fences, which ThreadSanitizer does not understand: not run" % n)
            else:
                submit_jobs(n)
        elif builds[n].get("soft"):
            only_soft_missing.append(n)
            log("soft build %s failed: %s" % (n, msg[-600:]))
        else:
            failed.append((n, msg))
    log("built")
    for r in runs:
        try:
            r.result()
        except cf.CancelledError:
            pass
    pool.shutdown()
    log("ran")

    for n, msg in failed:
        if not sanity(bdir, builds[n]["cxx"]):
            res.inconclusive.append("compiler %s does not work" % builds[n]["cxx"])
            continue
        m = re.search(r"^.*(?:error|undefined reference|static assertion).*$", msg, re.M)
        fake = {"build": n, "profile": "-", "accept": "*"}
        res.violations.append(("compile", "the workload '%s', an in-contract use of the library, does not compile: %s" % (n, (m.group(0) if m else msg)[:300]), fake, -1, seed, msg[-4000:]))

    # ---- verdict
    rc = 0
    evals = sum(res.stats.get(s, 0) for s in plan.get("evaluations", ["cases"]))
    missing = [r for r in plan.get("require", []) if not res.stats.get(r)]
    if only_soft_missing:
        need = [b for b in plan.get("need_one_of", [])]
        if need and not any(b in exes for b in need):
            missing.append("one of builds " + ",".join(need))
    known_listed = dict(KNOWN)
    shown = set()
    for k, m in res.known:
        if k in shown:
            continue
        if k in known_listed:
            shown.add(k)
            print("KNOWN-FINDING: property=%s %s: %s" % (pid, k, known_listed[k]), flush=True)
        else:
            res.violations.append((k, m, {"build": "-", "profile": "-"}, -1, seed, ""))
    reported = set()
    for key, msg, job, case, s, detail in res.violations:
        if key in reported:
            continue
        reported.add(key)
        path = os.path.join(OUT, "replays", "%s-%s-%d-%d.json" % (pid, re.sub(r"[^\w.]+", "_", key), s, case))
        with open(path, "w") as f:
            json.dump({"property": pid, "key": key, "message": msg, "build": job["build"], "profile": job["profile"], "seed": s, "case": case,
                       "env": job.get("env", {}), "wrap": job.get("wrap", []), "build_cmd": cmds.get(job["build"], ""), "detail": detail}, f, indent=1)
        log("violation %s: %s" % (key, msg[:1500]))
        for line in detail.splitlines()[-40:]:
            print("    | " + line[:200])
        print("VIOLATION property=%s replay=%s" % (pid, path), flush=True)
        rc = 1
    for k, (n, m) in res.foreign.items():
        log("not this property's oracle, case skipped: %s x%d: %s" % (k, n, m[:300]))
    for m in res.inconclusive:
        log("inconclusive: " + m)
    if rc == 0 and (missing or evals == 0):
        log("no answer: nothing observed for", missing or "evaluations")
        rc = 2

    distinct = res.distinct(bdir)
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": plan["level"],
        "coverage": {
            "evaluations": int(evals),
            "distinct_nontrivial": distinct,
            "rule": plan["rule"],
            "samples": [{"workload": a, "case": b} for a, b in sorted(res.samples)] or ["(none)"],
            "observed": {k: v for k, v in sorted(res.stats.items())},
            "per_workload": {k: v.get("cases", 0) for k, v in sorted(res.jobstats.items())},
            "builds": {k: v for k, v in sorted(cmds.items())},
            "skipped_as_other_property": {k: v[0] for k, v in res.foreign.items()},
            "inconclusive": res.inconclusive,
            "known_findings_seen": sorted(shown),
        },
        "assumptions": plan.get("assumptions", []),
        "wall_s": round(time.time() - T0, 2),
        "violations": len(reported),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(VERIF, "evidence", ".%s.%d" % (pid, os.getpid()))
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(VERIF, "evidence", pid + ".json"))
    log("%s: %s; %d evaluations, %d distinct, %d known" % (pid, {0: "held", 1: "VIOLATED", 2: "no answer"}[rc], evals, distinct, len(shown)))
    return rc


def replay(path):
    r = json.load(open(path))
    bdir = os.path.join(VERIF, "build", "replay-%d" % os.getpid())
    os.makedirs(bdir, exist_ok=True)
    try:
        if r["build"] not in plans.BUILDS:
            print(r["message"])
            return 1
        b = dict(plans.BUILDS[r["build"]], name=r["build"])
        ok, exe, msg = build_one(b, bdir)
        if not ok:
            print(msg)
            return 1
        job = {"build": r["build"], "profile": r["profile"], "env": r.get("env", {}), "wrap": r.get("wrap", []), "accept": "*"}
        pr = Proc(job, exe, r["seed"], 0, 1, 1, "r", bdir, only=r["case"]).run(300)
        sys.stdout.write(pr.out)
        sys.stderr.write(pr.err)
        print("exit", pr.rc)
        return 1 if pr.rc else 0
    finally:
        shutil.rmtree(bdir, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
