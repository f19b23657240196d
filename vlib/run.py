"""Runs monitored workloads, turns what the monitors reported into a verdict."""
import hashlib, json, os, re, signal, shutil, subprocess, sys, tempfile, threading, time, traceback
from concurrent.futures import ThreadPoolExecutor
from . import vb

KNOWN = os.path.join(vb.VERIF, "known_findings.txt")
SAN_ENV = {
    "ASAN_OPTIONS": "abort_on_error=0:exitcode=97:detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=1:malloc_context_size=12:handle_segv=1:handle_abort=1",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=97",
    "MSAN_OPTIONS": "exitcode=97:halt_on_error=1:allocator_may_return_null=1",
    "TSAN_OPTIONS": "exitcode=97:halt_on_error=1:second_deadlock_stack=1:history_size=4",
    "LSAN_OPTIONS": "exitcode=97",
}


class HarnessError(Exception):
    pass


class Result:
    def __init__(self):
        self.fails, self.stats, self.samples, self.lines = [], {}, [], []
        self.rc = None; self.out = b""; self.err = b""; self.timed_out = False; self.ended = False; self.case = ""; self.wall = 0


def popen(argv, env=None, timeout=600, cwd=None, stdin=None, case=True, scratch=None, limits=True):
    """Runs a command; returns a Result.  Never raises for what the command does."""
    r = Result()
    e = dict(os.environ); e.update(SAN_ENV)
    for k in ("VH_PLAN", "VH_LOG", "VH_FAIL_AT", "VH_SHORTSEED"):
        e.pop(k, None)
    e.update(env or {})
    d = None
    if case:
        d = tempfile.mkdtemp(prefix="vh-")
        e["VH_CASE"] = d + "/case"
    t0 = time.time()
    with tempfile.TemporaryFile() as fo, tempfile.TemporaryFile() as fe:
        p = subprocess.Popen(argv, env=e, cwd=cwd or "/tmp", stdin=subprocess.DEVNULL if stdin is None else stdin,
                             stdout=fo, stderr=fe, start_new_session=True)
        try:
            r.rc = p.wait(timeout)
        except subprocess.TimeoutExpired:
            r.timed_out = True
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            r.rc = p.wait()
        r.wall = time.time() - t0
        for f, n in ((fo, "out"), (fe, "err")):
            f.seek(0, 2); size = f.tell(); f.seek(0)
            setattr(r, n, f.read(64 << 20) if size <= 64 << 20 else f.read(1 << 20))
    if d:
        try:
            r.case = open(d + "/case", "rb").read().split(b"\0")[0].decode("utf8", "replace")
        except OSError:
            pass
        shutil.rmtree(d, ignore_errors=True)
    return r


def san_summary(err):
    """The kind of a sanitizer report, or None."""
    t = err.decode("utf8", "replace")
    m = re.search(r"SUMMARY: (\w+Sanitizer): ([\w-]+)", t)
    if m:
        f = re.search(r"SUMMARY: \w+Sanitizer: [^\n]*? in (\w+)", t)
        return "%s-%s%s" % (m.group(1), m.group(2), "-in-" + f.group(1) if f else "")
    m = re.search(r"WARNING: ThreadSanitizer: ([\w ]+)", t)
    if m:
        return "ThreadSanitizer-" + m.group(1).strip().replace(" ", "-")
    m = re.search(r"==\d+== (Conditional jump or move depends|Use of uninitialised value|Syscall param|Invalid (?:read|write|free)|Jump to the invalid)[^\n]*((?:\n==\d+== +(?:at|by) [^\n]*)+)", t)
    if m:
        f = re.search(r"(?:at|by) 0x\w+: (\w+) \(\w+\.c:", m.group(2))
        return "memcheck-%s%s" % (m.group(1).replace(" ", "-"), "-in-" + f.group(1) if f else "")
    m = re.search(r"runtime error: ([^\n]*)", t)
    if m:
        return "UndefinedBehavior-" + re.sub(r"[0-9'\"x]+", "", m.group(1))[:50].strip().replace(" ", "-")
    return None


def parse(r):
    for l in r.out.decode("utf8", "replace").splitlines():
        f = l.split("\t")
        if f[0] == "FAIL" and len(f) >= 3:
            r.fails.append((f[1], "\t".join(f[2:])))
        elif f[0] == "STAT" and len(f) == 3:
            try:
                r.stats[f[1]] = r.stats.get(f[1], 0) + int(f[2])
            except ValueError:
                pass
        elif f[0] == "SAMPLE":
            r.samples.append("\t".join(f[1:]))
        elif f[0] == "END":
            r.ended = True
        else:
            r.lines.append(l)
    s = san_summary(r.err)
    if s:
        r.fails.append((s, "sanitizer report; last case: %s" % r.case))
    elif r.timed_out:
        pass
    elif not r.ended and not r.fails:
        if re.search(rb"^(valgrind: |--\d+-- |==\d+== Valgrind)|the 'impossible' happened", r.err, re.M):
            raise HarnessError("valgrind: %s" % r.err[-600:].decode("utf8", "replace"))
        if r.rc == 2:
            raise HarnessError("driver error: %s %s" % (r.err[-600:].decode("utf8", "replace"), r.case))
        what = "signal %d" % -r.rc if r.rc < 0 else "exit %d" % r.rc
        r.fails.append(("crash-" + what.replace(" ", "-"), "ended with %s before finishing; last case: %s; %s" % (what, r.case, r.err[-400:].decode("utf8", "replace"))))
    return r


class Check:
    last = None

    def __init__(self, pid, level, rule, assumptions=()):
        self.id, self.level, self.rule = pid, level, rule
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.quick = self.tier == "quick"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.t0 = time.time()
        Check.last = self
        self.evals = self.distinct = 0
        self.stats, self.samples, self.builds = {}, [], {}
        self.viol = []          # (key, detail, replay dict)
        self.assumptions = list(assumptions)
        self.lock = threading.Lock()
        self.known = load_known(pid)
        self.known_hit = {}
        self.errors = []

    # ---- recording
    def fail(self, key, detail, replay=None):
        with self.lock:
            for k in self.known:
                if k["re"].search(key + " " + detail):
                    self.known_hit[k["text"]] = self.known_hit.get(k["text"], 0) + 1
                    return
            self.viol.append((key, detail, replay or {}))

    def stat(self, k, v=1):
        with self.lock:
            self.stats[k] = self.stats.get(k, 0) + v

    def sample(self, s):
        with self.lock:
            if len(self.samples) < 12:
                self.samples.append(s[:600])

    def count(self, n=1, distinct=0):
        with self.lock:
            self.evals += n
            self.distinct += distinct

    def error(self, s):
        with self.lock:
            self.errors.append(s)

    # ---- running library drivers
    def driver(self, label, exe, args, env=None, timeout=None, keep=False, tag=None):
        timeout = timeout or (200 if self.quick else 3000)
        argv = [exe] + args + ["seed=%d" % self.seed, "tier=" + self.tier]
        r = popen(argv, env, timeout)
        if r.timed_out:
            r2 = popen(argv, env, timeout)
            if r2.timed_out:
                if r.case == r2.case and r.case:
                    self.fail("hang", "%s: twice no end within %d s at: %s" % (label, timeout, r.case), {"argv": argv})
                else:
                    self.error("%s: no end within %d s, twice" % (label, timeout))
                return r2
            r = r2
        parse(r)
        for k, d in r.fails:
            self.fail(k, "[%s] %s" % (label, d), {"argv": argv, "env": env or {}, "stderr": r.err[-6000:].decode("utf8", "replace")})
        with self.lock:
            for k, v in r.stats.items():
                if k == "evaluations":
                    self.evals += v
                elif k == "distinct":
                    self.distinct += v
                elif k == "most calls at once":
                    self.stats[k] = max(v, self.stats.get(k, 0))
                elif k != "fails":
                    self.stats[k] = self.stats.get(k, 0) + v
            b = self.builds.setdefault(tag or label, {"evaluations": 0, "distinct": 0})
            b["evaluations"] += r.stats.get("evaluations", 0)
            b["distinct"] += r.stats.get("distinct", 0)
            for s in r.samples[:2]:
                if len(self.samples) < 12:
                    self.samples.append("[%s] %s" % (label, s[:500]))
        if r.ended and not r.stats.get("evaluations"):
            self.error("%s observed nothing" % label)
        return r

    def fuzz(self, label, exe, secs, env=None, seeds=(), args=(), tag=None):
        """libFuzzer in front of a driver of the machinery for some seconds; what the oracle or a sanitizer stops at is a violation."""
        d = tempfile.mkdtemp(prefix="vh-lf-")
        try:
            os.mkdir(d + "/corpus")
            for i, s in enumerate(seeds):
                with open("%s/corpus/seed%03d" % (d, i), "wb") as f:
                    f.write(s)
            argv = [exe, d + "/corpus", "-seed=%d" % (self.seed + 1), "-max_total_time=%d" % secs, "-use_value_profile=1", "-rss_limit_mb=3000",
                    "-timeout=100", "-artifact_prefix=%s/" % d, "-print_final_stats=1"] + list(args)
            env = dict(env or {}, TMPDIR=d)
            r = popen(argv, env, secs * 4 + 120)
            text = (r.err + r.out).decode("utf8", "replace")
            runs = sum(int(x) for x in re.findall(r"number_of_executed_units: *(\d+)", text))
            bad = sorted(f for f in os.listdir(d) if f.startswith(("crash-", "leak-", "timeout-", "oom-", "slow-unit-")) and not f.startswith("slow-unit-"))
            if r.timed_out or (r.rc == 2 and not bad):
                return self.error("%s: %s: %s" % (label, "libFuzzer did not end" if r.timed_out else "driver error", text[-600:]))
            if r.rc != 0 or bad:
                m = re.search(r"^FAIL\t(\S+)\t(.*)$", text, re.M)
                s = san_summary(r.err)
                if s and re.search("deadly-signal|fuzz-target|out-of-memory|timeout", s):
                    s = None
                data = open(os.path.join(d, bad[0]), "rb").read() if bad else b""
                if not m and not s and bad and bad[0].startswith(("timeout-", "oom-")):
                    # a busy machine is not the code's fault: it has to happen again
                    r2 = popen([exe, "-rss_limit_mb=3000", "-timeout=100", os.path.join(d, bad[0])], env, 200)
                    if r2.rc == 0:
                        return self.error("%s: %s once, not again" % (label, bad[0].split("-")[0]))
                if not m and not s and not bad:
                    return self.error("%s: libFuzzer ended with %d: %s" % (label, r.rc, text[-600:]))
                return self.fail(m.group(1) if m else s or "guided-" + bad[0].split("-")[0], "[%s] %s; input %s" % (label, m.group(2) if m else text[-500:], data[:300].hex()),
                                 {"argv": argv, "env": env, "stderr": text[-6000:], "input": data.hex()})
            cov = re.findall(r"cov: (\d+)", text)
            with self.lock:
                self.evals += runs
                b = self.builds.setdefault(tag or label, {"evaluations": 0, "distinct": 0})
                b["evaluations"] += runs
                self.stats["inputs from libFuzzer"] = self.stats.get("inputs from libFuzzer", 0) + runs
                self.stats["code edges libFuzzer covered, most"] = max(self.stats.get("code edges libFuzzer covered, most", 0), int(cov[-1]) if cov else 0)
            if not runs:
                self.error("%s: libFuzzer gave no inputs" % label)
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def parallel(self, jobs, width=None):
        """jobs: callables; harness errors and build errors are collected."""
        def one(j):
            if self.viol:
                return None     # the verdict stands
            try:
                return j()
            except (HarnessError, vb.BuildError) as e:
                self.error(str(e))
            except Exception:
                self.error(traceback.format_exc())
        with ThreadPoolExecutor(width or vb.NPROC) as ex:
            return list(ex.map(one, jobs))

    # ---- verdict
    def finish(self, extra=None):
        os.makedirs(vb.VERIF + "/evidence", exist_ok=True)
        os.makedirs(vb.VERIF + "/replays", exist_ok=True)
        seen, printed = set(), []
        for key, detail, rep in self.viol:
            if key in seen:
                continue
            seen.add(key)
            rp = "replays/%s-%s.json" % (self.id, hashlib.sha256(key.encode()).hexdigest()[:10])
            with open(os.path.join(vb.VERIF, rp), "w") as f:
                json.dump({"property": self.id, "key": key, "detail": detail, "seed": self.seed, "tier": self.tier, "how": rep,
                           "rerun": "VERIF_SEED=%d VERIF_TIER=%s python3 check.py %s" % (self.seed, self.tier, self.id)}, f, indent=1, default=str)
            printed.append((key, detail, rp))
        cov = {"evaluations": self.evals, "distinct_nontrivial": self.distinct, "rule": self.rule, "samples": self.samples,
               "observed": self.stats, "per_build": self.builds}
        if extra:
            cov.update(extra)
        ev = {"property": self.id, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(printed)}
        tmp = os.path.join(vb.VERIF, "evidence", ".%s.%d" % (self.id, os.getpid()))
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1, default=str)
        os.replace(tmp, os.path.join(vb.VERIF, "evidence", self.id + ".json"))
        for t, n in self.known_hit.items():
            print("KNOWN-FINDING: property=%s %s" % (self.id, t))
        for key, detail, rp in printed[:20]:
            print("VIOLATION property=%s replay=%s" % (self.id, rp))
            print("  %s: %s" % (key, detail[:1500]))
        for e in self.errors[:5]:
            print("CHECK-ERROR %s: %s" % (self.id, e[-3000:]), file=sys.stderr)
        print("%s %s seed=%d: %d evaluations, %d distinct, %d violation kinds, %.1f s" %
              (self.id, self.tier, self.seed, self.evals, self.distinct, len(printed), time.time() - self.t0))
        if printed:
            return 1
        if self.errors:
            return 2
        if self.evals == 0 or self.distinct == 0:
            print("CHECK-ERROR %s: nothing was observed" % self.id, file=sys.stderr)
            return 2
        return 0


def load_known(pid):
    """Lines 'KNOWN-FINDING: property=<id> match=/<regexp>/ <what fails>'."""
    res = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r"KNOWN-FINDING: property=(\w+) match=/(.*?)/ (.*)", l.strip())
            if m and m.group(1) == pid:
                res.append({"re": re.compile(m.group(2)), "text": m.group(3)})
    return res
