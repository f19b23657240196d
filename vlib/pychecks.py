"""Checks of the Python module pyhmac (P01 .. P05)."""
import os, subprocess
from . import vb
from .run import Check

ASSUME = ["libcerror is a stand-in of the machinery (the real one is not in this sandbox)", "hashlib and hmac of the interpreter are right", "CPython 3.12 only"]
NAMES = ["md5", "sha1", "sha224", "sha256", "sha512"]
ASANE = {"PYTHONMALLOC": "malloc", "ASAN_OPTIONS": "abort_on_error=0:exitcode=97:detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=0:handle_segv=1:handle_abort=1",
         "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=97"}
TSANE = {"PYTHONMALLOC": "malloc", "TSAN_OPTIONS": "exitcode=97:halt_on_error=1:history_size=4:ignore_noninstrumented_modules=1:report_signal_unsafe=0"}


def gcclib(name):
    return os.path.realpath(subprocess.run(["gcc", "-print-file-name=" + name], stdout=subprocess.PIPE, text=True).stdout.strip())


class Py:
    def __init__(self, c, builds, wrap=True):
        self.c = c
        self.links = {b: vb.start_pymod(b[0], b[1], wrap) for b in builds}

    def job(self, build, mode, args=(), timeout=None):
        cfg, san = build
        env = {"PYTHONPATH": self.links[build](), "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": str(self.c.seed % 1000), "LC_ALL": "C.UTF-8"}
        if san == "asang":
            env.update(ASANE); env["LD_PRELOAD"] = gcclib("libasan.so")
        elif san == "tsang":
            env.update(TSANE); env["LD_PRELOAD"] = gcclib("libtsan.so")
        elif mode == "memory":
            env.update({"PYTHONMALLOC": "malloc", "GLIBC_TUNABLES": "glibc.malloc.tcache_count=0"})
        elif mode == "lifecycle" or mode == "hostile":
            env["PYTHONMALLOC"] = "debug"
        return self.c.driver("pyhmac %s/%s %s" % (cfg, san, mode), vb.PYTHON, ["-B", "-X", "faulthandler", vb.H("py_driver.py"), mode] + list(args), env=env, timeout=timeout, tag="%s/%s" % build)

    def all(self, jobs, width=None):
        self.c.parallel([lambda j=j: self.job(*j) for j in jobs], width)


def P01():
    c = Check("P01", "exploration", "every size 0..299, larger and random sizes, keys of 0 to several blocks, streams in random pieces over two contexts in step, positional and keyword arguments, subclasses of bytes; against hashlib and hmac; non-trivial: distinct (algorithm, data, key or pieces)", ASSUME)
    q = c.quick
    builds = [("fb", "o2"), ("fb", "asang"), ("evp", "o2"), ("evp", "asang"), ("ossl", "o2"), ("dbg", "o2")] + ([] if q else [("fbr", "o2"), ("evpex", "o2"), ("ossl", "asang"), ("fbr", "asang"), ("mix", "o2"), ("evpold", "asang"), ("dbg", "asang")])
    builds = [b for b in builds if vb.have(b[0])]
    p = Py(c, builds)
    p.all([(b, "values", ["n=%d" % ((2000 if b[1] == "o2" else 700) if q else 40000), "version=" + vb.version(), "calls=%d" % (67000 if b[1] == "o2" or not q else 2000), "alg=" + a]) for b in builds for a in NAMES])
    # more than 4 GiB in one call: the pages are never touched, only read
    large = [("evp", "o2")] + ([] if q else [("fb", "o2"), ("ossl", "o2")])
    p.all([(b, "large", ["n=1", "alg=" + a, "which=" + w]) for b in large for a in NAMES for w in (["cs", "m"] if q else ["c", "s", "m", "k"])])
    return c.finish()


def P02():
    c = Check("P02", "exploration", "about 38 kinds of wrong or hostile object in every place that takes data, about 28 wrong argument shapes, each followed by good calls; monitors: address and undefined-behaviour sanitizers, the interpreter's debug allocator, reference counts, exception objects still alive, blocks left; non-trivial: distinct (call, object)", ASSUME)
    q = c.quick
    builds = [("fb", "asang"), ("evp", "asang"), ("fb", "o2"), ("evp", "o2")] + ([] if q else [("ossl", "asang"), ("evpex", "asang"), ("evpold", "asang"), ("mix", "asang")])
    builds = [b for b in builds if vb.have(b[0])]
    p = Py(c, builds)
    p.all([(b, "hostile", ["n=%d" % (20 if q else 600)]) for b in builds])
    if not c.viol and not c.stats.get("exceptions observed"):
        c.error("no exceptions were observed")
    return c.finish()


def P03():
    c = Check("P03", "exploration", "random histories over a pool of contexts: create, update, finalize, use after it, initialise again, create without initialising, reference cycles, copies, drops in any order, end of the interpreter with live contexts; monitors: sanitizers, a model of every context's content, blocks and provider contexts left after each history, bytes in use of the process over many rounds; non-trivial: distinct histories", ASSUME)
    q = c.quick
    builds = [("fb", "asang"), ("evp", "asang"), ("fb", "o2"), ("evp", "o2"), ("ossl", "o2"), ("dbg", "o2")]
    p = Py(c, builds)
    jobs = [(b, "lifecycle", ["n=%d" % ((6000 if b[1] == "o2" else 2500) if q else 150000)]) for b in builds]
    jobs += [(b, "memory", ["n=%d" % (5000 if q else 100000)]) for b in builds if b[1] == "o2"]
    jobs += [(b, "exit", []) for b in builds]
    jobs += [(b, "refs", ["n=%d" % ((2 if b[1] == "o2" else 1) if q else 60)]) for b in builds]
    p.all(jobs)
    return c.finish()


def P04():
    c = Check("P04", "exploration", "2 to 8 threads feed identical pieces into one context (any order gives the same digest, any lost or torn update another); threads with contexts of their own; all operations at once on one context; switch interval of a microsecond; monitors: digests, ThreadSanitizer, AddressSanitizer; non-trivial: distinct rounds", ASSUME + ["the interpreter itself is not instrumented; ThreadSanitizer reports only accesses of the module and the library"])
    q = c.quick
    builds = [("fb", "o2"), ("evp", "o2"), ("fb", "asang"), ("evp", "asang"), ("ossl", "o2"), ("fbr", "o2")]
    p = Py(c, builds)
    n = {"o2": 60 if q else 2500, "asang": 12 if q else 500}
    jobs = [(b, "threads", ["n=%d" % n[b[1]]]) for b in builds]
    p.all(jobs, width=3)
    t = Py(c, [("fb", "tsang"), ("evp", "tsang")], wrap=False)
    t.all([(b, "threads", ["n=%d" % (6 if q else 300)]) for b in (("fb", "tsang"), ("evp", "tsang"))], width=2)
    return c.finish()


def P05():
    c = Check("P05", "fault_enumeration", "nine scenarios for each algorithm; every allocation and every crypto provider call inside the module, and every object, bytes object and lock the module asks the interpreter for, fails in turn, once or from there on; random histories in which anything may fail at any moment, with a model of every context; an exception with a message has to come, nothing may be left, the next call has to work; non-trivial: distinct (scenario, failure point) really injected", ASSUME)
    q = c.quick
    builds = [("fb", "asang"), ("evp", "asang"), ("ossl", "asang"), ("fb", "o2"), ("evp", "o2")] + ([] if q else [("evpex", "asang"), ("fbr", "asang"), ("ossl", "o2"), ("evpold", "asang"), ("mix", "asang")])
    builds = [b for b in builds if vb.have(b[0])]
    p = Py(c, builds)
    p.all([(b, "faults") for b in builds] + [(b, "faultlife", ["n=%d" % ((1500 if b[1] == "o2" else 800) if q else 40000)]) for b in builds])
    if not c.viol and (not c.stats.get("allocation failures injected") or not c.stats.get("provider failures injected") or not c.stats.get("interpreter failures injected")):
        c.error("no failures were injected")
    return c.finish({"exhaustive": True})


def P06():
    c = Check("P06", "exploration", "loads in three ways (import again, from the file, call of the initialisation) with contexts of earlier loads in use; further interpreters, alone and in threads, that end with contexts alive; the interpreter ended and started again in one process; every request of a load fails in turn; monitors: hashlib as oracle, modules and references of the types counted, blocks and provider contexts left, bytes in use, sanitizers; non-trivial: distinct loads", ASSUME)
    q = c.quick
    builds = [("fb", "asang"), ("evp", "asang"), ("fb", "o2"), ("evp", "o2")] + ([] if q else [("ossl", "o2"), ("dbg", "o2"), ("ossl", "asang")])
    builds = [b for b in builds if vb.have(b[0])]
    p = Py(c, builds)
    emb = vb.start_embed()

    def embed(b):
        env = {"PYTHONDONTWRITEBYTECODE": "1", "LC_ALL": "C.UTF-8"}
        if b[1] == "asang":
            env.update(ASANE); env["LD_PRELOAD"] = gcclib("libasan.so")
        c.driver("pyhmac %s/%s embedded" % b, emb(), ["dir=" + p.links[b](), "n=%d" % ((16 if b[1] == "o2" else 6) if q else 200)], env=env, tag="%s/%s" % b)
    c.parallel([lambda b=b: p.job(b, "imports", ["n=%d" % ((300 if b[1] == "o2" else 150) if q else 5000), "version=" + vb.version()]) for b in builds] + [lambda b=b: embed(b) for b in builds])
    if not c.viol and (not c.stats.get("load failures injected") or not c.stats.get("interpreters ended and started again")):
        c.error("no failures or no restarts were observed")
    return c.finish()


def setup():
    for l in [vb.start_pymod(*b) for b in (("fb", "o2"), ("fb", "asang"), ("evp", "o2"), ("evp", "asang"))]:
        l()
