"""Checks of the library (C01 .. C15)."""
import hashlib, hmac, os, random, tempfile, shutil
from . import vb
from .run import Check, popen, parse, HarnessError

SRC = ["d_digest.c", "d_api.c", "d_threads.c"]
NAMES = ["md5", "sha1", "sha224", "sha256", "sha512"]
ASSUME = ["libcerror and the other libyal libraries are stand-ins of the machinery (the real ones are not in this sandbox)",
          "the OpenSSL of this sandbox computes its digests correctly"]


def drv(cfg, san, wrap=True):
    return vb.start_driver("vh_common.c", cfg, san, wrap, SRC)


def start(pairs, wrap=True):
    """[(cfg, san)] -> {(cfg, san): link function}; everything compiles in parallel."""
    return {p: drv(p[0], p[1], wrap) for p in pairs}


def selfcheck(c, exe):
    """The reference against hashlib and hmac."""
    r = popen([exe, "ref"], timeout=120)
    d = bytes((n * 31 + (n >> 8) * 7 + 3) & 0xff for n in range(3000))
    n = 0
    for l in r.out.decode().splitlines():
        f = l.split("\t")
        if f[0] == "R":
            if hashlib.new(f[1], d[:int(f[2])]).hexdigest() != f[3]:
                raise HarnessError("reference %s of %s bytes is wrong" % (f[1], f[2]))
            n += 1
        elif f[0] == "M":
            k = int(f[2])
            if hmac.new(d[:k], d[k // 3:k // 3 + k // 2], f[1]).hexdigest() != f[3]:
                raise HarnessError("reference HMAC %s key %s is wrong" % (f[1], f[2]))
            n += 1
    if n < 1000:
        raise HarnessError("reference self-check saw %d values" % n)
    c.stat("reference values compared with hashlib and hmac", n)


def run_matrix(c, plan, wrap=True, ref=True):
    """plan: [(cfg, san, mode args, tag)]."""
    links = start(sorted({(p[0], p[1]) for p in plan}), wrap)
    first = plan[0]

    def job(p):
        exe = links[(p[0], p[1])]()
        return c.driver("%s/%s %s" % (p[0], p[1], " ".join(p[2])), exe, list(p[2]), env=p[3] if len(p) > 3 else None, tag="%s/%s" % (p[0], p[1]))
    jobs = [(lambda p=p: job(p)) for p in plan]
    if ref:
        jobs.insert(0, lambda: selfcheck(c, links[(first[0], first[1])]()))
    return c.parallel(jobs)


SEEDS = {"oneshot": [bytes([0, 0, 1]) + bytes(range(97, 97 + 26)) * 5, bytes(3), bytes([1, 1, 1]) + b"a" * 55, bytes([4, 0, 1]) + b"b" * 112],
         "stream": [bytes([0, 3, 10, 54, 1]) + b"a" * 150, bytes([4, 2, 127, 2]) + b"b" * 260],
         "hmac": [bytes([0, 20]) + b"k" * 20 + b"message" * 9, bytes([3, 131]) + b"k" * 131 + b"m" * 70, bytes([4, 64]) + b"x" * 200],
         "history": [bytes(range(200)), bytes(600), bytes((i * 37 + 11) & 255 for i in range(900))]}


def guided(c, kinds, cfgs, algs=True, secs=5):
    """Coverage guided inputs for the oracles of the drivers: reaches what hangs on particular contents."""
    secs = secs if c.quick else secs * 30
    jobs = []
    for kind in kinds:
        for i, cfg in enumerate(cfgs):
            if algs and i == 0:
                jobs += [(kind, cfg, "fuzzo", a, n) for a in NAMES for n in (130, 320)]
            else:
                jobs.append((kind, cfg, "fuzz", None, 2000 if kind == "history" else 700))
    links = {k: vb.start_guided(k[0], san=k[1]) for k in {j[1:3] for j in jobs}}
    c.parallel([lambda i=i, j=j: c.fuzz("%s/%s %s %s" % (j[1], j[2], j[0], j[3] or "all"), links[j[1:3]](), secs, {"VH_GUIDE": j[0], "VH_ALG": j[3] or ""}, SEEDS[j[0]],
                                        ["-max_len=%d" % j[4], "-seed=%d" % (c.seed * 100 + i + 1)], tag="%s/%s" % j[1:3]) for i, j in enumerate(jobs)])


ALL = ["fb", "fbr", "ossl", "evp", "evpex", "evpold", "mix"]


def C01():
    c = Check("C01", "exploration", "messages of every size 0..1100 with 5 contents, all single-bit messages, random ones around block and padding edges, powers of two, 5 MiB; non-trivial: distinct (algorithm, message) in a build, compared with an independent reference", ASSUME)
    plan = []
    q = c.quick
    for a in NAMES:
        for cfg in ALL:
            plan.append((cfg, "o2", ["oneshot", "alg=" + a, "rand=%d" % (8000 if q else 60000)]))
        plan.append(("fb", "asan", ["oneshot", "alg=" + a, "heavy=0", "rand=%d" % (800 if q else 20000), "all=%d" % (400 if q else 1500)]))
        plan.append(("fbr", "asan", ["oneshot", "alg=" + a, "heavy=0", "rand=%d" % (800 if q else 20000), "all=%d" % (300 if q else 1500)]))
        plan.append(("fb", "msan", ["oneshot", "alg=" + a, "heavy=0", "rand=500", "all=300"]))
        plan.append(("fb", "o3", ["oneshot", "alg=" + a, "heavy=0", "rand=%d" % (1000 if q else 40000), "all=300"]))
        if not q:
            for cfg in ("fb", "fbr"):
                for san in ("o0", "o2clang", "asang"):
                    plan.append((cfg, san, ["oneshot", "alg=" + a, "rand=20000", "all=2300"]))
            plan.append(("fbr", "o3", ["oneshot", "alg=" + a, "rand=20000", "all=2300"]))
    run_matrix(c, plan)
    guided(c, ["oneshot"], ["fb", "fbr", "evp", "ossl"])
    return c.finish()


def C02():
    c = Check("C02", "exploration", "every two-way split of up to two blocks + 10 bytes, edge three-way splits, byte by byte, constant and random chunks incl. empty ones, long streams; non-trivial: distinct (algorithm, chunk sizes, data prefix)", ASSUME)
    plan = []
    q = c.quick
    for a in NAMES:
        parts = 2 if a == "sha512" else 1
        for p in range(parts):
            sp = ["part=%d" % p, "parts=%d" % parts]
            for cfg in ALL:
                plan.append((cfg, "o2", ["stream", "alg=" + a, "rand=%d" % (8000 if q else 80000)] + sp))
            plan.append(("fb", "asan", ["stream", "alg=" + a, "rand=%d" % (800 if q else 30000)] + sp))
            if not q:
                plan.append(("fbr", "asan", ["stream", "alg=" + a, "rand=30000"] + sp))
                plan.append(("fb", "msan", ["stream", "alg=" + a, "rand=10000"] + sp))
                plan.append(("fb", "o3", ["stream", "alg=" + a, "rand=80000"] + sp))
                plan.append(("evp", "asan", ["stream", "alg=" + a, "rand=10000"] + sp))
        if q:
            plan.append(("fb", "msan", ["stream", "alg=" + a, "rand=500", "exhaustive=0"]))
    run_matrix(c, plan)
    guided(c, ["stream"], ["fb", "fbr", "evp", "ossl"])
    return c.finish()


def C03():
    c = Check("C03", "exploration", "every key size 0..3 blocks x 16 message sizes, every message size 0..4 blocks x 5 key sizes, random pairs, large keys and messages; non-trivial: distinct (algorithm, key, message)", ASSUME)
    q = c.quick
    plan = []
    for a in NAMES:
        for cfg in ALL:
            plan.append((cfg, "o2", ["hmac", "alg=" + a, "rand=%d" % (10000 if q else 80000)]))
        plan.append(("fb", "asan", ["hmac", "alg=" + a, "rand=%d" % (600 if q else 20000)]))
        plan.append(("evp", "asan", ["hmac", "alg=" + a, "rand=%d" % (600 if q else 20000)]))
        plan.append(("fb", "msan", ["hmac", "alg=" + a, "rand=%d" % (300 if q else 20000)]))
        if not q:
            plan.append(("fbr", "asan", ["hmac", "alg=" + a, "rand=20000"]))
            plan.append(("ossl", "asan", ["hmac", "alg=" + a, "rand=20000"]))
            plan.append(("fb", "o3", ["hmac", "alg=" + a, "rand=80000"]))
            plan.append(("fb", "o0", ["hmac", "alg=" + a, "rand=20000"]))
    run_matrix(c, plan)
    guided(c, ["hmac"], ["fb", "fbr", "evp", "ossl"])
    return c.finish()


def C04():
    c = Check("C04", "exploration", "messages beyond 2^32 bits and 2^32 bytes (thorough: 2^33 and 2^34 bytes), in one update, in chunks, byte by byte across each power-of-two border, one-shot, keyed, as key; compared with hashlib; non-trivial: distinct (algorithm, shape, total)", ASSUME + ["hashlib (OpenSSL) is right on large inputs"])
    q = c.quick
    links = start([(x, "o3") for x in ALL])
    d = tempfile.mkdtemp(prefix="vh-large-")
    block = hashlib.shake_128(b"large %d" % c.seed).digest(1 << 20)
    open(d + "/block", "wb").write(block)
    G = 1 << 32
    tot = {"bits": (1 << 29) + 1003 + c.seed % 64, "sign": (1 << 31) + 77, "bytes": G + 12345 + c.seed % 128}
    plan = []
    for a in NAMES:
        plan += [("fb", a, "one", tot["bytes"]), ("fb", a, "border", tot["bytes"]), ("fb", a, "calc", tot["bits"]), ("fb", a, "hmac", tot["bits"]),
                 ("fbr", a, "chunks", tot["bits"]),
                 ("evp", a, "one", tot["bytes"]), ("evp", a, "calc", tot["bytes"]), ("evp", a, "hmac", tot["bytes"]),
                 ("ossl", a, "one", tot["bytes"]), ("ossl", a, "calc", tot["bytes"]), ("ossl", a, "hmac", tot["bytes"]), ("evpex", a, "chunks", tot["bits"])]
        if a in ("md5", "sha1"):
            plan += [("fb", a, "hmac", tot["bytes"])]
        else:
            plan += [("fb", a, "hkey", tot["bits"])]
        # sizes with the upper bits of each half of the bit count set, and sizes in between
        rg = random.Random("C04 %d %s" % (c.seed, a))
        M = 1 << 20
        plan += [("fb", a, "one", (256 + rg.randrange(256)) * M + rg.randrange(M)), ("fb", a, "chunks", (768 + rg.randrange(256)) * M + rg.randrange(M)), ("fbr", a, "calc", (256 + rg.randrange(256)) * M + rg.randrange(M))]
        plan += [("fb", a, rg.choice(["one", "calc", "chunks", "hmac", "hkey"]), int(2 ** rg.uniform(21, 28))) for _ in range(8 if q else 60)]
        plan += [(x, a, rg.choice(["one", "calc", "hmac", "hkey"]), (1 << 31) + rg.randrange(1 << 30)) for x in ("evp", "ossl")]
        if not q:
            plan += [(rg.choice(["fb", "fbr"]), a, rg.choice(["one", "calc", "chunks", "hmac", "hkey"]), rg.randrange(1 << 29, 1 << 32)) for _ in range(6)]
            plan += [("fbr", a, s, t) for s in ("one", "border", "calc", "hmac", "hkey", "chunks") for t in (tot["bytes"],)]
            plan += [("fb", a, s, t) for s in ("one", "border", "calc", "hmac", "hkey", "chunks") for t in (tot["sign"], tot["bytes"], 2 * G + 5)]
            plan += [("fb", a, "one", 4 * G + 3)]
            plan += [(x, a, s, t) for x in ("evp", "evpex", "ossl", "mix", "evpold") for s in ("one", "border", "calc", "hmac", "hkey", "chunks") for t in (tot["sign"], tot["bytes"], 2 * G + 5)]
    plan = sorted(set(plan), key=lambda p: (-p[3], p[0] not in ("fb", "fbr"), p))
    want, got = {}, {}

    def oracle(a, shape, total):
        kind = shape if shape in ("hmac", "hkey") else "digest"
        h = hashlib.new(a, b"")
        size = h.block_size
        if kind == "hmac":
            k = b"\x4b" * 40
            h.update(bytes(x ^ 0x36 for x in k.ljust(size, b"\0")))
        n = total
        big = block * 64
        while n >= len(big):
            h.update(big); n -= len(big)
        h.update((big * 1)[:n])
        if kind == "digest":
            r = h.hexdigest()
        elif kind == "hmac":
            r = hashlib.new(a, bytes(x ^ 0x5c for x in k.ljust(size, b"\0")) + h.digest()).hexdigest()
        else:
            r = hmac.new(h.digest(), b"\x4b" * 40, a).hexdigest()
        want[(a, kind, total)] = r

    def job(p):
        cfg, a, shape, total = p
        r = c.driver("%s/o3 %s %s %d" % p, links[(cfg, "o3")](), ["large", "alg=" + a, "shape=" + shape, "total=%d" % total, "path=" + d + "/block", "stuck=200"], tag=cfg + "/o3", timeout=600 if q else 3000)
        for l in r.lines:
            f = l.split("\t")
            if f[0] == "DIGEST":
                got[p] = f[4]
    try:
        kinds = sorted({(p[1], p[2] if p[2] in ("hmac", "hkey") else "digest", p[3]) for p in plan}, key=lambda x: -x[2])
        c.parallel([lambda p=p: job(p) for p in plan] + [lambda k=k: oracle(*k) for k in kinds])
    finally:
        shutil.rmtree(d, ignore_errors=True)
    for p in plan:
        if p not in got:
            if not c.viol and not c.errors:
                c.error("no digest from %s" % (p,))
            continue
        cfg, a, shape, total = p
        w = want.get((a, shape if shape in ("hmac", "hkey") else "digest", total))
        if w is None and c.viol:
            continue
        if got[p] != w:
            c.fail("large-wrong-%s" % shape, "[%s] %s %s of %d bytes gave %s, hashlib gives %s" % (cfg, a, shape, total, got[p], w), {"plan": p})
        c.stat("bytes processed", total)
    c.sample("%s %s over %d bytes in build %s = %s" % (plan[0][1], plan[0][2], plan[0][3], plan[0][0], got.get(plan[0])))
    return c.finish()


def seqplan(c, mode, quickn, thoroughn, sans, extra=()):
    plan = []
    n = quickn if c.quick else thoroughn
    for cfg, san, share in sans:
        k = max(1, int(n * share))
        pieces = 1 if c.quick else 8
        for i in range(pieces):
            plan.append((cfg, san, [mode, "n=%d" % max(1, k // pieces), "from=%d" % (i * (k // pieces))] + list(extra)))
    return plan


def C05():
    c = Check("C05", "exploration", "random histories of valid and invalid calls over six contexts, arguments in guarded buffers (page guards, red zones, exact heap blocks), use after finalize included; monitors: address, undefined-behaviour and memory sanitizers, page guards, canaries, input comparison; plus the digest workloads under the sanitizers; non-trivial: distinct digests produced", ASSUME)
    q = c.quick
    sans = [(x, "asan", 1) for x in ALL] + [("fb", "msan", 1), ("fbr", "msan", 1)] + [(x, "o2", 1) for x in ("fb", "evp", "ossl")] + [("fb", "asang", 1), ("evp", "asang", .5)]
    plan = seqplan(c, "seq", 9000, 200000, sans, ["judge=mem"])
    for a in NAMES:
        plan.append(("fbr", "asan", ["stream", "alg=" + a, "rand=%d" % (300 if q else 10000), "exhaustive=%d" % (0 if q else 1)]))
        plan.append(("fb", "asan", ["oneshot", "alg=" + a, "rand=200", "all=300", "heavy=%d" % (0 if q else 1)]))
        plan.append(("ossl", "asan", ["hmac", "alg=" + a, "rand=200"]))
    links = start(sorted({(p[0], p[1]) for p in plan}))
    MEM = ("writes-outside", "input-changed", "Sanitizer", "UndefinedBehavior", "crash-", "hang")

    def job(p):
        sub = Check.__new__(Check)
        exe = links[(p[0], p[1])]()
        if p[2][0] == "seq":
            return c.driver("%s/%s %s" % (p[0], p[1], " ".join(p[2])), exe, list(p[2]), tag="%s/%s" % (p[0], p[1]))
        # the digest workloads here only serve the sanitizers: their values are judged by C01 to C03
        r = popen([exe] + p[2] + ["seed=%d" % c.seed, "tier=" + c.tier], timeout=280 if q else 3000)
        if r.timed_out:
            return c.error("%s/%s %s: no end in time" % (p[0], p[1], p[2]))
        parse(r)
        for k, dt in r.fails:
            if any(m in k for m in MEM):
                c.fail(k, "[%s/%s %s] %s" % (p[0], p[1], " ".join(p[2]), dt), {"argv": [exe] + p[2], "stderr": r.err[-6000:].decode("utf8", "replace")})
        c.count(r.stats.get("evaluations", 0), r.stats.get("distinct", 0))
    c.parallel([lambda p=p: job(p) for p in plan])
    guided(c, ["history"], ["fb", "evp", "fbr", "ossl"], algs=False)
    return c.finish()


def C06():
    c = Check("C06", "exploration", "every kind of invalid call (no context, no buffer, no result, every too small and several too large sizes, initialise over a live context) at 24 positions of a stream with three continuations, runs of invalid calls, one-shot and keyed ones; each followed by a comparison with a context that never saw it; random histories; non-trivial: distinct (algorithm, interface, kind, position, continuation)", ASSUME)
    q = c.quick
    plan = []
    for a in NAMES:
        for cfg in ALL:
            plan.append((cfg, "o2", ["invalid", "alg=" + a]))
        for cfg in ("fb", "evp") if q else ALL:
            plan.append((cfg, "asan", ["invalid", "alg=" + a]))
    plan += seqplan(c, "seq", 20000, 300000, [(x, "o2", 1) for x in ALL] + [("fb", "asan", .3), ("evp", "asan", .3)], ["judge=rc"])
    run_matrix(c, plan)
    return c.finish()


def C07():
    c = Check("C07", "exploration", "random interleavings of six contexts in one thread, and 8 threads with own contexts, shared read-only input and contexts handed from thread to thread, released together by a barrier, and many fresh processes whose first calls are simultaneous; monitors: ThreadSanitizer (clang and gcc), every digest against the reference; non-trivial: distinct digests (interleavings) and distinct thread rounds", ASSUME + ["OpenSSL is not instrumented, ThreadSanitizer sees its synchronisation only through pthread calls"])
    q = c.quick
    plan = seqplan(c, "seq", 10000, 200000, [(x, "o2", 1) for x in ALL] + [("fb", "asan", .3)], ["judge=inter"])
    plan += [(x, "o2", ["crowd"] + ([] if q else ["n=20000", "calls=300000", "ops=400000"])) for x in ALL]
    plan += [("fb", "asan", ["crowd", "calls=300"])]
    run_matrix(c, plan)
    thr = []
    rounds = 80 if q else 3000
    for cfg in ALL:
        thr.append((cfg, "tsan", ["threads", "rounds=%d" % rounds, "stuck=400"]))
        thr.append((cfg, "o2", ["threads", "rounds=%d" % (rounds * 8), "stuck=400"]))
    thr.append(("fb", "tsang", ["threads", "rounds=%d" % rounds, "stuck=400"]))
    thr.append(("fbr", "tsang", ["threads", "rounds=%d" % rounds, "stuck=400"]))
    links = start(sorted({(p[0], p[1]) for p in thr}), wrap=False)
    c.parallel([lambda p=p: c.driver("%s/%s threads" % (p[0], p[1]), links[(p[0], p[1])](), p[2], tag="%s/%s threads" % (p[0], p[1])) for p in thr], width=2)
    # what is prepared at the first use happens once in a process: many processes
    fresh = [(cfg, san, ["threads", "rounds=1", "first=1", "seed=%d" % (c.seed * 1000 + i), "stuck=400"]) for i in range(24 if q else 400) for cfg, san in ((x, "tsan") for x in ALL)]
    fresh += [(cfg, "o2", ["threads", "rounds=1", "first=1", "seed=%d" % (c.seed * 1000 + i), "stuck=400"]) for i in range(60 if q else 2000) for cfg in ALL]
    c.parallel([lambda p=p: c.driver("%s/%s threads" % (p[0], p[1]), links[(p[0], p[1])](), p[2], tag="%s/%s first use" % (p[0], p[1])) for p in fresh], width=4)
    c.stat("fresh processes", len(fresh))
    return c.finish()


def C08():
    c = Check("C08", "fault_enumeration", "six scenarios (one-shot, HMAC with short and long key, both interfaces, going on after a failure) x five sizes; every allocation and every crypto provider call fails in turn, once or from there on, until none is left; random histories on five contexts with failures at random points; non-trivial: distinct (scenario, failure point) and histories at which a failure was really injected", ASSUME)
    plan = [(cfg, san, ["fault", "alg=" + a]) for a in NAMES for cfg in ALL for san in ("asan", "o2")]
    if not c.quick:
        plan += [(cfg, san, ["fault", "alg=" + a]) for a in NAMES for cfg in ALL for san in ("asang", "o0")]
        plan += [("fb", "msan", ["fault", "alg=" + a]) for a in NAMES]
    plan += seqplan(c, "faultseq", 16000, 300000, [(x, "asan", 1) for x in ALL] + [(x, "o2", 2) for x in ALL] + [("fb", "msan", .5)])
    run_matrix(c, plan)
    if not c.stats.get("allocation failures injected") or not c.stats.get("provider failures injected"):
        c.error("no failures were injected")
    return c.finish({"exhaustive": True, "bounds": "every single failure point of the six scenarios, once and persistent; histories sampled"})


def C09():
    c = Check("C09", "exploration", "random histories (valid, invalid, abandoned, finalized or not, both interfaces); after each one, every tracked block, provider context and error object has to be gone; LeakSanitizer at exit; non-trivial: distinct digests produced", ASSUME)
    sans = [(x, "o2", 1) for x in ALL]
    plan = seqplan(c, "leak", 25000, 400000, sans)
    plan += [p + ({"ASAN_OPTIONS": "abort_on_error=0:exitcode=97:detect_leaks=1:allocator_may_return_null=1"},) for p in seqplan(c, "leak", 8000, 120000, [(x, "asan", 1) for x in ALL])]
    run_matrix(c, plan, ref=False)
    return c.finish()


def C10():
    c = Check("C10", "exploration", "HMACs with keys of 8..400 random bytes (successful, rejected, and with every allocation and provider call failing), finalized contexts and one-shot digests; every heap block is scanned at its release for 7-byte windows of the key, the hashed key, the pads and the message; non-trivial: distinct (algorithm, key)", ASSUME + ["stack memory and registers are not scanned", "blocks of the crypto provider itself are not scanned"])
    n = 3000 if c.quick else 20000
    plan = [(cfg, san, ["secret", "alg=" + a, "n=%d" % n]) for a in NAMES for cfg in ALL for san in (("o2", "o2clang", "o0", "lto", "ltoclang") if c.quick else ("o2", "o2clang", "o0", "o3", "lto", "ltoclang"))]
    run_matrix(c, plan, ref=False)
    if not c.stats.get("released blocks scanned"):
        c.error("no released block was seen")
    return c.finish()


def C11():
    c = Check("C11", "exploration", "random histories run in step on the context interface and on the deprecated one (partly mixed), valid and invalid calls; compared: return values, whether an error was set, pointers, result buffers, blocks left; non-trivial: distinct digests", ASSUME)
    q = c.quick
    plan = [(cfg, "o2", ["legacy", "alg=" + a, "n=%d" % (30000 if q else 300000)]) for a in NAMES for cfg in ALL]
    plan += [(cfg, "asan", ["legacy", "alg=" + a, "n=%d" % (8000 if q else 60000)]) for a in NAMES for cfg in (("fb", "evp") if q else ALL)]
    run_matrix(c, plan, ref=False)
    return c.finish()


def C12():
    c = Check("C12", "exploration", "the same random histories of legal and invalid calls in every build; return values and digests of each history have to be identical in all builds; versions and constants against the sources; non-trivial: distinct histories whose traces were compared", ASSUME)
    n = 16000 if c.quick else 200000
    builds = [(x, "o2") for x in ALL] + [("fb", "o0"), ("fb", "o3"), ("fbr", "o3"), ("fb", "asan"), ("evp", "o2clang"), ("dbg", "o2"), ("dbg", "asan"), ("local", "o2"), ("local", "asan"), ("fb", "lto"), ("fbr", "ltoclang"), ("fb", "uchar")]
    links = start(builds)
    traces, idents = {}, {}

    def job(b):
        r = c.driver("%s/%s trace" % b, links[b](), ["seq", "judge=trace", "n=%d" % n], tag="%s/%s" % b)
        traces[b] = {}
        for l in r.lines:
            f = l.split("\t")
            if f[0] == "TRACE":
                traces[b][int(f[1])] = f[2]
        r2 = c.driver("%s/%s identity" % b, links[b](), ["ident"], tag="%s/%s" % b)
        idents[b] = {f.split("\t")[1]: f.split("\t")[2] for f in r2.lines if f.startswith("IDENT\t")}
    c.parallel([lambda b=b: job(b) for b in builds])
    if c.errors or c.viol:
        return c.finish()
    c.distinct = 0
    base = builds[0]
    for i in range(n):
        vals = {b: traces[b].get(i) for b in builds}
        if len(set(vals.values())) != 1:
            c.fail("builds-differ", "history %d (seed %d) behaves differently: %s" % (i, c.seed, {"%s/%s" % k: v for k, v in vals.items()}), {"history": i})
        elif vals[base] is None:
            if not c.viol:
                c.error("history %d left no trace" % i)
        else:
            c.distinct += 1
    ver = vb.version()
    sizes = {"md5": 16, "sha1": 20, "sha224": 28, "sha256": 32, "sha512": 64}
    for b in builds:
        d = idents.get(b, {})
        for k in ("version function", "version macro", "version string"):
            if d.get(k) != ver:
                c.fail("version", "[%s/%s] the %s says %s, the sources are %s" % (b[0], b[1], k, d.get(k), ver))
        for k, v in sizes.items():
            if "size " + k in d and d["size " + k] != str(v):
                c.fail("constant", "[%s/%s] digest size of %s is %s in the header" % (b[0], b[1], k, d["size " + k]))
    for b in (("fb", "o2"), ("evp", "o2")):
        fin = vb.start_header(*b)
        vb.lib_objs(*b)[0].result()
        try:
            exe, names = fin()
        except vb.BuildError as e:
            c.fail("header-unusable", "[%s/%s] a program over the public header alone does not build: %s" % (b[0], b[1], str(e)[-1500:]))
            continue
        try:
            args = [ver]
            for a in NAMES:
                args += [hashlib.new(a, b"abc").hexdigest(), hmac.new(b"key", b"abc", a).hexdigest()]
            r = c.driver("%s/%s header" % b, exe, args, tag="%s/%s header" % b)
            c.sample("[%s/%s] C++ program over the header: %d declared functions, e.g. %s" % (b[0], b[1], len(names), names[:3]))
        finally:
            os.unlink(exe)
    c.sample("history 0: trace %s in all of %s" % (traces[base].get(0), ["%s/%s" % b for b in builds]))
    c.stats["builds compared"] = len(builds)
    return c.finish()


def C13():
    c = Check("C13", "exploration", "random histories of valid, invalid and post-finalize calls with the error place missing, empty or already holding an error; every return value is compared with what happened to the error; messages must print; non-trivial: distinct digests produced", ASSUME)
    plan = seqplan(c, "error", 25000, 400000, [(x, "o2", 1) for x in ALL] + [(x, "asan", .4) for x in ("fb", "evp", "ossl")])
    plan += [(x, "asan", ["ident"]) for x in ALL]
    run_matrix(c, plan, ref=False)
    if not c.stats.get("errors observed"):
        c.error("no errors were observed")
    return c.finish()


VALGRIND = ["/usr/bin/valgrind", "-q", "--error-exitcode=97", "--exit-on-first-error=yes", "--leak-check=no", "--vgdb=no"]


def C14():
    from . import toolchecks as T
    c = Check("C14", "exploration", "one-shot, HMAC, stream and deprecated calls of every message size up to three blocks and any beyond, keys from none to several blocks, refused and failing calls, and hmacsum over files; every byte of key and message is marked and MemorySanitizer and memcheck watch each branch and each address; non-trivial: distinct (algorithm, call, sizes)",
              ASSUME + ["in builds with a crypto provider MemorySanitizer watches the library only, memcheck also the provider", "digests that hmacsum prints are no secret"])
    q = c.quick
    msan = [(x, "taint") for x in ALL + ["dbg"] if vb.have(x)]
    memc = [("fb", "o2"), ("fb", "o0"), ("fb", "o3"), ("fbr", "o2"), ("fbr", "o2clang"), ("evp", "o2"), ("ossl", "o2"), ("mix", "o2"), ("fb", "lto")] + ([] if q else [("fbr", "o0"), ("fbr", "o3"), ("evpex", "o2"), ("fb", "ltoclang"), ("fb", "o2clang"), ("evp", "o3")])
    links = {b: vb.start_taint(*b) for b in msan + memc}
    tools = {b: vb.start_tainttool(*b) for b in [("fb", "taint"), ("fbr", "taint"), ("evp", "taint"), ("ossl", "taint"), ("fb", "o2"), ("evp", "o2")]}

    def job(b, a, n):
        exe = links[b]()
        args = ["taint", "alg=" + a, "n=%d" % n]
        if b[1] == "taint":
            c.driver("%s/%s %s" % (b + (a,)), exe, args, tag="%s/%s" % b)
        else:
            c.driver("%s/%s %s, memcheck" % (b + (a,)), VALGRIND[0], VALGRIND[1:] + [exe] + args, tag="%s/%s, memcheck" % b)

    def tool():
        rng = random.Random("C14 %d" % c.seed)
        b = T.Bench(c, {})
        try:
            log = b.dir + "/taint"
            open(log, "w").close()
            runs = []
            for k, f in tools.items():
                exe = f()
                if k[1] != "taint":
                    # a script, as the bench runs programs by name
                    sh = "%s/vg-%s" % (b.dir, k[0])
                    with open(sh, "w") as o:
                        o.write("#!/bin/sh\nexec %s %s \"$@\"\n" % (" ".join(VALGRIND), exe))
                    os.chmod(sh, 0o700)
                    exe = sh
                b.exe[k] = exe
                for i in range((60 if q else 1500) if k[1] == "taint" else (5 if q else 100)):
                    size = rng.choice([0, 1, 2, 3, 55, 64, 65, 127, 128, 511, 512, 513, 4096, 32767, 32768, 32769, 65536, rng.randint(0, 200000)])
                    p = rng.choice([None, None, "1000", "4096", "65536", "33"])
                    runs.append((k, size, rng.randint(0, 40), p, rng.sample(NAMES, rng.randint(1, 5))))

            def one(r):
                k, size, seed, p, types = r
                path, want = b.file(size, "like:%d" % seed)
                x = b.run(k, (["-p", p] if p else []) + ["-d", ",".join(types), path], {"VH_TAINTLOG": log}, timeout=200)
                if k[1] != "taint" and b"valgrind: " in x.err:
                    raise HarnessError(x.err[-500:].decode("utf8", "replace"))
                T.exact(b, x, T.wantset(types, want), "%d bytes" % size)
                c.count(1, 1)
            c.parallel([lambda r=r: one(r) for r in runs])
            seen = [tuple(map(int, l.split())) for l in open(log)]
            c.stat("reads of hmacsum that were marked", sum(s[0] for s in seen))
            c.stat("digests of hmacsum computed from marked contents", sum(s[1] for s in seen))
            if not c.viol and not c.errors and not sum(s[1] for s in seen):
                c.error("no digest of hmacsum carried marks")
        finally:
            b.close()
    c.parallel([lambda b=b, a=a: job(b, a, (20000 if b[1] == "taint" else 1500) if q else (300000 if b[1] == "taint" else 25000)) for a in NAMES for b in memc + msan])
    if not c.viol and not c.errors:
        tool()
    if not c.viol and not c.errors:
        for how in ("MemorySanitizer", "memcheck"):
            if not c.stats.get("digest bytes that carried the marks of contents (%s)" % how):
                c.error("no digest carried the marks of its contents (%s)" % how)
    return c.finish()


def C15():
    from . import toolchecks as T, pychecks as P
    c = Check("C15", "exploration", "one-shot digests, HMACs with growing data or key, streams in pieces of 1 to 65536 bytes through both interfaces, the Python module and hmacsum, on data growing from one byte to megabytes; heap, stack and work at their highest against the same call on less data; non-trivial: distinct (algorithm, call, size, pieces)",
              ASSUME + ["work is counted in edges of the code executed, bytes moved by library functions and bytes given to the provider; the provider itself is not measured"])
    q = c.quick
    links = {x: vb.start_cost(x, "cost") for x in ALL}
    py = P.Py(c, [("fb", "o2"), ("evp", "o2")])
    tl = {k: vb.start_tool(*k) for k in (T.FBO, T.EVPO, T.OSSL)}

    def job(x, a):
        c.driver("%s/cost %s" % (x, a), links[x](), ["cost", "alg=" + a, "n=%d" % (6 if q else 300)] + (["big=%d" % (1 << 23)] if not q and x in ("fb", "evp") else []), tag=x + "/cost")

    def tool(b):
        b.tools, b.exe = tl, {k: f() for k, f in tl.items()}
        rng = random.Random("C15 %d" % c.seed)

        def one(k, p, types, sizes):
            res = []
            for n in sizes:
                path, want = b.file(n, 7)
                r = b.run(k, (["-p", str(p)] if p else []) + ["-d", ",".join(types), path], timeout=150)
                if not T.exact(b, r, T.wantset(types, want), "%d bytes" % n):
                    return
                reads = [l.split() for l in r.log if l.startswith("read ")]
                res.append((n, r.report.get("peak", 0), len(reads), r))
                c.count(1, 1)
            size = p or 32768
            for n, peak, reads, r in res[1:]:
                if peak > res[0][1] + 4096 or peak > 2 * size + 65536:
                    b.fail("tool-memory", r, "%d bytes of memory at once for a file of %d bytes with a buffer of %d, %d for one of %d bytes" % (peak, n, size, res[0][1], res[0][0]))
                if reads > n // size + 3:
                    b.fail("tool-reads", r, "%d reads of a file of %d bytes with a buffer of %d" % (reads, n, size))
                c.stat("comparisons of memory and reads of hmacsum")
        jobs = []
        for i in range(12 if q else 100):
            for k in tl:
                p = rng.choice([None, None, 1000, 4096, 65536, 100000, 1 << 20])
                jobs.append((k, p, rng.sample(NAMES, rng.randint(1, 5)), [rng.choice([0, 1, 100]), rng.randint(30000, 300000), rng.choice([3 << 20, 5000011, 8 << 20] if (p or 32768) > 2000 else [1 << 20])]))
        c.parallel([lambda j=j: one(*j) for j in jobs])
    c.parallel([lambda x=x, a=a: job(x, a) for x in ALL for a in NAMES] + [lambda b=b: py.job(b, "cost", ["n=%d" % (2 if q else 60)]) for b in (("fb", "o2"), ("evp", "o2"))])
    if not c.viol and not c.errors:
        b = T.Bench(c, {})
        try:
            tool(b)
        finally:
            b.close()
    if not c.viol and not c.errors:
        for s in ("comparisons of memory and work", "comparisons of memory in Python", "comparisons of memory and reads of hmacsum"):
            if not c.stats.get(s):
                c.error("no " + s)
    return c.finish()


def setup():
    pairs = [(x, s) for x in ALL for s in ("o2", "asan")] + [("fb", "msan"), ("fb", "o3"), ("fb", "o0"), ("evp", "asang"), ("fb", "asang")]
    links = start(pairs)
    for f in links.values():
        f()


def F01():
    c = Check("F01", "exploration", "the shipped fuzz targets on every size 0..699, random sizes and contents to 4 MiB in memory that cannot be written, with failing memory and crypto calls, and under libFuzzer; what they hand to the library and what comes out is compared; non-trivial: inputs given", ASSUME)
    q = c.quick
    plan = [(a, cfg, san) for a in NAMES for cfg, san in ([("fb", "asan"), ("evp", "asan"), ("fb", "o2"), ("fb", "fuzz"), ("evp", "fuzz")] + ([] if q else [("fbr", "asan"), ("ossl", "asan"), ("evpex", "fuzz"), ("mix", "fuzz"), ("fbr", "fuzz")]))]
    links = {p: vb.start_fuzz(*p) for p in plan}

    def job(p):
        exe, tag = links[p](), "%s/%s" % p[1:]
        if p[2] != "fuzz":
            return c.driver("%s/%s/%s" % p, exe, ["n=%d" % ((2000 if p[2] == "o2" else 700) if q else 40000)], tag=tag)
        c.fuzz("%s/%s/%s" % p, exe, 6 if q else 240, args=["-max_len=5000", "-len_control=20"], tag=tag)
    c.parallel([lambda p=p: job(p) for p in plan])
    if not c.viol and not c.errors and not c.stats.get("inputs from libFuzzer"):
        c.error("libFuzzer gave no inputs")
    return c.finish()
