"""Checks of hmacsum (T01 .. T07): the real program, observed at its process
boundary (arguments, streams, exit status) and at its file and allocation
boundary (event log and report of the stand-in libraries)."""
import hashlib, itertools, os, random, re, shutil, signal, subprocess, tempfile, threading, time
from . import vb
from .run import Check, SAN_ENV, san_summary

ASSUME = ["libcfile, libcsplit, libcnotify, libclocale and libcerror are stand-ins of the machinery (the real ones are not in this sandbox)",
          "the messages on stdout are recognised by a digest name and a hexadecimal value on one line"]
NAMES = ["md5", "sha1", "sha224", "sha256", "sha512"]
LABEL = {"MD5": "md5", "SHA1": "sha1", "SHA224": "sha224", "SHA256": "sha256", "SHA512": "sha512"}
SPELL = {"md5": ["md5", "MD5"], "sha1": ["sha1", "SHA1", "sha-1", "sha_1", "SHA-1", "SHA_1"]}
for _n in ("224", "256", "512"):
    SPELL["sha" + _n] = [a + b + _n for a in ("sha", "SHA") for b in ("", "-", "_")]
BYNAME = {s: k for k, v in SPELL.items() for s in v}
HEX = re.compile(rb"[0-9a-fA-F]{32,}")
LINE = re.compile(r"^\W*(MD5|SHA-?1|SHA-?224|SHA-?256|SHA-?512)\b.*?\b([0-9a-fA-F]{32,})\s*$", re.I)


HEADS = [b"\xef\xbb\xbf", b"\xff\xfe", b"\xfe\xff", b"\x1f\x8b\x08", b"\x1f\x9d", b"BZh9", b"\xfd7zXZ\0", b"\x28\xb5\x2f\xfd", b"7z\xbc\xaf\x27\x1c", b"PK\x03\x04", b"Rar!\x1a\x07", b"\x7fELF", b"MZ", b"%PDF-1.7",
         b"#!/bin/sh\n", b"<?xml", b"{", b"\x89PNG\r\n\x1a\n", b"GIF89a", b"\xff\xd8\xff\xe0", b"RIFF", b"-----BEGIN", b"EVF\x09\x0d\x0a\xff\0", b"\xd0\xcf\x11\xe0", b"SQLite format 3\0", b"hsqs", b"QFI\xfb", b"KDMV", b"conectix",
         b"vhdxfile", b"regf", b"FILE0", b"\xeb\x52\x90NTFS    ", b"\0", b"\0\0\0\0", b"\xff", b"\x80", b" ", b"\n", b"\r\n", b"\\", b"d41d8cd98f00b204e9800998ecf8427e  f\n", b"sha256:"]
TAILS = [b"\n", b"\r\n", b"\r", b"\0", b"\0" * 8, b"\0" * 512, b"\x1a", b" ", b"\n\n", b"\xff", b"\x80", b"=", b"\x55\xaa", b"PK\x05\x06" + b"\0" * 18, b"conectix", b"-----END"]


def natural(rng, d, seed=""):
    """Random bytes made to look like the contents of files: marks of formats
    at the ends, text, runs of a byte, periods. "like:K" takes the K-th mark."""
    n = len(d)
    k = int(seed.split(":")[1]) if ":" in str(seed) else -1
    b = bytearray(d)
    w = rng.randint(0, 9) if k < 0 else 9
    if w == 0:
        b = bytearray(b" abcdefghijklmnopqrstuvwxyz\n"[x % 28] for x in b)
    elif w == 1:
        b = bytearray((b"\r\n".join(bytes(32 + x % 95 for x in b[i:i + 60]) for i in range(0, n, 60)) + b"\r\n")[:n])
    elif w == 2:
        p = rng.randint(1, 600)
        b = bytearray((bytes(b[:p]) * (n // p + 1))[:n])
    elif w < 9 and n:
        for _ in range(rng.randint(1, 6)):
            u = rng.choice([1, 16, 64, 512, 4096, 32768])
            at = rng.randrange(n) // u * u
            m = min(n - at, u * rng.choice([1, 1, 2, 3, 8]))
            b[at:at + m] = bytes([rng.choice([0, 0, 0, 255, 128, 32, 10, 0x36])]) * m
    marks = [(0, h) for h in HEADS] + [(1, t) for t in TAILS]
    for end, m in ([marks[k]] if k >= 0 else rng.sample(marks, rng.randint(0, 2))):
        if len(m) <= n:
            if end:
                b[n - len(m):] = m
            else:
                b[:len(m)] = m
    return bytes(b)


class Bench:
    """A scratch directory, the programs, and the way to run one of them."""
    def __init__(self, c, tools):
        self.c = c
        self.dir = tempfile.mkdtemp(prefix="vh-tool-")
        self.tools = tools            # {key: start function result}
        self.exe = {}
        self.n = itertools.count()
        self.lock = threading.Lock()
        self.files = {}
        self.seen = set()

    def build(self):
        links = {k: vb.start_tool(*k) for k in self.tools}
        for k, f in links.items():
            self.exe[k] = f()

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def file(self, size, seed=0, name=None):
        """A file of a size with pseudo-random contents; returns (path, digests)."""
        key = (size, seed, name)
        with self.lock:
            if key in self.files:
                return self.files[key]
            p = os.path.join(self.dir, name or "f%d-%s" % (size, seed))
            if seed == "zero":
                d = b"\0" * size
            elif seed == "ff":
                d = b"\xff" * size
            else:
                d = hashlib.shake_128(b"%d %s" % (size, str(seed).encode())).digest(size)
                if str(seed).startswith("like"):
                    d = natural(random.Random("%d %s" % (size, seed)), d, seed)
            with open(p, "wb") as f:
                f.write(d)
            self.files[key] = (p, {a: hashlib.new(a, d).hexdigest() for a in NAMES})
            return self.files[key]

    def run(self, tool, args, env=None, stdout=None, timeout=60, cwd=None, stdin=None, retry=True):
        i = next(self.n)
        log, rep = "%s/log%d" % (self.dir, i), "%s/rep%d" % (self.dir, i)
        e = dict(os.environ); e.update(SAN_ENV)
        for k in list(e):
            if k.startswith("VH_") or k == "POSIXLY_CORRECT":
                e.pop(k)
        e.update({"VH_LOG": log, "VH_REPORT": rep, "LC_ALL": "C"})
        e.update(env or {})
        r = Run()
        r.tool, r.args, r.env = tool, args, dict(env or {})
        with tempfile.TemporaryFile(dir=self.dir) as fo, tempfile.TemporaryFile(dir=self.dir) as fe:
            p = subprocess.Popen([self.exe[tool]] + args, env=e, cwd=cwd or self.dir, stdin=stdin if stdin is not None else subprocess.DEVNULL,
                                 stdout=fo if stdout is None else stdout, stderr=fe, start_new_session=True)
            try:
                r.rc = p.wait(timeout)
            except subprocess.TimeoutExpired:
                p.kill(); p.wait(); r.rc = None
            fo.seek(0); fe.seek(0)
            r.out, r.err = fo.read(8 << 20), fe.read(1 << 20)
        for n, f in (("log", log), ("rep", rep)):
            try:
                with open(f, errors="replace") as h:
                    setattr(r, n, h.read().splitlines())
                os.unlink(f)
            except OSError:
                setattr(r, n, [])
        r.report = {l.split()[0]: int(l.split()[1]) for l in r.rep if len(l.split()) == 2}
        if r.rc is None and retry:
            return self.run(tool, args, env, stdout, timeout * 3, cwd, stdin, retry=False)
        self.c.stat("programs run")
        return r

    def feed(self, tool, args, data, cuts, env=None, named=False, pause=0.0, timeout=60):
        """Runs with a pipe as the source: the data arrive in pieces that end at
        the cuts. Returns (run, bytes the program took)."""
        took = [0]
        stop = threading.Event()
        if named:
            src = "%s/fifo%d" % (self.dir, next(self.n))
            os.mkfifo(src, 0o600)
            rfd = None
        else:
            src = "/dev/stdin"
            rfd, wfd = os.pipe()

        def write():
            fd = None if named else wfd
            while fd is None and not stop.is_set():
                try:
                    fd = os.open(src, os.O_WRONLY | os.O_NONBLOCK)
                    os.set_blocking(fd, True)
                except OSError:
                    time.sleep(0.002)
            if fd is None:
                return
            try:
                at = 0
                for e in list(cuts) + [len(data)]:
                    while at < e and not stop.is_set():
                        at += os.write(fd, data[at:e])
                        took[0] = at
                    if pause:
                        stop.wait(pause)
            except OSError:
                pass
            finally:
                os.close(fd)
        w = threading.Thread(target=write)
        w.start()
        try:
            # the reading end in this process goes away with the run, so that
            # a writer whose reader is gone does not stay blocked
            r = self.run(tool, args + [src], env, timeout=timeout, stdin=rfd, retry=False)
        finally:
            stop.set()
            if rfd is not None:
                os.close(rfd)
            w.join(30)
            if named:
                os.unlink(src)
        return r, took[0]

    # ---- what no run may show
    def base(self, r, ok_signals=()):
        c = self.c
        s = san_summary(r.err)
        if s:
            self.fail(s, r, "sanitizer report: %s" % r.err[:1500].decode("utf8", "replace"))
            return False
        if r.rc is None:
            self.fail("hang", r, "did not end")
            return False
        if r.rc < 0 and -r.rc not in ok_signals:
            self.fail("killed-%d" % -r.rc, r, "ended by signal %d" % -r.rc)
            return False
        return True

    def fail(self, key, r, text):
        self.c.fail(key, "%s -- %s" % (text, r.describe()), {"tool": r.tool, "args": r.args, "env": r.env, "rc": r.rc, "log": r.log[-60:],
                    "stdout": r.out[-3000:].decode("utf8", "replace"), "stderr": r.err[-5000:].decode("utf8", "replace"), "report": r.report})

    def note(self, *key):
        """Counts one observed execution; distinct by key."""
        with self.lock:
            new = key not in self.seen
            self.seen.add(key)
        self.c.count(1, 1 if new else 0)

    def clean(self, r, errors=True):
        """What the program holds at its end (when it returned from main)."""
        for k, t in (("blocks", "heap block(s)"), ("evp", "provider context(s)"), ("errors", "error object(s)"), ("fds", "descriptor(s)")):
            if r.report.get(k, 0) > 0 and (errors or k != "errors"):
                self.fail("leak-" + k, r, "%d %s left at the end" % (r.report[k], t))


class Run:
    def digests(self):
        """[(name, value)] printed, in order."""
        res = []
        for l in self.out.decode("utf8", "replace").splitlines():
            m = LINE.match(l)
            if m:
                res.append((m.group(1).lower().replace("-", ""), m.group(2).lower()))
        return res

    def any_digest(self):
        return bool(self.digests()) or HEX.search(self.out) is not None

    def aborted(self):
        return b"ABORTED" in self.out

    def reads(self):
        """[(request, result)]"""
        return [(int(l.split()[1]), int(l.split()[2])) for l in self.log if l.startswith("read ") and len(l.split()) == 3]

    def describe(self):
        return "hmacsum(%s) %s env=%s rc=%s stdout=%r stderr=%r" % (",".join(map(str, self.tool)), [a[-60:] for a in self.args], self.env, self.rc, self.out[-400:], self.err[-300:])


def exact(b, r, want, what):
    """Success with exactly these digests."""
    if not b.base(r):
        return False
    got = r.digests()
    if r.rc != 0:
        b.fail("refused", r, "%s: exit status %s" % (what, r.rc))
    elif sorted(got) != sorted(want.items()):
        b.fail("wrong-digests", r, "%s: printed %s, want %s" % (what, got, want))
    elif len(HEX.findall(r.out)) != len(want):
        b.fail("extra-digest", r, "%s: more values than digests" % what)
    else:
        return True
    return False


def bench(c, tools, body):
    b = Bench(c, tools)
    try:
        b.build()
        body(b)
    except vb.BuildError as e:
        c.error(str(e))
    finally:
        b.close()


def spellings(rng, names):
    s = [rng.choice(SPELL[n]) for n in names]
    rng.shuffle(s)
    return s


FB, FBR, EVP, OSSL = ("fb", "asan"), ("fbr", "asan"), ("evp", "asan"), ("ossl", "asan")
FBO, EVPO = ("fb", "o2"), ("evp", "o2")
EVPX, EVPOLD, MIX = ("evpex", "asan"), ("evpold", "asan"), ("mix", "asan")
NOGET = ("fb", "asan", False)
NOGETE = ("evp", "o2", False)
DBG = ("dbg", "asan")
UCHAR = ("fb", "uchar", False)


def wantset(types, dig):
    return {n: dig[n] for n in set(types) | {"md5"}}


def T01():
    c = Check("T01", "exploration", "files of edge and random sizes x buffer sizes x digest sets x short reads x ways to name the file, in four builds; printed digests against hashlib; non-trivial: distinct (size, contents, buffer, digests, short read seed)", ASSUME)
    q = c.quick
    rng = random.Random("T01 %d" % c.seed)
    tools = [FB, EVP, FBO, EVPO, OSSL, FBR, NOGET]

    def big(b):
        """Files beyond 2^31 and 2^32 bytes: holes with some bytes at the borders."""
        G = 1 << 32
        jobs = [(G + 12345 + c.seed % 999, [(FBO, [], ["md5"]), (EVPO, ["-p", "4294967297"], ["md5", "sha1"]), (EVPO, ["-p", "100000007"], ["md5", "sha256"])])]
        if not q:
            jobs += [((1 << 31) + 7, [(FBO, [], ["md5", "sha512"]), (EVPO, ["-p", "2147483649"], ["md5", "sha224"])]), (2 * G + 9, [(FBO, ["-p", "1MiB"], NAMES), (EVPO, [], NAMES), (FBO, ["-p", "4294967295"], ["md5"])])]
        for size, runs in jobs:
            path = "%s/big%d" % (b.dir, size)
            with open(path, "wb") as f:
                f.truncate(size)
                for at in (0, (1 << 31) - 3, (1 << 32) - 3, size - 5):
                    if 0 <= at <= size - 5:
                        f.seek(at)
                        f.write(b"%05d" % (at % 99999))
            try:
                want = {}

                def oracle(n):
                    with open(path, "rb") as f:
                        want[n] = hashlib.file_digest(f, n).hexdigest()
                rs = {}

                def run(j):
                    t, args, types = runs[j]
                    rs[j] = b.run(t, args + ["-d", ",".join(types), path], {"VH_LOG": "/dev/null"}, timeout=150 if q else 900)
                c.parallel([lambda n=n: oracle(n) for n in sorted({x for r in runs for x in r[2]})] + [lambda j=j: run(j) for j in range(len(runs))])
                for j, (t, args, types) in enumerate(runs):
                    if j not in rs or c.viol or c.errors:
                        break
                    exact(b, rs[j], wantset(types, want), "%d bytes" % size)
                    b.note("big", size, t, tuple(args))
                    c.stat("digests of files beyond 2^31 bytes", len(rs[j].digests()))
                    c.sample("%d bytes, %s %s -> %s" % (size, t, args, rs[j].digests()))
            finally:
                os.unlink(path)

    def body(b):
        cases = []
        sizes = [0, 1, 2, 3, 55, 56, 57, 63, 64, 65, 111, 112, 113, 119, 120, 127, 128, 129, 191, 192, 255, 256, 257, 1023, 4096, 32767, 32768, 32769, 65535, 65536, 65537, 98304, 100001, 1048579]
        bufs = [None, "1", "2", "3", "7", "63", "64", "65", "127", "128", "129", "1000", "4096", "5000", "32767", "65536", "1000000"]
        for s in sizes:
            for p in bufs:
                if p and s // int(p) > 3000:
                    continue
                cases.append((s, 0, p, rng.sample(NAMES, rng.randint(1, 5)), None if rng.random() < .5 else rng.randint(1, 10 ** 6)))
        for s in sizes:
            cases.append((s, rng.choice(["zero", "ff"]), None, NAMES, rng.randint(1, 10 ** 6)))
        # multiples of the buffer
        for p in (1, 16, 64, 100, 128, 512, 4096, 32768):
            for k in (1, 2, 3):
                for d in (-1, 0, 1):
                    if p * k + d >= 0:
                        cases.append((p * k + d, 1, str(p), NAMES, None))
        # round sizes and buffers, and their neighbours
        special = sorted({max(0, x + d) for x in [1 << k for k in range(8, 21)] + [3 << k for k in range(8, 19)] + [m * 10 ** k for k in (3, 4, 5) for m in (1, 2, 5)] + [10 ** 6, 1460, 65507] for d in (-9, -1, 0, 1, 8, 56, 64)})
        for j, s in enumerate(special):
            cases.append((s, 1, None, rng.sample(NAMES, rng.randint(1, 5)), None))
            p = special[(j * 37 + c.seed) % len(special)]
            cases.append((rng.choice([p * 2 + 3, p, p + 1, p * 3]) % 3000000, 2, str(p), rng.sample(NAMES, rng.randint(1, 5)), None if j % 3 else j + 1))
        cases += [(70001, 1, "1", ["md5", "sha512"], None), (140009, 1, "2", ["sha1"], None), (66000 * 7, 2, "7", ["sha256"], 3), ((1 << 20) + 77, 1, "3", ["sha1", "sha512"], None), ((1 << 20) + 5, 2, "15", ["sha224"], 3)]
        for i in range(2000 if q else 12000):
            s = int(2 ** rng.uniform(0, 17.5)) if rng.random() < .9 else rng.randint(0, 3 << 20)
            p = rng.choice([None, str(int(2 ** rng.uniform(0, 18)))])
            if p and s // int(p) > 4000:
                p = None
            cases.append((s, rng.randint(0, 5), p, rng.sample(NAMES, rng.randint(1, 5)), rng.choice([None, rng.randint(1, 10 ** 9)])))
        # contents like those of real files
        for k in range(len(HEADS) + len(TAILS)):
            for s in (rng.choice([1, 2, 3, 4, 8, 20]), rng.choice([64, 600, 4096, 32768]), rng.randint(33000, 99999)):
                cases.append((s, "like:%d" % k, rng.choice([None, None, "4096", "1000", "512"]) if s < 90000 else None, rng.sample(NAMES, rng.randint(1, 3)), rng.choice([None, None, k + 1])))
        for i in range(400 if q else 3000):
            s = rng.choice([int(2 ** rng.uniform(0, 18)), 32768 * rng.randint(1, 5), 4096 * rng.randint(1, 30), 512 * rng.randint(1, 99)])
            cases.append((s, "like%d" % rng.randint(0, 9), rng.choice([None, "32768", "4096", "512", "1MiB", "333"]), rng.sample(NAMES, rng.randint(1, 3)), rng.choice([None, None, i + 1])))
        for i in range(1 if q else 4):
            cases.append((37 * (1 << 20) + rng.randint(0, 99999), i, rng.choice([None, "1048576", "999999"]), NAMES, rng.choice([None, 5 + i])))
        tl = [FB, EVP, FBO, EVPO, OSSL, FBR, NOGET]

        def one(ic):
            i, (s, fs, p, types, ss) = ic
            t = tl[(i + c.seed) % len(tl)]
            path, dig = b.file(s, fs)
            st0 = os.stat(path)
            args = [] if types == ["md5"] and i % 2 else ["-d", ",".join(spellings(random.Random(i), types))]
            if p:
                args = args + ["-p", p] if i % 3 else ["-p" + p] + args
            if i % 7 == 0:
                args = ["-v"] + args
            env = {"VH_SHORTSEED": str(ss)} if ss else {}
            r = b.run(t, args + (["--"] if i % 5 == 0 else []) + [path if i % 2 else os.path.basename(path)], env)
            if exact(b, r, wantset(types, dig), "%d bytes" % s):
                st1 = os.stat(path)
                if (st1.st_size, st1.st_mtime_ns) != (st0.st_size, st0.st_mtime_ns) or any(l.startswith("OPENWRITE") for l in r.log):
                    b.fail("input-modified", r, "the source was changed or opened for writing")
                c.stat("bytes read by the program", sum(x[1] for x in r.reads()))
                c.stat("reads", len(r.reads())); c.stat("short reads", sum(1 for x in r.reads() if x[1] < x[0]))
                c.stat("digests compared", len(r.digests()))
                if i % 101 == 0:
                    c.sample("%s %s -> %s" % (t, r.args, r.digests()))
            b.note(s, fs, p, tuple(sorted(types)), ss)
        c.parallel([lambda x=x: one(x) for x in enumerate(cases)])
        big(b)
        # sources that do not tell their size in advance
        streams = [(n, p) for n in (0, 1, 2, 63, 64, 65, 127, 128, 1000, 4095, 4096, 4097, 32767, 32768, 32769, 65535, 65536, 65537, 200000) for p in (None, "1000", "4096", "70000")]
        streams += [(int(2 ** rng.uniform(0, 19)), rng.choice([None, str(int(2 ** rng.uniform(4, 18)))])) for _ in range(60 if q else 600)]

        def stream(i, n, p):
            rg = random.Random("stream %d %d" % (i, c.seed))
            t = tl[(i + c.seed) % len(tl)]
            data = hashlib.shake_128(b"stream %d %d" % (i, n)).digest(n)
            cuts = sorted(rg.randint(0, n) for _ in range(rg.choice([0, 0, 1, 3, 9])))
            types = rg.sample(NAMES, rg.randint(1, 5))
            r, took = b.feed(t, ["-d", ",".join(types)] + (["-p", p] if p else []), data, cuts, {"VH_SHORTSEED": str(i + 1)} if i % 4 == 3 else {}, named=i % 2 == 0, pause=0.01 if cuts and i % 3 == 0 else 0)
            exact(b, r, wantset(types, {a: hashlib.new(a, data).hexdigest() for a in types + ["md5"]}), "a pipe with %d bytes, in pieces up to %s" % (n, cuts))
            if r.rc == 0 and took != n:
                b.fail("pipe-not-read", r, "%d of %d bytes of the pipe were taken" % (took, n))
            c.stat("pipes read", 1); c.stat("bytes read from pipes", took)
            b.note("pipe", n, p, tuple(cuts))
            if i % 25 == 0:
                c.sample("pipe %d bytes, pieces %s, buffer %s -> %s" % (n, cuts, p, r.digests()))
        c.parallel([lambda x=x: stream(x[0], *x[1]) for x in enumerate(streams)])
        for src in ("/proc/version", "/proc/filesystems"):
            try:
                with open(src, "rb") as f:
                    d0 = f.read()
            except OSError:
                continue
            for t in (FB, EVPO):
                r = b.run(t, ["-d", "sha256", src])
                with open(src, "rb") as f:
                    if f.read() == d0:
                        exact(b, r, wantset(["sha256"], {a: hashlib.new(a, d0).hexdigest() for a in NAMES}), src)
                        b.note("proc", src, t)
        # the name of the file
        names = ["with space", "-dash", "--", "-", "tab\there", "ümläut-\u4e2d", "a" * 200, "new\nline", "%s%n%x", "quote'\"", "sub/dir/file", "md5", ",", ":"]
        odd = [x for x in range(1, 256) if x not in (47, 46)]
        names += [os.fsdecode(bytes([x])) for x in odd] + [os.fsdecode(bytes([97, x])) for x in odd] + [os.fsdecode(bytes([x, 98])) for x in odd]
        names += [os.fsdecode(bytes(rng.choice(odd) for _ in range(rng.randint(2, 60)))) for _ in range(40 if q else 400)] + ["..a", "a..", "...", "a.b", "~", "~root", "$HOME", "*", "a" * 255, "/".join(["d" * 99] * 9)]
        names = list(dict.fromkeys(names))
        os.makedirs(b.dir + "/names/" + "/".join(["d" * 99] * 8), exist_ok=True)
        os.makedirs(b.dir + "/sub/dir", exist_ok=True)
        os.makedirs(b.dir + "/names/sub/dir", exist_ok=True)
        def named(j, n):
            p, dig = b.file(1000 + j % 14, 0, "names/" + n)
            for t in (FB, EVP, NOGET) if len(n) > 2 else (tl[j % len(tl)],):
                for arg in (p, "./" + n) if len(n) > 2 else (("./" + n) if j % 2 else n if not n.startswith("-") else p,):
                    r = b.run(t, ["-d", "sha1,sha256", arg], cwd=b.dir + "/names")
                    exact(b, r, wantset(["sha1", "sha256"], dig), "file named %r" % n)
                    b.note("name", n, t, arg)
            c.stat("names of files")
        c.parallel([lambda x=x: named(*x) for x in enumerate(names)])
        p, dig = b.file(5000, 9)
        os.symlink(p, b.dir + "/link")
        exact(b, b.run(FB, [b.dir + "/link"]), wantset([], dig), "symbolic link")
        exact(b, b.run(FB, ["/dev/null"]), {"md5": hashlib.md5().hexdigest()}, "/dev/null")
        # long paths
        for j, n in enumerate((100, 127, 128, 250, 254, 255, 256, 257, 500, 511, 512, 1000, 1023, 1024, 1025, 2000, 4000, 4090)):
            tail = os.path.basename(p)
            arg = ("./" * n)[:(n - len(tail)) // 2 * 2] + tail
            if len(arg) < n:
                arg = arg.replace("./", ".//", 1)
            for t in (FB, EVPO):
                r = b.run(t, ["-d", "sha1", arg], cwd=b.dir)
                exact(b, r, wantset(["sha1"], dig), "a path of %d characters" % len(arg))
                b.note("path", n, t)
    bench(c, tools, body)
    return c.finish()


def T02():
    c = Check("T02", "exploration", "every accepted spelling alone, all subsets, repetitions and orders, lists with empty elements, lists of up to 100,000 elements and names of up to 65,000 characters, every one-character edit of every spelling and other near misses; non-trivial: distinct lists", ASSUME)
    q = c.quick
    rng = random.Random("T02 %d" % c.seed)
    tools = [FB, EVPO, NOGET, FBO, UCHAR]

    def body(b):
        lists = [None]
        for s in BYNAME:
            lists.append([s])
        for k in range(1, 6):
            for sub in itertools.combinations(NAMES, k):
                for _ in range(2 if q else 20):
                    lists.append(spellings(rng, sub))
        lists += [list(x) for x in itertools.permutations(["md5", "sha1", "sha224", "sha256", "sha512"])]
        for _ in range(600 if q else 6000):
            lists.append([rng.choice(list(BYNAME) + ["", ""]) for _ in range(rng.randint(1, 12))])
        near = set()
        for s in BYNAME:
            for i in range(len(s) + 1):
                near.add(s[:i] + s[i + 1:])
                for ch in "x0 -_1A":
                    near.add(s[:i] + ch + s[i:])
                    near.add(s[:i] + ch + s[i + 1:])
            near |= {s + " ", " " + s, s.swapcase(), s.title(), s + "\n", s[::-1]}
        near |= {"sha", "sha384", "sha-384", "SHA384", "sha3-256", "sha512/256", "md4", "md6", "all", "*", "sha1sha1", "sha_-1", "sha--1", "sha256sum", "x" * 300, "sha2", "SHA2", "5", "512", "é", "hmac", "none"}
        near = sorted(n for n in near if n not in BYNAME and "," not in n and "\0" not in n)
        if q:
            keep = near
        else:
            keep = near
        for n in keep:
            lists.append([n])
            if rng.random() < .3:
                lists.append(rng.sample([n] + rng.sample(list(BYNAME), 2), 3))
        lists += [[""], ["", ""], ["", "sha1"], ["sha1", ""], ["sha1", "", "", "sha256"], [","], ["sha512"] * 50, list(BYNAME)]
        # counters and lengths that need more than 7, 8, 15 or 16 bits
        for n in (127, 128, 129, 255, 256, 257, 300, 1000, 32768, 65535, 65536, 65537, 100000):
            for s in rng.sample([x for x in BYNAME if n < 1000 or len(x) < 6], 2):
                pad = rng.choice(["", "", "md5"]) if n < 20000 else ""
                lists += [[pad] * n + [s], [s] + [pad] * n, [pad] * (n // 2) + [s] + [pad] * (n - n // 2)]
        for s in BYNAME:
            for n in (128, 256, 512, 65536):
                lists += [[s + rng.choice("x0 -") * n], [s, (rng.choice(list(BYNAME)) * n)[:n] + s], [s + s * (n // len(s)) + s[:n % len(s)]]]
        path, dig = b.file(777, 3)
        tl = [FB, FBO, NOGET, EVPO, UCHAR]

        def one(i, l):
            t = tl[i % 5] if q else None
            for t in ([t] if t else tl):
                args = [] if l is None else (["-d", ",".join(l)] if i % 3 or not l or not ",".join(l) else ["-d" + ",".join(l)])
                r = b.run(t, args + [path])
                types = [BYNAME[x] for x in (l or []) if x in BYNAME]
                if not b.base(r):
                    continue
                unknown = l is not None and any(x not in BYNAME for x in l)
                if unknown and r.rc != 0 and not r.any_digest():
                    c.stat("lists with unknown names refused")
                else:
                    exact(b, r, wantset(types, dig), "types %s" % l)
                    c.stat("lists with unknown names, known ones printed" if unknown else "lists of known names")
                b.note(tuple(l or ["default"]))
                if i % 60 == 0:
                    c.sample("-d %s -> %s" % (",".join(l or ["(none)"]), [x[0] for x in r.digests()]))
        c.parallel([lambda x=x: one(*x) for x in enumerate(lists)])
    bench(c, tools, body)
    guided(c, [("types", 4)], ["fb", "dbg"])
    return c.finish()


def T03():
    c = Check("T03", "fault_enumeration", "every call at the file boundary fails in turn (or the data end early, or the file shrinks) for several sizes and buffers; missing files, directories; standard output full, closed, or cut at every byte; non-trivial: distinct (fault, place, size, buffer) really injected", ASSUME)
    q = c.quick
    rng = random.Random("T03 %d" % c.seed)
    tools = [FB, EVP, FBO]

    def nodigest(b, r, what):
        if not b.base(r):
            return
        if r.rc == 0:
            b.fail("fault-ignored", r, what + ": exit status 0")
        if r.any_digest():
            b.fail("digest-after-fault", r, what + ": a digest was printed")
        if not r.err.strip():
            b.fail("silent-failure", r, what + ": nothing on standard error")

    def body(b):
        jobs = []
        combos = [(0, None), (1, None), (100, "7"), (1000, "64"), (1000, "100"), (1000, "1000"), (4096, "512"), (40000, None), (100000, None), (65536, None)]
        combos += [((1 << 20) + 4096, "4096"), (3000000, "10000"), (5 << 20, None), ((20 << 20) + 1, "1000000"), ((40 << 20), None), (200000, "16"), (70000, "1")]
        combos += [(int(2 ** rng.uniform(10, 23)), str(int(2 ** rng.uniform(6, 17)))) for _ in range(12 if q else 80)]
        if not q:
            combos += [(rng.randint(1, 5000), str(rng.randint(20, 600))) for _ in range(60)]

        def one(t, size, p, plan, what, judge=True, fs=0):
            path, dig = b.file(size, fs)
            if "trunc" in plan:
                path = shutil.copy(path, "%s/tr%d" % (b.dir, next(b.n)))
            r = b.run(t, (["-p", p] if p else []) + ["-d", "sha1,sha224,sha256,sha512", path], {"VH_PLAN": plan})
            if not any(l.startswith("plan ") and l.split()[-1] == plan.rsplit(":", 1)[1] for l in r.log):
                c.stat("plans that found no such call")
                exact(b, r, wantset(NAMES, dig), what + " (not injected)") if not b.base(r) or r.rc != 0 else None
                return
            if judge:
                nodigest(b, r, what)
            elif b.base(r) and r.rc == 0:
                b.fail("fault-ignored", r, what + ": exit status 0")
            c.stat("faults injected")
            b.note(t, size, p, plan)
            if len(b.seen) % 80 == 0:
                c.sample("%s on %d bytes, buffer %s: rc %d, %s" % (plan, size, p, r.rc, r.err[-160:].decode("utf8", "replace").strip().splitlines()[:2]))
        for t in (FB, EVP):
            for size, p in combos:
                nreads = -(-size // int(p or 32768))
                late = rng.randint(1, max(1, nreads))
                for op in ("init", "open", "size"):
                    jobs.append((t, size, p, op + ":1:err", op + " fails"))
                for k in range(1, nreads + 1):
                    if nreads > 40 and k not in (1, 2, 3, nreads // 2, nreads - 1, nreads) and k != late:
                        continue
                    jobs.append((t, size, p, "read:%d:err" % k, "read %d of %d fails" % (k, nreads)))
                    jobs.append((t, size, p, "read:%d:eof" % k, "data end at read %d of %d" % (k, nreads)))
                    if k > 1:
                        jobs.append((t, size, p, "read:%d:half,read:%d:err" % (k - 1, k), "short read, then read %d fails" % k))
                        jobs.append((t, size, p, "read:%d:half,read:%d:eof" % (k - 1, k), "short read, then the data end at read %d" % k))
                        jobs.append((t, size, p, "read:%d:trunc%d" % (k, rng.randint(0, (k - 1) * int(p or 32768))), "file shrinks before read %d" % k))
                    jobs.append((t, size, p, "read:%d:half,read:%d:eof" % (nreads, nreads + 1), "short last read, then no more data"))
                for op in ("close", "free"):
                    jobs.append((t, size, p, op + ":1:err", op + " fails", False))
        jobs = sorted(set(jobs), key=str)
        c.parallel([lambda j=j: one(*j) for j in jobs])
        # a pipe: its end is found by a read
        def piped(t, n, p, k, named):
            data = hashlib.shake_128(b"T03 %d" % n).digest(n)
            types = ["sha1", "sha512"]
            plan = "read:%d:err" % k
            r, took = b.feed(t, (["-p", p] if p else []) + ["-d", ",".join(types)], data, [], {"VH_PLAN": plan}, named=named)
            if any(l.startswith("plan ") for l in r.log):
                nodigest(b, r, "read %d of a pipe with %d bytes fails" % (k, n))
                c.stat("faults injected"); c.stat("faults in pipes")
            else:
                exact(b, r, wantset(types, {a: hashlib.new(a, data).hexdigest() for a in types + ["md5"]}), "a pipe with %d bytes" % n)
            b.note("pipe", t, n, p, k, named)
        c.parallel([lambda j=j: piped(*j) for j in [(t, n, p, k, named) for t in (FB, EVP) for n, p in ((0, None), (1, None), (3000, "1000"), (3500, "1000"), (65536, None)) for k in (1, 2, 3, 4, 5, 6) for named in (False, True)]])
        # names that do not lead to a readable file
        os.makedirs(b.dir + "/d", exist_ok=True)
        os.symlink(b.dir + "/none", b.dir + "/dangling")
        os.symlink(b.dir + "/loop", b.dir + "/loop")
        ok, dig = b.file(300, 1)
        for t in (FB, EVP):
            for n in (b.dir + "/none", "", b.dir + "/d", b.dir + "/dangling", b.dir + "/loop", ok + "/x", "/" + "x" * 5000, "x" * 300):
                r = b.run(t, ["-d", "sha1", n])
                nodigest(b, r, "source %r" % n[-30:])
                b.note("source", t, n[-20:])
        # standard output
        for t in (FB, EVP, FBO):
            for types in ("md5", "md5,sha1", "sha224,sha256,sha512"):
                args = ["-d", types, ok]
                r = b.run(t, args)
                total = len(r.out)
                exact(b, r, wantset(types.split(","), dig), "fault-free")
                with open("/dev/full", "wb") as f:
                    r = b.run(t, args, stdout=f)
                if b.base(r) and r.rc == 0:
                    b.fail("lost-output", r, "standard output is a full device, exit status 0")
                b.note("full", t, types)
                r = closed(b, t, args)
                if b.base(r) and r.rc == 0:
                    b.fail("lost-output", r, "standard output is closed, exit status 0")
                b.note("closed", t, types)

                def cut(k, t=t, args=args, total=total, types=types):
                    r = b.run(t, args, {"VH_FSIZE": str(k), "VH_LOG": "/dev/null"})
                    if not b.base(r):
                        return
                    if r.rc == 0 and sorted(r.digests()) != sorted(wantset(types.split(","), dig).items()):
                        b.fail("lost-output", r, "standard output takes %d of %d bytes, exit status 0" % (k, total))
                    if k == total and r.rc != 0:
                        b.fail("refused", r, "standard output takes everything, exit status %d" % r.rc)
                    c.stat("cuts of standard output")
                    b.note("cut", t, types, k)
                ks = range(0, total + 1) if not q else sorted(set(range(0, total + 1, 3)) | {total, total - 1, total - 2, 0})
                c.parallel([lambda k=k: cut(k) for k in ks])
        if not c.stats.get("faults injected"):
            c.error("no fault was injected")

    def closed(b, t, args):
        return b.run_closed(t, args)
    Bench.run_closed = lambda self, t, args: run_shell(self, t, args, ">&-")
    bench(c, tools, body)
    return c.finish()


def run_shell(b, t, args, redir):
    """Runs the program from a shell with a redirection."""
    exe = b.exe[t]
    sh = os.path.join(b.dir, "sh%d" % next(b.n))
    with open(sh, "w") as f:
        f.write("#!/bin/bash\nexec %s \"$@\" %s\n" % (exe, redir))
    os.chmod(sh, 0o755)
    key = ("shell", sh)
    b.exe[key] = sh
    try:
        r = b.run(key, args)
        r.tool = t + (redir,)
        return r
    finally:
        os.unlink(sh)
        b.exe.pop(key)


def T04():
    c = Check("T04", "exploration", "SIGINT raised before and after every call at the file boundary, by a timer at random microseconds (once and twice), and from outside while a digest line is being written to a full pipe; non-trivial: distinct places (call, moment, buffer) and timer delays at which the signal was taken", ASSUME)
    q = c.quick
    rng = random.Random("T04 %d" % c.seed)
    tools = [FB, EVP, FBO, EVPO]

    def lines_ok(b, r, dig, types, what):
        got = r.digests()
        want = wantset(types, dig)
        for n, v in got:
            if want.get(n) != v:
                b.fail("wrong-digest", r, "%s: printed %s %s, the file has %s" % (what, n, v, want.get(n)))
        return got

    def body(b):
        types = NAMES
        jobs = []
        combos = [(0, None), (10, None), (1000, "100"), (1000, "1000"), (1000, "64"), (70000, None), (131072, None), (4096, "256")]
        combos += [(5 << 20, None), (3000000, "10000"), (40 << 20, None), ((20 << 20) + 1, "1000000"), (300000, "64")]
        combos += [(int(2 ** rng.uniform(16, 24)), str(int(2 ** rng.uniform(9, 18)))) for _ in range(10 if q else 60)]
        for t in (FB, EVP):
            for size, p in combos:
                nreads = -(-size // int(p or 32768))
                rk = range(1, nreads + 1) if nreads < 40 else sorted({1, nreads, nreads - 1, nreads // 2} | {rng.randint(1, nreads) for _ in range(6 if q else 20)})
                for op, ks in (("open", [1]), ("size", [1]), ("read", rk), ("close", [1]), ("free", [1])):
                    for k in ks:
                        for act in ("sig", "sigafter"):
                            for two in ((False, True) if op == "read" else (False,)):
                                for nostdin in ((False, True) if op == "read" and k == 1 else (False,)):
                                    jobs.append((t, size, p, op, k, act, two, nostdin))
                for k in rk:
                    jobs.append((t, size, p, "read", k, "sigerr", False, False))

        def one(t, size, p, op, k, act, two, nostdin):
            path, dig = b.file(size, 2)
            # a signal, then the same call fails
            plan = "%s:%d:%s" % (op, k, act) if act != "sigerr" else ("read:%d:sigafter,read:%d:err" % (k - 1, k) if k > 1 else "size:1:sigafter,read:1:err")
            if two:
                plan += ",read:%d:sig" % (k + 1)
            env = {"VH_PLAN": plan}
            if nostdin:
                env["VH_NOSTDIN"] = "1"
            r = b.run(t, (["-p", p] if p else []) + ["-d", ",".join(types), path], env)
            if not b.base(r, ok_signals=(signal.SIGINT,)):
                return
            taken = [i for i, l in enumerate(r.log) if l.startswith("plan ") and "sig" in l]
            if not taken:
                return
            what = "SIGINT at %s" % plan
            if r.rc == 0:
                b.fail("abort-ignored", r, what + ": exit status 0")
            lines_ok(b, r, dig, types, what)
            if op in ("open", "size", "read"):
                if r.any_digest():
                    b.fail("digest-after-abort", r, what + ": a digest was printed")
                if r.rc > 0 and not nostdin and not r.aborted() and act != "sigerr":
                    b.fail("abort-not-reported", r, what + ": no word of it on standard output")
                after = [l for l in r.log[taken[0]:] if l.startswith("read ")]
                if len(after) > 3:
                    b.fail("reads-on", r, what + ": %d reads after the signal" % len(after))
                c.stat("reads after a signal", len(after))
            if op == "close" and r.rc > 0 and not r.aborted() and not nostdin:
                b.fail("abort-not-reported", r, what + ": no word of it on standard output")
            if r.report:
                b.clean(r, errors=False)
            c.stat("signals at boundary calls")
            b.note(t, size, p, plan, nostdin)
            if len(b.seen) % 70 == 0:
                c.sample("%s, %d bytes: rc %d, %r" % (plan, size, r.rc, r.out[-30:]))
        c.parallel([lambda j=j: one(*j) for j in jobs])

        # while a pipe is read: at a read, or while the program waits for data
        def piped(i):
            rg = random.Random("T04 pipe %d %d" % (c.seed, i))
            t = rg.choice([FB, EVP, FBO])
            n = rg.choice([0, 1, 900, 5000, 40000, 65536, 150000])
            p = rg.choice([None, "1000", "4096"])
            data = hashlib.shake_128(b"T04 pipe %d" % n).digest(n)
            want = {a: hashlib.new(a, data).hexdigest() for a in NAMES}
            wait = i % 3 == 0
            if wait:
                env, cuts, pause = {"VH_TIMER": "100000"}, [n // 2], 0.5
            else:
                env, cuts, pause = {"VH_PLAN": "read:%d:%s" % (rg.randint(1, 4), rg.choice(["sig", "sigafter"]))}, sorted(rg.randint(0, n) for _ in range(rg.randint(0, 2))), 0.003
            r, took = b.feed(t, (["-p", p] if p else []) + ["-d", ",".join(NAMES)], data, cuts, env, named=rg.random() < .5, pause=pause)
            if not b.base(r, ok_signals=(signal.SIGINT,)):
                return
            what = "SIGINT while a pipe with %d bytes is read (%s)" % (n, env)
            got = lines_ok(b, r, want, NAMES, what)
            if r.rc == 0:
                if any(l.startswith("plan ") for l in r.log):
                    b.fail("abort-ignored", r, what + ": exit status 0")
                if sorted(got) != sorted(want.items()):
                    b.fail("wrong-digests", r, what + ": exit status 0 with %s" % got)
            else:
                if got and any(l.startswith("plan ") for l in r.log):
                    b.fail("digest-after-abort", r, what + ": a digest was printed")
                c.stat("signals while a pipe is read")
            b.note("pipe", t, n, p, str(env), r.rc)
            if i % 40 == 0:
                c.sample("%s: rc %s, %r" % (what, r.rc, r.out[-30:]))
        c.parallel([lambda i=i: piped(i) for i in range(120 if q else 1500)])

        # a timer
        def timed(i):
            rg = random.Random("T04 %d %d" % (c.seed, i))
            t = rg.choice([FBO, EVPO, FB, EVP])
            size = rg.choice([0, 1000, 50000, 400000, 2000000, 6000000])
            path, dig = b.file(size, 4)
            ts = rg.sample(NAMES, rg.randint(1, 5))
            us = int(10 ** rg.uniform(1, 5.0))
            env = {"VH_TIMER": str(us)}
            if rg.random() < .4:
                env["VH_TIMER2"] = str(us + int(10 ** rg.uniform(0, 4)))
            if rg.random() < .3:
                env["VH_SHORTSEED"] = str(i + 1)
            p = rg.choice([None, "512", "4096", "100000"])
            if p == "512" and size > 400000:
                p = None
            r = b.run(t, (["-p", p] if p else []) + ["-d", ",".join(ts), path], env)
            if not b.base(r, ok_signals=(signal.SIGINT,)):
                return
            got = lines_ok(b, r, dig, ts, "SIGINT after %d us" % us)
            if r.rc == 0:
                c.stat("timers too late")
                if sorted(got) != sorted(wantset(ts, dig).items()):
                    b.fail("wrong-digests", r, "exit status 0 with %s" % got)
                if r.aborted():
                    b.fail("abort-ignored", r, "says ABORTED, exit status 0")
                return b.c.count(1)
            if r.rc == -signal.SIGINT:
                c.stat("signals taken outside the handler's time")
            else:
                c.stat("signals taken by the handler")
                # A second signal finds the input open as descriptor 0, which the
                # first one freed: the handler closes it and the tool says so.
                own = b"libcfile: close failed" in r.err
                if own:
                    c.stat("signals that closed the input itself")
                elif not r.aborted():
                    b.fail("abort-not-reported", r, "SIGINT after %d us: no word of it on standard output" % us)
                if got and len(got) != len(wantset(ts, dig)):
                    b.fail("partial-output", r, "aborted between the digests")
                b.clean(r, errors=False)
            b.note("timer", t, size, us, tuple(ts))
        c.parallel([lambda i=i: timed(i) for i in range(1200 if q else 12000)])

        # while it writes
        def writing(i):
            rg = random.Random("T04w %d %d" % (c.seed, i))
            t = rg.choice([FBO, EVP])
            path, dig = b.file(2000, 5)
            rd, wr = os.pipe()
            import fcntl
            fcntl.fcntl(wr, 1031, 4096)
            k = rg.randint(1, 420)
            os.write(wr, b"." * (4096 - k) if k < 4096 else b"")
            rep = "%s/wrep%d" % (b.dir, i)
            e = dict(os.environ); e.update(SAN_ENV)
            p = subprocess.Popen([b.exe[t], "-d", ",".join(NAMES), path], env=e, stdin=subprocess.DEVNULL, stdout=wr, stderr=subprocess.PIPE, cwd=b.dir)
            os.close(wr)
            # until it sleeps in its write
            end = time.time() + 20
            blocked = False
            while time.time() < end and p.poll() is None:
                try:
                    st = open("/proc/%d/stat" % p.pid).read().rsplit(")", 1)[1].split()
                    wch = ["?"]
                    wch = open("/proc/%d/syscall" % p.pid).read().split() if os.access("/proc/%d/syscall" % p.pid, os.R_OK) else ["1"]
                except (OSError, IndexError):
                    pass
                if wch == ["?"]:
                    time.sleep(.03); wch = ["1"]   # not readable here: give it time instead
                if st[0] == "S" and wch[0] == "1":
                    blocked = True
                    break
                time.sleep(.002)
            if p.poll() is None:
                p.send_signal(signal.SIGINT)
            time.sleep(.003)
            out = b""
            while True:
                d = os.read(rd, 65536)
                if not d:
                    break
                out += d
            os.close(rd)
            r = Run()
            r.err = p.stderr.read(); p.stderr.close()
            try:
                r.rc = p.wait(30)
            except subprocess.TimeoutExpired:
                p.kill(); p.wait(); r.rc = None
            r.out = out.lstrip(b".")
            r.tool, r.args, r.env, r.log, r.report = t, ["-d", ",".join(NAMES), path], {"pipe": k}, [], {}
            if not b.base(r, ok_signals=(signal.SIGINT,)):
                return
            got = lines_ok(b, r, dig, NAMES, "SIGINT while output waits after %d bytes" % k)
            if not blocked:
                return c.stat("output did not wait")
            c.stat("signals while output waits")
            if r.rc == 0:
                b.fail("abort-ignored", r, "SIGINT while output waits: exit status 0")
            if r.rc > 0 and not r.aborted() and not r.err.strip():
                b.fail("abort-not-reported", r, "SIGINT while output waits: no word of it, nor of an output that failed")
            b.note("pipe", t, k, r.rc)
        c.parallel([lambda i=i: writing(i) for i in range(60 if q else 1500)])
        if not c.stats.get("signals taken by the handler"):
            c.error("no timer signal was taken by the handler")
    bench(c, tools, body)
    return c.finish()


PRE = {"": 0, "k": 1, "m": 2, "g": 3, "t": 4, "p": 5, "e": 6, "z": 7, "y": 8}


def sizeof(s, point="."):
    """With the decimal point of the locale."""
    if point == ".":
        return sizeof_c(s)
    if "." in s:
        return "bad" if re.match(r"\d+(%s\d*)? ?[kKmMgGtTpPeEzZyY]?\." % re.escape(point), s) else None
    return sizeof_c(s.replace(point, "."))


def sizeof_c(s):
    """Value of a well-formed size, (least, most) for one with a fraction, 'bad' for one with no known unit, None where nothing is claimed."""
    m = re.fullmatch(r"(\d+)( ?)([kKmMgGtTpPeEzZyY]?)(iB|B|)", s)
    if m:
        return int(m.group(1).lstrip("0")[:200] or "0") * (1000 if m.group(4) == "B" else 1024) ** PRE[m.group(3).lower()]
    m = re.fullmatch(r"(\d+)\.(\d*)( ?)([kKmMgGtTpPeEzZyY]?)(iB|B|)", s)
    if m:
        n, u, dec = int(m.group(1)), PRE[m.group(4).lower()], m.group(5) == "B"
        k = (1000 if dec else 1024) ** u
        if dec and u and 1 <= len(m.group(2)) <= 2:
            v = n * k + int(m.group(2).ljust(2, "0")) * k // 100
            return (v, v)
        return (n * k, (n + 1) * k - 1)
    m = re.fullmatch(r"(\d+) ?([kKmMgGtTpPeEzZyY]?)([^kKmMgGtTpPeEzZyYiB0-9. ].*)", s, re.S)
    if m:
        return "bad"
    return None


def T05():
    c = Check("T05", "exploration", "sizes built from digits, optional space, every unit letter and both unit systems, around every power of ten and two, overflowing ones included; unknown units; the effective size is the first read request on a sparse file; non-trivial: distinct size texts", ASSUME)
    q = c.quick
    rng = random.Random("T05 %d" % c.seed)
    tools = [FBO, FB, EVPO, DBG]
    MAX = (1 << 63) - 1

    def body(b):
        big = b.dir + "/sparse"
        with open(big, "wb") as f:
            f.truncate(1 << 40)
        texts = set()
        for n in [0, 1, 2, 3, 4, 5, 7, 8, 9, 10, 15, 16, 17, 99, 100, 255, 256, 999, 1000, 1023, 1024, 1025, 32767, 32768, 32769, 65536, 999999, 1000000, 1048576, 16777216, 99999999]:
            for sp in ("", " "):
                for u in ("", "k", "K", "m", "M", "g", "G"):
                    for y in ("", "B", "iB"):
                        texts.add("%d%s%s%s" % (n, sp, u, y))
        for u in "kKmMgGtTpPeEzZyY":
            for y in ("", "B", "iB"):
                for n in (0, 1, 2, 3, 7, 8, 9, 15, 16, 17, 18, 19, 31, 32, 63, 64, 100, 1000, 1024, 8191, 8192, 16383, 16384, 9007199254740992, 17592186044416, 17179869184):
                    texts.add("%d%s%s" % (n, u, y))
        for e in range(1, 70):
            for d in (-1, 0, 1):
                texts.add(str((1 << e) + d))
                texts.add(str(10 ** (e // 3) + d))
                texts.add(str((1 << 64) + (1 << (e % 20)) + d))
        for d in range(0, 200, 7):
            texts.add(str((1 << 64) + d)); texts.add(str((1 << 63) - 100 + d)); texts.add(str(3 * (1 << 64) + 4096 + d))
        texts |= {"0" * k + "4096" for k in (1, 5, 20, 60, 200, 252, 255, 256, 257, 1000, 4095, 32767, 65530, 65532, 65535, 65536, 65537, 100000)}
        texts |= {"0" * k + t for k in (120, 250, 251, 252, 253, 254, 255, 256, 500, 65533, 65534, 65535, 65536) for t in ("7k", "3 kB", "12MiB", "1g", "4096x", "9" * 25)}
        texts |= {"9" * k for k in (255, 256, 257, 300, 65535, 65536, 65537)} | {"4096" + "0" * k for k in (252, 256, 65532)} | {"4096" + x * k for k in (252, 256, 65532) for x in ("x", "q")}
        texts |= {"9" * k for k in range(1, 40)} | {"18446744073709551616k", "18014398509481985k", "18014398509481984KiB", "36028797018963968kB"}
        for u in "xqQbiawrnsSvVcCdD$%/+-*#@~_?":
            for n in (1, 4096):
                texts.add("%d%s" % (n, u)); texts.add("%d%sB" % (n, u)); texts.add("%d %s" % (n, u))
        for _ in range(1500 if q else 20000):
            texts.add("%d%s%s%s" % (int(2 ** rng.uniform(0, 34)), rng.choice(["", "", " "]), rng.choice(["", "", "", "k", "K", "m", "M", "g", "T", "P", "E"]), rng.choice(["", "B", "iB"])))
        for n in (0, 1, 2, 7, 9, 10, 99, 100, 1000, 1023, 1024):
            for f in ("", "0", "1", "5", "9", "00", "01", "05", "09", "10", "25", "50", "90", "99", "999", "000001", "5" * 300):
                for u in ("", "k", "M", "kB", "MB", "kiB", " KiB", "GB", "B", "T", "EB"):
                    if rng.random() < (.25 if q else 1):
                        texts.add("%d.%s%s" % (n, f, u))
        for u in ("kB", "k", "MiB", "GB", "EB", "EiB", "ZB", "P"):
            k = (1000 if u[-1] == "B" and "i" not in u else 1024) ** PRE[u[0].lower()]
            for d in (-2, -1, 0, 1):
                for f in ("5", "99", "01", "615", "0", ""):
                    if (1 << 64) // k + d >= 0:
                        texts.add("%d.%s%s" % ((1 << 64) // k + d, f, u))
        texts = [(t, ".") for t in sorted(t for t in texts if not t.startswith("-"))]
        # the decimal points of other locales
        frac = [t for t, _ in texts if "." in t]
        for j, t in enumerate(frac):
            p = [",", ",", "'", "\udcd9"][(j + c.seed) % 4]
            if j % 3 != 1:
                texts.append((t.replace(".", p), p))
            if j % 3 != 2:
                texts.append((t, p))
        texts += [(t, p) for p in (",", "fail") for t in ("1", "4096", "7k", "12 kB", "3MiB", "1g", "0", "99999999999999999999", "12x", "5kb")]

        def one(i, sp):
            s, point = sp
            w = sizeof(s, point)
            small = isinstance(w, str) or w is None or (w[1] if isinstance(w, tuple) else w) < (1 << 30)
            t = FB if i % 11 == 0 and small else DBG if i % 23 == 1 and small else (FBO if i % 2 else EVPO)
            r = b.run(t, ["-p", s, big] if i % 2 else ["-p" + s, big], dict({"VH_PLAN": "read:1:err"}, **({} if point == "." else {"VH_DECIMAL": point})))
            if not b.base(r):
                return
            got = [int(l.split()[1]) for l in r.log if l.startswith("want ")]
            eff = got[0] if got else None
            if r.rc == 0 or r.any_digest():
                b.fail("fault-ignored", r, "read fails, exit status %d" % r.rc)
            b.note(s, point)
            if w is None:
                return
            if not r.err.strip():
                b.fail("silent", r, "no diagnostic")
            c.stat("sizes in another locale", point != ".")
            if point == "fail" and (eff is None or (eff == 32768 and b"32768" in r.err)):
                return
            if w == "bad":
                if eff is not None and not (eff == 32768 and b"32768" in r.err):
                    b.fail("bad-size-accepted", r, "%r has no known unit and gave %s" % (s, eff))
                c.stat("unknown units")
            elif isinstance(w, tuple):
                # zero, too large and refused memory as for a whole number
                fine = eff is not None and w[0] <= eff <= w[1] and eff <= MAX
                if not fine and w[1] <= MAX and w[1] <= (1 << 30) and w[0] > 0:
                    b.fail("wrong-size", r, "%r is %d to %d and gave %s" % (s, w[0], w[1], eff))
                if not fine and eff is not None and not (eff == 32768 and b"32768" in r.err) and not (eff == 1 << 40 and w[1] > eff):
                    b.fail("wrong-size", r, "%r is %d to %d and gave %s" % (s, w[0], w[1], eff))
                c.stat("fractions")
            elif w == 0:
                if eff is not None and not (eff == 32768 and b"32768" in r.err):
                    b.fail("zero-size", r, "%r gave %s" % (s, eff))
                c.stat("zero sizes")
            elif w > MAX:
                if eff is not None and not (eff == 32768 and b"32768" in r.err):
                    b.fail("overflow-accepted", r, "%r is %d and gave %s without saying so" % (s, w, eff))
                c.stat("overflowing sizes")
            elif w <= (1 << 30):
                if eff != w:
                    b.fail("wrong-size", r, "%r is %d and gave %s" % (s, w, eff))
                c.stat("sizes compared")
            else:
                # memory may be refused; it may not be another size
                if eff is not None and eff != min(w, 1 << 40) and not (eff == 32768 and b"32768" in r.err):
                    b.fail("wrong-size", r, "%r is %d and gave %s" % (s, w, eff))
                c.stat("sizes beyond 1 GiB")
            if i % 150 == 0:
                c.sample("-p %r: expected %s, read request %s, rc %d" % (s, w, eff, r.rc))
        c.parallel([lambda x=x: one(*x) for x in enumerate(texts)])
        # the default, and sizes in real use
        r = b.run(FBO, [big], {"VH_PLAN": "read:1:err"})
        if [l for l in r.log if l.startswith("want ")][:1] != ["want 32768"]:
            b.fail("wrong-size", r, "default buffer is not 32768")
        path, dig = b.file(300000, 0)
        for s in ("1", "4096", "32768", "32 k", "100kB", "1M", "2MiB", "300000", "299999", "300001", "1g"):
            if s == "1":
                path2, dig2 = b.file(3000, 0)
                exact(b, b.run(FB, ["-p", s, path2]), wantset([], dig2), "-p " + s)
                continue
            exact(b, b.run(FB, ["-p", s, path]), wantset([], dig), "-p " + s)
            b.note("use", s)
        if not c.stats.get("sizes compared") or not c.stats.get("overflowing sizes"):
            c.error("sizes were not observed")
    bench(c, tools, body)
    guided(c, [("size", 4)], ["fb", "dbg"])
    return c.finish()


def getopt_model(args, perm=True):
    """('help'|'version'|'error'|'run', d, p, source or None)"""
    d = p = None
    rest, i = [], 0
    while i < len(args):
        a = args[i]
        if a == "--" or (not perm and a.startswith("--")):
            rest += args[i + 1:]
            break
        if len(a) > 1 and a[0] == "-":
            j = 1
            while j < len(a):
                ch = a[j]
                if ch == "h":
                    return "help", d, p, None
                if ch == "V":
                    return "version", d, p, None
                if ch == "v":
                    j += 1
                    continue
                if ch in "dp":
                    if j + 1 < len(a):
                        v = a[j + 1:]
                    elif i + 1 < len(args):
                        i += 1
                        v = args[i]
                    else:
                        return "error", d, p, None
                    if ch == "d":
                        d = v
                    else:
                        p = v
                    break
                return "error", d, p, None
            i += 1
            continue
        if not perm:
            if a == "-":
                return "either", d, p, args[i]
            rest += args[i:]
            break
        rest.append(a)
        i += 1
    return "run", d, p, rest[0] if rest else None


def T06():
    c = Check("T06", "exploration", "random argument vectors (options grouped, joined, repeated, missing arguments, hostile texts, missing and several sources) with and without the C library's getopt; monitors: sanitizers with every argument in an exact heap block, exit status against a model of the command line, blocks, errors and descriptors left; non-trivial: distinct argument vectors", ASSUME)
    q = c.quick
    tools = [FB, EVP, NOGET, FBO, DBG, UCHAR]

    def body(b):
        path, dig = b.file(999, 1)
        path2, dig2 = b.file(70000, 1)
        base = os.path.basename(path)
        FIX = [[], ["-h"], ["-V"], ["-v"], ["-"], ["--"], ["-d"], ["-p"], ["-x"], ["-hV"], ["-Vh"], ["-xh"], ["-vh"], ["-hx"], ["--help"], ["-?"], ["-:"], [""], ["-d", "", path], ["-p", "", path],
               ["--", path], ["--", "-h"], ["-", path], [path, "-"], ["-v", path], ["-vvv", path], ["-v", "-d", "sha1", path], ["-vd", "sha1", path], ["-vdsha1", path], ["-d", "sha1", "-p", "64", path],
               ["-dsha1", "-p64", path], ["-d", "-h", path], ["-p", "-h", path], ["-p-1", path], ["-p", "-1", path], [path, path2], [path, "nothere"], ["nothere", path], ["-d", path], ["-d", "sha1", "-d", "sha256", path],
               ["-h", "-d"], ["-d", "sha1"], ["-v" * 1, "-x", path], ["-d:", path], ["-d,", path], ["-d" + "," * 3000, path], ["-d" + "sha1," * 3000, path], ["-p" + "9" * 3000, path], ["-p" + "0" * 3000 + "1k", path],
               ["x" * 100000], ["-" + "v" * 5000, path], ["-" + "v" * 5000 + "h"], ["%s%s%n"], ["-d%n%s", path], ["-%"], ["-v%", path], ["-é"], ["-\xff"], ["-p", "1.", path], ["-p", "1.5", path], ["-p", "1.55k", path],
               ["-p", ".", path], ["-p", " ", path], ["-p", "k", path], ["-p", "i", path], ["-p", "B", path], ["-p", "1i", path], ["-p", "1ki", path], ["-p", "1 ", path], ["-p", "1. ", path], ["-p", "1.9999999999B", path], ["-p", "1.5yB", path]]

        def gen(i):
            rg = random.Random("T06 %d %d" % (c.seed, i))
            alpha = "dhpvVx-:?,.09kKB i%s\xe9\n"
            n = rg.randint(0, 6)
            a = []
            for _ in range(n):
                k = rg.random()
                if k < .25:
                    a.append(rg.choice([path, path2, base, "nothere", b.dir, "", "/dev/null"]))
                elif k < .5:
                    a.append("-" + "".join(rg.choice("dpvvvhVx:?-" if rg.random() < .3 else "dpv") for _ in range(rg.randint(0, 4))))
                elif k < .65:
                    a += ["-d", ",".join(rg.choice(list(BYNAME) + ["", "x", "sha", "sha1 "]) for _ in range(rg.randint(0, 6)))]
                elif k < .8:
                    a += ["-p", rg.choice(["1", "64", "100", "1k", "1kB", "1 k", "2MiB", "0", "-1", "", "k", "1x", "9" * 25, "1.5k", "1.", ".5", "1.99iB", "1i", "16E", "1y", "7.77MB", "1..1", "1 1"])]
                else:
                    a.append("".join(rg.choice(alpha) for _ in range(rg.randint(0, 12))))
            return [x.replace("\0", "") for x in a]

        def one(i, a):
            t = [FB, NOGET, EVP, FBO, DBG, UCHAR][i % 6]
            small = [x for x in a]
            enc = [x.encode("utf8", "surrogateescape") if not isinstance(x, bytes) else x for x in a]
            r = b.run(t, [e.decode("utf8", "surrogateescape") for e in enc])
            b.note(len(t) == 3, tuple(a))
            if not b.base(r):
                return
            if r.rc not in (0, 1):
                b.fail("exit-status", r, "exit status %d" % r.rc)
            if r.report:
                b.clean(r)
            kind, d, p, src = getopt_model(a, perm=len(t) < 3)
            c.stat("command lines: " + kind)
            if kind in ("help", "version"):
                if r.rc != 0 or r.any_digest() or len(r.out) < 60:
                    b.fail("help", r, "%s: exit status %d, %d bytes on standard output" % (kind, r.rc, len(r.out)))
                elif kind == "help" and not all(re.search(rb"(^|\s)" + o + rb"\b", r.out) for o in (b"-d", b"-h", b"-p", b"-v", b"-V")):
                    b.fail("help", r, "the help does not name every option")
                elif kind == "version" and not re.search(rb"\bhmacsum\s+%s\b" % vb.version().encode(), r.out):
                    b.fail("version", r, "the version printed is not %s" % vb.version())
            elif kind == "error" or (kind == "run" and src is None):
                if r.rc == 0 or r.any_digest():
                    b.fail("bad-command-accepted", r, "%s, source %s: exit status %d" % (kind, src, r.rc))
                if not r.err.strip():
                    b.fail("silent", r, "no diagnostic")
            elif kind == "run":
                full = os.path.join(b.dir, src) if src else src
                readable = bool(src) and os.path.exists(full) and not os.path.isdir(full)
                if not readable:
                    if r.rc == 0 or r.any_digest():
                        b.fail("bad-command-accepted", r, "source %r: exit status %d" % (src[-30:], r.rc))
                    return
                w = 32768 if p is None else sizeof(p)
                data = open(full, "rb").read()
                types = [BYNAME[x] for x in (d or "").split(",") if x in BYNAME]
                want = {n: hashlib.new(n, data).hexdigest() for n in set(types) | {"md5"}}
                if r.rc == 0:
                    exact(b, r, want, "command line")
                    if w == "bad" and b"32768" not in r.err:
                        b.fail("bad-command-accepted", r, "size %r: exit status 0" % p)
                else:
                    if r.any_digest():
                        b.fail("digest-and-failure", r, "digests, and exit status %d" % r.rc)
                    unknown = d is not None and any(x not in BYNAME for x in d.split(",") if x)
                    if isinstance(w, int) and 0 < w <= (1 << 28) and not unknown:
                        b.fail("refused", r, "a good command line: exit status %d" % r.rc)
            if i % 120 == 0:
                c.sample("%s -> %s, rc %d" % (str(a)[:150], kind, r.rc))
        # counters that need more than 5, 7, 8, 15 or 16 bits
        for n in (31, 32, 33, 39, 40, 41, 50, 64, 127, 128, 129, 200, 255, 256, 257, 300, 1000, 5000, 40000):
            FIX += [["-v"] * n + ["-d", "sha1", path], ["-d", "sha1", "-p", "64"] + ["-v"] * n + [path], ["-" + "v" * n, "-dsha256", path], ["-d", "sha224", "-" + "v" * n + "p", "1k", path], ["-d", "sha512", "-p100", "-" + "v" * n, path],
                    ["-d", "md5"] * n + ["-d", "sha256", path], ["-p", "64"] * n + ["-d", "sha1", "-p", "128", path], ["-v"] * n, ["-v"] * n + ["-h"], ["-v"] * n + ["-x", path], ["-d", "sha1"] + [path] * n, [path] + ["-v"] * n]
        cases = [(k * 4 + j, f) for k, f in enumerate(FIX) for j in range(4)]
        cases += [(10000 + i, gen(i)) for i in range(6000 if q else 40000)]
        c.parallel([lambda x=x: one(*x) for x in cases])
        # resources of successful runs, many shapes
        for t in (FB, EVP):
            for types in ("md5", "sha1", "sha224", "sha256", "sha512", ",".join(NAMES)):
                for size in (0, 1, 40000):
                    p, dg = b.file(size, 0)
                    r = b.run(t, ["-d", types, p])
                    exact(b, r, wantset(types.split(","), dg), "plain run")
                    b.clean(r)
                    b.note("plain", t, types, size)
                    if not r.report.get("allocs"):
                        c.error("no allocation of the program was seen")
    bench(c, tools, body)
    return c.finish()


def T07():
    c = Check("T07", "fault_enumeration", "every allocation of a run fails in turn (once, and all from there on), every crypto provider call likewise, for all digest sets, with and without -p and -d; monitors: sanitizers, exit status, output, blocks, provider contexts, error objects and descriptors left; non-trivial: distinct (command line, fault) really injected", ASSUME)
    q = c.quick
    tools = [FB, EVP, OSSL, FBO] + ([] if q else [FBR, EVPX, MIX] + ([EVPOLD] if vb.have("evpold") else []))

    def body(b):
        path, dig = b.file(1500, 1)
        path2, _ = b.file(70000, 1)
        subs = [[]] + [[n] for n in NAMES[1:]] + [["sha1", "sha256"], ["sha224", "sha512"], NAMES] if q else [list(s) for k in range(0, 6) for s in itertools.combinations(NAMES, k)]
        jobs = []
        for t in tools:
            for sub in subs:
                for p in (None, "100"):
                    args = (["-d", ",".join(sub)] if sub else []) + (["-p", p] if p else []) + [path if p else path2]
                    r = b.run(t, args)
                    if not b.base(r) or r.rc != 0:
                        b.fail("refused", r, "fault-free run fails")
                        continue
                    b.clean(r)
                    for k in range(1, r.report.get("allocs", 0) + 1):
                        for plus in ("", "+"):
                            jobs.append((t, args, {"VH_FAIL_AT": "%d%s" % (k, plus)}))
                    n = r.report.get("crypto", 0)
                    for k in range(1, n + 1):
                        if n > 60 and 12 < k < n - 12 and k % (11 if q else 3):
                            continue
                        for plus in ("", "+"):
                            jobs.append((t, args, {"VH_FAIL_CRYPTO": "%d%s" % (k, plus)}))

        def one(t, args, env):
            r = b.run(t, args, env)
            if not b.base(r):
                return
            if not r.report.get("fired"):
                return c.stat("faults that found no such call")
            alloc = "VH_FAIL_AT" in env
            c.stat("allocation failures injected" if alloc else "provider failures injected")
            b.note(t, tuple(args), str(env))
            if r.rc == 0:
                b.fail("fault-ignored", r, "exit status 0")
            if r.any_digest():
                b.fail("digest-after-fault", r, "a digest was printed")
            if not r.err.strip():
                b.fail("silent-failure", r, "nothing on standard error")
            b.clean(r)
            if len(b.seen) % 100 == 0:
                c.sample("%s %s: rc %d, left %s" % (args[:-1], env, r.rc, {k: r.report.get(k) for k in ("blocks", "evp", "errors", "fds")}))
        c.parallel([lambda j=j: one(*j) for j in jobs])
        if not c.stats.get("allocation failures injected") or not c.stats.get("provider failures injected"):
            c.error("no faults were injected")
    bench(c, tools, body)
    return c.finish({"exhaustive": not q})


def T08():
    c = Check("T08", "exploration", "random histories of calls on a sum handle (types, buffer size, open, close, read, begin, update, finish, process, abort, refused calls; a quarter of them with failing files, memory and provider calls), sizes and size texts over all of 64 bits, digest strings into places of every size; non-trivial: distinct (types, data) whose printed values were compared, distinct sizes, texts and digests", ASSUME)
    q = c.quick
    n = 24000 if q else 240000
    plan = []
    for cfg, san, share in (("fb", "asan", 1), ("evp", "asan", 1), ("fb", "o2", 3), ("evp", "o2", 3), ("ossl", "o2", 1), ("fb", "msan", .5), ("fb", "asang", .5)):
        plan.append((cfg, san, ["sum", "n=%d" % int(n * share)]))
    plan.append(("dbg", "asan", ["sum", "n=%d" % (n // 2)]))
    plan.append(("dbg", "asan", ["sizes", "n=%d" % n]))
    plan.append(("fb", "uchar", ["sizes", "n=%d" % (n * 10)]))
    for san in ("asan", "msan", "o2"):
        plan.append(("fb", san, ["sizes", "n=%d" % (n * 10)]))
        plan.append(("fb", san, ["hexstr", "n=%d" % (n * 3)]))
    links = {p: vb.start_sum(p[0], p[1], ["d_digest.c", "d_api.c", "d_threads.c"]) for p in {(p[0], p[1]) for p in plan}}
    top = tempfile.mkdtemp(prefix="vh-sum-")

    def job(i, p):
        d = os.path.join(top, str(i))
        os.mkdir(d)
        c.driver("%s/%s %s" % (p[0], p[1], " ".join(p[2])), links[(p[0], p[1])](), p[2] + ["dir=" + d], tag="%s/%s" % (p[0], p[1]))
    try:
        c.parallel([lambda i=i, p=p: job(i, p) for i, p in enumerate(plan)])
    finally:
        shutil.rmtree(top, ignore_errors=True)
    guided(c, [("sum", 2), ("size", 1), ("types", 1)], ["fb", "evp"])
    return c.finish()


def T09():
    c = Check("T09", "exploration", "the built-in option parser on random argument vectors (groups, joined and separate arguments, unknown options, empty and hostile ones) x option strings, each argument in an exact heap block, every call judged by a model; random attach, detach and raise of SIGINT; output modes and version texts; non-trivial: distinct (arguments, option string)", ASSUME)
    q = c.quick
    n = 400000 if q else 6000000
    plan = [(("fb", san, ["d_digest.c", "d_api.c", "d_threads.c"], False), ["getopt", "n=%d" % (n * (4 if san in ("o2", "uchar") else 1))]) for san in ("asan", "msan", "o2", "asang", "uchar")]
    plan += [(("fb", san, ["d_digest.c", "d_api.c", "d_threads.c"], go), ["parts", "n=%d" % (n // 20), "ver=" + vb.version()]) for san, go in (("asan", True), ("o2", True), ("msan", True), ("asan", False))]
    keys = {(p[0][1], p[0][3]): p[0] for p in plan}
    links = {k: vb.start_sum(*a) for k, a in keys.items()}
    c.parallel([lambda p=p: c.driver("%s/%s %s" % (p[0][0], p[0][1], " ".join(p[1])), links[(p[0][1], p[0][3])](), p[1], tag="%s/%s%s" % (p[0][0], p[0][1], "" if p[0][3] else " without getopt")) for p in plan])
    if not c.viol and not c.errors and not (c.stats.get("options with an argument") and c.stats.get("signals delivered")):
        c.error("no options or signals were observed")
    guided(c, [("getopt", 8)], ["fb"])
    return c.finish()


GSEEDS = {"types": [b"md5,sha1,sha-224,SHA256,sha_512", b"SHA512,,md5", b"sha_1", b"SHA-224", b"sha256,x"],
          "size": [b"0010 KiB", b"4096", b"3MB", b"18446744073709551615", b"7x", b"16e"],
          "getopt": [b"d:hp:vV".translate(bytes.maketrans(b"d:hp:vV", bytes([3, 13, 4, 5, 13, 6, 7]))) + b"\0-d\0md5\0-vV\0-p64\0file\0", bytes([0, 13, 1]) + b"\0-ab\0--\0-a"],
          "sum": [bytes(range(256)), bytes(300), bytes((i * 37 + 11) & 255 for i in range(500))]}


def guided(c, kinds, cfgs, secs=5):
    secs = secs if c.quick else secs * 30
    links = {cfg: vb.start_guided(cfg, tool=True) for cfg in cfgs}
    jobs = [(k, cfg, i) for k, n in kinds for cfg in cfgs for i in range(n)]
    c.parallel([lambda j=j: c.fuzz("%s/fuzz %s" % (j[1], j[0]), links[j[1]](), secs, {"VH_GUIDE": j[0]}, GSEEDS[j[0]], ["-max_len=%d" % (60 if j[2] % 2 else 400), "-seed=%d" % (c.seed * 10 + j[2] + 1)], tag="%s/fuzz" % j[1]) for j in jobs])


def setup():
    links = [vb.start_tool(*k) for k in (FB, FBR, EVP, OSSL, FBO, EVPO, NOGET)]
    for f in links:
        f()
