"""Workloads and monitors for the Python module, run in an interpreter of its
own: python3 py_driver.py <mode> key=value ...; reports FAIL/STAT/SAMPLE/END."""
import ctypes, gc, glob, hashlib, hmac, os, random, sys, threading, weakref

OPT = {}
for a in sys.argv[2:]:
    k, _, v = a.partition("=")
    OPT[k] = v
MODE = sys.argv[1]
SEED = int(OPT.get("seed", "1"))
N = int(OPT.get("n", "100"))
NAMES = ["md5", "sha1", "sha224", "sha256", "sha512"]
stats, nfail = {}, {}
distinct = set()
casefd = os.open(os.environ["VH_CASE"], os.O_RDWR | os.O_CREAT, 0o600) if "VH_CASE" in os.environ else -1


def case(s):
    if casefd >= 0:
        os.pwrite(casefd, s.encode("utf8", "replace")[:500] + b"\0", 0)


def out(*f):
    sys.stdout.write("\t".join(str(x).replace("\n", " ").replace("\t", " ") for x in f) + "\n")
    sys.stdout.flush()


def fail(key, text):
    nfail[key] = nfail.get(key, 0) + 1
    if nfail[key] <= 3:
        out("FAIL", key, text[:900])


def stat(k, n=1):
    stats[k] = stats.get(k, 0) + n


def seen(*key):
    stat("evaluations")
    distinct.add(key)


def end():
    out("STAT", "distinct", len(distinct))
    for k, v in stats.items():
        out("STAT", k, v)
    out("END")


case("importing")
import pyhmac
SO = ctypes.CDLL(pyhmac.__file__)
HAVE = hasattr(SO, "vh_py_fired")
for f in ("vh_live_blocks", "vh_live_evp", "vh_cerror_live", "vh_alloc_count", "vh_crypto_count", "vh_faults_fired", "vh_total_allocs", "vh_py_fired", "vh_py_locks"):
    if HAVE:
        getattr(SO, f).restype = ctypes.c_long
if HAVE:
    SO.vh_fault_arm.argtypes = [ctypes.c_long, ctypes.c_long, ctypes.c_int]
    SO.vh_py_arm.argtypes = [ctypes.c_long, ctypes.c_int]


def live():
    return (SO.vh_live_blocks(), SO.vh_live_evp(), SO.vh_cerror_live(), SO.vh_py_locks()) if HAVE else (0, 0, 0, 0)


def calc(a): return getattr(pyhmac, a + "_calculate")
def mac(a): return getattr(pyhmac, a + "_calculate_hmac")
def ctx(a): return getattr(pyhmac, a + "_context")
def ref(a, d): return hashlib.new(a, d).digest()
def rmac(a, k, d): return hmac.new(k, d, a).digest()


class SubBytes(bytes):
    pass


class LyingBytes(bytes):
    def __len__(self): return 1 << 40
    def __getitem__(self, i): return 0
    def __iter__(self): raise RuntimeError("iterated")
    def __bytes__(self): return b"other"
    def __buffer__(self, flags): raise RuntimeError("buffer")


def rnd_size(rng):
    r = rng.random()
    if r < .3:
        return rng.randint(0, 20)
    if r < .75:
        return max(0, rng.choice([55, 56, 63, 64, 111, 112, 127, 128, 192, 256]) + rng.randint(-2, 2))
    if r < .95:
        return rng.randint(0, 3000)
    return rng.randint(0, 200000)


def good(a, rng, why):
    """The module still works."""
    d = rng.randbytes(rng.randint(0, 200)); k = rng.randbytes(rng.randint(0, 150))
    if calc(a)(d) != ref(a, d) or mac(a)(k, d) != rmac(a, k, d):
        fail("broken-afterwards", "%s: wrong digest afterwards" % why)
    c = ctx(a)(); c.update(d); c.update(k)
    if c.finalize() != ref(a, d + k):
        fail("broken-afterwards", "%s: wrong context digest afterwards" % why)


# ------------------------------------------------------------------ values
MARKS = [b"\xef\xbb\xbf", b"\xff\xfe", b"\xfe\xff", b"\x1f\x8b\x08", b"PK\x03\x04", b"\x7fELF", b"%PDF", b"#!/", b"\0", b"\0\0\0\0", b"\xff", b"\x80", b" ", b"\n", b"\r\n", b"\r", b"\x1a", b"=", b"'", b'"', b"\\", b"b'", b"0x", b"{", b"\xc3\xa9", b"\xed\xa0\x80", b"\xf0\x9f\x98\x80", b"%s", b"\0\0"]


def lifelike(rng, n):
    """Random bytes, half of them made to look like text or with marks of formats at the ends."""
    d = bytearray(rng.randbytes(n))
    w = rng.randint(0, 9)
    if w == 0:
        d = bytearray(32 + x % 95 for x in d)
    elif w == 1 and n:
        c = rng.randrange(n)
        d[c:c + rng.randint(1, 300)] = bytes(min(n, c + rng.randint(1, 300)) - c)
        d = d[:n]
    elif w == 2:
        d = bytearray("\u00e9\u20ac\U0001f600a" .encode() * (n // 10 + 1))[:n]
    elif w == 3:
        d = bytearray(rng.choice([b"\0", b"\xff", b"\n", b"\x80"]) * n)
    if w < 5:
        m = rng.choice(MARKS)
        if len(m) <= n:
            if rng.random() < .5:
                d[:len(m)] = m
            else:
                d[n - len(m):] = m
    return bytes(d)


def m_values():
    rng = random.Random("values %d %s" % (SEED, OPT.get("alg")))
    if pyhmac.get_version() != OPT["version"]:
        fail("version", "get_version() is %r, the sources are %s" % (pyhmac.get_version(), OPT["version"]))
    for a in [OPT["alg"]] if "alg" in OPT else NAMES:
        sizes = list(range(0, 300)) + [1000, 4096, 65536, 1 << 20] + [rnd_size(rng) for _ in range(N)]
        for s in sizes:
            d = lifelike(rng, s)
            keep = bytearray(d)
            kind = rng.randint(0, 2)
            arg = [d, SubBytes(d), LyingBytes(d)][kind]
            case("%s of %d bytes, kind %d" % (a, s, kind))
            g = calc(a)(data=arg) if rng.random() < .3 else calc(a)(arg)
            if type(g) is not bytes or g != ref(a, d):
                fail("wrong-digest", "%s_calculate of %d bytes (%s) gave %r, want %s" % (a, s, d[:32].hex(), g, ref(a, d).hex()))
            if keep != d:
                fail("input-changed", "%s_calculate changed its data" % a)
            seen("d", a, d if s < 40 else hash(d))
            k = lifelike(rng, rnd_size(rng) if rng.random() < .5 else rng.randint(0, 300))
            kk = bytearray(k)
            case("%s hmac key %d data %d" % (a, len(k), s))
            karg = rng.choice([k, k, SubBytes(k), LyingBytes(k)])
            g = mac(a)(key=karg, data=arg) if rng.random() < .3 else mac(a)(karg, arg)
            if type(g) is not bytes or g != rmac(a, k, d):
                fail("wrong-hmac", "%s_calculate_hmac key %d data %d gave %r, want %s" % (a, len(k), s, g, rmac(a, k, d).hex()))
            if kk != k or keep != d:
                fail("input-changed", "%s_calculate_hmac changed its arguments" % a)
            seen("m", a, hash((k, d)))
            # streams, two at a time
            c1, c2 = ctx(a)(), ctx(a)()
            e = rng.randbytes(rng.randint(0, 300))
            i = j = 0
            cuts = []
            case("%s stream of %d bytes" % (a, s))
            while i < s or j < len(e):
                if i < s:
                    n = rng.choice([0, 1, rng.randint(1, 130), rng.randint(1, s), s - i])
                    if s > 5000 and n < 50:
                        n = s // 3
                    if c1.update(rng.choice([bytes, bytes, SubBytes, LyingBytes])(d[i:i + n])) is not None:
                        fail("update-result", "update returned something")
                    cuts.append(n)
                    i += n
                if j < len(e):
                    n = rng.randint(0, len(e))
                    c2.update(data=e[j:j + n])
                    j += n
                elif i < s and len(cuts) > 300:
                    c1.update(d[i:]); i = s
            g1, g2 = c1.finalize(), c2.finalize()
            if type(g1) is not bytes or g1 != ref(a, d):
                fail("wrong-stream-digest", "%s context over %d bytes in %s gave %r" % (a, s, cuts[:30], g1))
            if g2 != ref(a, e):
                fail("wrong-stream-digest", "%s second context over %d bytes gave %r" % (a, len(e), g2))
            seen("s", a, hash((d, tuple(cuts))))
            if stats["evaluations"] % 900 < 3:
                out("SAMPLE", "%s of %d bytes = %s; stream in %s" % (a, s, ref(a, d).hex()[:16], cuts[:8]))
        many(a, rng)


def many(a, rng):
    """Round sizes and their neighbours; many contexts alive; many calls."""
    D = rng.randbytes((1 << 20) + 500)
    special = sorted({x + d for x in [1 << k for k in range(8, 21)] + [3 << k for k in range(8, 17)] + [m * 10 ** k for k in (3, 4, 5) for m in (1, 2, 5)] for d in (-9, -1, 0, 1, 8, 56)})
    for j, s in enumerate(special):
        d = D[j:j + s]; k = D[:j % 200]
        case("%s of %d bytes, round sizes" % (a, len(d)))
        w = ref(a, d)
        if calc(a)(d) != w:
            fail("wrong-digest", "%s_calculate of %d bytes is wrong" % (a, len(d)))
        c = ctx(a)(); c.update(d)
        if c.finalize() != w:
            fail("wrong-stream-digest", "%s context with one update of %d bytes is wrong" % (a, len(d)))
        c = ctx(a)(); c.update(k); c.update(d); c.update(k)
        if c.finalize() != ref(a, k + d + k):
            fail("wrong-stream-digest", "%s context with updates of %d, %d, %d bytes is wrong" % (a, len(k), len(d), len(k)))
        if mac(a)(k, d) != rmac(a, k, d):
            fail("wrong-hmac", "%s HMAC, key of %d bytes, data of %d, is wrong" % (a, len(k), len(d)))
        if s < 140000 and mac(a)(d, k) != rmac(a, d, k):
            fail("wrong-hmac", "%s HMAC, key of %d bytes, data of %d, is wrong" % (a, len(d), len(k)))
        seen("round", a, s)
    # a new object where the last one was, nearly the same data as before
    d, k = bytearray(rng.randbytes(300)), bytearray(rng.randbytes(200))
    for i in range(4000):
        if i % 50 == 0:
            n, m = rnd_size(rng) % 300, rng.randint(0, 200)
        elif i % 50 > 2:
            if n and rng.random() < .7:
                d[rng.choice([0, n - 1, n // 2, rng.randrange(n)])] ^= 1 << rng.randrange(8)
            if m and rng.random() < .5:
                k[rng.choice([0, m - 1, rng.randrange(m)])] ^= 1 << rng.randrange(8)
        case("%s call %d of a row of inputs that differ little: %d bytes, key %d" % (a, i, n, m))
        x, y = bytes(d[:n]), bytes(k[:m])
        if calc(a)(x) != ref(a, x) or mac(a)(y, x) != rmac(a, y, x):
            fail("wrong-digest", "%s: wrong value in a row of inputs that differ little" % a)
        c = ctx(a)(); c.update(x)
        if c.finalize() != ref(a, x):
            fail("wrong-stream-digest", "%s: wrong context digest in a row of inputs that differ little" % a)
        del c, x, y
    seen("row", a)
    case("%s, many contexts" % a)
    cs = [(ctx(a)(), hashlib.new(a)) for _ in range(700)]
    for i in range(3000):
        c, h = cs[i % 700 if i < 700 else rng.randrange(700)]
        d = D[i:i + rng.randint(0, 150)]
        c.update(d); h.update(d)
    for i, (c, h) in enumerate(cs):
        if c.finalize() != h.digest():
            fail("wrong-stream-digest", "%s, context %d of 700 alive at once is wrong" % (a, i))
    seen("crowd", a)
    case("%s, many calls" % a)
    d, k = D[:37], D[:11]; w, m = ref(a, d), rmac(a, k, d); f, g, h = calc(a), mac(a), ctx(a)
    for i in range(int(OPT.get("calls", 67000))):
        c = h(); c.update(d)
        if f(d) != w or g(k, d) != m or c.finalize() != w:
            fail("wrong-digest", "%s: wrong value in round %d of one process" % (a, i))
            break
    seen("calls", a)


def m_large():
    """More than 4 GiB in one call."""
    rng = random.Random("large %d %s" % (SEED, OPT.get("alg")))
    a = OPT["alg"]
    for _ in range(N):
        extra = rng.choice([0, 1, 5, 63, 64, 129, 1000])
        size = (1 << 32) + extra
        try:
            d = bytes(size)
        except MemoryError:
            stat("not enough memory for a large object")
            seen("no memory")
            return
        case("%s of %d bytes in one call" % (a, size))
        w = ref(a, d)
        which = OPT.get("which", "cs")
        if "c" in which and calc(a)(d) != w:
            fail("wrong-digest", "%s_calculate of %d zero bytes is wrong" % (a, size))
        if "s" in which:
            c = ctx(a)()
            c.update(b"head"); c.update(d); c.update(b"tail")
            h = hashlib.new(a, b"head"); h.update(d); h.update(b"tail")
            if c.finalize() != h.digest():
                fail("wrong-stream-digest", "%s context with an update of %d bytes is wrong" % (a, size))
        if "m" in which and mac(a)(b"key", d) != rmac(a, b"key", d):
            fail("wrong-hmac", "%s_calculate_hmac of %d zero bytes is wrong" % (a, size))
        if "k" in which and mac(a)(d, b"data") != rmac(a, d, b"data"):
            fail("wrong-hmac", "%s_calculate_hmac with a key of %d zero bytes is wrong" % (a, size))
        del d
        seen(a, size, which)
    out("SAMPLE", "%s: calls with more than 4 GiB (%s)" % (a, which))


# ------------------------------------------------------------------ hostile
class Spoof:
    """Says it is bytes."""
    __class__ = bytes


def hostile_objects():
    """(name, factory)"""
    class Tick(Exception):
        alive = 0
        def __init__(self, *a):
            Exception.__init__(self, *a); Tick.alive += 1
        def __del__(self):
            Tick.alive -= 1

    class BadRepr(Tick):
        def __repr__(self): raise ValueError("no repr")

    class NonStrRepr(Tick):
        def __repr__(self): return 42

    class SurrogateRepr(Tick):
        def __repr__(self): return "\udc80\ud800"

    class LongRepr(Tick):
        def __repr__(self): return "x" * 100000

    class PercentRepr(Tick):
        def __repr__(self): return "%s%n%x%d%p"

    class EmptyRepr(Tick):
        def __repr__(self): return ""

    class NulRepr(Tick):
        def __repr__(self): return "a\0b"

    def raiser(exc):
        class R:
            @property
            def __class__(self):
                raise exc("from __class__")
        R.__name__ = "Raises" + exc.__name__
        return R

    res = [("str", lambda: "text"), ("empty str", lambda: ""), ("None", lambda: None), ("int", lambda: 5), ("zero", lambda: 0), ("big int", lambda: 1 << 200), ("bytearray", lambda: bytearray(b"abc")),
           ("memoryview", lambda: memoryview(b"abc")), ("list", lambda: [1, 2]), ("tuple", lambda: (b"a",)), ("dict", lambda: {}), ("float", lambda: 1.5), ("object", lambda: object()), ("type bytes", lambda: bytes),
           ("function", lambda: raiser), ("spoof", lambda: Spoof()), ("module", lambda: sys), ("context", lambda: pyhmac.md5_context()), ("iterator", lambda: iter([b"a"])), ("surrogate str", lambda: "\udcff"),
           ("NotImplemented", lambda: NotImplemented), ("exception", lambda: Tick("x"))]
    for e in (Tick, BadRepr, NonStrRepr, SurrogateRepr, LongRepr, PercentRepr, EmptyRepr, NulRepr, AttributeError, RuntimeError, MemoryError, RecursionError, StopIteration, OSError):
        res.append(("__class__ raises " + e.__name__, lambda e=e: raiser(e)()))
    class Weird:
        def __getattribute__(self, n):
            raise OSError("attribute " + n)
    res.append(("no attributes", lambda: Weird()))
    return res, Tick


def calls(a):
    """(name, call(obj)): every place that takes data"""
    c = ctx(a)
    return [(a + "_calculate(x)", lambda o: calc(a)(o)), (a + "_calculate(data=x)", lambda o: calc(a)(data=o)),
            (a + "_calculate_hmac(x, b)", lambda o: mac(a)(o, b"data")), (a + "_calculate_hmac(b, x)", lambda o: mac(a)(b"key", o)), (a + "_calculate_hmac(x, x)", lambda o: mac(a)(o, o)),
            (a + "_calculate_hmac(key=x, data=b)", lambda o: mac(a)(key=o, data=b"d")), (a + "_calculate_hmac(data=x, key=b)", lambda o: mac(a)(data=o, key=b"k")),
            (a + "_context.update(x)", lambda o: c().update(o)), (a + "_context.update(data=x)", lambda o: c().update(data=o)),
            (a + "_context.update unbound", lambda o: c.update(c(), o))]


def shapes(a):
    """Wrong argument shapes."""
    f, m, c = calc(a), mac(a), ctx(a)
    big = {"k%d" % i: i for i in range(200)}
    return [("calc()", lambda: f()), ("calc(b, b)", lambda: f(b"a", b"b")), ("calc(x=b)", lambda: f(x=b"a")), ("calc(b, data=b)", lambda: f(b"a", data=b"b")), ("calc(**many)", lambda: f(**big)),
            ("hmac()", lambda: m()), ("hmac(b)", lambda: m(b"a")), ("hmac(b, b, b)", lambda: m(b"a", b"b", b"c")), ("hmac(key=b)", lambda: m(key=b"a")), ("hmac(data=b)", lambda: m(data=b"a")), ("hmac(b, key=b)", lambda: m(b"a", key=b"b")),
            ("update()", lambda: c().update()), ("update(b, b)", lambda: c().update(b"a", b"b")), ("update(x=b)", lambda: c().update(x=b"a")), ("finalize(b)", lambda: c().finalize(b"a")), ("finalize(x=b)", lambda: c().finalize(x=1)),
            ("update of another type", lambda: c.update(object(), b"a")), ("finalize of another type", lambda: c.finalize(5)), ("update unbound, nothing", lambda: c.update()),
            ("attribute set", lambda: setattr(c(), "x", 1)), ("attribute get", lambda: c().nothing), ("subclass", lambda: type("S", (c,), {})), ("call of a context", lambda: c()()), ("get_version(1)", lambda: pyhmac.get_version(1)),
            ("compare", lambda: c() < c()), ("iterate", lambda: list(c())), ("len", lambda: len(c())), ("calc(*huge)", lambda: f(*([b"x"] * 5000)))]


def expect_raise(name, fn, holder=None):
    """Runs fn; a proper exception has to come."""
    case(name)
    try:
        r = fn()
    except Exception as e:
        stat("exceptions observed")
        if isinstance(e, SystemError):
            fail("system-error", "%s: %r" % (name, e))
        try:
            s = str(e)
        except Exception:
            s = "unprintable"
        if not s:
            fail("no-message", "%s: %s without a message" % (name, type(e).__name__))
        return e
    except BaseException as e:
        fail("odd-exception", "%s: %r" % (name, e))
        return e
    fail("accepted", "%s was accepted and gave %r" % (name, r))
    return None


def judge_kind(name, on, e):
    """The kind of the exception and what it says."""
    if e is None or on == "spoof":
        return
    if "_hmac(x, " in name or "key=x" in name:
        # a key is not asked for its type first
        if not isinstance(e, (TypeError, ValueError, RuntimeError)):
            fail("wrong-kind", "%s: %s: %s" % (name, type(e).__name__, e))
        return
    if on.startswith("__class__ raises") or on == "no attributes":
        # the object itself raised: that is told (AttributeError means no such attribute, hence no bytes)
        if not isinstance(e, (RuntimeError, TypeError)) and type(e).__name__ != on.split()[-1]:
            fail("wrong-kind", "%s: %s: %s" % (name, type(e).__name__, e))
        if on.split()[-1] in ("Tick", "RuntimeError", "MemoryError", "RecursionError", "StopIteration", "OSError") and "from __class__" not in str(e) + repr(e.__cause__) + repr(e.__context__):
            fail("cause-lost", "%s: %s: %s" % (name, type(e).__name__, e))
    elif not isinstance(e, TypeError):
        fail("wrong-kind", "%s: %s: %s" % (name, type(e).__name__, e))


def m_hostile():
    rng = random.Random("hostile %d" % SEED)
    objs, Tick = hostile_objects()
    unraisable = []
    sys.unraisablehook = lambda u: unraisable.append(repr(u.exc_value)[:200])
    base = live()
    for rep in range(N):
        for a in NAMES:
            cs = calls(a)
            for on, mk in objs:
                for cn, call in cs:
                    name = "%s with %s" % (cn, on)
                    o = mk()
                    rc0 = sys.getrefcount(o)
                    e = expect_raise(name, lambda: call(o))
                    judge_kind(name, on, e)
                    del e
                    if rep and rng.random() < .1:
                        gc.collect()
                    rc1 = sys.getrefcount(o)
                    if rc1 != rc0 and rc0 < 1 << 28 and on not in ("module", "type bytes", "function", "zero", "int", "NotImplemented"):
                        gc.collect()
                        if sys.getrefcount(o) != rc0:
                            fail("reference-count", "%s: reference count of the argument went from %d to %d" % (name, rc0, sys.getrefcount(o)))
                    del o
                    seen(name)
            for sn, fn in shapes(a):
                e = expect_raise(a + " " + sn, fn)
                if e is not None and not isinstance(e, AttributeError if sn.startswith("attribute") else TypeError):
                    fail("wrong-kind", "%s %s: %s: %s" % (a, sn, type(e).__name__, e))
                del e
                seen(a, sn)
            # a context goes on after bad calls
            c = ctx(a)()
            good_data = b""
            for i in range(30):
                d = rng.randbytes(rng.randint(0, 150))
                c.update(d); good_data += d
                on, mk = rng.choice(objs)
                case("%s context, update with %s between" % (a, on))
                try:
                    c.update(mk())
                    fail("accepted", "%s_context.update accepted %s" % (a, on))
                except Exception:
                    pass
                try:
                    rng.choice([lambda: c.update(), lambda: c.finalize(1), lambda: c.update(b"x", b"y"), lambda: c.update(y=b"x")])()
                except Exception:
                    pass
            if c.finalize() != ref(a, good_data):
                fail("context-disturbed", "%s context: wrong digest after rejected calls" % a)
            del c
            seen(a, "context goes on", rep)
            good(a, rng, "hostile calls")
        gc.collect()
        if Tick.alive != 0:
            fail("exceptions-kept", "%d exception objects raised by arguments are never released" % Tick.alive)
            Tick.alive = 0
    gc.collect()
    if live() != base:
        fail("leak", "blocks, provider contexts, error objects, locks: %s before, %s after" % (base, live()))
    if unraisable:
        fail("unraisable", "exceptions in destructors: %s" % unraisable[:3])
    out("SAMPLE", "%d kinds of object in %d places, %d wrong shapes, each followed by good calls" % (len(objs), len(calls("md5")), len(shapes("md5"))))


# ------------------------------------------------------------------ lifecycle
class MallInfo(ctypes.Structure):
    _fields_ = [(n, ctypes.c_size_t) for n in ("arena", "ordblks", "smblks", "hblks", "hblkhd", "usmblks", "fsmblks", "uordblks", "fordblks", "keepcost")]


def used():
    f = ctypes.CDLL(None).mallinfo2
    f.restype = MallInfo
    gc.collect()
    m = f()
    return m.uordblks + m.hblkhd


def life_step(a, rng, pool, unraisable):
    """One random action on a pool of contexts with a model of their content
    (None: nothing is claimed about the digest)."""
    k = rng.random()
    i = rng.randrange(len(pool)) if pool else -1
    if k < .22 or i < 0:
        pool.append([a, ctx(a)(), b""])
        return "new"
    o = pool[i]
    name = o[0]
    if k < .5:
        d = rng.randbytes(rng.randint(0, 200))
        try:
            o[1].update(d)
            if o[2] is not None:
                o[2] += d
        except Exception as e:
            if o[2] is not None:
                fail("refused", "update of a live %s context raised %r" % (name, e))
        return "update"
    if k < .62:
        try:
            r = o[1].finalize()
            if o[2] is not None and r != ref(name, o[2]):
                fail("wrong-digest", "%s context gave %r for %d bytes" % (name, r, len(o[2])))
        except Exception as e:
            if o[2] is not None:
                fail("refused", "finalize of a live %s context raised %r" % (name, e))
        o[2] = None
        return "finalize"
    if k < .72:
        # __init__ again: a fresh context, or an exception and the old one
        try:
            o[1].__init__()
            o[2] = b""
        except Exception:
            stat("second __init__ refused")
        return "init again"
    if k < .78:
        t = ctx(a)
        n = t.__new__(t)
        w = rng.randint(0, 4)
        if w == 1:
            expect_raise(a + " update without __init__", lambda: n.update(b"x"))
        elif w == 2:
            expect_raise(a + " finalize without __init__", lambda: n.finalize())
        elif w == 3:
            n.__init__()
            n.update(b"abc")
            if n.finalize() != ref(a, b"abc"):
                fail("wrong-digest", "late __init__ gives a wrong digest")
        elif w == 4:
            expect_raise(a + " update without __init__", lambda: n.update(b"x"))
            pool.append([a, n, None])
            n.__init__()
            pool[-1][2] = b""
        del n
        return "new without init %d" % w
    if k < .82:
        l = [ctx(x)() for x in NAMES]
        l.append(l)          # a cycle
        for x in l[:-1]:
            x.update(b"cycle")
        del l
        return "cycle"
    if k < .85:
        import copy
        try:
            x = copy.copy(o[1])
            try:
                x.update(b"q")
                x.finalize()
            except Exception:
                pass
        except Exception:
            pass
        return "copy"
    if k < .88:
        repr(o[1]); hash(o[1]); str(o[1]); o[1] == 5; dir(o[1])
        return "repr"
    pool.pop(i)
    return "drop"


def derived(rng):
    """If the context types can be derived from, that has to work as well."""
    for a in NAMES:
        try:
            class S(ctx(a)):
                def again(self): self.__init__(); return self
        except TypeError:
            stat("types that cannot be derived from")
            continue
        stat("types that can be derived from")
        n = sys.getrefcount(S)
        dead = []
        for i in range(60):
            case("%s: object %d of a derived class" % (a, i))
            x = S(); x.me = [i, bytearray(100)]
            w = weakref.ref(x, dead.append)
            d = rng.randbytes(i)
            x.update(d)
            if i % 3 == 0:
                x.again(); x.update(d)
            if i % 5 == 0:
                x.me.append(x)
            if x.finalize() != ref(a, d):
                fail("wrong-digest", "%s: derived class" % a)
            del x, w
        gc.collect(); gc.collect()
        if sys.getrefcount(S) > n + 2:
            fail("reference-count", "%s: objects of a derived class keep it: %d references before, %d after" % (a, n, sys.getrefcount(S)))
        del S
        seen("derived", a)
    gc.collect()


def m_lifecycle():
    rng = random.Random("life %d" % SEED)
    derived(rng)
    unraisable = []
    sys.unraisablehook = lambda u: unraisable.append(repr(u.exc_value)[:200])
    base = live()
    for h in range(N):
        pool, acts = [], []
        for _ in range(rng.randint(1, 60)):
            case("history %d after %s" % (h, acts[-6:]))
            acts.append(life_step(rng.choice(NAMES), rng, pool, unraisable))
            stat("actions")
        if rng.random() < .5:
            rng.shuffle(pool)
        del pool[:]
        gc.collect() if h % 10 == 0 else None
        if "cycle" in acts:
            gc.collect()
        if live() != base:
            gc.collect()
            if live() != base:
                fail("leak", "history %d %s: blocks, provider contexts, error objects, locks left: %s, before %s" % (h, acts[-15:], live(), base))
                base = live()
        if unraisable:
            fail("unraisable", "history %d %s: %s" % (h, acts[-8:], unraisable[:2]))
            del unraisable[:]
        seen(tuple(acts))
        if h % 200 == 0:
            out("SAMPLE", "history %d: %s" % (h, acts[:14]))
            good(rng.choice(NAMES), rng, "history %d" % h)


def m_refs():
    """Good calls keep none of the objects they get, and their results die."""
    rng = random.Random("refs %d" % SEED)
    gone = []

    def mk(n, kind):
        b = rng.randbytes(n)
        return b if kind == 0 else SubBytes(b) if kind == 1 else LyingBytes(b)
    for rep in range(N):
        for a in NAMES:
            for size in [0, 1, 20, 63, 64, 65, 127, 128, 129, 255, 256, 1000, 4096, 5000, 40000, 65536, 70000, 300000, 1 << 20, (1 << 20) + 7, rnd_size(rng), rnd_size(rng)]:
                for kind in (0, 1, 2):
                    c = ctx(a)()
                    x, y = mk(size, kind) if size else SubBytes(), mk(rng.randint(2, 300), rng.randrange(3))
                    for name, fn in (("calculate", lambda: calc(a)(x)), ("calculate(data=)", lambda: calc(a)(data=x)), ("calculate_hmac", lambda: mac(a)(y, x)), ("calculate_hmac(key=, data=)", lambda: mac(a)(key=y, data=x)),
                                     ("calculate_hmac of the key", lambda: mac(a)(x, x)), ("calculate_hmac, swapped", lambda: mac(a)(x, y)), ("update", lambda: c.update(x)), ("update(data=)", lambda: c.update(data=x)), ("finalize", lambda: c.finalize()),
                                     ("init again", lambda: c.__init__()), ("get_version", lambda: pyhmac.get_version())):
                        case("%s %s with %d bytes of kind %d" % (a, name, size, kind))
                        before = sys.getrefcount(x), sys.getrefcount(y), sys.getrefcount(c)
                        r = fn()
                        after = sys.getrefcount(x), sys.getrefcount(y), sys.getrefcount(c)
                        if before != after:
                            fail("reference-count", "%s %s with %d bytes: references to the data, key, context were %s and are %s" % (a, name, size, before, after))
                        if r is not None and sys.getrefcount(r) > 2 and not sys.getrefcount(r) > 1 << 28:
                            fail("reference-count", "%s %s with %d bytes: the result has %d references" % (a, name, size, sys.getrefcount(r)))
                        del r
                        stat("calls whose references were counted")
                    seen("refs", a, size, kind)
                    del c, x, y
    # keywords dictionaries and argument tuples as well
    for a in NAMES:
        kw, tp = {"key": b"k" * 50, "data": b"d" * 5000}, (b"k" * 50, b"d" * 5000)
        for fn in (lambda: mac(a)(**kw), lambda: mac(a)(*tp)):
            before = sys.getrefcount(kw), sys.getrefcount(tp), [sys.getrefcount(v) for v in kw.values()], [sys.getrefcount(v) for v in tp]
            for _ in range(20):
                fn()
            after = sys.getrefcount(kw), sys.getrefcount(tp), [sys.getrefcount(v) for v in kw.values()], [sys.getrefcount(v) for v in tp]
            if before != after:
                fail("reference-count", "%s: references of packed arguments were %s and are %s" % (a, before, after))
        seen("packed", a)
    out("SAMPLE", "every good call with objects of 22 sizes and 3 kinds: references before and after compared")


def m_memory():
    """Bytes in use of the whole process over many identical rounds."""
    def each(a):
        t = ctx(a)
        yield "new and drop", lambda: t()
        yield "stream", lambda: (lambda c: (c.update(b"abc"), c.finalize()))(t())
        yield "abandoned stream", lambda: t().update(b"x" * 200)
        yield "init again", lambda: t().__init__()
        yield "without init", lambda: t.__new__(t)
        yield "one-shot", lambda: calc(a)(b"abc")
        yield "hmac", lambda: mac(a)(b"k" * 200, b"abc")

        def bad(f):
            def g():
                try:
                    f()
                except Exception:
                    pass
            return g
        yield "bad one-shot", bad(lambda: calc(a)(5))
        yield "bad key", bad(lambda: mac(a)(5, b""))
        yield "bad update", bad(lambda: t().update("x"))
        yield "without init, update", bad(lambda: t.__new__(t).update(b"x"))
        yield "without init, finalize", bad(lambda: t.__new__(t).finalize())
        yield "update after finalize", bad(lambda: (lambda c: (c.finalize(), c.update(b"x"), c.finalize()))(t()))

        class R:
            @property
            def __class__(self): raise RuntimeError("r" * 50)
        yield "class raises", bad(lambda: calc(a)(R()))
        yield "class raises in update", bad(lambda: t().update(R()))
        yield "class raises in hmac", bad(lambda: mac(a)(b"k", R()))
    sys.unraisablehook = lambda u: None
    for a in NAMES:
        for n, f in each(a):
            case("memory %s %s" % (a, n))
            for _ in range(40):
                f()
            u0 = used()
            for _ in range(N):
                f()
            u1 = used()
            # a small constant is not growth
            if u1 - u0 > max(6 * N, 3000):
                u0 = used()
                for _ in range(4 * N):
                    f()
                u2 = used()
                if u2 - u0 > 24 * N:
                    fail("memory-grows", "%s %s: %d bytes more in use after %d rounds (%.1f each)" % (a, n, u2 - u0, 4 * N, (u2 - u0) / (4 * N)))
            stat("rounds", N)
            seen(a, n)
    out("SAMPLE", "%d rounds of each: process bytes in use compared" % N)


def m_exit():
    """The interpreter ends while contexts are alive in many places."""
    global keep1, keep2
    keep1 = [ctx(a)() for a in NAMES]
    for c in keep1:
        c.update(b"abc")
    keep2 = {"x": keep1}
    keep1.append(keep2)

    class AtEnd:
        def __init__(self): self.c = pyhmac.sha256_context()
        def __del__(self): self.c.update(b"late"); self.c.finalize()
    keep2["late"] = AtEnd()
    sys.modules["keepalive"] = AtEnd()
    import atexit
    atexit.register(lambda: pyhmac.md5_calculate(b"x"))
    t = pyhmac.md5_context
    keep2["raw"] = t.__new__(t)
    th = [threading.Thread(target=lambda: [pyhmac.sha512_calculate(b"y" * 5000) for _ in range(2000)], daemon=True) for _ in range(3)]
    for x in th:
        x.start()
    seen("exit"); seen("exit with threads")
    out("SAMPLE", "end of the interpreter with live contexts, a destructor that uses one, and threads inside the module")


# ------------------------------------------------------------------ loads
SUBCODE = """
import sys, random, hashlib, hmac, gc
sys.path.insert(0, DIR)
import pyhmac
rng = random.Random(SEED)
N = ["md5", "sha1", "sha224", "sha256", "sha512"]
for r in range(6):
    cs = []
    for a in N:
        c = getattr(pyhmac, a + "_context")(); d = rng.randbytes(rng.randint(0, 400)); k = rng.randbytes(rng.randint(0, 150))
        c.update(d); c.update(k); cs.append((a, c, d + k))
        assert getattr(pyhmac, a + "_calculate")(d) == hashlib.new(a, d).digest(), "digest"
        assert getattr(pyhmac, a + "_calculate_hmac")(k, d) == hmac.new(k, d, a).digest(), "hmac"
        try:
            c.update(5)
        except TypeError:
            pass
        else:
            raise AssertionError("taken")
        big = bytes(70000)
        assert getattr(pyhmac, a + "_calculate")(big) == hashlib.new(a, big).digest(), "large digest"
    for a, c, d in cs:
        assert c.finalize() == hashlib.new(a, d).digest(), "context"
keep = [c for a, c, d in cs] + [pyhmac.md5_context()]
keep[-1].update(b"left")
"""


def m_imports():
    """The module is loaded again and again, in further interpreters too, and loading fails."""
    global pyhmac
    import importlib.util
    import types
    rng = random.Random("imports %d" % SEED)
    path = pyhmac.__file__
    first = pyhmac
    dll = ctypes.PyDLL(path)
    dll.PyInit_pyhmac.restype = ctypes.py_object

    def values(m, why):
        for a in NAMES:
            d, k = rng.randbytes(rng.randint(0, 200)), rng.randbytes(rng.randint(0, 150))
            c = getattr(m, a + "_context")()
            c.update(d); c.update(k)
            if getattr(m, a + "_calculate")(d) != ref(a, d) or getattr(m, a + "_calculate_hmac")(k, d) != rmac(a, k, d) or c.finalize() != ref(a, d + k):
                fail("wrong-digest", "%s: wrong %s value" % (why, a))
        if m.get_version() != OPT["version"]:
            fail("version", "%s: get_version() is %r" % (why, m.get_version()))

    def again():
        sys.modules.pop("pyhmac", None)
        import pyhmac as m
        return m

    def byspec():
        sp = importlib.util.spec_from_file_location("pyhmac", path)
        m = importlib.util.module_from_spec(sp)
        sp.loader.exec_module(m)
        return m

    def direct():
        return dll.PyInit_pyhmac()
    ways = {"import again": again, "load from the file": byspec, "call of the initialisation": direct}
    old, base = [], live()
    for i in range(N):
        n = rng.choice(list(ways))
        case("%s, round %d" % (n, i))
        m = ways[n]()
        values(m, n)
        # contexts of this load live on, and those of earlier ones too
        a = rng.choice(NAMES)
        old.append([a, getattr(m, a + "_context")(), b""])
        for o in rng.sample(old, min(len(old), 5)):
            d = rng.randbytes(rng.randint(0, 300))
            o[1].update(d)
            o[2] += d
        if len(old) > 10:
            a, c, d = old.pop(rng.randrange(len(old)))
            if c.finalize() != ref(a, d):
                fail("wrong-digest", "%s: context of an earlier load, %s" % (n, a))
        del m
        seen(n, i)
        stat("loads")
    del old[:]
    o = c = None
    pyhmac = again()
    gc.collect()
    if live() != base:
        fail("leak", "after %d loads: %s, before %s" % (N, live(), base))

    def count():
        gc.collect()
        ms = sum(1 for x in gc.get_objects() if type(x) is types.ModuleType and getattr(x, "__name__", "") == "pyhmac")
        return ms, [sys.getrefcount(ctx(a)) for a in NAMES]
    # loads leave nothing behind
    for n in ways:
        ways[n](); ways[n]()
        pyhmac = again()
        b0, u0 = count(), used()
        for i in range(60):
            ways[n]()
        pyhmac = again()
        b1, u1 = count(), used()
        if b1 != b0:
            fail("leak-load", "%s: modules and references of the types were %s and after 60 loads are %s" % (n, b0, b1))
        if u1 - u0 > 60 * 200 and n == "call of the initialisation":
            fail("memory-grows", "%s: %d bytes more after 60 loads" % (n, u1 - u0))
        seen("repeated", n)
    # every request of the load fails
    if HAVE:
        for persistent in (0, 1):
            k = 0
            while k < 300:
                k += 1
                err = m = None
                b0 = count()
                case("request %d of the load fails%s" % (k, ", and all later ones" if persistent else ""))
                SO.vh_fault_arm(0, 0, 0)
                SO.vh_py_arm(k, persistent)
                try:
                    m = direct()
                except BaseException as e:
                    err = e
                fired = SO.vh_py_fired()
                SO.vh_py_arm(0, 0); SO.vh_fault_disarm()
                if not fired:
                    if err is not None:
                        fail("refused", "load raised %r without a fault" % err)
                    break
                stat("load failures injected")
                label = "request %d of the load fails%s" % (k, ", and all later ones" if persistent else "")
                if err is None:
                    fail("fault-ignored", label + ": the module came without an exception")
                elif isinstance(err, SystemError) or not isinstance(err, Exception):
                    fail("load-exception", label + ": %r" % err)
                err = m = None
                b1 = count()
                if b1 != b0:
                    fail("leak-load", label + ": modules and references of the types were %s and are %s" % (b0, b1))
                values(direct(), "load after: " + label)
                seen(label)
            if k == 1:
                fail("harness", "the load asks for nothing")
    good(rng.choice(NAMES), rng, "after failed loads")
    # further interpreters
    try:
        import _xxsubinterpreters as si
    except ImportError:
        si = None
    if si is not None:
        def script(i):
            return "DIR, SEED = %r, %d\n" % (os.path.dirname(path), SEED * 1000 + i) + SUBCODE

        def runs(x, i, why):
            try:
                si.run_string(x, script(i))
            except Exception as e:
                fail("further-interpreter", "%s: %s" % (why, e))
        b0 = live()
        for i in range(4 if N < 500 else 40):
            ids = [si.create(isolated=False) for _ in range(rng.randint(1, 4))]
            for j, x in enumerate(ids):
                case("further interpreter %d.%d" % (i, j))
                runs(x, i * 10 + j, "first run")
                values(pyhmac, "beside further interpreters")
            th = [threading.Thread(target=runs, args=(x, i * 10 + j + 5, "in threads")) for j, x in enumerate(ids)]
            for t in th:
                t.start()
            values(pyhmac, "beside further interpreters in threads")
            for t in th:
                t.join()
            rng.shuffle(ids)
            for x in ids:
                si.destroy(x)
                values(pyhmac, "after a further interpreter ended")
            stat("further interpreters", len(ids))
            seen("further", i)
        gc.collect()
        if live() != b0:
            fail("leak", "after further interpreters: %s, before %s" % (live(), b0))
    values(first, "the first load")
    out("SAMPLE", "%d loads in three ways with contexts of earlier loads in use; every request of a load failed; contexts in further interpreters" % N)


# ------------------------------------------------------------------ threads
def m_threads():
    rng = random.Random("threads %d %s" % (SEED, OPT.get("part")))
    sys.setswitchinterval(1e-6)
    base = live()
    for rnd in range(N):
        a = NAMES[rnd % 5]
        T = rng.choice([2, 3, 4, 8])
        # one context, identical pieces: the order cannot matter, the number does
        size = rng.choice([1, 3, 17, 63, 64, 65, 100, 127, 128, 129, 500, 1000, 5000, 30000, 100000])
        K = min(2000, max(8, 300000 // max(size, 100)))
        piece = rng.randbytes(size)
        case("round %d: %s, %d threads x %d pieces of %d bytes into one context" % (rnd, a, T, K, size))
        c = ctx(a)()
        bar = threading.Barrier(T)
        errs = []

        def feed():
            try:
                bar.wait()
                up = c.update
                for _ in range(K):
                    up(piece)
            except Exception as e:
                errs.append(repr(e))
        th = [threading.Thread(target=feed) for _ in range(T)]
        for t in th: t.start()
        for t in th: t.join()
        got = c.finalize()
        want = ref(a, piece * (K * T))
        if errs:
            fail("refused", "shared %s context: %s" % (a, errs[:2]))
        elif got != want:
            fail("lost-update", "%s context shared by %d threads, %d pieces of %d bytes each: wrong digest" % (a, T, K, size))
        stat("updates into shared contexts", K * T)
        seen("shared", a, T, size, K, rnd)
        # own contexts and one-shot calls in parallel
        res = []

        def own(i):
            r = random.Random("%d %d %d" % (SEED, rnd, i))
            b = NAMES[r.randrange(5)]
            bar2.wait()
            for _ in range(25):
                d = r.randbytes(r.choice([0, 1, 64, 200, 3000, 20000]))
                k = r.randbytes(r.choice([0, 20, 64, 65, 128, 129, 300]))
                x = ctx(b)()
                for q in range(0, len(d), 997):
                    x.update(d[q:q + 997])
                res.append((x.finalize() == ref(b, d)) and calc(b)(d) == ref(b, d) and mac(b)(k, d) == rmac(b, k, d))
        bar2 = threading.Barrier(T)
        th = [threading.Thread(target=own, args=(i,)) for i in range(T)]
        for t in th: t.start()
        for t in th: t.join()
        if len(res) != 25 * T or not all(res):
            fail("threads-disturb", "threads with contexts of their own got %d wrong of %d" % (sum(not x for x in res), len(res)))
        stat("digests of separate threads", len(res))
        # everything at once on one context: it only has to survive
        if OPT.get("wild", "1") == "1":
            case("round %d: %s, all operations at once on one context" % (rnd, a))
            c = ctx(a)()
            bar3 = threading.Barrier(T)
            werrs = []

            def wild(i):
                r = random.Random("w %d %d %d" % (SEED, rnd, i))
                bar3.wait()
                for _ in range(150):
                    w = r.random()
                    try:
                        if w < .6:
                            c.update(piece[:r.randint(0, 3000)])
                        elif w < .8:
                            c.finalize()
                        else:
                            c.__init__()
                    except Exception as e:
                        if isinstance(e, SystemError):
                            werrs.append(repr(e))
            th = [threading.Thread(target=wild, args=(i,)) for i in range(T)]
            for t in th: t.start()
            for t in th: t.join()
            if werrs:
                fail("system-error", "all operations at once: %s" % werrs[:2])
            try:
                c.__init__()
                c.update(piece)
                if c.finalize() != ref(a, piece):
                    fail("wrong-digest", "%s context is unusable after concurrent calls" % a)
            except Exception as e:
                fail("refused", "%s context after concurrent calls: %r" % (a, e))
            stat("operations at once on one context", 150 * T)
            seen("wild", a, T, rnd)
        del c
        if rnd % 10 == 0:
            out("SAMPLE", "round %d: %s, %d threads x %d pieces of %d bytes" % (rnd, a, T, K, size))
    gc.collect()
    if live() != base:
        fail("leak", "blocks, provider contexts, error objects, locks: %s before, %s after" % (base, live()))


# ------------------------------------------------------------------ faults
def m_faults():
    rng = random.Random("faults %d" % SEED)
    if not HAVE:
        fail("harness", "no fault injection in this build")
        return
    unraisable = []
    sys.unraisablehook = lambda u: unraisable.append(repr(u.exc_value)[:200])
    for a in NAMES:
        def sc_stream(n=3, size=100):
            c = ctx(a)()
            for i in range(n):
                c.update(b"q" * size)
            return c.finalize(), ref(a, b"q" * size * n)
        # with a handler that retries the same step on the same object
        def sc_retry():
            c = ctx(a)()
            return c.finalize(), ref(a, b"")
        def sc_reinit():
            c = ctx(a)()
            c.update(b"old")
            c.__init__()
            c.update(b"new")
            return c.finalize(), ref(a, b"new")
        scen = [("one-shot", lambda: (calc(a)(b"abc" * 50), ref(a, b"abc" * 50))), ("one-shot of nothing", lambda: (calc(a)(b""), ref(a, b""))), ("hmac", lambda: (mac(a)(b"k", b"abc"), rmac(a, b"k", b"abc"))),
                ("hmac with a long key", lambda: (mac(a)(b"k" * 300, b"abc" * 100), rmac(a, b"k" * 300, b"abc" * 100))), ("hmac of nothing", lambda: (mac(a)(b"", b""), rmac(a, b"", b""))),
                ("stream", sc_stream), ("context only", sc_retry), ("init again", sc_reinit), ("long stream", lambda: sc_stream(4, 5000))]
        for name, fn in scen:
            g, w = fn()
            if g != w:
                fail("wrong-digest", "%s %s without a fault" % (a, name))
            for what in ("alloc", "crypto", "interpreter"):
                for persistent in (0, 1):
                    k = 0
                    while k < 400:
                        k += 1
                        gc.collect(0)
                        base = live()
                        case("%s %s: %s %d fails%s" % (a, name, what, k, " and all later ones" if persistent else ""))
                        SO.vh_fault_arm(k if what == "alloc" else 0, k if what == "crypto" else 0, persistent)
                        SO.vh_py_arm(k if what == "interpreter" else 0, persistent)
                        err = None
                        try:
                            g, w = fn()
                        except Exception as e:
                            err = e
                        fired = SO.vh_faults_fired() + SO.vh_py_fired()
                        SO.vh_fault_disarm()
                        SO.vh_py_arm(0, 0)
                        if not fired:
                            if err is not None:
                                fail("refused", "%s %s raised %r without a fault" % (a, name, err))
                            break
                        stat({"alloc": "allocation", "crypto": "provider"}.get(what, what) + " failures injected")
                        label = "%s %s, %s %d fails" % (a, name, what, k)
                        if err is None and g != w:
                            fail("wrong-digest-under-fault", label + ": success with a wrong digest")
                        elif err is None:
                            # only a failure while something is released may pass unnoticed
                            fail("fault-ignored", label + ": no exception")
                        elif isinstance(err, SystemError):
                            fail("system-error", label + ": %r" % err)
                        elif len(str(err)) < 10:
                            fail("no-message", label + ": exception %r says nothing" % err)
                        err = None
                        gc.collect(0)
                        if live() != base:
                            gc.collect()
                            if live() != base:
                                fail("leak", label + ": blocks, provider contexts, error objects, locks: %s before, %s after" % (base, live()))
                        g2, w2 = fn()
                        if g2 != w2:
                            fail("broken-afterwards", label + ": wrong digest afterwards")
                        seen(a, name, what, k, persistent)
                        if unraisable:
                            fail("unraisable", label + ": %s" % unraisable[:2])
                            del unraisable[:]
                    if k > 1:
                        out("SAMPLE", "%s %s: each of %d %s calls failed%s" % (a, name, k - 1, what, " persistently" if persistent else ""))
        # a failed step can be tried again
        c = ctx(a)()
        data = b""
        for i in range(20):
            d = rng.randbytes(rng.randint(1, 200))
            SO.vh_fault_arm(0, 1, 0)
            try:
                c.update(d)
                ok = True
            except Exception:
                ok = False
            fired = SO.vh_faults_fired()
            SO.vh_fault_disarm()
            if ok and fired:
                fail("fault-ignored", "%s: update with a failing provider raised nothing" % a)
            if ok:
                data += d
            else:
                stat("failed updates")
        del c
        seen(a, "failed updates")


def m_faultlife():
    """Random histories in which anything may fail at any moment."""
    rng = random.Random("faultlife %d %s" % (SEED, OPT.get("part")))
    if not HAVE:
        fail("harness", "no fault injection in this build")
        return
    unraisable = []
    sys.unraisablehook = lambda u: unraisable.append(repr(u.exc_value)[:200])
    base = live()
    for h in range(N):
        pool, acts = [], []
        for _ in range(rng.randint(1, 50)):
            case("history %d after %s" % (h, acts[-6:]))
            a = rng.choice(NAMES)
            i = rng.randrange(len(pool)) if pool else -1
            o = pool[i] if pool else None
            w = rng.choice(["new", "update", "update", "update", "finalize", "init", "late", "calc", "mac", "drop", "version"])
            if o is None and w in ("update", "finalize", "init", "drop"):
                w = "new"
            d = rng.randbytes(rng.choice([0, 1, 20, 63, 64, 65, 128, 200, 1000]))
            k = rng.randbytes(rng.choice([0, 1, 20, 64, 65, 128, 129, 300]))
            armed = rng.random() < .6
            if armed:
                kind = rng.randrange(3)
                at, per = rng.randint(1, 6), int(rng.random() < .3)
                SO.vh_fault_arm(at if kind == 0 else 0, at if kind == 1 else 0, per)
                SO.vh_py_arm(at if kind == 2 else 0, per)
            else:
                SO.vh_fault_arm(0, 0, 0); SO.vh_py_arm(0, 0)
            err = r = None
            try:
                if w == "new":
                    r = ctx(a)()
                elif w == "update":
                    o[1].update(d)
                elif w == "finalize":
                    r = o[1].finalize()
                elif w == "init":
                    o[1].__init__()
                elif w == "late":
                    r = ctx(a).__new__(ctx(a)); r.__init__()
                elif w == "calc":
                    r = calc(a)(d)
                elif w == "mac":
                    r = mac(a)(k, d)
                elif w == "version":
                    r = pyhmac.get_version()
                elif w == "drop":
                    o = None
                    pool.pop(i)
            except Exception as e:
                err = e
            fired = SO.vh_faults_fired() + SO.vh_py_fired()
            SO.vh_fault_disarm(); SO.vh_py_arm(0, 0)
            acts.append(w + (" failed" if err is not None else " (fault)" if fired else ""))
            stat("actions"); stat("failures injected", fired)
            label = "history %d %s" % (h, acts[-12:])
            if isinstance(err, SystemError):
                fail("system-error", "%s: %r" % (label, err))
            if err is not None and len(str(err)) < 5 and not isinstance(err, MemoryError):
                fail("no-message", "%s: %r" % (label, err))
            if err is None:
                if fired and w != "drop":
                    fail("fault-ignored", "%s: nothing was raised" % label)
                if w in ("new", "late"):
                    pool.append([a, r, b""])
                elif w == "update" and o[2] is not None:
                    o[2] += d
                elif w == "finalize":
                    if o[2] is not None and r != ref(o[0], o[2]):
                        fail("wrong-digest-under-fault", "%s: context digest" % label)
                    o[2] = None
                elif w == "init":
                    o[2] = b""
                elif w == "calc" and r != ref(a, d) or w == "mac" and r != rmac(a, k, d):
                    fail("wrong-digest-under-fault", "%s: %s" % (label, w))
            else:
                if not fired and not (o is not None and o[2] is None and w in ("update", "finalize")):
                    fail("refused", "%s raised %r without a fault" % (label, err))
                if w == "late" and r is not None and rng.random() < .5:
                    pool.append([a, r, None])
                elif w in ("update", "finalize", "init"):
                    o[2] = None
            err = r = o = None
        del pool[:]
        if live() != base:
            gc.collect()
            if live() != base:
                fail("leak", "history %d %s: blocks, provider contexts, error objects, locks left: %s, before %s" % (h, acts[-15:], live(), base))
                base = live()
        if unraisable:
            fail("unraisable", "history %d %s: %s" % (h, acts[-8:], unraisable[:2]))
            del unraisable[:]
        seen(tuple(acts))
        if h % 400 == 0:
            out("SAMPLE", "history %d: %s" % (h, acts[:14]))


# -------------------------------------------------------------------- cost
def m_cost():
    """Memory taken while a call runs, for growing data: in the module and the
    library (interposer) and from the interpreter (tracemalloc)."""
    import tracemalloc
    rng = random.Random("cost %d" % SEED)
    SO.vh_peak_bytes.restype = ctypes.c_size_t
    big = rng.randbytes(1 << 20) * 16
    data = {}

    def piece(n):
        if n not in data:
            data[n] = big[:n]
        return data[n]

    def peak(f):
        gc.collect()
        tracemalloc.start(); tracemalloc.reset_peak()
        b = tracemalloc.get_traced_memory()[0]; SO.vh_peak_reset(); l = SO.vh_peak_bytes()
        r = f()
        m = tracemalloc.get_traced_memory()
        tracemalloc.stop()
        return SO.vh_peak_bytes() - l, m[1] - b, r

    def stream(a, d, chunk, n):
        c = ctx(a)()
        for _ in range(n):
            c.update(chunk)
        return c.finalize()
    for i in range(N):
        for a in NAMES:
            d = {0: 300, 1: rng.randint(100000, 1 << 20), 2: rng.choice([1 << 22, 1 << 24, 5000011])}
            ds = {k: piece(n) for k, n in d.items()}
            k20 = rng.randbytes(20)
            ch = piece(rng.choice([1000, 4096, 65536]))
            for what, f, want in (("calculate", lambda x: calc(a)(x), lambda x: ref(a, x)), ("calculate_hmac", lambda x: mac(a)(k20, x), lambda x: rmac(a, k20, x)), ("calculate_hmac key", lambda x: mac(a)(x, k20), lambda x: rmac(a, x, k20)),
                                  ("update", lambda x: stream(a, None, x, 2), lambda x: ref(a, x + x)), ("updates", lambda x: stream(a, None, ch, len(x) // 4096), lambda x: ref(a, ch * (len(x) // 4096)))):
                f(ds[0])
                case("%s %s" % (a, what))
                p = [peak(lambda x=x: f(x)) for x in (ds[0], ds[1], ds[2])]
                for j in (0, 1, 2):
                    if what != "updates" or j < 2:
                        if p[j][2] != want(ds[j]):
                            fail("wrong-digest", "%s %s of %d bytes" % (a, what, len(ds[j])))
                for j in (1, 2):
                    if p[j][0] > p[0][0] + 4096 or p[j][1] > p[0][1] + 8192:
                        fail("memory-grows", "%s %s: with %d bytes of data the module took %d bytes at once and %d of the interpreter, with %d bytes %d and %d" % (a, what, len(ds[j]), p[j][0], p[j][1], len(ds[0]), p[0][0], p[0][1]))
                    seen(a, what, len(ds[j]))
                    stat("comparisons of memory in Python")
            data.clear()
    out("SAMPLE", "last: %s" % (p[2][:2],))


MODES = {"cost": m_cost, "refs": m_refs, "imports": m_imports, "faultlife": m_faultlife, "values": m_values, "large": m_large, "hostile": m_hostile, "lifecycle": m_lifecycle, "memory": m_memory, "exit": m_exit, "threads": m_threads, "faults": m_faults}
MODES[MODE]()
end()
