"""Builds /repo's sources (taken by glob from the working tree) against the
stand-in libraries, in several configurations and under several sanitizers.
Everything is written below /verif/build; /repo is only read."""
import glob, hashlib, os, re, shutil, subprocess, sys, threading
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
NPROC = max(2, os.cpu_count() or 2)


class BuildError(Exception):
    pass


def _read(p):
    with open(p, "rb") as f:
        return f.read()


# ---------------------------------------------------------------- sources
def repo_files():
    fs = []
    for d, pats in (("libhmac", ("*.c", "*.h", "*.h.in")), ("common", ("*.h", "*.h.in")),
                    ("include", ("*.h", "*.h.in")), ("include/libhmac", ("*.h", "*.h.in")),
                    ("hmactools", ("*.c", "*.h")), ("pyhmac", ("*.c", "*.h")),
                    ("ossfuzz", ("*.cc", "*.h"))):
        for p in pats:
            fs += glob.glob(os.path.join(REPO, d, p))
    return sorted(set(fs)) + [os.path.join(REPO, "configure.ac")]


_fp = None


def fingerprint():
    global _fp
    if _fp is None:
        h = hashlib.sha256()
        for f in repo_files() + [os.path.abspath(__file__)] + sorted(glob.glob(VERIF + "/stubs/*") + glob.glob(VERIF + "/stubs/openssl10/openssl/*") + glob.glob(VERIF + "/harness/*.[ch]") + glob.glob(VERIF + "/harness/*.cc")):
            if os.path.isfile(f):
                h.update(f.encode() + b"\0" + _read(f) + b"\0")
        _fp = h.hexdigest()[:20]
    return _fp


def version():
    m = re.search(r"AC_INIT\(\s*\[libhmac\],\s*\[(\d+)\]", _read(os.path.join(REPO, "configure.ac")).decode())
    if not m:
        raise BuildError("cannot find the version in configure.ac")
    return m.group(1)


# ---------------------------------------------------------------- configurations
# As common/config.h comes out of configure on this platform, minus NLS and the
# libyal libraries; the crypto provider macros are chosen per configuration.
BASE = """CHDIR CLOSE DLFCN_H ERRNO_H FCLOSE FCNTL_H FEOF FGETS FOPEN FREAD FREE FSEEKO FSTAT FTRUNCATE FWRITE
GETCWD GETENV INTTYPES_H LIMITS_H LOCALE_H LSEEK MALLOC MEMCHR MEMCMP MEMCPY MEMRCHR MEMSET
OPEN PRINTF_JD PRINTF_ZD PTHREAD_H READ REALLOC SETLOCALE SETVBUF SIGNAL_H SNPRINTF SSCANF STAT STDARG_H
STDINT_H STDIO_H STDLIB_H STRCASECMP STRCHR STRLEN STRNCASECMP STRNCMP STRNCPY STRRCHR STRSTR STRINGS_H STRING_H
SYS_SIGNAL_H SYS_STAT_H SYS_TYPES_H UNISTD_H UNLINK VFPRINTF VSNPRINTF WCHAR_H WCTYPE_H WRITE
MULTI_THREAD_SUPPORT""".split()
EVPS = ["EVP_MD5", "EVP_SHA1", "EVP_SHA224", "EVP_SHA256", "EVP_SHA512"]
CONFIGS = {
    # name: (macros, rolled loops)
    "fb": ([], False),
    "fbr": ([], True),
    "ossl": (["LIBCRYPTO", "OPENSSL_MD5_H", "OPENSSL_SHA_H"], False),
    "evp": (["LIBCRYPTO", "OPENSSL_EVP_H", "EVP_DIGESTINIT_EX2"] + EVPS, False),
    "evpex": (["LIBCRYPTO", "OPENSSL_EVP_H"] + EVPS, False),
    "evpold": (["LIBCRYPTO", "OPENSSL_EVP_H", "EVP_MD_CTX_INIT", "EVP_MD_CTX_CLEANUP"] + EVPS, False),
    "mix": (["LIBCRYPTO", "OPENSSL_MD5_H", "OPENSSL_EVP_H", "EVP_DIGESTINIT_EX2", "EVP_SHA1", "EVP_SHA256"], True),
    "dbg": (["DEBUG_OUTPUT", "VERBOSE_OUTPUT"], False),
    "local": (["LOCAL_LIBHMAC", "DEBUG_OUTPUT"], True),
}
CONFIG_TEXT = {
    "fb": "built-in algorithms, unrolled loops",
    "fbr": "built-in algorithms, rolled loops",
    "ossl": "OpenSSL MD5_*/SHA*_* functions",
    "evp": "OpenSSL EVP with EVP_DigestInit_ex2 (what configure selects here)",
    "evpex": "OpenSSL EVP with EVP_DigestInit_ex",
    "evpold": "OpenSSL 1.0 EVP, contexts inside the library's (stand-in interface over the present OpenSSL)",
    "mix": "MD5 by MD5_* functions, SHA-1 and SHA-256 by EVP, SHA-224 and SHA-512 built in with rolled loops",
    "dbg": "built-in algorithms, with the debug and the verbose output compiled in",
    "local": "the sources as another program builds them into itself (HAVE_LOCAL_LIBHMAC), rolled loops",
}
OPENSSL_CONFIGS = ("ossl", "evp", "evpex", "evpold", "mix")

SAN = {
    "asan": ("clang", ["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]),
    "msan": ("clang", ["-O1", "-fsanitize=memory", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]),
    # without checks where values are passed on: only branches, addresses and library functions that read count
    "taint": ("clang", ["-O1", "-fsanitize=memory", "-fno-sanitize-memory-param-retval", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]),
    # every edge executed is counted, and what would be done in place calls the library function
    "cost": ("clang", ["-O1", "-fsanitize-coverage=trace-pc-guard", "-fno-builtin", "-fno-omit-frame-pointer"]),
    "tsan": ("clang", ["-O1", "-fsanitize=thread", "-fno-omit-frame-pointer"]),
    "tsang": ("gcc", ["-O1", "-fsanitize=thread", "-fno-omit-frame-pointer"]),
    "asang": ("gcc", ["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]),
    "o2": ("gcc", ["-O2"]),
    "o0": ("gcc", ["-O0"]),
    "o3": ("clang", ["-O3"]),
    "o2clang": ("clang", ["-O2"]),
    "lto": ("gcc", ["-O3", "-flto=2"]),
    "ltoclang": ("clang", ["-O3", "-flto"]),
    "fuzz": ("clang", ["-O1", "-fsanitize=fuzzer-no-link,address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]),
    "fuzzo": ("clang", ["-O2", "-fsanitize=fuzzer-no-link"]),
    "uchar": ("gcc", ["-O2", "-funsigned-char"]),
}
_lock = threading.Lock()


def gen_config(cfg, getopt=True):
    """Writes the generated headers for a configuration, returns their -I flags."""
    macros, rolled = CONFIGS[cfg]
    ver = version()
    d = os.path.join(BUILD, fingerprint(), "gen-" + cfg + ("" if getopt else "-nogetopt"))
    with _lock:
        if os.path.exists(d + "/.done"):
            return _flags(d)
        shutil.rmtree(d, ignore_errors=True)
        for s in ("common", "include/libhmac", "libhmac"):
            os.makedirs(os.path.join(d, s))
        lines = ["#define HAVE_%s 1" % m for m in BASE + macros + (["GETOPT"] if getopt else [])]
        lines += ['#define PACKAGE "libhmac"', '#define PACKAGE_NAME "libhmac"',
                  '#define PACKAGE_BUGREPORT "joachim.metz@gmail.com"', '#define PACKAGE_VERSION "%s"' % ver,
                  '#define VERSION "%s"' % ver, "#define SIZEOF_INT 4", "#define SIZEOF_LONG 8",
                  "#define SIZEOF_OFF_T 8", "#define SIZEOF_SIZE_T 8", "#define SIZEOF_WCHAR_T 4", "#define STDC_HEADERS 1"]
        open(d + "/common/config.h", "w").write("\n".join(lines) + "\n")
        subst = {"VERSION": ver, "PACKAGE": "libhmac", "HAVE_SYS_TYPES_H": "1", "HAVE_INTTYPES_H": "1",
                 "HAVE_STDINT_H": "1", "HAVE_WCHAR_H": "1", "HAVE_WIDE_CHARACTER_TYPE": "0"}

        def exp(src, dst, post=None):
            t = _read(os.path.join(REPO, src)).decode()
            t = re.sub(r"@([A-Z0-9_]+)@", lambda m: subst.get(m.group(1), "0"), t)
            if post:
                t = post(t)
            open(os.path.join(d, dst), "w").write(t)

        for f in glob.glob(REPO + "/include/*.h.in") + glob.glob(REPO + "/include/libhmac/*.h.in"):
            r = os.path.relpath(f, REPO)
            # the program that builds the sources into itself has types of its own, without the contexts
            exp(r, r[:-3], (lambda t: re.sub(r"\ntypedef[^\n]*libhmac_\w+_context_t;", "\n", t)) if cfg == "local" else None)
        exp("common/types.h.in", "common/types.h")
        exp("libhmac/libhmac_definitions.h.in", "libhmac/libhmac_definitions.h",
            (lambda t: re.sub(r"#define\s+LIBHMAC_UNFOLLED_LOOPS[^\n]*", "", t)) if rolled else None)
        open(d + "/.done", "w").write("")
    return _flags(d)


def _flags(d):
    return ["-DHAVE_CONFIG_H", "-I" + d + "/common", "-I" + d + "/include", "-I" + d + "/libhmac",
            "-I" + REPO + "/common", "-I" + REPO + "/include", "-I" + REPO + "/libhmac",
            "-I" + VERIF + "/stubs", "-I" + VERIF + "/harness"]


WARN = ["-w", "-g1", "-std=gnu11"]
WRAP_FNS = ["malloc", "calloc", "realloc", "free", "strdup"]
WRAP_OSSL = ["EVP_MD_CTX_new", "EVP_MD_CTX_free", "EVP_DigestInit_ex2", "EVP_DigestInit_ex", "EVP_DigestInit",
             "EVP_DigestUpdate", "EVP_DigestFinal_ex", "EVP_DigestFinal"] + \
            [a + b for a in ("MD5", "SHA1", "SHA224", "SHA256", "SHA512") for b in ("_Init", "_Update", "_Final")]

WRAP_PY = ["PyBytes_FromStringAndSize", "_PyObject_New", "PyThread_allocate_lock", "PyThread_free_lock", "PyUnicode_DecodeUTF8",
           "PyModule_Create2", "PyType_Ready", "PyModule_AddObject", "PyModule_AddObjectRef", "PyModule_AddType"]


def wrap_flags(cfg):
    f = WRAP_FNS + (WRAP_OSSL if cfg in OPENSSL_CONFIGS else [])
    return ["-Wl," + ",".join("--wrap=" + x for x in f)]


def run(cmd, what):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if p.returncode != 0:
        raise BuildError("%s failed:\n%s\n%s" % (what, " ".join(cmd), p.stdout[-4000:]))


# what the sources leave out when they are built into another program; the driver gets it from an ordinary build
NOT_LOCAL = ("libhmac.c", "libhmac_error.c", "libhmac_support.c")
_pool = ThreadPoolExecutor(NPROC)
_objs = {}


def obj(src, cfg, san, extra=(), getopt=True, pic=False, incs=()):
    """Schedules the compilation of one source, returns a future of the object's path."""
    cc, sf = SAN[san]
    if cfg == "local" and (not src.startswith(REPO + "/libhmac/") or os.path.basename(src) in NOT_LOCAL):
        cfg = "fbr"
    flags = sf + (WARN if not src.endswith(".cc") else ["-w", "-g1", "-std=gnu++14"]) + gen_config(cfg, getopt) + ["-I" + i for i in incs] + list(extra) + (["-fPIC"] if pic else [])
    if cfg in OPENSSL_CONFIGS:
        flags.append("-DVH_OPENSSL")
    if cfg == "evpold" and src.startswith(REPO + "/"):
        flags.insert(0, "-I" + VERIF + "/stubs/openssl10")
    key = hashlib.sha256(("\0".join([src, cfg, san, str(getopt), str(pic)] + flags)).encode()).hexdigest()[:24]
    with _lock:
        if key in _objs:
            return _objs[key]
        out = os.path.join(BUILD, fingerprint(), "obj", key + ".o")
        os.makedirs(os.path.dirname(out), exist_ok=True)

        def job():
            if not os.path.exists(out):
                tmp = "%s.%d.%s.tmp.o" % (out, os.getpid(), threading.get_ident())
                run([cc] + flags + ["-c", src, "-o", tmp], "compiling " + src)
                os.replace(tmp, out)
            return out
        _objs[key] = _pool.submit(job)
        return _objs[key]


_have = {}


def have(cfg):
    """Whether the sources can use the stand-in for OpenSSL 1.0, which has only the
    digest functions: what does not compile against it is judged in the other configurations."""
    if cfg != "evpold":
        return True
    with _lock:
        if cfg in _have:
            return _have[cfg]
    strict = ["-Werror=" + w for w in ("incompatible-pointer-types", "implicit-function-declaration", "int-conversion")]
    flags = ["gcc", "-fsyntax-only", "-I" + VERIF + "/stubs/openssl10"] + [w for w in WARN if w != "-w"] + strict + gen_config(cfg)
    rs = [_pool.submit(lambda s=s: subprocess.run(flags + [s], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode) for s in lib_sources()]
    ok = not any([r.result() for r in rs])
    with _lock:
        _have[cfg] = ok
    return ok


def lib_sources():
    return sorted(glob.glob(REPO + "/libhmac/*.c"))


def lib_objs(cfg, san, **kw):
    return [obj(s, cfg, san, **kw) for s in lib_sources() + ([S("vh_openssl10.c")] if cfg == "evpold" else [])]


def link(name, objs, cfg, san, flags=()):
    cc, sf = SAN[san]
    out = os.path.join(BUILD, fingerprint(), "bin", name)
    paths = [o.result() for o in objs]
    h = hashlib.sha256("\0".join(paths + list(flags)).encode()).hexdigest()[:12]
    out = out + "-" + h
    with _lock:
        lk = _link_locks.setdefault(out, threading.Lock())
    with lk:
        _link(name, out, cc, sf, paths, flags, cfg)
    return out


_link_locks = {}


def _link(name, out, cc, sf, paths, flags, cfg):
    if not os.path.exists(out):
        os.makedirs(os.path.dirname(out), exist_ok=True)
        tmp = "%s.%d.%s.tmp" % (out, os.getpid(), threading.get_ident())
        libs = ["-lcrypto"] if cfg in OPENSSL_CONFIGS else []
        run([cc] + sf + ["-g1", "-o", tmp] + paths + list(flags) + libs + ["-lpthread"], "linking " + name)
        os.replace(tmp, out)


def H(n):
    return os.path.join(VERIF, "harness", n)


def S(n):
    return os.path.join(VERIF, "stubs", n)


def start_driver(main, cfg, san, wrap=True, extra_src=(), extra=()):
    """Schedules the compilation of a library driver; returns a function that links it."""
    objs = lib_objs(cfg, san)
    mine = [H(main), H("ref_hash.c"), S("libcerror.c"), S("vh_track.c" if wrap else "vh_alloc_plain.c")]
    mine += [H(s) for s in extra_src]
    defs = ["-DVH_CFG=\"%s\"" % cfg, "-DVH_SAN=\"%s\"" % san] + (["-DVH_WRAP"] if wrap else []) + list(extra)
    # the machinery's reference is compiled optimised but under the same sanitizer
    objs = objs + [obj(s, cfg, san, extra=defs) for s in mine]
    name = "%s-%s-%s%s" % ("lib" if main == "vh_common.c" else os.path.splitext(main)[0], cfg, san, "" if wrap else "-plain")
    return lambda: link(name, objs, cfg, san, wrap_flags(cfg) if wrap else [])


def start_header(cfg, san):
    """A C++ program over the public header only; every function it declares is taken by address."""
    objs = lib_objs(cfg, san) + [obj(S(s), cfg, san) for s in ("libcerror.c", "vh_alloc_plain.c")]
    d = gen_config(cfg)[1][2:].rsplit("/", 1)[0]
    inc = ["-I" + d + "/include", "-I" + REPO + "/include"]

    def fin():
        t = subprocess.run(["g++", "-E", "-P", "-x", "c++"] + inc + ["-include", "libhmac.h", "/dev/null"], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        if t.returncode != 0:
            raise BuildError("the public header cannot be included:\n" + t.stderr[-2000:])
        names = sorted(set(re.findall(r"\b(libhmac_\w+)\s*\(", t.stdout)))
        out = os.path.join(BUILD, fingerprint(), "bin", "header-%s-%s.%d.%s" % (cfg, san, os.getpid(), threading.get_ident()))
        os.makedirs(out + ".d", exist_ok=True)
        try:
            with open(out + ".d/vh_declared.h", "w") as f:
                f.write("".join("F( %s )\n" % n for n in names))
            paths = [o.result() for o in objs]
            run(["g++", "-std=c++11", "-O1", "-fno-exceptions", "-w"] + inc + ["-I" + out + ".d", H("d_header.cc"), "-o", out] + paths + (["-lcrypto"] if cfg in OPENSSL_CONFIGS else []) + ["-lpthread"],
                "building the program over the public header")
        finally:
            shutil.rmtree(out + ".d", ignore_errors=True)
        return out, names
    return fin


FUZZ_FNS = ["_calculate", "_update", "_context_update", "_finalize", "_context_finalize"]


def start_fuzz(alg, cfg, san):
    """A shipped fuzz target under the machinery's oracle; with "fuzz" libFuzzer gives the inputs."""
    objs = lib_objs(cfg, san)
    src = os.path.join(REPO, "ossfuzz", alg + "_context_fuzzer.cc")
    if not os.path.exists(src):
        raise BuildError("the fuzz target of %s is gone" % alg)
    defs = ["-DALG=" + alg, "-DVH_REF=REF_" + alg.upper()] + (["-DVH_FUZZ"] if san == "fuzz" else [])
    objs += [obj(src, cfg, san, extra=["-DLLVMFuzzerTestOneInput=vh_target"], incs=[REPO + "/ossfuzz"])]
    objs += [obj(H("d_fuzz.cc"), cfg, san, extra=defs)]
    objs += [obj(s, cfg, san, extra=["-DVH_WRAP"]) for s in (H("ref_hash.c"), S("libcerror.c"), S("vh_track.c"))]
    fl = wrap_flags(cfg) + ["-Wl," + ",".join("--wrap=libhmac_%s%s" % (alg, f) for f in FUZZ_FNS), "-lstdc++"]
    if san == "fuzz":
        fl.append("-fsanitize=fuzzer")
    return lambda: link("fuzz-%s-%s-%s" % (alg, cfg, san), objs, cfg, san, fl)


def start_sum(cfg, san, src, getopt=True):
    """The parts of hmacsum below a driver of the machinery."""
    objs = lib_objs(cfg, san)
    objs += [obj(s, cfg, san, extra=["-Dmain=vh_tool_main"], getopt=getopt, incs=[REPO + "/hmactools"]) for s in sorted(glob.glob(REPO + "/hmactools/*.c"))]
    defs = ["-DVH_CFG=\"%s\"" % cfg, "-DVH_SAN=\"%s\"" % san, "-DVH_WRAP", "-DVH_SUM"]
    mine = [H("vh_common.c"), H("ref_hash.c"), H("d_sum.c"), S("libcerror.c"), S("vh_track.c"), S("hmactools_stubs.c")] + [H(s) for s in src]
    objs += [obj(s, cfg, san, extra=defs, getopt=getopt, incs=[REPO + "/hmactools"]) for s in mine]
    return lambda: link("sum-%s-%s%s" % (cfg, san, "" if getopt else "-nogetopt"), objs, cfg, san, wrap_flags(cfg))


LIBSRC = ["d_digest.c", "d_api.c", "d_threads.c"]


def start_taint(cfg, san):
    """A driver that marks the contents of keys and messages and follows the marks; not "taint": to be run under valgrind."""
    return start_driver("vh_common.c", cfg, san, True, LIBSRC + ["d_taint.c"], ["-DVH_TAINT"])


def start_guided(cfg, tool=False, getopt=False, san="fuzz"):
    """The library (and the parts of hmacsum) below the machinery's oracles, with libFuzzer giving the inputs.
    Only the code under test is instrumented for coverage."""
    objs = lib_objs(cfg, san)
    defs = ["-DVH_GUIDE", "-DVH_WRAP", "-DVH_CFG=\"%s\"" % cfg, "-DVH_SAN=\"fuzz\""] + (["-DVH_SUM"] if tool else [])
    incs = [REPO + "/hmactools"] if tool else []
    mine = [H(s) for s in ["vh_common.c", "ref_hash.c"] + LIBSRC] + [S("libcerror.c"), S("vh_track.c")]
    if tool:
        objs += [obj(s, cfg, san, extra=["-Dmain=vh_tool_main"], getopt=getopt, incs=incs) for s in sorted(glob.glob(REPO + "/hmactools/*.c"))]
        mine += [H("d_sum.c"), S("hmactools_stubs.c")]
    objs += [obj(s, cfg, "asan" if san == "fuzz" else "o2clang", extra=defs, getopt=getopt, incs=incs) for s in mine]
    return lambda: link("guided-%s-%s%s" % (cfg, san, "-tool" if tool else ""), objs, cfg, san, wrap_flags(cfg) + ["-fsanitize=fuzzer"])


def start_tool(cfg, san, getopt=True, wrap=True):
    incs = [REPO + "/hmactools"]
    objs = lib_objs(cfg, san)
    ren = ["-Dmain=vh_tool_main"] if wrap else []
    objs += [obj(s, cfg, san, extra=ren, getopt=getopt, incs=incs) for s in sorted(glob.glob(REPO + "/hmactools/*.c"))]
    objs += [obj(s, cfg, san) for s in (S("libcerror.c"), S("hmactools_stubs.c"),
                                        S("vh_track.c" if wrap else "vh_alloc_plain.c"))]
    if wrap:
        objs.append(obj(S("vh_toolctl.c"), cfg, san))
    name = "hmacsum-%s-%s%s%s" % (cfg, san, "" if getopt else "-nogetopt", "" if wrap else "-plain")
    return lambda: link(name, objs, cfg, san, wrap_flags(cfg) if wrap else [])


COST_FNS = ["memcpy", "memmove", "memset", "memcmp"]


def start_cost(cfg, san):
    """A driver that measures memory, stack and work."""
    objs = lib_objs(cfg, san)
    mine = [H(s) for s in ["vh_common.c", "ref_hash.c"] + LIBSRC] + [S("libcerror.c"), S("vh_track.c")]
    defs = ["-DVH_COST", "-DVH_WRAP", "-DVH_CFG=\"%s\"" % cfg, "-DVH_SAN=\"%s\"" % san]
    # only the code under test is instrumented
    objs += [obj(s, cfg, "o2clang", extra=defs) for s in mine] + [obj(H("d_cost.c"), cfg, san, extra=defs)]
    return lambda: link("cost-%s-%s" % (cfg, san), objs, cfg, san, wrap_flags(cfg) + ["-Wl," + ",".join("--wrap=" + x for x in COST_FNS)])


def start_tainttool(cfg, san):
    """hmacsum with the contents of the source marked; not "taint": to be run under valgrind."""
    incs = [REPO + "/hmactools"]
    objs = lib_objs(cfg, san)
    objs += [obj(s, cfg, san, extra=["-Dmain=vh_tool_main"], incs=incs) for s in sorted(glob.glob(REPO + "/hmactools/*.c"))]
    objs += [obj(S(s), cfg, san) for s in ("libcerror.c", "hmactools_stubs.c", "vh_track.c", "vh_toolctl.c", "vh_taint.c")]
    fl = wrap_flags(cfg) + ["-Wl," + ",".join("--wrap=libhmac_%s%s" % (a, f) for a in ("md5", "sha1", "sha224", "sha256", "sha512") for f in ("_finalize", "_context_finalize"))]
    return lambda: link("hmacsum-taint-%s-%s" % (cfg, san), objs, cfg, san, fl)


def start_pymod(cfg, san, wrap=True):
    incs = [REPO + "/pyhmac", py_include()]
    objs = lib_objs(cfg, san, pic=True)
    objs += [obj(s, cfg, san, incs=incs, pic=True) for s in sorted(glob.glob(REPO + "/pyhmac/*.c"))]
    objs += [obj(s, cfg, san, pic=True) for s in (S("libcerror.c"), S("vh_track.c" if wrap else "vh_alloc_plain.c"))]
    if wrap:
        objs.append(obj(S("vh_pyctl.c"), cfg, san, incs=incs, pic=True))
    name = "pyhmac-%s-%s%s.so" % (cfg, san, "" if wrap else "-plain")

    def fin():
        so = link(name, objs, cfg, san, ["-shared"] + (wrap_flags(cfg) + ["-Wl," + ",".join("--wrap=" + x for x in WRAP_PY)] if wrap else []))
        d = so + ".d"
        os.makedirs(d, exist_ok=True)
        dst = os.path.join(d, "pyhmac.so")
        if not os.path.exists(dst):
            tmp = dst + ".%d.%d" % (os.getpid(), threading.get_ident())
            shutil.copy(so, tmp)
            os.replace(tmp, dst)
        return d
    return fin


def start_embed():
    """A program with the interpreter inside, which it ends and starts again."""
    o = [obj(H(s), "fb", "o2", incs=[py_include()]) for s in ("py_embed.c", "ref_hash.c")]
    return lambda: link("py-embed", o, "fb", "o2", ["-lpython3.12", "-ldl"])


def py_include():
    p = "/usr/include/python3.12"
    if not os.path.exists(p + "/Python.h"):
        import sysconfig
        p = sysconfig.get_paths()["include"]
    return p


PYTHON = "/usr/bin/python3"


def prune(keep=4):
    """Old builds go away."""
    fp = fingerprint()
    ds = [d for d in glob.glob(os.path.join(BUILD, "*")) if os.path.isdir(d) and os.path.basename(d) != fp]
    ds.sort(key=os.path.getmtime)
    for d in ds[:max(0, len(ds) - keep)]:
        shutil.rmtree(d, ignore_errors=True)
