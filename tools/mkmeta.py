#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the descriptions below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ALGS = ["md5", "sha1", "sha224", "sha256", "sha512"]
LIB = ["libhmac/libhmac_%s.c" % a for a in ALGS] + ["libhmac/libhmac_%s_context.c" % a for a in ALGS]
CTX = ["libhmac/libhmac_%s_context.c" % a for a in ALGS]
ONE = ["libhmac/libhmac_%s.c" % a for a in ALGS]
TOOL = ["hmactools/hmacsum.c", "hmactools/sum_handle.c"]
PYC = ["pyhmac/pyhmac_%s_context.c" % a for a in ALGS]
PYF = ["pyhmac/pyhmac_%s.c" % a for a in ALGS]
TESTS = "The baseline runs one program (version and codepage queries); the repository's further tests, which do not build here, sample a few fixed values. "

P = []


def prop(id, title, statement, over, text, why, files, mech, level, technique, note, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, level=level, technique=technique, note=note, state=state, observe=observe))


RM = "runtime monitoring: "
prop("C01", "One-shot MD5 and SHA digests equal the standard in every build",
     "For each of MD5, SHA-1, SHA-224, SHA-256 and SHA-512, the one-shot calculation over any message, including the empty one, returns exactly the digest that RFC 1321 or FIPS 180-4 defines. "
     "This holds whichever implementation the library was configured with: the built-in algorithms with unrolled or rolled loops, or either kind of OpenSSL functions.",
     ["inputs", "configurations"], "Every message (any length and content), each of the five algorithms, each build configuration.",
     "It speaks of every message and every build; the tests try a handful of short messages in one build, and none near padding edges in the built-in code.",
     LIB, [("message block transformation", "libhmac_<algorithm>_context_transform"), ("padding and length encoding", "libhmac_<algorithm>_finalize"), ("one-shot calculation", "libhmac_<algorithm>_calculate")],
     "exploration", RM + "independent-reference oracle over generated messages, under ASan/UBSan/MSan and several optimisation levels",
     "Every length 0..1100 and the padding edges with varied contents in seven configurations; other messages are sampled. Trusts the machinery's reference, itself compared with hashlib on each run.")
prop("C02", "Streaming digests do not depend on how the data is split",
     "For every algorithm and build, initialising a context, passing data in any sequence of update calls (of any sizes, empty ones included, from buffers of any alignment), and finalising returns exactly the standard digest of the concatenated data. "
     "The result never depends on where the data was split.",
     ["inputs", "histories", "configurations"], "Every message, every division of it into updates, five algorithms, every build configuration.",
     "The number of splits is exponential and errors sit at particular buffer fill levels; " + TESTS,
     CTX, [("carrying a partial block over between updates", "libhmac_<algorithm>_update"), ("padding of the last block", "libhmac_<algorithm>_finalize")],
     "exploration", RM + "reference oracle over exhaustive two-way splits and random chunk sequences, under sanitizers",
     "All two-way splits up to two blocks and all remaining-buffer levels are enumerated; longer sequences are sampled.",
     state=[("partial block", "the bytes given that do not yet fill a block, and the count of all bytes")])
prop("C03", "HMAC calculations equal RFC 2104 for every key and message",
     "For every algorithm and build, the HMAC calculation over any key (of any length: empty, up to one block, exactly one block, longer than a block) and any message returns exactly the RFC 2104 value. "
     "It leaves the key and the message as they were.",
     ["inputs", "configurations"], "Every key, every message, five algorithms, every build configuration.",
     "Key sizes around the block size, the digest size and beyond select different code; " + TESTS,
     ONE, [("key hashing and padding", "libhmac_<algorithm>_calculate_hmac"), ("inner and outer hash", "libhmac_<algorithm>_calculate_hmac")],
     "exploration", RM + "reference oracle over all key sizes to three blocks and generated messages, under sanitizers",
     "Every key size 0..3 blocks with varied messages and every message size 0..4 blocks with chosen keys; the rest is sampled.")
prop("C04", "Digests and HMACs stay right on very large inputs",
     "Digests and HMACs stay exactly right for data beyond 2^32 bits and beyond 2^32 bytes, whether it comes as one buffer or as many updates, and for keys of such sizes. "
     "Nothing wraps, truncates or silently skips data.",
     ["inputs", "configurations"], "Messages and keys around and above 2^29, 2^31 and 2^32 bytes, in one call or many, five algorithms, every build configuration.",
     "No test processes gigabytes; a 32-bit length or counter anywhere works until 512 MiB or 4 GiB.",
     LIB, [("64-bit length encoding", "libhmac_<algorithm>_finalize"), ("sizes passed on to the provider", "libhmac_<algorithm>_update")],
     "exploration", RM + "large-data runs against hashlib",
     "A few totals just above each border, shapes chosen to reach each code path; larger sizes (2^33, 2^34) only in the thorough tier.")
prop("C05", "No call sequence breaks memory safety or writes outside the digest",
     "Any sequence of public library calls with buffers as large as stated performs no out-of-bounds access, use after free, double free, read of uninitialised memory or other undefined behaviour. "
     "A successful finalise or calculation writes exactly the digest bytes and no byte beyond them, and no call writes into data or key buffers or reads outside them.",
     ["histories", "inputs", "configurations"], "Every history of public calls over several contexts of five algorithms, with any sizes and alignments, in every build configuration.",
     "Memory errors are invisible without instrumentation and depend on sizes, alignment and call order; " + TESTS,
     LIB, [("copying into the partial block", "libhmac_<algorithm>_update"), ("writing the digest", "libhmac_<algorithm>_finalize"), ("block arithmetic", "libhmac_<algorithm>_context_transform")],
     "exploration", RM + "ASan, UBSan, MSan and valgrind over random API histories with guarded, exactly sized buffers",
     "Detects what the executed histories reach; buffers are exactly sized with canaries and guard pages.")
prop("C06", "Invalid arguments are refused with an error and have no effect",
     "A call with a missing context, missing data, key or digest buffer, an already occupied context pointer, a size beyond the maximum, or a digest buffer that is too small returns -1 with an error set (if an error pointer was given), and writes nothing into any buffer. "
     "A live context then continues as if the call had not happened, except that a call after finalise may be refused; freeing an empty context pointer succeeds and does nothing.",
     ["inputs", "histories"], "Every public function, every combination of invalid arguments, at every point in a context's life.",
     "Combinations of bad arguments, and that state survives a refusal in mid-stream, are not tried; " + TESTS,
     LIB, [("argument checks", "every public function of libhmac")],
     "exploration", RM + "invalid calls inserted in random histories; return values, error objects, buffers and later digests judged by a model",
     "Argument combinations are enumerated per function and repeated at random points of histories.")
prop("C07", "Contexts are independent of each other, across threads too",
     "Operations on one context never affect the result of another, however they are interleaved in one thread or run at the same time in different threads, and one-shot calculations from any number of threads return the right values. "
     "There is no shared mutable state in the library that such use would race on.",
     ["schedules", "histories"], "Every interleaving of operations on different contexts, in one thread or many, five algorithms, every build configuration.",
     "Tests use one context in one thread; races and shared scratch space show only under concurrency.",
     LIB, [("per-context state", "libhmac_internal_<algorithm>_context_t")],
     "exploration", RM + "ThreadSanitizer plus digest oracle under multi-threaded stress and interleaved contexts",
     "ThreadSanitizer reports races on executed pairs of accesses regardless of timing; schedules are sampled.")
prop("C08", "Every failure inside the library surfaces as an error, never a wrong digest",
     "When a memory allocation or a crypto-provider operation fails at any point of any library call, the call returns -1 with an error set, does not crash, leaks nothing, and reports no digest as successful. "
     "A context or pointer left by a failed call can be freed, an empty pointer stays empty after a failed creation, and the same work succeeds when retried.",
     ["fault_sequences", "configurations"], "Every allocation and every provider call of every scenario, failing once or from there on, in every build configuration.",
     "The failing points are never reached by tests without fault injection.",
     LIB, [("error paths", "libhmac_<algorithm>_initialize, _update, _finalize, _calculate, _calculate_hmac")],
     "fault_enumeration", RM + "fault injection at every allocation and provider call, under sanitizers, with leak accounting",
     "Every single fault point of the scenarios is enumerated, once and persistent; combinations of later faults are sampled.")
prop("C09", "No history of library calls leaks memory or provider objects",
     "Once every context obtained has been freed, whatever succession of successful and refused calls came before, no memory block or crypto-provider context allocated by the library remains. "
     "One-shot and HMAC calculations leave nothing behind on any path.",
     ["histories", "configurations"], "Every history of calls that ends by freeing its contexts, in every build configuration.",
     "Leaks change no result; the tests count nothing.",
     LIB, [("release of contexts", "libhmac_<algorithm>_free, _calculate, _calculate_hmac")],
     "exploration", RM + "interposed allocator and provider accounting, LeakSanitizer, over random histories",
     "Exact accounting of every block over the executed histories.")
prop("C10", "Key material and message data do not remain in released memory",
     "When the library releases memory, or a call returns, no heap block it releases still contains the HMAC key, the hashed key, the padded key blocks or message bytes buffered in a context. "
     "This holds on success and error paths and in optimised builds.",
     ["inputs", "fault_sequences", "configurations"], "Every key, message and path of the HMAC calculation and of contexts that are freed, in optimised builds of every configuration.",
     "Wiping has no effect on results, and compilers remove it silently; no test looks at released memory.",
     LIB, [("wiping before release", "libhmac_<algorithm>_calculate_hmac, libhmac_<algorithm>_free")],
     "exploration", RM + "every block is searched for key, pad and message patterns at the moment it is released, in -O2/-O3 builds",
     "Judges heap blocks that the library releases (not stack slots or registers).")
prop("C11", "The deprecated context functions behave exactly like their successors",
     "The older initialise, update, finalise and free functions over context types produce the same digests and the same refusals as the current functions for every history. "
     "The two families can be mixed on one context.",
     ["histories", "inputs"], "Every history that uses the older names for some or all of its calls, five algorithms, every build configuration.",
     "The tests do not exercise the older names in longer histories or mixed with the new ones.",
     CTX, [("deprecated wrappers", "libhmac_<algorithm>_context_initialize, _update, _finalize, _free")],
     "exploration", RM + "differential histories through both families, mixed at random, under sanitizers",
     "The same engine and oracle as the current functions; histories are sampled.")
prop("C12", "Every build behaves the same and its version and constants agree",
     "For the same history of calls all build configurations return the same values and the same digests and refuse the same calls. "
     "The version string, the version constant and the published digest sizes agree with the headers and with what the functions write. Every function the public header declares can be called, from C and C++, with that header alone.",
     ["configurations", "histories"], "Every history over any pair of build configurations.",
     "The tests run in one configuration and never compare two.",
     LIB + ["libhmac/libhmac_support.c", "include/libhmac/definitions.h.in"], [("configuration selection", "conditional compilation in libhmac_<algorithm>_context.c"), ("version", "libhmac_get_version")],
     "exploration", RM + "recorded event logs of the same random histories compared across all configurations",
     "Twelve builds run the same seeded histories, and their logs must be identical; seven configurations on one platform.")
prop("C13", "Errors are reported consistently and never overwrite the caller's",
     "Functions return 1 on success (0 where documented) without touching the error pointer and -1 with a newly created, non-empty error otherwise; they work the same without an error pointer, and keep an error that the caller already holds while adding to it. "
     "The error functions free, print and backtrace any such error within the given buffer size.",
     ["histories", "inputs"], "Every public function in success and failure, with no error pointer, an empty one or one that already holds an error; every print buffer size.",
     "The tests look at a few error objects and never at success paths that leave stray errors.",
     LIB + ["libhmac/libhmac_error.c"], [("error setting", "every public function"), ("error printing", "libhmac_error_sprint, libhmac_error_backtrace_sprint, libhmac_error_free")],
     "exploration", RM + "error-object accounting in a stand-in error library around random histories",
     "The error library here is a stand-in with the documented interface; what libhmac does with it is judged.")
prop("C14", "Contents of keys and messages never steer what the library executes",
     "Which branches are taken and which memory is addressed depends on sizes, the algorithm and the calls made, never on the bytes of a key, of a message, or of an intermediate or inner hash: in one-shot, keyed and streaming calls and the deprecated ones, on success and on errors, so that running time and memory accesses do not tell a key. "
     "hmacsum likewise treats all contents of a source alike.",
     ["inputs", "configurations"], "Every key and message of every size, every division into updates, every build configuration and optimisation.",
     "Values stay right when a key leaks through a branch or a table lookup, so no test of values can notice; it must hold for all contents at once.",
     LIB + TOOL, [("keyed calculation", "libhmac_<algorithm>_calculate_hmac"), ("block transforms", "libhmac_<algorithm>_context_transform"), ("updates of hmacsum", "sum_handle_process_input")],
     "exploration", RM + "every byte of key and message is marked undefined; MemorySanitizer and memcheck report each branch or address that depends on a mark",
     "Holds for all contents of the sizes and calls run; a crypto provider is outside of MemorySanitizer's view, memcheck follows it.")
prop("C15", "Memory use stays constant and work linear in the amount of data",
     "Heap and stack that digests, HMACs, streams and contexts take do not grow with the amount of data, its division or the key beyond a fixed amount. Work grows at most in proportion to the data, and an update costs the same whatever went before. "
     "hmacsum's memory is bounded by its process buffer and it asks for about size divided by buffer size reads; the Python module takes no copies of data.",
     ["inputs", "histories"], "Every size of data and key, every division into updates, build configuration, alignment.",
     "Tests hash a few bytes; a copy of the data or a pass over what went before gives right values and is seen on large inputs or long streams only.",
     LIB + TOOL + PYC, [("updates", "libhmac_<algorithm>_context_update"), ("process buffer", "sum_handle_process_input"), ("data of the Python module", "pyhmac_<algorithm>_context_update")],
     "exploration", RM + "peak heap and stack, executed edges and moved bytes compared between a call and the same call on more data",
     "Data up to megabytes; what a crypto provider does inside is not measured, only what it is given.")
prop("T01", "hmacsum prints the right digest of the whole file for any options",
     "hmacsum exits 0 and prints, for MD5 and for each selected digest type, exactly the lower-case hexadecimal digest of the entire source, for any file size, any process buffer size, any set of types and however the operating system divides the reads; a source without a fixed size, such as a pipe, is read to its end. "
     "The source file is never modified.",
     ["inputs", "schedules", "configurations"], "Every file, buffer size, set of digest types, division of reads, build configuration.",
     "hmacsum is not even compiled by the baseline tests; sizes that do not divide the buffer and short reads need generated workloads.",
     TOOL + ["hmactools/digest_hash.c"], [("reading and hashing", "sum_handle_process_input"), ("printing", "sum_handle_print_hashes, digest_hash_copy_to_string")],
     "exploration", RM + "output oracle (hashlib) over generated runs with logged I/O and random short reads, under sanitizers",
     "File access goes through a stand-in that logs every operation and divides reads; options and sizes are sampled around the edges.")
prop("T02", "hmacsum's digest type option selects exactly the types named",
     "The -d option accepts, separated by commas and in any order, md5, sha1, sha224, sha256 and sha512 with the documented spellings (also sha-1, sha_1 and so on, in either case); exactly one line is printed for each selected type, plus always MD5. "
     "A name that is not one of them adds no digest line, is never taken for a known type, and never disturbs the lines of the others.",
     ["inputs"], "Every string given as digest types: combinations, repetitions, near-misses, empty parts.",
     "The space of strings and type sets is not sampled by any test that builds here.",
     ["hmactools/sum_handle.c", "hmactools/hmacsum.c", "hmactools/hmactools_getopt.c"], [("parsing of digest types", "sum_handle_set_digest_types"), ("option parsing", "hmactools_getopt")],
     "exploration", RM + "output oracle over all subsets, orders, spellings and mutated names",
     "All 32 sets and the spellings are enumerated; near-misses are generated.")
prop("T03", "hmacsum never reports success after an I/O failure",
     "If opening, sizing, reading, or closing the source fails, or it ends early, hmacsum exits with failure, says so on standard error and prints no digest for data it could not read in full. "
     "If standard output cannot be written, it exits with failure as well.",
     ["fault_sequences"], "Every I/O operation of a run failing or returning less than promised, with any options; every way standard output can fail.",
     "Fault injection at every operation is needed; tests never fail an I/O call.",
     TOOL, [("read loop", "sum_handle_process_input"), ("exit status", "main of hmacsum")],
     "fault_enumeration", RM + "scripted faults at every file operation and output failures; exit status, output and diagnostics judged",
     "Each operation of the scenarios is failed in turn; the file layer is a stand-in for libcfile, standard output is the real one.")
prop("T04", "An interrupt at any moment never yields a wrong or partial digest as success",
     "If an interrupt signal arrives while hmacsum opens, reads and hashes the source, it stops reading promptly, reports on standard output that it was aborted, exits with failure and prints no digests. "
     "Whenever the signal arrives, every digest printed is right, the exit status is success only if all selected digests were printed, and the program neither crashes nor hangs.",
     ["schedules"], "Every moment of arrival of the signal, once or repeatedly, any options.",
     "The moment of a signal is a schedule; no test sends one.",
     TOOL + ["hmactools/hmactools_signal.c"], [("signal handling", "hmacsum_signal_handler, sum_handle_signal_abort"), ("abort check", "sum_handle_process_input")],
     "exploration", RM + "signals raised inside chosen I/O operations and from timers; exit status, output and log of operations judged, under sanitizers",
     "Every read of the scenarios is interrupted in turn, and random moments by timer; signals between machine instructions are sampled.")
prop("T05", "hmacsum's buffer size option means exactly what was written",
     "A value of -p made of digits, optionally a space and a unit letter (k, m, g, t, p, e, z, y in either case; followed by nothing or iB for factors of 1024, by B for factors of 1000) is used as exactly that many bytes. "
     "With a fraction, written with the decimal point of the locale, the size is at least that of the whole number and less than that of the next one, and for kB, MB and so on with one or two decimals it is exact. "
     "Zero, unknown units and values that do not fit are reported on standard error and are never silently turned into another size; only the default of 32768 or a refusal follows.",
     ["inputs"], "Every string given as process buffer size.",
     "Arithmetic overflow and unit handling depend on particular strings; nothing tests them here.",
     ["hmactools/byte_size_string.c", "hmactools/sum_handle.c", "hmactools/hmacsum.c"], [("parsing and factors", "byte_size_string_convert"), ("use of the value", "sum_handle_set_process_buffer_size")],
     "exploration", RM + "the sizes of read requests observed for generated strings against an arbitrary-precision model",
     "All units, cases and suffixes with border values are enumerated; other strings are sampled. Trailing text and further decimals are not claimed.")
prop("T06", "hmacsum handles any command line safely",
     "For any argument list hmacsum performs no invalid memory access, leaks nothing, and ends by itself with exit status 0 or 1. "
     "Help requests print every option, version requests the version of the sources, and both succeed; unknown options, missing option arguments and a missing source print the usage or a message and fail without printing digests.",
     ["inputs"], "Every argument list, with the system's option parser or the built-in one.",
     "Argument lists are an unbounded space, and the built-in option parser is not compiled in the tested build.",
     ["hmactools/hmacsum.c", "hmactools/hmactools_getopt.c", "hmactools/hmactools_output.c", "hmactools/sum_handle.c"], [("option parsing", "hmactools_getopt"), ("main program", "main of hmacsum")],
     "exploration", RM + "generated hostile argument lists under ASan/UBSan/LSan with both option parsers; model of the expected ending",
     "Argument lists are generated from options, values, fragments and random bytes.")
prop("T07", "hmacsum survives failures of memory and crypto at any point",
     "If any memory allocation or crypto-provider operation fails at any point of a run, hmacsum ends with failure and a diagnostic, prints no digests, does not crash and leaks nothing.",
     ["fault_sequences", "configurations"], "Every allocation and provider call of a run, failing once or from there on, with any options.",
     "Needs fault injection at every point; no test does it.",
     TOOL + ["hmactools/digest_hash.c"], [("error paths", "sum_handle_initialize, sum_handle_process_input, main")],
     "fault_enumeration", RM + "fault injection at every allocation and provider call of whole runs, under sanitizers",
     "Every fault point of the scenarios, once and persistent, in four configurations.")
prop("T08", "hmacsum's sum handle and string conversions keep their contracts in any history",
     "Calls on a sum handle (set digest types or buffer size, open, read, process, begin, update and finish the integrity hash, signal abort, close, free) in any order, with invalid calls and failing files, memory or crypto between them, never access memory invalidly or leak; every call that fails returns -1 with an error and every call that succeeds leaves none. "
     "After a successful finish or unaborted processing, the handle prints exactly the selected digests of the data it was given; hashing or processing that was not begun or has no file never succeeds. "
     "The digest string is the exact lower-case hexadecimal text and is refused when it does not fit. A byte size string made by the tool reads back as a value never larger and less than a ninth smaller, and stays the same from then on; every text of digits, optional unit letter and unit system converts exactly over all of 64 bits or is refused.",
     ["histories", "inputs", "fault_sequences"], "Every sequence of sum handle calls with faults, every 64-bit size and size text, every digest and place size.",
     "Histories, faults and the 64-bit range cannot be sampled by a few tests; the conversions beyond what hmacsum can allocate are not visible from its command line.",
     ["hmactools/sum_handle.c", "hmactools/byte_size_string.c", "hmactools/digest_hash.c"], [("handle life and hashing", "sum_handle_initialize, sum_handle_process_input, sum_handle_finalize_integrity_hash, sum_handle_free"), ("strings", "byte_size_string_create, byte_size_string_convert, digest_hash_copy_to_string")],
     "exploration", RM + "model-based random call histories with injected failures under ASan/UBSan/MSan, block accounting and a reference for printed values; arbitrary-precision model for sizes",
     "Histories are random; printing before anything was finished is outside the claim.",
     state=[("handle", "selected types, open file and position, begun contexts, data given so far")])
prop("T09", "The option parser, signal handling and output helpers keep their contracts",
     "For any argument vector and option string, hmacsum's own option parser gives the options in order, each with its argument (joined or the next argument), '?' for an option that is not in the string and ':' for a missing argument, goes on with the following options after either, ends at the first argument that is not an option, and always ends without reading outside the arguments. "
     "After attaching a signal handler an interrupt reaches it, after detaching it does not; a missing handler is refused, not installed. "
     "The output helpers print the version of the sources and the copyright, print nothing when the stream or program name is missing, and accept exactly the three stream modes.",
     ["inputs", "histories"], "Every argument vector and option string, every sequence of attach, detach and interrupt.",
     "The built-in parser is compiled only where the system has none, so no test runs it, and argument vectors are an unbounded space.",
     ["hmactools/hmactools_getopt.c", "hmactools/hmactools_signal.c", "hmactools/hmactools_output.c"], [("option groups and arguments", "hmactools_getopt"), ("signal handler", "hmactools_signal_attach, hmactools_signal_detach"), ("output", "hmactools_output_initialize, _version_fprint, _copyright_fprint")],
     "exploration", RM + "model-judged calls on exact heap blocks under ASan/UBSan/MSan; delivered signals counted",
     "Argument vectors are generated; help text output is judged by T06.",
     state=[("parser position", "index of the next argument and the place inside a group of options")])
prop("P01", "The Python module returns the standard digests and HMACs",
     "Every function and context type of the Python module returns, for any bytes given in any pieces and any keys, exactly the bytes that hashlib and hmac return, and the module's version is the library's. "
     "Results do not depend on positional or keyword passing or on subclasses of bytes.",
     ["inputs", "configurations"], "Every data and key, every division into updates, five algorithms, every build configuration.",
     "The Python module is not built by the baseline tests.",
     PYF + PYC + ["pyhmac/pyhmac.c"], [("argument conversion", "pyhmac_<algorithm>_calculate, _calculate_hmac, _context_update")],
     "exploration", RM + "hashlib and hmac as oracle over generated calls in the real interpreter, with an ASan build",
     "CPython 3.12 only.")
prop("P02", "Wrong Python arguments raise a proper exception and nothing else happens",
     "Every call of the Python module with wrong, hostile or missing arguments raises an exception of an ordinary kind with a message, never crashes the interpreter, leaves all reference counts balanced and leaves the context usable with its content unchanged. "
     "Data that is not bytes and a wrong number or name of arguments is a TypeError; when an object given as data raises something of its own, that is named in the message.",
     ["inputs", "histories"], "Every kind of wrong object in every argument position, objects whose own methods raise, wrong counts and names of arguments.",
     "Hostile objects and reference counts are not looked at by any test.",
     PYF + PYC + ["pyhmac/pyhmac_error.c"], [("type checks", "pyhmac_<algorithm>_calculate, _context_update"), ("raising", "pyhmac_error_fetch_and_raise, pyhmac_error_raise")],
     "exploration", RM + "hostile objects under ASan and the debug allocator; exceptions, reference counts and live blocks judged",
     "About 38 object kinds in every position, in several builds.")
prop("P03", "Python objects of the module can live and die in any way",
     "Contexts can be created, created without initialisation, initialised again, used after finalise, copied, put in reference cycles and dropped in any order or at the end of the interpreter, without crash, leak, or stray exceptions. No call keeps a reference to its arguments or its result. "
     "A context that is initialised again starts afresh.",
     ["histories"], "Every history of object operations over any number of contexts.",
     "Object lifecycle histories are not sampled by tests.",
     PYC, [("object creation and release", "pyhmac_<algorithm>_context_init, _free")],
     "exploration", RM + "model-based random lifecycles with block accounting, ASan and process memory monitors",
     "Histories are sampled; leaks are counted exactly inside the module and by the bytes in use of the process.")
prop("P04", "Python contexts are safe to use from several threads",
     "When several Python threads update one context at the same time, the result is that of the same updates in some order, none lost or torn; any mixture of update, finalise and initialisation on one context leaves the interpreter intact. "
     "Threads that use contexts of their own do not disturb each other.",
     ["schedules"], "Every schedule of threads over shared and separate contexts.",
     "Updates release the interpreter lock, so they really run in parallel; tests are single-threaded.",
     PYC, [("release of the interpreter lock", "pyhmac_<algorithm>_context_update, _finalize, _init")],
     "exploration", RM + "ThreadSanitizer and order-independent digest oracle under multi-threaded stress in the real interpreter",
     "ThreadSanitizer sees the module and the library, not the interpreter; schedules are sampled with a microsecond switch interval.")
prop("P05", "Failures below the Python module become exceptions",
     "When an allocation or a crypto-provider operation in the library or module fails at any point of any call, Python sees an exception with a message and never a wrong value; nothing is leaked and the interpreter, the module and later calls work as before.",
     ["fault_sequences"], "Every allocation and provider call inside the module, failing once or from there on, in each kind of call.",
     "Needs fault injection; no test does it.",
     PYF + PYC + ["pyhmac/pyhmac_error.c"], [("error paths", "pyhmac_error_raise and its callers")],
     "fault_enumeration", RM + "fault injection at every allocation and provider call under ASan, with block accounting",
     "Every fault point of nine scenarios for each algorithm.")

prop("P06", "The Python module loads again, in more interpreters and after restarts",
     "The module can be imported any number of times, in further interpreters of one process that share the interpreter lock, and after the interpreter was ended and started again. "
     "Each time its functions and types return the standard digests, contexts of different loads and interpreters do not disturb each other, and an interpreter may end while contexts are alive. "
     "A load in which an operation of the interpreter fails raises an exception, leaves no module or reference behind, and can be tried again.",
     ["histories", "fault_sequences"], "Every sequence of loads, interpreters and ends of interpreters, and a failure at any point of a load.",
     "Tests load the module once in one interpreter.",
     ["pyhmac/pyhmac.c"] + PYC, [("initialisation of the module", "PyInit_pyhmac")],
     "exploration", RM + "repeated loads, restarted and further interpreters, and injected failures of a load, judged by hashlib, reference and block counts and ASan",
     "CPython 3.12 only; interpreters with a lock of their own refuse the module and are not claimed.")

prop("F01", "Shipped fuzz targets hash all they are given and survive failures",
     "Each of the five fuzz targets in ossfuzz, called with any input (including none) of up to 4 MiB, returns 0, has the library hash exactly the bytes of that input with the algorithm the target is named for, and has the right digest come out. "
     "It writes nothing to the input and reads nothing outside it, releases all it took, and does the same without crashing when memory or a crypto operation fails.",
     ["inputs", "configurations", "fault_sequences"], "Every input of up to 4 MiB, five targets, every build configuration, every failing allocation or provider call.",
     "No test runs the targets at all; one that drops its input, caps its size or aborts by itself would fuzz nothing and nobody would see it.",
     ["ossfuzz/%s_context_fuzzer.cc" % a for a in ALGS] + LIB, [("the fuzz target", "LLVMFuzzerTestOneInput")],
     "exploration", RM + "reference oracle around the shipped targets under ASan/UBSan, with guarded and read-only inputs, fault injection, and libFuzzer",
     "Every size 0..699 and random sizes to 4 MiB; libFuzzer for a few seconds per target and build in the quick tier.")

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
        if p["state"]:
            a["state"] = [{"name": n, "meaning": m} for n, m in p["state"]]
        if p["observe"]:
            a["observe_at"] = p["observe"]
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"], "anchors": a}) + "\n")
json.dump({"version": 1, "setup_cmd": "python3 check.py setup",
           "checks": [{"property": p["id"], "quick_cmd": "VERIF_TIER=quick python3 check.py " + p["id"], "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + p["id"],
                       "technique": p["technique"], "level": p["level"], "level_note": p["note"]} for p in P],
           "not_applicable": [], "notes": "No hooks in /repo: the checks observe the unmodified sources through interposed allocation, crypto-provider and file functions, sanitizers and the public interfaces. See DESIGN.md."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties")
