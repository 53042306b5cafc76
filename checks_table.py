# Per property: harness sources, extra --wrap symbols, level, libFuzzer seconds in the thorough tier,
# and the texts that go into MANIFEST.json.
SAMP = " Sampling: a violation needing a case outside the generated distribution can be missed; trusts gcc, ASan and the reference model in the harness."
def c(src, technique, note, **kw): return dict(src=src if isinstance(src, list) else [src], technique=technique, note=note + SAMP, **kw)
CHECKS = {
    "C01": c(["c01.cpp", "c01_shim.c"], "stateful model-based random testing (ideal-array model) under ASan with allocation accounting",
             "Random operation histories over item sizes 1..5000, block sizes incl. 0 and wrapped data compared with an array model after every step.", fuzz_s=120),
    "C02": c(["c02.cpp", "c02_shim.c"], "model-based random testing plus small-scope exhaustive enumeration of sorted insert/bsearch/sort",
             "All key sequences over a small alphabet up to a bounded length are enumerated; longer ones are random; comparison counts and argument order are monitored.", fuzz_s=120),
    "C03": c(["c03.cpp", "c03_shim.c"], "stateful model-based random testing of the generic list macros over many element types",
             "Random histories for each instantiated element/index type against an array model.", fuzz_s=120),
    "C04": c(["c04.cpp"], "stateful model-based random testing (ideal-array model) under ASan with allocation accounting",
             "Random histories over item sizes, positions inside and far outside the list.", fuzz_s=120),
    "C05": c(["c05.cpp"], "generated access patterns with executed-basic-block counting (trace-pc) against a c*log N bound",
             "Work is measured in executed basic blocks, not time, so the verdict is deterministic for a seed; the constant is about 4x the unchanged tree's.", variant="tracepc", alloc=False),
    "C06": c(["c06.cpp", "c06_shim0.c", "c06_shim1.c"], "stateful model-based random testing (std::map model) over both value-list builds and several bucket counts/hash functions",
             "Random histories including delete-while-iterating and self-referential index expressions.", fuzz_s=180),
    "C07": c(["c07.cpp", "c07_shim.c"], "stateful model-based random testing of hashlist and kvlist against multimap/linear-scan models",
             "Random histories over bucket counts and data sizes; iterators compared with the full contents.", fuzz_s=120),
    "C08": c(["c08.cpp", "c08_guard.c"] + ["c08_s%d.c" % i for i in range(10)], "stateful random testing with content patterns, page accounting and injected mmap/mprotect failures",
             "Ten pool geometries; guard blocks probed for accessibility at the first bytes behind them.", wrap=["mmap", "munmap", "mprotect"]),
    "C09": c(["c09.cpp", "c09_shim.c"], "exhaustive enumeration of all bytes / 16-bit values plus random bit-array histories against a bit-vector model",
             "Character classes and 16-bit swaps are decided exhaustively; bit arrays and 32/64-bit swaps by boundary-biased sampling.", fuzz_s=60),
    "C10": c("c10.cpp", "reference-conversion differential testing and round trips over boundary-biased values; full 32-bit sweep in the thorough tier",
             "Exact-size buffers under ASan; 32-bit formatters are swept completely in the thorough tier.", fuzz_s=60),
    "C11": c(["c11.cpp", "c11_shim.c"], "generated formats/arguments against libc snprintf per directive (differential), exact-size buffers, captured output",
             "%c with 0, %.N on non-integers, %.0, partial writes by the kernel are outside the domain.", fuzz_s=120),
    "C12": c("c12.cpp", "differential testing against a bit-level definition and grammar, round trips, small-scope enumeration",
             "Exact-size buffers under ASan; hex input is restricted to hex digits.", fuzz_s=90),
    "C13": c(["c13.cpp", "c13_shim.c"], "differential testing against specification-derived MD5/SHA-512 over random chunkings and interleavings; fixed digests for inputs up to 4 GiB",
             "SHA-512 chunks before the last are multiples of 128 bytes, as documented.", fuzz_s=60),
    "C14": c(["c14.cpp", "c13_shim.c"], "differential testing against a bit-wise CRC over random chunkings; enumeration of table indices; chunk metamorphic relation for 4 GiB inputs",
             "Tables are initialised before use, as documented.", fuzz_s=60),
    "C15": c("c15.cpp", "differential testing against textbook RC4, round trips, prefix relation, every key length enumerated",
             "Key length at least 1.", fuzz_s=60),
    "C16": c("c16.cpp", "differential testing against naive leftmost search, small-scope enumeration of haystack/needle pairs",
             "Exact-size needle and haystack buffers under ASan; strings without embedded zeros.", fuzz_s=120),
    "C17": c("c17.cpp", "round trips over edge-biased addresses and grammar-based text classification",
             "Components written with more than three digits are only required not to be accepted when out of range.", fuzz_s=90),
    "C18": c(["c18.cpp", "c18_shim.c"], "model-based random testing against std::string with exact-size buffers; slicing histories with buffer images; standard input fed in pieces",
             "Slicing operations get a writable byte after the string, as the code requires; standard input without zero bytes, buffers of at least 2 bytes.", fuzz_s=90, link=["-lpthread"]),
    "C19": c(["c19.cpp", "c19_shim.c"], "differential testing of split/join/replace against find-based definitions, small-scope enumeration, list histories with allocation accounting",
             "The split buffer has a writable terminator, as documented.", fuzz_s=120),
    "C20": c(["c20.cpp", "c20_shim.c"], "round trips with generated contents and injected short/failing/racing system calls (wrapped open, read, write, lseek) against the file's actual bytes",
             "Faults are injected in the library's own open/read/write; close failures, zero-byte writes and lines with embedded line feeds are outside the domain.", wrap=["open", "read", "write", "lseek"]),
    "C21": c(["c21.cpp", "c21_shim.c"], "stateful model-based random testing (offset model) of read/query histories with short and failing reads injected",
             "Descriptor 0 open, buffers of at least one byte, seekable files.", wrap=["open", "read", "write", "lseek"]),
    "C22": c(["c22.cpp", "c22_shim.c"], "generated directory trees, masks and flags in a scratch directory against the known contents filtered by fnmatch; memory of the search result accounted",
             "Masks without slashes; for masks starting with a dot without the hidden flag the entries '.' and '..' are not judged; relies on libc fnmatch as the wildcard definition.", wrap=["glob", "globfree"]),
    "C23": c(["c23.cpp", "c23_psp.c"], "differential testing against a component-stack model, small-scope exhaustive enumeration of path strings, idempotence",
             "Paths are terminated and contain no zero bytes; getfilename returns NULL without a slash and root-to-root difference may be empty or '/'.", fuzz_s=90),
    "C24": c("c24.cpp", "fault-sequence testing: mkdir replaced by a recording stand-in with generated collisions and errors; real directories in a scratch directory with forced collisions",
             "Templates end in six X or are shorter than six characters; at most 300 collisions in a row.", wrap=["mkdir", "rand"], alloc=False),
    "C25": c(["c25.cpp", "c25_shim.c"], "generated INI texts, every section and near-miss name looked up, against the line-by-line definition",
             "Section names are non-empty and contain no closing bracket.", fuzz_s=90),
    "C26": c("c26.cpp", "generated argument vectors, every present and near-miss name queried, against the definition (pointer-exact)",
             "Option names are non-empty, terminated, do not start with a dash or contain '='.", fuzz_s=90, alloc=False),
    "C27": c(["c27.cpp", "c27_shim.c"], "generated call histories on several descriptors compared byte for byte with the concatenation of the requested texts",
             "The kernel accepts whole writes (regular memory files).", alloc=False, wrap=["write"]),
    "C30": c("c30.cpp", "generated times, durations and interruption patterns against 128-bit arithmetic under a virtual clock (wrapped sleep and clock calls)",
             "Durations are judged in virtual time; C library time-zone rules are trusted; elapsed times in the future may round either way.", alloc=False,
             wrap=["nanosleep", "clock_nanosleep", "gettimeofday", "clock_gettime", "time", "usleep", "sleep", "select", "poll"]),
    "C28": c("c28.cpp", "generated histories over several concurrently open child processes with injected interruptions and failures; data, status, descriptors and zombies compared with expectation",
             "Children killed by signals and callers without open standard descriptors are outside the domain; schedules are the kernel's; a child that has not ended 15 s after its streams were closed counts as hanging.", alloc=False, wrap=["waitpid", "pipe", "posix_spawnp"]),
    "C29": c("c29.cpp", "generated descriptor, session, terminal and limit configurations; the daemon reports its own state, compared with the requirements; fork failure injected",
             "A session leader with a controlling terminal that hangs up while detaching is outside the domain.", alloc=False, wrap=["fork", "exit"]),
    "C31": c(["c31.cpp", "c31_shim.c", "c03_shim.c", "c06_shim0.c", "c06_shim1.c", "c07_shim.c", "c19_shim.c", "c22_shim.c", "c02_shim.c"], "fault enumeration: generated histories rerun with every single allocation failing and with all failing from drawn points, against models, with leak accounting",
             "Up to 48 failure points per history (all of them when there are no more); failures inside libc's own glob are not injected; bulk loaders may have appended a prefix.", level="fault_enumeration", wrap=["glob", "globfree"]),
    "C32": c(["c32.cpp", "c03_shim.c", "c06_shim0.c", "c06_shim1.c", "c07_shim.c", "c08_guard.c", "c13_shim.c", "c19_shim.c", "c21_shim.c", "c22_shim.c", "c25_shim.c", "c27_shim.c"], "generated multi-threaded workloads on distinct objects under ThreadSanitizer, results compared with the sequential run",
             "Schedules are the kernel's, but ThreadSanitizer reports conflicting unsynchronised accesses whether or not they coincide; CRC tables are initialised before the threads start, as documented; daemonize, child processes, standard-input reading and the static pool allocator are outside.", variant="tsan", alloc=False),
    "C33": c("c33.cpp", "generated programs: random selections, orders and repetitions of the public headers across source files, compilers, standards and configuration macros, compiled, linked and run against probes with known results",
             "gcc and clang of this machine; headers without an include guard (ssalloc.c, guard_alloc.c) are included once per file, stdio-repl.h last, as documented; C++ for the headers that provide for it and compile as C++.", variant="plain", alloc=False, plainlib=True, level="exploration"),
}
for k, v in {'C04': 2, 'C06': 2.5, 'C09': 3, 'C10': 3, 'C11': 3, 'C12': 3, 'C15': 3, 'C16': 3, 'C17': 3, 'C18': 3, 'C19': 4, 'C20': 2.5, 'C22': 3, 'C23': 3, 'C24': 2.5, 'C25': 3, 'C26': 2.5, 'C27': 4, 'C28': 4, 'C29': 3, 'C30': 5, 'C32': 1.6, 'C03': 1.3}.items(): CHECKS[k]["qs"] = v
