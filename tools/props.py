#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/props.py)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("C01", "By-value lists (sblist, sptrlist, stringlist) behave as a sequence",
  "After any history of add, append-with-index, insert, set, delete, pop, sort, free-items and reuse, with any item size and any block size (including 0 = page-sized and lists wrapped around existing data), an sblist holds exactly the sequence of item values an ideal array would hold, every accessor and iterator agrees with it, and no byte outside the list's own storage is touched. "
  "Out-of-range get/set/delete/insert/pop report failure (NULL / 0 / no-op) and leave the list unchanged. "
  "The pointer-list and string-list variants behave as the same sequence of pointers, and freeing a list (its values, its items, or all of it) releases each allocation exactly once.",
  ["histories", "inputs"], "every operation history over every item size, block size and index",
  "sblist_test/insert/delete tests run three fixed histories with one item size; growth boundaries, wrapped data, out-of-range indices and free paths are never sampled.",
  ["include/sblist.h", "src/sblist/", "include/sptrlist.h", "include/stringlist.h"],
  [("block-wise growth before every addition", "src/sblist/sblist.c:sblist_grow_if_needed"), ("memmove of the tail on insert/delete", "src/sblist/sblist_insert.c, sblist_delete.c"), ("bounds test in accessors", "src/sblist/sblist.c:sblist_get/sblist_set")],
  ["return values of the public functions", "list contents through sblist_get and the iteration macros"],
  [("count/capa", "number of items in use / allocated", "include/sblist.h")])

p("C02", "Sorted insertion keeps lists sorted and binary search decides membership",
  "Inserting any sequence of items (duplicates included) through the sorted-insert calls of sblist (plain and context variants) and tglist always leaves the list sorted by the comparison with exactly the inserted multiset, and returns the index where the new item now is. "
  "Binary search (plain and context variants) on a sorted list returns an index holding an equal item if and only if one exists, else -1; sorting yields a sorted permutation. "
  "The searched/inserted item is always the comparison's first argument and the list item the second, the context pointer is passed through unchanged, and the number of comparisons grows logarithmically with the list.",
  ["inputs", "histories"], "every sequence of insertions and lookups, every total preorder, every list length",
  "bmap_bench/sblist tests insert one distribution; equal keys, edges and argument order are not checked.",
  ["src/sblist/sblist_insert_sorted.c", "src/sblist/sblist_insert_sorted_r.c", "src/sblist/sblist_bsearch.c", "src/sblist/sblist_bsearch_r.c", "src/sblist/sblist_sort.c", "include/tglist.h"],
  [("binary search for the insertion position", "src/sblist/sblist_insert_sorted.c"), ("binary search", "src/sblist/sblist_bsearch.c"), ("typed variant", "include/tglist.h:tglist_sorted_insert_pos_impl")],
  ["returned index", "list contents", "arguments seen by the comparison callback"])

p("C03", "Typed generic lists (tglist, tgilist) behave as a sequence",
  "After any history of valid add, insert, set, delete, sort and free operations, a tglist or tgilist of any element type (1-byte integers to large structs and pointers) holds exactly the sequence an ideal array would hold; foreach visits positions 0..n-1 in order, for index types that can represent every item ever added. "
  "Operations report success, store the item by value without touching memory outside the list, work when the position argument is an expression of the list itself, and releasing the list (its values included) frees each allocation exactly once.",
  ["histories", "configurations"], "every history of in-range operations, over element and index types",
  "tglist tests fill one int list front/back; interleavings of insert/delete around the growth points and other element sizes are not run.",
  ["include/tglist.h", "include/tgilist.h"],
  [("doubling growth", "include/tglist.h:tglist_grow_if_needed"), ("tail move", "include/tglist.h:tglist_memmove_impl"), ("index indirection", "include/tgilist.h")],
  ["macro results", "contents through tglist_get/tgilist_get"])

p("C04", "Treap list (tlist) behaves as a dynamic array",
  "After any history of insert at a position, append, delete, delete-deep and free-items, a tlist of any item size holds exactly the sequence an ideal array would hold: size and every indexed read agree with it. "
  "Reading, inserting or deleting at an index outside the list (however large) returns NULL / 0 and changes nothing. "
  "The deep variants free each stored pointer exactly once, the shallow ones none, and freeing the list releases all of its memory and returns NULL.",
  ["histories", "inputs"], "every history of operations and every index, including indices beyond 32 bits",
  "tlist_test fills and drains one list; mixed histories, out-of-range indices and the deep variants are never exercised.",
  ["include/tlist.h", "src/tlist/tlist.c"],
  [("implicit treap split/merge with subtree counts", "src/tlist/tlist.c:split,merge,upd_cnt"), ("position lookup", "src/tlist/tlist.c:getitem"), ("removal", "src/tlist/tlist.c:remove")],
  ["tlist_getsize, tlist_get, return codes", "live allocations"])

p("C05", "Treap list operations cost O(log N)",
  "For every access pattern (appending, prepending, random or clustered positions, alternating insert/delete, draining), the average work per insert, delete and indexed read on a tlist of N items is bounded by a constant times log N, as documented, so no pattern of positions degrades it to linear behaviour. "
  "The recursion depth per operation stays small enough that lists of hundreds of thousands of items never exhaust the stack.",
  ["histories"], "every pattern of positions, list sizes up to hundreds of thousands",
  "no test measures cost; a degenerate (list-shaped) tree still returns correct values.",
  ["include/tlist.h", "src/tlist/tlist.c"],
  [("random priorities", "src/tlist/tlist.c:mrand,new_item"), ("heap order in merge", "src/tlist/tlist.c:merge")],
  ["basic blocks executed per operation (compiler coverage callback)"])

p("C06", "bmap and hbmap behave as maps over every history",
  "After any history of insert, unchecked insert of fresh keys, find, get, contains, set-value and delete, a bmap (with either value-list implementation) or an hbmap with any number of buckets and any hash function holds exactly the key/value pairs an ideal map would hold: insert overwrites an existing key, lookups of absent keys report -1/NULL/0, and every index, iterator and pointer handed out denotes the right pair. "
  "A bmap is always iterated in strictly increasing key order; hbmap's foreach visits every entry exactly once, and the documented delete-while-iterating idiom empties it. "
  "Index and iterator arguments may be arbitrary expressions, including lookups in the same map, and destruction frees keys/values exactly as the flags say.",
  ["histories", "configurations"], "every operation history, key/value types, bucket counts, hash functions",
  "the benches insert and look up one word list and never delete, overwrite or iterate over colliding or empty buckets.",
  ["include/bmap.h", "include/hbmap.h", "include/tglist.h", "include/tgilist.h"],
  [("parallel sorted key list and value list", "include/bmap.h:bmap_insert_nocheck,bmap_delete"), ("bucket/index packed iterator", "include/hbmap.h:hbmap_next_valid_impl")],
  ["macro results", "iteration order"])

p("C07", "hashlist and kvlist find what was stored, and iteration misses nothing",
  "For every bucket count, data size and history of additions (and removals from the returned lists), looking up a hash in a hashlist returns a list whose entries are exactly the values stored under hashes congruent to it, in insertion order (NULL if there never was one), and the bucket and entry iterators visit every non-empty bucket and every stored value exactly once and then keep reporting the end. "
  "kv_find reports success exactly when the list contains the byte string (embedded zeros included), delivering the value of the first match and otherwise leaving the output untouched. "
  "Freeing releases everything.",
  ["histories", "inputs"], "every set of hashes, bucket counts, data sizes, key byte strings",
  "hashlist_test adds one word list; there is no kvlist test.",
  ["include/hashlist.h", "src/hashlist/", "include/kvlist.h", "src/kvlist/kvlist.c"],
  [("bucket selection hash mod bucketcount", "src/hashlist/hashlist.c"), ("iterators", "src/hashlist/hashlist_iterator.c"), ("linear key match", "src/kvlist/kvlist.c")],
  ["returned lists, iterator results"])

p("C08", "Pool and guard allocators hand out disjoint, exact memory",
  "For every history of allocations and frees, the single-size pool allocator hands out at most its configured number of elements, properly spaced inside the pool and disjoint from each other, succeeds whenever fewer are live and the request fits the element size (freed elements are always reusable), refuses oversized requests, and ignores frees of pointers that are not live elements of the pool. "
  "guard_alloc(n) returns n usable bytes whose last byte is immediately followed by an inaccessible page, for every n, and guard_free returns all of that memory, touching no other mapping.",
  ["histories", "configurations"], "every alloc/free history, pool geometry and block size",
  "ssalloc_test and guard_alloc_test run one fixed sequence each with one geometry.",
  ["include/ssalloc.c", "include/guard_alloc.c", "include/bitarray.h"],
  [("top pointer plus usage bitmap", "include/ssalloc.c:ssa_alloc,ssa_free"), ("guard page after the block", "include/guard_alloc.c")],
  ["returned addresses", "process mappings, faulting accesses"])

p("C09", "Bit arrays, byte order helpers and character classes match their definitions",
  "Setting or clearing any bit of a bit array changes exactly that bit and no byte outside the required size, reads return what was last written, and the swapped read mirrors bit order within each byte. "
  "The byte-swap and host/big/little-endian conversion helpers agree with the definition for every value, and invert each other. "
  "Every character predicate, case conversion, hex-digit value and strswitch character set agrees with the ASCII definition for all 256 byte values, and the in-place case conversions change exactly the ASCII letters.",
  ["inputs"], "every bit position and history, every value, every byte",
  "only two bit positions and no byte-order or character helper is tested.",
  ["include/bitarray.h", "include/endianness.h", "src/strlib/isAlpha.c", "src/strlib/isLetter.c", "src/strlib/isLower.c", "src/strlib/isUpper.c", "src/strlib/isNumber.c", "src/strlib/makelower.c", "src/strlib/makeupper.c", "src/strlib/hexval.c", "include/strswitch.h"],
  [("bit addressing macros", "include/bitarray.h"), ("swap macros", "include/endianness.h"), ("range tests", "src/strlib/is*.c")],
  ["return values, buffer contents"])

p("C10", "Integer to text and text to integer conversions are exact",
  "For every value of their type, the signed and unsigned 32- and 64-bit decimal formatters and the general radix formatter (even bases 2..62, upper/lower case, padding, maximum length keeping the low digits) produce exactly the mathematical representation in the caller's buffer, nul-terminated where documented, without writing outside the buffer and returning NULL for unsupported bases. "
  "Parsing a decimal string of digits with optional leading minus into 32 or 64 bits yields exactly its value whenever it fits, reading no more than the given length; formatting then parsing is the identity.",
  ["inputs"], "every value, base, flag combination, buffer length",
  "the tests sample a handful of constants; extreme values and padding/limit combinations are not covered.",
  ["src/strlib/itoa.c", "src/strlib/utoa.c", "src/strlib/numberToString.c", "src/strlib/intToString.c", "src/strlib/uintToString.c", "src/strlib/int64ToString.c", "src/strlib/uint64ToString.c", "src/strlib/strtoint.c", "src/strlib/strtoint64.c", "include/strlib.h"],
  [("digit count before digit emission", "src/strlib/itoa.c, utoa.c"), ("general radix conversion", "src/strlib/numberToString.c")],
  ["returned pointer, buffer bytes"])

p("C11", "Formatted output agrees with C printf on the supported directives",
  "For every format built from literal text and the supported directives (%s %c %% %p, %d %u %x %X and the l, ll, z variants the library implements, with an optional .N minimum digit count on integers) and every argument value, the snprintf family produces the text the C standard prescribes (%p: upper-case hexadecimal), truncated to fit and always nul-terminated within the given buffer size, returning the number of bytes produced; with no destination it returns the full length, and an unsupported directive yields -1. "
  "Printing to a stream/descriptor and formatting into a new stringptr deliver exactly that text (up to the documented line limits), and a failing format prints nothing; the stdio replacement header's puts and printf behave like the C functions.",
  ["inputs"], "every format string and argument tuple in the supported language, every buffer size",
  "spformat_test prints a few fixed lines without checking the output.",
  ["src/format/ulz_vsnprintf.c", "src/format/ulz_snprintf.c", "src/format/ulz_printf.c", "src/format/ulz_fprintf.c", "src/stringptr/stringptr_format.c", "include/format.h", "include/stdio-repl.h"],
  [("directive interpreter with bounded emission", "src/format/ulz_vsnprintf.c")],
  ["buffer bytes, return value, bytes written to the descriptor"])

p("C12", "base64 and hex encodings are standard and round-trip",
  "Encoding any byte string to base64 (stream and string variants) or hex yields exactly the standard padded encoding, in exactly the documented amount of buffer space, and decoding it returns the original bytes and length. "
  "Decoding accepts every well-formed base64 text when the destination has the documented size, and rejects (returns 0 / reports failure for) text with a bad length, bad characters or misplaced padding and destinations that are too small, never reading or writing outside the buffers it was given.",
  ["inputs"], "every byte string and every (possibly malformed) text, every destination size",
  "base64_test and raw2hex_test use a few fixed vectors and no malformed input.",
  ["src/strlib/base64enc.c", "src/strlib/base64enc_str.c", "src/strlib/base64dec.c", "src/strlib/base64_tbl.c", "src/strlib/hex2raw.c", "src/strlib/raw2hex.c", "include/strlib.h"],
  [("3-to-4 group conversion", "src/strlib/base64enc.c"), ("decode table with validation", "src/strlib/base64dec.c, base64_tbl.c")],
  ["output bytes, return values"])

p("C13", "MD5 and SHA-512 equal the standards for any data and chunking",
  "For every byte string of any length (including lengths beyond 2^32 bits and bytes) and every way of splitting it into update calls (SHA-512: full blocks until the last call), the MD5 and SHA-512 results equal the published algorithms, and the one-shot and hex-string helpers agree with them. "
  "Interleaved computations on distinct contexts do not influence each other, input is never modified, and taking an MD5 result does not disturb the running context.",
  ["inputs", "histories"], "every message, every chunking, interleaved contexts",
  "the tests hash a few short RFC vectors in one call; block boundaries, chunkings and long inputs are not sampled.",
  ["src/md5/md5.c", "src/md5/md5str.c", "src/sha512/sha512.c", "include/md5.h", "include/sha512.h"],
  [("block buffering in update", "src/md5/md5.c:md5_add"), ("padding and length encoding", "src/md5/md5.c:md5_end, src/sha512/sha512.c")],
  ["digest bytes"])

p("C14", "CRC-32 and CRC-32C equal the standards and compose over chunks",
  "For every byte string, the IEEE CRC-32 and Castagnoli CRC-32C results equal the standard bit-wise definitions, and feeding the data in any sequence of chunks (any sizes and alignments, empty ones included) gives the same result as one call. "
  "Initialising the tables repeatedly changes nothing, and the two variants do not influence each other.",
  ["inputs"], "every byte string, chunking and alignment",
  "crc32_test checks one file-sized vector per variant.",
  ["src/crc32/crc32.c", "src/crc32/crc32c.c", "src/crc32/crc32_impl.c", "include/crc32.h", "include/crc32c.h"],
  [("slicing tables", "src/crc32/crc32_impl.c")],
  ["returned checksum"])

p("C15", "RC4 is the standard keystream and decryption inverts encryption",
  'For every key of at least one byte and every message, the RC4 function produces the standard RC4 output, in place or into a separate buffer; the output for a prefix of a message is the prefix of the output, and applying the same key again restores the message. '
  'No byte outside the given buffers is read or written, the key and (unless in place) the message are unchanged, and each call starts from a fresh key schedule.',
  ["inputs"], "every key, message, chunking",
  "rc4_test uses a handful of fixed vectors.",
  ["src/strlib/rc4.c", "include/strlib.h"],
  [("key schedule and generator", "src/strlib/rc4.c")],
  ["output bytes"])

p("C16", "C-string searches return the leftmost true match",
  "For every haystack and pattern, case-insensitive substring search (upper-case needle), wildcard ('*' matches any one byte) search and whole-word search return the leftmost position where the pattern occurs under those rules, or NULL when there is none, including overlapping and repetitive patterns. "
  "The suffix test, character-membership test and length-limited duplicate agree with their plain definitions for all inputs, and none of them reads beyond the strings or lengths they were given.",
  ["inputs"], "every pair of strings",
  "no test covers these functions.",
  ["src/strlib/strstr_uc.c", "src/strlib/strstar.c", "src/strlib/findword.c", "src/strlib/strends.c", "src/strlib/containsChar.c", "src/strlib/strdup_n.c", "include/strlib.h"],
  [("scan with restart after a failed match", "src/strlib/strstr_uc.c, strstar.c, findword.c")],
  ["returned pointer"])

p("C17", "IPv4 text conversion is exact and validation accepts only addresses",
  "Every IPv4 address formats to its canonical dotted-quad text in the documented buffer, and parsing that text (leading zeros allowed as implemented) gives back the address. "
  "The numeric-address test accepts a string only if it consists of exactly four dot-separated decimal numbers of 0..255, accepts every canonical dotted quad, and reads nothing beyond the string.",
  ["inputs"], "every 32-bit address, every string",
  "ipv4fromstring_test samples a few addresses and no malformed text.",
  ["src/strlib/ipv4fromstring.c", "src/strlib/stringfromipv4.c", "src/strlib/isnumericipv4.c", "include/strlib.h"],
  [("digit accumulation per octet", "src/strlib/ipv4fromstring.c"), ("octet formatting", "src/strlib/stringfromipv4.c"), ("shape check", "src/strlib/isnumericipv4.c")],
  ["bytes, text, return value"])

p("C18", "Length-counted strings (stringptr) implement plain byte-string operations",
  "For every byte string, embedded zeros and empty strings included, creating, copying, duplicating, concatenating any number of parts, comparing (exact, prefix, suffix), searching, slicing, shifting, trimming line ends and finding the last occurrence of a byte on a stringptr give the same result as the plain byte-string definition, every newly created string is nul-terminated after its size, and sources are unmodified. "
  "The hash depends only on the bytes and equals the documented ELF-style hash, and reading lines from standard input returns the successive lines regardless of how the input arrives.",
  ["inputs", "histories"], "every byte string, offset and number of parts",
  "stringptr_test1 checks a few literals.",
  ["include/stringptr.h", "include/stringptr_struct.h", "src/stringptr/"],
  [("size-carrying struct, nul-terminated allocation", "src/stringptr/stringptr_new.c"), ("per-operation implementations", "src/stringptr/*.c")],
  ["ptr/size of results, bytes"])

p("C19", "Splitting, joining, replacing and finding over string lists are exact",
  "Splitting any string by any non-empty delimiter yields exactly the pieces between the left-to-right non-overlapping occurrences, joining them with the delimiter restores the original, and replacing every occurrence gives what find-and-replace on byte strings gives; an empty delimiter or pattern terminates without changing the text. "
  "String-list membership and search return the first matching position, joins use LF or CRLF per line exactly as documented, and duplicating, adding and freeing entries neither leaks nor double-frees.",
  ["inputs", "histories"], "every string, delimiter, replacement and list",
  "stringptr_replace_test checks a few literals.",
  ["include/stringptrlist.h", "src/stringptrlist/"],
  [("delimiter scan", "src/stringptrlist/stringptr_splitc.c, stringptr_splits.c"), ("split-and-rejoin replacement", "src/stringptrlist/stringptr_replace.c"), ("joins", "src/stringptrlist/stringptrlist_tostring.c")],
  ["pieces, joined bytes, live allocations"])

p("C20", "Saving and loading files round-trips, under short or failing I/O",
  "Writing a string or a string list to a file and reading it back returns the same bytes / lines (blank and long lines and a missing final newline included; a line beyond the reader's documented limit is a reported failure), the reported size and modification time are the file's, and an existing longer file is fully replaced. "
  'When the operating system returns short counts, is interrupted, fails at any point or the file changes size meanwhile, each operation either completes with correct data or reports failure; it never hangs, never returns wrong data as success, and never leaks memory or descriptors.',
  ["inputs", "fault_sequences"], "every content and every sequence of short, interrupted or failing system calls",
  "no test reads or writes files through these functions with faults.",
  ["src/stringptr/stringptr_fromfile.c", "src/stringptr/stringptr_tofile.c", "src/stringptrlist/stringptrlist_fromfile.c", "src/stringptrlist/stringptrlist_tofile.c", "src/filelib/getfilesize.c", "src/filelib/getfilemodtime.c"],
  [("read/write loops", "src/stringptr/stringptr_fromfile.c, stringptr_tofile.c")],
  ["file bytes, return values, open descriptors"])

p("C21", "Line-by-line file parsing delivers every line exactly once",
  "For every file and buffer size, the line reader returns the file's lines in order, without their terminators and without losing, merging or altering bytes (zero bytes, blank lines and a last line without newline included), then reports end of file, however the kernel splits the reads. "
  "A line that does not fit the caller's buffer is reported as such without being consumed, the next-line-length query returns exactly the length of the line that will be read next without moving the position, and opening a missing file fails cleanly.",
  ["inputs", "histories"], "every file content, buffer size and interleaving of queries and reads",
  "fileparser_test prints one small file.",
  ["include/fileparser.h", "src/fileparser/"],
  [("buffered line scan with seek-back", "src/fileparser/fileparser_readline_userbuf.c, fileparser_getnextlinelength.c")],
  ["lines and return codes"])

p("C22", "File listing returns exactly the matching directory entries",
  "For every directory content and mask, the file list contains exactly the names a directory scan with the mask's wildcard rules selects (directories marked by a trailing slash, hidden and dot entries only as requested by the flags), each once, whatever characters the directory's own path contains. "
  "When nothing matches or the directory is unreadable the call reports failure, and freeing the list releases all of its memory.",
  ["inputs", "configurations"], "every directory tree, directory name, mask and flag combination",
  "the examples list one fixed directory and print it.",
  ["include/filelist.h", "src/filelist/filelist.c"],
  [("escaped directory prefix passed to glob", "src/filelist/filelist.c")],
  ["list contents, return value"])

p("C23", "Path functions normalise, split and compare paths correctly",
  "For every absolute path, normalisation returns the unique equivalent path without empty, '.' and '..' components and repeated slashes, is idempotent, reports relative paths as failures and never lets '..' escape the root, and never writes more than the path's own length plus the terminator, for the counted and the C-string variant alike (paths longer than PATH_MAX may be refused, never overflow). "
  'Path difference returns the remainder of the second path exactly when the first is one of its ancestor directories, and the file-name and extension extractors return the part after the last slash and the text after the last dot as documented.',
  ["inputs"], "every path string and buffer size",
  "normalizepath_test checks about ten literals.",
  ["src/filelib/normalizepath.c", "src/filelib/normalizepath_cstr.c", "src/filelib/getpathdiff.c", "src/filelib/getfilename.c", "src/filelib/getfileext.c", "include/filelib.h"],
  [("single left-to-right component walk", "src/filelib/normalizepath.c"), ("prefix comparison of normalised paths", "src/filelib/getpathdiff.c")],
  ["returned text, return value"])

p("C24", "Temporary directories are fresh, private and named as requested",
  "Creating a temporary directory from a template replaces exactly the last six X characters, creates a directory that did not exist before (retrying on names already taken, whoever takes them), accessible only to its owner, and returns its name; templates shorter than six characters and unusable parents are reported as failures (EINVAL, respectively the system's error) without creating anything. "
  "The prefix-based helper builds the name in its temporary directory (/dev/shm, else /tmp) without writing beyond the caller's buffer, and fails when the name does not fit.",
  ["inputs", "fault_sequences"], "every template/prefix/buffer size and every sequence of name collisions and failures",
  "mktempdir's self-test creates one directory.",
  ["src/filelib/ulz_mkdtemp.c", "src/filelib/mktempdir.c", "include/filelib.h"],
  [("mkdir with retry on EEXIST", "src/filelib/ulz_mkdtemp.c"), ("template assembly", "src/filelib/mktempdir.c")],
  ["created directory, mode, returned name"])

p("C25", "INI lookups return exactly the value the file text defines",
  "For every INI text, finding a section and reading a key returns the text after the first line '<key>=' within that section (section bounds: from its header line to the next header line), an empty result when section or key is absent, and never a value from another section or from a key that merely shares a prefix. "
  "The section count and the walk over all sections agree with the header lines of the text, and the file is not modified.",
  ["inputs"], "every INI text, section and key name",
  "iniparser tests read one small file.",
  ["include/iniparser.h", "src/iniparser/"],
  [("line scan bounded by section", "src/iniparser/iniparser.c"), ("header recognition", "src/iniparser/iniparser_count_sections.c")],
  ["returned section bounds and value"])

p("C26", "Command-line option lookup finds exactly the options given",
  "For every argument vector, querying an option returns the value of its first occurrence in any supported spelling (-name value, -name=value, and with two dashes for longer names) and NULL/none when it is absent, never a value belonging to another option or to a name that only shares a prefix. "
  "Flag queries are true exactly when the flag is present as documented, and the argument vector is not modified.",
  ["inputs"], "every argument vector and option name",
  "the only test program does not compile against the current API.",
  ["include/optparser.h", "src/optparser/"],
  [("linear scan of argv", "src/optparser/op_get.c, op_hasflag.c")],
  ["returned pointers"])

p("C27", "Logger writes exactly the requested bytes, in order",
  "Every logging call writes to the chosen descriptor exactly the text it was asked for: C strings and counted strings (any bytes), numbers of each supported type in decimal, lists of pieces in argument order, one final newline for the line variants, the current error's message for the error variant, and a well-formed timestamp; nothing else is written and nothing is lost. "
  'Consecutive calls produce the concatenation of their texts, whatever descriptors they alternate between.',
  ["inputs", "histories"], "every sequence of calls and argument values",
  "no test covers the logger.",
  ["include/logger.h", "src/logger/"],
  [("direct write per piece", "src/logger/*.c")],
  ["bytes received on the descriptor"])

p("C28", "Child processes get the right wiring and report the right status",
  "Starting a process connects its standard input, output and error to the caller, runs the given program (looked up in PATH) with exactly the given arguments and the caller's environment, and closing it returns the child's exit status after it has finished, for every amount of data exchanged and even when waiting is interrupted by signals; a program that cannot be started is reported as failure without leaving anything behind. "
  'Any number of processes may be open at once and closed in any order without hanging or cross-talk, and no descriptor or zombie remains afterwards.',
  ["inputs", "histories", "schedules"], "every stream subset, data size, exit status, and interleaving of several processes",
  "no test starts a process.",
  ["include/proclib.h", "src/proclib/process.c"],
  [("pipe/fork/dup2/exec", "src/proclib/process.c")],
  ["data on the pipes, exit status, open descriptors"])

p("C29", "daemonize detaches completely",
  "After a daemonize call the surviving process runs in a new session without controlling terminal, is not the calling process, has none of the caller's descriptors (those within its descriptor limit) open and its standard streams on the null device, while the rest of its state (memory, environment, working directory, umask) is preserved; the original process exits successfully. "
  'This holds whatever descriptors, limits and terminal the caller had; if the process cannot be split off, the failure is reported and the exit status is nonzero.',
  ["configurations", "fault_sequences"], "every initial descriptor/session state and failing step",
  "no test covers it.",
  ["src/proclib/daemonize.c", "include/proclib.h"],
  [("fork, setsid, chdir, stream redirection", "src/proclib/daemonize.c")],
  ["session id, /proc/self/fd, exit status"])

p("C30", "Time helpers are exact under every clock behaviour",
  'Elapsed-time, microsecond-time and time-difference helpers return the exact difference for every pair of times (borrow included; whole milliseconds for the elapsed-milliseconds helper), and timestamps show the local date and time in the documented layout. '
  'The sleep helpers wait for the requested duration for every value, resuming after signals, with correct second/sub-second split.',
  ["inputs", "schedules"], "every pair of times, duration and interruption pattern",
  "no test covers them.",
  ["include/timelib.h", "src/timelib/"],
  [("timeval/timespec arithmetic", "src/timelib/*.c")],
  ["returned values, sleep system calls"])

p("C31", "Allocation failure at any point is reported and leaves objects intact",
  'For every operation history over the list, map, hash-list, key-value, string, string-list, file-list and file functions and every single allocation failing (or all from some point on), the affected operation reports failure through its return value, the object it worked on keeps exactly its previous contents and stays usable, nothing is leaked, and no invalid memory is touched. '
  'Only the text buffer given to a split may already have been cut into pieces; retrying the operation afterwards succeeds as if the failure had not happened.',
  ["fault_sequences", "histories"], "every allocation point of every operation in the generated histories",
  "no test makes an allocation fail.",
  ["src/sblist/", "src/tlist/", "src/hashlist/", "include/tglist.h", "include/bmap.h", "src/stringptr/", "src/stringptrlist/", "src/filelist/filelist.c"],
  [("checks of allocation results", "throughout src/ and include/")],
  ["return values, contents afterwards, live allocations"])

p("C32", "Distinct objects can be used from different threads",
  "Threads that each work on their own lists, maps, hash contexts, cipher states, buffers, parsers and files obtain exactly the results of running alone, under every interleaving: the library keeps no hidden shared mutable state in these functions.",
  ["schedules"], "every interleaving of threads working on distinct objects",
  "no test is multi-threaded.",
  ["src/", "include/"],
  [("caller-supplied state only", "throughout src/ and include/")],
  ["results per thread, data races seen by ThreadSanitizer"])

p("C33", "Public headers combine in any order, across files, compilers and standards",
  "Any selection of the public headers, included in any order, repeatedly and in any number of source files of one program, before or after system headers, compiles with gcc and clang in every C standard from C99 on and with every supported configuration macro, and links into a program in which each header's functions, types and macros give the same, right results in every file. "
  "Linking needs no more than the library - or just the sources named by the headers' dependency pragmas. Function-like macros accept any expression as argument; headers that provide for C++ can be used from C++ files.",
  ["configurations", "inputs"], "every selection, order and repetition of headers over files, compilers, standards and configuration macros",
  "each test includes one or two headers in one order, in one file, with one compiler and standard.",
  ["include/"],
  [("include guards and static header functions", "include/*.h"), ("dependency pragmas", "include/*.h: #pragma RcB2 DEP"), ("C linkage for C++", "include/*.h: extern \"C\"")],
  ["compiler and linker status", "results of the generated program"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for x in P: f.write(json.dumps(x) + "\n")
    print(len(P))
