// C33: programs generated from random selections, orders and repetitions of the public headers over
// several source files, compilers, language standards and configuration macros: compiled, linked (with
// the whole library, or only with the sources the headers' dependency pragmas name) and run
#include "pbt.hpp"
#include <algorithm>
#include <cerrno>
#include <csignal>
#include <fcntl.h>
#include <fstream>
#include <map>
#include <set>
#include <spawn.h>
#include <sstream>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
typedef std::string S; extern char **environ;
static S repo() { const char *e = getenv("VERIF_REPO"); return e ? e : "/repo"; }
static S slurp(const S &f) { std::ifstream i(f, std::ios::binary); std::stringstream s; s << i.rdbuf(); return s.str(); }
static void spit(const S &f, const S &t) { std::ofstream o(f, std::ios::binary); o << t; }
struct Res { int st; S out; };
static Res sh(const std::vector<S> &a, const S &cwd, const S &outf) {
  std::vector<char *> v; for (auto &x : a) v.push_back((char *)x.c_str()); v.push_back(0); posix_spawn_file_actions_t fa; posix_spawn_file_actions_init(&fa); posix_spawn_file_actions_addopen(&fa, 1, outf.c_str(), O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0600); posix_spawn_file_actions_adddup2(&fa, 1, 2); posix_spawn_file_actions_addchdir_np(&fa, cwd.c_str());
  pid_t p; int e = posix_spawnp(&p, v[0], &fa, 0, v.data(), environ); posix_spawn_file_actions_destroy(&fa); if (e) { fprintf(stderr, "cannot run %s: %s\n", v[0], strerror(e)); return {-1, ""}; } int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {} S o = slurp(outf); if (o.size() > 1500) o.resize(1500); return {st, o};
}
// ---- one probe per header: uses the header's interface, nothing else; returns 0 when the results are right
struct Hdr { const char *name, *probe; int once, cpp; const char *cppprobe; };
static const Hdr H[] = {
{"bitarray.h", R"~(static int P(unsigned v) { unsigned char a[BA_SIZE_REQUIRED(70 + 7)]; unsigned i; for (i = 0; i < sizeof a; i++) a[i] = 0; if (sizeof a != 10) return 1; BA_SET_TRUE(a, v % 77); for (i = 0; i < 77; i++) if (BA_GET(a + 0, i | 0) != (i == v % 77) || BA_GET(a, v ? i : i + 0) != BA_GET(a, i)) return 2; BA_SET(a, v % 77, v == v + 1); for (i = 0; i < 77; i++) if (BA_GET(a, i)) return 3; if (BYTEM(v % 2 ? 1 : 0, 0, 0, v % 3 ? 1 : 0, 0, 0, 1 ^ 1, v % 5 ? 0 : 1) != (v % 2 ? 128 : 0) + (v % 3 ? 16 : 0) + (v % 5 ? 0 : 1)) return 4; if (BYTEL(v % 2 ? 1 : 0, v % 7 ? 1 : 0, 0, 0, 0, 0, 0, v % 5 ? 0 : 1) != (v % 2 ? 1 : 0) + (v % 7 ? 2 : 0) + (v % 5 ? 0 : 128)) return 5; if (BA_GET_SWAPPED(a + 0, v % 77) != BA_GET(a, (v % 77) / 8 * 8 + 7 - (v % 77) % 8)) return 6; return BYTEM(1,0,0,0,0,0,1,0) != 130 || BYTEL(1,0,0,0,0,0,1,0) != 65; })~"},
{"bmap.h", R"~(typedef bmap(int, unsigned) PN(tb); static int PN(cmp)(const void *a, const void *b) { int x = *(const int*)a, y = *(const int*)b; return x < y ? -1 : x > y; }
static int PN(scmp)(const void *a, const void *b) { const char *x = *(char *const*)a, *y = *(char *const*)b; return *x < *y ? -1 : *x > *y; } static char *PN(lits)[] = {"a", "b", "c", "d", "e"};
static int P(unsigned v) { PN(tb) *m = bmap_new(PN(cmp)); int i, k; if (!m) return 1; for (i = 0; i < 40; i++) { k = (i * 7 + (int)(v % 5)) % 40; if (bmap_insert(m, k, v + k) == -1) return 2; } if (bmap_getsize(m) != 40) return 3; for (i = 0; i < 40; i++) { if (!bmap_contains(m, i) || *bmap_get(m, i) != v + i || bmap_getkey(m, i) != i) return 4; } i = 99; if (bmap_contains(m, i)) return 5; i = 3; bmap_delete(m, bmap_find(m, i)); if (bmap_contains(m, i) || bmap_getsize(m) != 39) return 6; bmap_fini(m, 0 & 3); free(m);
{ bmap(char *, char *) *s = bmap_new(PN(scmp)); char *k, *q; if (!s) return 7; for (i = 0; i < 5; i++) { k = PN(lits)[i]; q = malloc(4); if (!q) return 8; bmap_insert(s, k, q); } if (bmap_getsize(s) != 5) return 9; bmap_fini(s, 2 | (v & 0)); free(s); }
return 0; })~"},
{"crc32.h", R"~(static int P(unsigned v) { CRC32_CTX c; unsigned char o[4]; unsigned k = v % 9; CRC32_InitTables(); CRC32_Init(&c); CRC32_Update(&c, (const void*)"123456789", k); CRC32_Update(&c, (const unsigned char*)"123456789" + k, 9 - k); CRC32_Final(o, &c); return (o[0] | o[1] << 8 | o[2] << 16 | (unsigned)o[3] << 24) != 0xcbf43926u && (o[3] | o[2] << 8 | o[1] << 16 | (unsigned)o[0] << 24) != 0xcbf43926u; })~"},
{"crc32c.h", R"~(static int P(unsigned v) { CRC32C_CTX c; unsigned char o[4]; unsigned k = v % 9; CRC32C_InitTables(); CRC32C_Init(&c); CRC32C_Update(&c, (const void*)"123456789", k); CRC32C_Update(&c, (const unsigned char*)"123456789" + k, 9 - k); CRC32C_Final(o, &c); return (o[0] | o[1] << 8 | o[2] << 16 | (unsigned)o[3] << 24) != 0xe3069283u && (o[3] | o[2] << 8 | o[1] << 16 | (unsigned)o[0] << 24) != 0xe3069283u; })~"},
{"endianness.h", R"~(static int P(unsigned v) { uint32_t x = v; uint64_t y = (uint64_t)v << 32 | 0x1234; return byteswap32(byteswap32(x)) != x || byteswap32(x ^ 5u) != byteswap32((x ^ 5u)) || byteswap16(x & 0 ? 1 : 0x0102) != 0x0201 || le32(v ^ v) * 2 != 0 || le16(1 | 2) * 2 != 6 || byteswap32(0x11223344u) != 0x44332211u || byteswap16(0x1122) != 0x2211 || byteswap64(byteswap64(y)) != y || byteswap64(0x1122334455667788ULL) != 0x8877665544332211ULL; })~"},
{"filelib.h", R"~(static int P(unsigned v) { char b[64] = "/a/./b//../c/", o[64]; stringptr s; s.ptr = b; s.size = 13; if (normalizepath_cstr("/x/../y/", o) != o || o[0] != '/' || o[1] != 'y' || o[2]) return 1; if (getfilename(&s) == 0) return 2; return !getFileExt("a.txt", 5) || getFileExt("a.txt", 5)[0] != 't' && getFileExt("a.txt", 5)[0] != '.'; })~"},
{"filelist.h", R"~(static int P(unsigned v) { filelist l; stringptr d, m; size_t i; d.ptr = "."; d.size = 1; m.ptr = "tu*.c"; m.size = 5; if (filelist_search(&l, &d, &m, FLF_EXCLUDE_PATH)) return 1; if (!l.files || sblist_getsize(l.files) == 0) return 2; for (i = 0; i < sblist_getsize(l.files); i++) { stringptr *s = stringptrlist_get(l.files, i); if (s->size < 5 || s->ptr[0] != 't' || s->ptr[s->size - 1] != 'c') return 3; } filelist_free(&l); return 0; })~"},
{"fileparser.h", R"~(static int P(unsigned v) { fileparser f; stringptr s; unsigned n = 0; if (fileparser_open(&f, "lines.txt")) return 1; while (!fileparser_readline(&f)) { fileparser_getline(&f, &s); if (s.size != n % 7) return 2; n++; } fileparser_close(&f); return n != 20; })~"},
{"format.h", R"~(static int P(unsigned v) { char b[64]; char e[64]; int n = ulz_snprintf(b, sizeof b, "%s|%d|%x|%c", "ab", -5, 255u, 'z'); unsigned i; const char *x = "ab|-5|ff|z"; if (n != 10) return 1; for (i = 0; i < 11; i++) if (b[i] != x[i]) return 2; n = ulz_snprintf(e, sizeof e, "%u", v); { unsigned t = 0; for (i = 0; e[i]; i++) t = t * 10 + (e[i] - '0'); return t != v || (int)i != n; } })~", 0, 1, R"~(static int P(unsigned v) { char b[32]; return ulz_snprintf(b, sizeof b, "%d-%s", 12, "q") != 4 || b[0] != '1' || b[3] != 'q'; })~"},
{"guard_alloc.c", R"~(static int P(unsigned v) { size_t n = 1 + v % 9000; char *p = guard_alloc(n); size_t i; if (!p) return 1; for (i = 0; i < n; i++) p[i] = (char)i; for (i = 0; i < n; i++) if (p[i] != (char)i) return 2; guard_free(p, n); return 0; })~", 1},
{"hashlist.h", R"~(static int P(unsigned v) { hashlist *h = hashlist_new(16, sizeof(unsigned)); hashlist_iterator it; unsigned i, x, *p, s = 0, n = 0; if (!h) return 1; for (i = 0; i < 30; i++) { x = v + i; if (hashlist_add(h, x, &x)) return 2; } hashlist_iterator_init(&it); while ((p = hashlist_next(h, &it))) { s += *p; n++; } hashlist_free(h); return n != 30 || s != 30 * v + 435; })~"},
{"hbmap.h", R"~(typedef hbmap(int, unsigned, 8) PN(th); static int PN(hcmp)(const void *a, const void *b) { int x = *(const int*)a, y = *(const int*)b; return x < y ? -1 : x > y; } static unsigned PN(hf)(const int k) { return (unsigned)k * 3; }
static int P(unsigned v) { PN(th) *m = hbmap_new(PN(hcmp), PN(hf), 8); hbmap_iter it; int i, n = 0; unsigned s = 0; if (!m) return 1; for (i = 0; i < 40; i++) hbmap_insert(m, i, v + i); for (i = 0; i < 40; i++) if (!hbmap_get(m, i) || *hbmap_get(m, i) != v + i) return 2; hbmap_foreach(m, it) { n++; s += hbmap_getval(m, it); } if (n != 40 || s != 40 * v + 780) return 3; i = 7; hbmap_delete(m, hbmap_find(m, i)); if (hbmap_contains(m, i)) return 4; hbmap_fini(m, 0); free(m); return 0; })~"},
{"iniparser.h", R"~(static int P(unsigned v) { stringptrlist *l = stringptrlist_new(8); ini_section s; stringptr k, r, t; if (!l) return 1; stringptrlist_add(l, "[one]", 5); stringptrlist_add(l, "key=val", 7); t.ptr = "one"; t.size = 3; k.ptr = "key"; k.size = 3; s = iniparser_get_section(l, &t); if (s.linecount != 1) return 2; iniparser_getvalue(l, &s, &k, &r); if (r.size != 3 || r.ptr[0] != 'v') return 3; if (iniparser_count_sections(l) != 1) return 4; stringptrlist_free(l); return 0; })~"},
{"kvlist.h", R"~(static int P(unsigned v) { kvlist *l = kv_new(4); void *x = 0; stringptr k; char a[2] = "a"; if (!l) return 1; kv_add(l, a, 1, (void*)(size_t)(v + 1)); kv_add(l, "bb", 2, (void*)0); k.ptr = "a"; k.size = 1; if (!kv_find(l, &k, &x) || (size_t)x != (size_t)(v + 1) || kv_getsize(v ? l : l) != 2 || kv_get(l, v ? 1 : 1)->size != 2) return 2; if (!kv_set(l, v ? 1 : 1, a + 0, v ? 1 : 1, (void*)(size_t)9) || kv_get(l, 1)->ptr != a || kv_get(l, 1)->value != (void*)9) return 4; k.ptr = "c"; if (kv_find(l, &k, &x)) return 3; kv_free(l); return 0; })~"},
{"logger.h", R"~(static int P(unsigned v) { int fd = h_open(); stringptr s; s.ptr = "hey"; s.size = 3; log_puts(fd, &s); log_putln(fd); log_putd(fd, 1234, 0); log_putc(fd, "|"); log_putspace(fd); log_put(fd, VARISL("<"), VARII(-3), VARIC("x"), VNIL); return h_read_eq(fd, "hey\n1234| <-3x\n"); })~"},
{"macros.h", R"~(static int P(unsigned v) { int a[13]; return MIN(3, v % 7 + 4) != 3 || 2 * MAX(v & 0 ? 9 : 1, 1 | 2) != 6 || MIN(v ? 1 : 1, 6 & 5) + 1 != 2 || MAX(3 | 4, 2) != 7 || ARRAY_SIZE(a) != 13 || WORD_SIZE != sizeof(void*); })~"},
{"md5.h", R"~(static int P(unsigned v) { char d[33]; unsigned i; const char *x = "900150983cd24fb0d6963f7d28e17f72"; md5_ctx c; unsigned char o[MD5_HASH_SIZE]; md5str(d, (const unsigned char*)"abc", 3); for (i = 0; i < 33; i++) if (d[i] != x[i]) return 1; md5_init(&c); md5_update(&c, "abc", v % 4); md5_update(&c, &"abc"[v % 4], 3 - v % 4); md5_end(&c, o); return o[0] != 0x90 || o[15] != 0x72; })~"},
{"optparser.h", R"~(static int P(unsigned v) { char *a[] = {"prog", "--opt=value", "-x", "--flag", 0}; op_state s; stringptr k; char *r; op_init(&s, 4, a); k.ptr = "opt"; k.size = 3; r = op_get(&s, &k); if (!r || r[0] != 'v' || r[5]) return 1; k.ptr = "flag"; k.size = 4; if (!op_hasflag(&s, &k)) return 2; k.ptr = "y"; k.size = 1; return op_hasflag(&s, &k); })~", 0, 1, R"~(static int P(unsigned v) { char p[] = "prog", o[] = "--opt=value", k[] = "opt"; char *a[] = {p, o, 0}; op_state s; stringptr q; q.ptr = k; q.size = 3; op_init(&s, 2, a); char *r = op_get(&s, &q); return !r || r[0] != 'v'; })~"},
{"proclib.h", R"~(static int P(unsigned v) { struct process p; char *a[] = {"/bin/true", 0}; if (process_open(&p, a)) return 1; return process_close(&p) != 0; })~"},
{"restrict.h", R"~(static int P(unsigned v) { int x = (int)v, *restrict p = &x; return *p != (int)v; })~"},
{"sblist.h", R"~(static int P(unsigned v) { sblist *l = sblist_new(sizeof(unsigned), 4); unsigned i, *p, s = 0; if (!l) return 1; for (i = 0; i < 20; i++) { unsigned x = v + i; if (!sblist_add(l, &x)) return 2; } if (sblist_getsize(l) != 20 || sblist_empty(v ? l : l) || sblist_getsize(v ? l : l) * 2 != 40) return 3; { sblist_iter(l, p) s += *p; } if (s != 20 * v + 190) return 4; sblist_delete(l, 0); if (*(unsigned*)sblist_get(l, 0) != v + 1) return 5; if (sblist_get(l, 19)) return 6; sblist_free(l); return 0; })~", 0, 1, R"~(static int P(unsigned v) { sblist *l = sblist_new(sizeof(unsigned), 4); unsigned i; if (!l) return 1; for (i = 0; i < 20; i++) { unsigned x = v + i; if (!sblist_add(l, &x)) return 2; } i = *(unsigned*)sblist_get(l, 7) != v + 7 || sblist_getsize(l) != 20; sblist_free(l); return (int)i; })~"},
{"sha512.h", R"~(static int P(unsigned v) { sha512_ctx c; unsigned char *o; sha512_init(&c); sha512_update(&c, (const unsigned char*)"abc", 3); o = sha512_end(&c); return o[0] != 0xdd || o[1] != 0xaf || o[63] != 0x9f; })~"},
{"sptrlist.h", R"~(static int P(unsigned v) { sptrlist *l = sptrlist_new(3); int a[9]; size_t i; void *q; if (!l) return 1; for (i = 0; i < 9; i++) { q = a + i; if (!sptrlist_add(l, q)) return 2; } for (i = 0; i < 9; i++) if (sptrlist_get(v ? l : l, i | 0) != a + i) return 3; q = a; sptrlist_set(l, q, 5); if (sptrlist_get(l, 5) != a) return 4; sptrlist_free(l); return 0; })~"},
{"ssalloc.c", R"~(static int P(unsigned v) { void *a, *b; SSINIT; a = SSALLOC(SSA_ELEMSIZE); b = SSALLOC(1); if (!a || !b || a == b) return 1; SSFREE(a); SSNULL(b); return b != 0; })~", 1},
{"stringlist.h", R"~(static int P(unsigned v) { stringlist *l = stringlist_new(2); char b[8] = "abc"; size_t i; char *q; if (!l) return 1; for (i = 0; i < 6; i++) { b[0] = (char)('a' + i); if (!stringlist_add_dup(l, b)) return 2; } if (stringlist_getsize(l) != 6) return 3; stringlist_iter(l, i) { q = stringlist_get(l, i); if (q == b || q[0] != 'a' + (int)i || q[1] != 'b' || q[3]) return 4; } if (stringlist_get(l, 6)) return 5; for (i = 0; i < 6; i++) h_free(stringlist_get(l, i)); stringlist_free(l); return 0; })~"},
{"stringptr.h", R"~(static int P(unsigned v) { stringptr a, b, *c; a.ptr = "foo"; a.size = 3; b.ptr = "bar"; b.size = 3; c = stringptr_concat(&a, &b, (stringptr*)0); if (!c || c->size != 6 || c->ptr[3] != 'b') return 1; if (!stringptr_contains(c, &b) || stringptr_eq(&a, &b)) return 2; stringptr_free(c); if (c) return 3; c = stringptr_format("%u-%s", v % 10, "zz"); if (!c || c->size != 4 || stringptr_get(c)[2] != 'z') return 4; stringptr_free(c); { SPDECLAREC(d, "hello"); return stringptr_getsize(v ? d : d) * 2 != 10 || stringptr_empty(v ? d : d) || stringptr_getsize_s(v ? d : d) != 5 || stringptr_get_s(v ? d : d)[4] != 'o' || !stringptr_empty_s((stringptr*)(v ? 0 : 0)); } })~", 0, 1, R"~(static int P(unsigned v) { char x[] = "foo", y[] = "bar"; stringptr a, b, *c; a.ptr = x; a.size = 3; b.ptr = y; b.size = 3; c = stringptr_concat(&a, &b, (stringptr*)0); int r = !c || c->size != 6 || !stringptr_contains(c, &b); stringptr_free(c); return r; })~"},
{"stringptr_struct.h", R"~(static int P(unsigned v) { stringptr i = SPINITIALIZER("abcd"), j = SP_INIT("x", 1), *k = SPLITERAL("hello"), *m = SPMAKE("qq", 1 | 2); return i.size != 4 || j.size != 1 || k->size != 5 || m->size != 3 || SPNIL != 0; })~"},
{"stringptrlist.h", R"~(static int P(unsigned v) { stringptr s, d; stringptrlist *l; stringptr *j; char x[] = "a,bb,,c"; s.ptr = x; s.size = 7; l = stringptr_splitc(&s, ','); if (!l || stringptrlist_getsize(l) != 4) return 1; if (stringptrlist_get(l, 1)->size != 2 || stringptrlist_get(l, 2)->size != 0) return 2; d.ptr = "bb"; d.size = 2; if (stringptrlist_find(l, &d) != 1 || !stringptrlist_contains(l, &d)) return 3; if (!stringptrlist_set(l, 0, "zz", 1 + 1) || stringptrlist_get(l, 0)->size != 2) return 4; j = stringptrlist_tostring(l); if (!j || j->size != 9 || j->ptr[2] != '\n') return 5; stringptr_free(j); if (!stringptrlist_insert(l, 1 - 1, v ? "ii" : "jj", v ? 2 : 2) || stringptrlist_get(l, 0)->size != 2 || stringptrlist_get(v ? l : l, 0 | 1)->ptr[0] != 'z') return 6; if (stringptrlist_getsize(v ? l : l) * 2 != 10 || stringptrlist_empty(v ? l : l)) return 7; stringptrlist_free(l); return 0; })~", 0, 1, R"~(static int P(unsigned v) { char x[] = "a,bb,,c"; stringptr s; s.ptr = x; s.size = 7; stringptrlist *l = stringptr_splitc(&s, ','); int r = !l || sblist_getsize(l) != 4; stringptrlist_free(l); return r; })~"},
{"strlib.h", R"~(static int P(unsigned v) { char b[32], h[16]; unsigned char raw[4] = {1, 0xab, 255, 0}, o[8], ip[4]; raw2hex(h, raw, 4); if (!str_equal(h, "01abff00") && !str_equal(h, "01ABFF00")) return 1; if (hex2raw(h, o) != 4 || !mem_equal(o, raw, 4)) return 2; if (strlitlen("abc") != 3) return 3; if (strtoint(itoa(-(int)(v & 0xffffff), b), strlen(itoa(-(int)(v & 0xffffff), h))) != -(int)(v & 0xffffff)) return 4; { char e[BASE64ENC_BUFSIZE(2 + 2)]; unsigned char d[BASE64DEC_BUFSIZE(4 + 4)]; if (sizeof e != 9 || sizeof d != 7) return 5; if (BASE64DEC_BYTES(v ? 8 : 8) * 2 != 12 || BASE64ENC_BYTES(v & 0 | 4) != 8 || BASE64ENC_BUFSIZE(v ? 3 : 3) != 5) return 8; base64enc(e, raw, 4); if (base64dec(d, e, sizeof d) != 4 || !mem_equal(d, raw, 4)) return 6; } return !isnumericipv4("1.2.3.4"); })~", 0, 1, R"~(static int P(unsigned v) { char b[32]; return itoa((int)(v & 0xffff), b) != b && 0 || strcmp(uintToString(7, b), "7"); })~"},
{"strswitch.h", R"~(static int P(unsigned v) { int i, n = 0; for (i = 0; i < 128; i++) switch (i) { case STRSWITCH_ALPHA: n++; break; default:; } return n != 62; })~"},
{"tgilist.h", R"~(typedef tgilist(int, unsigned short) PN(ti); static int P(unsigned v) { PN(ti) *l = tgilist_new(); int i, x; if (!l) return 1; for (i = 0; i < 30; i++) { x = (int)(v & 0xffff) + i; if (!tgilist_insert(l, x, 0)) return 2; } for (i = 0; i < 30; i++) if (tgilist_get(v ? l : l, i | 0) != (int)(v & 0xffff) + 29 - i) return 3; tgilist_delete(l, 3); if (tgilist_getsize(l) != 29) return 4; tgilist_free(l); return 0; })~"},
{"tglist.h", R"~(typedef tglist(short) PN(tg); static int P(unsigned v) { PN(tg) *l = tglist_new(); short x; int i, n = 0; if (!l) return 1; for (i = 0; i < 30; i++) { x = (short)(i + v % 100); if (!tglist_add(l, x)) return 2; } for (i = 0; i < 30; i++) if (tglist_get(v ? l : l, i | 0) != (short)(i + v % 100)) return 3; tglist_set(l, v ? 7 : 7, 1 | 2); if (tglist_get(l, 3) != 7) return 5; x = (short)(3 + v % 100); tglist_set(l, x, v ? 3 : 3); if (tglist_getsize(v ? l : l) * 2 != 60 || tglist_empty(v ? l : l)) return 6; tglist_delete(l, 0); tglist_foreach(l, i) n += tglist_get(l, i) - (int)(v % 100); if (n != 435) return 4; tglist_free(l); return 0; })~"},
{"timelib.h", R"~(static int P(unsigned v) { struct timeval t; gettimestamp(&t); if (t.tv_usec < 0 || t.tv_usec > 999999 || getutime() <= 0) return 1;
#if !defined __STRICT_ANSI__ || defined __USE_POSIX199309
{ struct timespec a, b; a.tv_sec = 5; a.tv_nsec = 100; b.tv_sec = 4; b.tv_nsec = 999999999; { long long d = timespec_diff(&a, &b); if (d != 101 && d != -101) return 2; } }
#endif
return 0; })~"},
{"tlist.h", R"~(static int P(unsigned v) { struct tlist *l = tlist_new(sizeof(unsigned)); unsigned i, x; if (!l) return 1; for (i = 0; i < 50; i++) { x = v + i; if (!tlist_insert(l, 0, &x)) return 2; } for (i = 0; i < 50; i++) if (*(unsigned*)tlist_get(l, i) != v + 49 - i) return 3; if (tlist_get(l, 50) || tlist_getsize(l) != 50) return 4; return tlist_free(l) != 0; })~"},
{"vario.h", R"~(static int P(unsigned v) { vario *a = VARII((int)v), *b = VARIUL(7ul + 1), *c = VARISL("abc"); return a->type != VT_INT || *(int*)a->ptr != (int)v || *(unsigned*)(VARIU(v ? v : 0))->ptr != v || b->type != VT_ULONG || *(unsigned long*)b->ptr != 8 || c->type != VT_STRINGPTR || (*(stringptr**)c->ptr)->size != 3 || VNIL != 0; })~"},
{"stdio-repl.h", R"~(static int P(unsigned v) { char b[16]; int n = snprintf(b, sizeof b, "%d|%s", 42, "q"); return n != 4 || b[0] != '4' || b[3] != 'q'; })~"},
};
enum { NH = sizeof H / sizeof *H };
static const char *MAINC = R"~(#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
static char nm[] = "./outXXXXXX"; static int fdm; int h_open(void) { strcpy(nm, "./outXXXXXX"); return fdm = mkstemp(nm); }
int h_read_eq(int fd, const char *e) { char b[256]; int n; lseek(fd, 0, SEEK_SET); n = read(fd, b, 255); close(fd); unlink(nm); return n != (int)strlen(e) || memcmp(b, e, n); }
void h_free(void *p) { free(p); }
)~";
static S dir; static std::map<S, S> objs; static std::set<S> defined; static std::map<S, std::vector<S>> declared_c; static std::map<S, std::set<S>> deps_c;
static void prepare() {
  if (!dir.empty()) return; dir = S(scratch()) + "/p"; mkdir(dir.c_str(), 0755); mkdir((dir + "/lib").c_str(), 0755); const char *ar = getenv("PBT_PLAINLIB"); if (!ar) { fprintf(stderr, "PBT_PLAINLIB is not set\n"); abort(); }
  sh({"ar", "x", ar}, dir + "/lib", dir + "/log"); sh({"nm", "-A", "--defined-only", "-g", ar}, dir, dir + "/nm"); std::ifstream f(dir + "/nm"); S l; while (std::getline(f, l)) { size_t a = l.rfind(' '); char t = l[a - 1]; if (t == 'T') defined.insert(l.substr(a + 1)); }
  S t; for (int i = 0; i < 20; i++) t += S((size_t)(i % 7), 'x') + "\n"; spit(dir + "/lines.txt", t);
}
// functions a header declares (its includes' too) and the library defines
static const std::vector<S> &declared(const S &h) {
  auto f = declared_c.find(h); if (f != declared_c.end()) return f->second; std::vector<S> &v = declared_c[h]; spit(dir + "/d.c", "#include \"" + h + "\"\n"); unlink((dir + "/d.aux").c_str()); sh({"gcc", "-std=gnu99", "-DPAGE_SIZE=4096", "-w", "-aux-info", "d.aux", "-fsyntax-only", "-I" + repo() + "/include", "d.c"}, dir, dir + "/log");
  std::ifstream i(dir + "/d.aux"); S l; std::set<S> got; while (std::getline(i, l)) { size_t a = l.find("*/ extern "); size_t b = l.find(" ("); if (a == S::npos || b == S::npos || b < a) continue; S n = l.substr(0, b); size_t c = n.find_last_of(" *"); n = n.substr(c + 1); if (!h.compare(0, 5, "crc32") && n.compare(0, h.find('.') + 1, h == "crc32.h" ? "CRC32_" : "CRC32C_")) continue; if (defined.count(n) && got.insert(n).second) v.push_back(n); } return v;
}
// the sources the RcB2 pragmas name, transitively
static const std::set<S> &depobjs(const S &inc) {
  auto f = deps_c.find(inc); if (f != deps_c.end()) return f->second; std::set<S> res, seen; std::vector<S> todo{inc}; char rp[4200];
  while (!todo.empty()) {
    S x = todo.back(); todo.pop_back(); if (!seen.insert(x).second) continue; sh({"gcc", "-std=gnu99", "-DPAGE_SIZE=4096", "-w", "-E", "-I" + repo() + "/include", x}, dir, dir + "/e.i"); std::ifstream i(dir + "/e.i"); S l, cur;
    while (std::getline(i, l)) {
      if (l.size() > 2 && l[0] == '#' && l[1] == ' ' && isdigit((unsigned char)l[2])) { size_t a = l.find('"'), b = l.rfind('"'); if (a != S::npos && b > a) cur = l.substr(a + 1, b - a - 1); continue; }
      if (l.find("#pragma") != 0 || l.find("RcB2") == S::npos || l.find("DEP") == S::npos) continue; S d = cur.substr(0, cur.rfind('/') + 1); size_t p = 0;
      while ((p = l.find('"', p)) != S::npos) { size_t q = l.find('"', p + 1); if (q == S::npos) break; S pat = d + l.substr(p + 1, q - p - 1); p = q + 1; S cmd = "ls -d " + pat; Res r = {0, ""}; sh({"sh", "-c", cmd}, dir, dir + "/ls"); std::ifstream li(dir + "/ls"); S s; while (std::getline(li, s)) if (realpath(s.c_str(), rp)) { todo.push_back(rp); S rel = S(rp).substr(repo().size() + 1); std::replace(rel.begin(), rel.end(), '/', '_'); res.insert("lib/" + rel.substr(0, rel.size() - 2) + ".o"); } (void)r; }
    }
  }
  return deps_c[inc] = res;
}
static void go() {
  prepare(); S old; int ntu = 1 + (int)draw(2); bool closure = chance(1, 3), clang = chance(1, 3); static const char *stds[] = {"c99", "gnu99", "c11", "gnu11", "gnu17"}; S std = stds[draw(4)], opt = chance(1, 4) ? "-O2" : "-O0", feat = oneof<S>({"", "", "-D_GNU_SOURCE", "-D_POSIX_C_SOURCE=200809L", "-D_XOPEN_SOURCE=700"}); bool noshort = chance(1, 4), tgi = chance(1, 4);
  note("%s -std=%s %s %s%s%s%s;", clang ? "clang" : "gcc", std.c_str(), opt.c_str(), feat.c_str(), noshort ? " -DDISABLE_STRINGPTR_SHORT_MACROS" : "", tgi ? " -DBMAP_USE_TGILIST" : "", closure ? " linked with the named dependencies only" : "");
  std::vector<S> files; std::set<S> link; S calls, decls; unsigned v = anyu32(); size_t total = 0, repeated = 0; bool cppused = false;
  for (int t = 0; t < ntu; t++) {
    bool cpp = chance(1, 6); S src, body, inc; std::vector<int> order; std::set<int> have; size_t n = 1 + (chance(1, 4) ? draw(24) : draw(4)); note("tu%d%s:", t, cpp ? " (C++)" : "");
    static const char *sysh[] = {"stdio.h", "stdlib.h", "string.h", "unistd.h", "errno.h", "limits.h", "time.h"}; if (chance(1, 3)) for (int i = 0; i < 7; i++) if (chance(1, 3)) { src += S("#include <") + sysh[i] + ">\n"; note("<%s>", sysh[i]); }
    bool repl = false; for (size_t i = 0; i < n; i++) { int h = (int)draw(NH - 1); if (cpp && !H[h].cpp) continue; if (!strcmp(H[h].name, "stdio-repl.h")) { repl = true; continue; } if (have.count(h)) { if (H[h].once) continue; repeated++; } have.insert(h); order.push_back(h); }
    if (repl && !cpp) { order.push_back(NH - 1); have.insert(NH - 1); }
    if (order.empty()) { order.push_back(cpp ? 20 : 0); for (int h = 0; h < NH; h++) if (cpp && !strcmp(H[h].name, "sblist.h")) order[0] = h; have.insert(order[0]); }
    for (int h : order) { src += S("#include \"") + H[h].name + "\"\n"; note("%s", H[h].name); } total += have.size(); cppused |= cpp;
    S pre = "#define CC2(a,b) a##b\n#define CC(a,b) CC2(a,b)\n#define PN(n) CC(n, CC(_, CUR))\n#define P PN(probe)\n"; if (!cpp) pre += "int h_open(void); int h_read_eq(int, const char *); void h_free(void *);\n"; if (noshort) pre += "static int EQ(int x) { return x; } static int SPL = 1, SDUP = 2, CHOMP = 3;\n"; src += pre; std::set<S> refs;
    for (int h : have) { char id[32]; snprintf(id, 32, "t%dh%d", t, h); src += S("#undef CUR\n#define CUR ") + id + "\n#line 1 \"probe-" + H[h].name + "\"\n" + (cpp ? H[h].cppprobe : H[h].probe) + "\n"; body += S("  if ((r = probe_") + id + "(v))) return " + std::to_string(h * 100) + " + r;\n"; for (auto &s : declared(H[h].name)) refs.insert(s); if (closure) for (auto &o : depobjs(repo() + "/include/" + H[h].name)) link.insert(o); }
    char fn[32]; snprintf(fn, 32, "tu%d", t); src += S(cpp ? "extern \"C\" " : "") + "int " + fn + "(unsigned v) { int r;\n" + body + "  return 0; }\n"; if (!refs.empty()) { src += S(cpp ? "extern \"C\" { extern void *refs_" : "extern void *refs_") + fn + "[]; " + (cpp ? "}" : "") + "\nvoid *refs_" + fn + "[] = {"; for (auto &s : refs) src += "(void*)" + s + ","; src += "0};\n"; decls += S("extern void *refs_") + fn + "[];\n"; calls += S("  for (r = 0; refs_") + fn + "[r]; r++) s += !!refs_" + fn + "[r];\n"; }
    S path = S(fn) + (cpp ? ".cc" : ".c"); spit(dir + "/" + path, src); files.push_back(path); decls += S("int ") + fn + "(unsigned);\n"; calls += S("  if ((r = ") + fn + "(v))) { printf(\"" + fn + " %d\\n\", r); return 1; }\n";
  }
  spit(dir + "/main.c", S(MAINC) + decls + "int main(int c, char **a) { unsigned v = strtoul(a[1], 0, 10), s = 0; int r;\n" + calls + "  return 0; }\n"); files.push_back("main.c");
  std::vector<S> outs; auto cleanup = [&] { for (auto &f : files) unlink((dir + "/" + f).c_str()); for (auto &o : outs) unlink((dir + "/" + o).c_str()); unlink((dir + "/prog").c_str()); };
  for (auto &f : files) { bool cpp = f.substr(f.size() - 3) == ".cc"; S o = f + ".o"; outs.push_back(o); std::vector<S> cmd{cpp ? (clang ? "clang++" : "g++") : (clang ? "clang" : "gcc"), cpp ? "-std=c++17" : "-std=" + std, opt, "-w", "-fno-builtin-printf", "-DPAGE_SIZE=4096", "-DSSA_MAXELEM=8", "-DSSA_ELEMSIZE=16", "-I" + repo() + "/include"}; if (!cpp) cmd.push_back("-Werror=implicit-function-declaration"); if (f != "main.c") { if (!feat.empty() && !cpp) cmd.push_back(feat); if (noshort) cmd.push_back("-DDISABLE_STRINGPTR_SHORT_MACROS"); if (tgi) cmd.push_back("-DBMAP_USE_TGILIST"); } cmd.insert(cmd.end(), {"-c", f, "-o", o}); Res r = sh(cmd, dir, dir + "/log"); if (r.st == -1) abort(); CHECK(r.st == 0, "%s does not compile (%s): %.900s", f.c_str(), cmd[0].c_str(), r.out.c_str()); }
  { std::vector<S> cmd{cppused ? (clang ? "clang++" : "g++") : (clang ? "clang" : "gcc")}; cmd.insert(cmd.end(), outs.begin(), outs.end()); if (closure) cmd.insert(cmd.end(), link.begin(), link.end()); else cmd.push_back(getenv("PBT_PLAINLIB")); cmd.insert(cmd.end(), {"-o", "prog"}); Res r = sh(cmd, dir, dir + "/log"); CHECK(r.st == 0, "the program does not link%s: %.900s", closure ? " with the sources the headers name" : "", r.out.c_str()); }
  { Res r = sh({"./prog", std::to_string(v)}, dir, dir + "/log"); CHECK(WIFEXITED(r.st), "the program died from signal %d with value %u", WTERMSIG(r.st), v); int tu = -1, code = 0; sscanf(r.out.c_str(), "tu%d %d", &tu, &code); CHECK(WEXITSTATUS(r.st) == 0, "the part using %s in tu%d gave a wrong result (%d) with value %u", code >= 0 && code / 100 < NH ? H[code / 100].name : "?", tu, code % 100, v); }
  cleanup(); if (closure) LABEL("dependency-closure"); if (cppused) LABEL("C++"); if (repeated) LABEL("repeated-include"); if (clang) LABEL("clang"); else LABEL("gcc"); if (ntu > 1) LABEL("several-files"); if (noshort) LABEL("short-macros-off"); if (total >= 2) nontrivial();
}
Check the_check = {"C33", "random selections, orders and repetitions of the 36 public headers in 1-3 source files, gcc/clang, 5 C standards, feature-test and configuration macros, some files in C++, linked with the library or with the pragma-named sources only; every program runs one probe per header and file; non-trivial: at least 2 headers in the program",
  {{"programs", go, 900, 30000, SLOW}}};
