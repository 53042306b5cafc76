// C32: threads on distinct objects get the results of running alone, without data races (ThreadSanitizer build)
#include "pbt.hpp"
#include <algorithm>
#include <pthread.h>
#include <fcntl.h>
#include <unistd.h>
#include <errno.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include "sblist.h"
#include "stringptr.h"
#include "strlib.h"
#include "c03_ops.h"
#include "c06_ops.h"
#include "c13_ops.h"
#include "c19_ops.h"
#include "c27_ops.h"
extern "C" {
#include "tlist.h"
#include "hashlist.h"
#include "filelib.h"
#include "optparser.h"
#include "format.h"
extern const c03_ops c03_tbl[]; extern const int c03_n; extern const c06_ops c06_tbl0[], c06_tbl1[]; extern const int c06_n0, c06_n1;
sblist *kvs_new(size_t); int kvs_add(sblist *, char *, size_t, void *); void kvs_free(sblist *); int kvs_find(sblist *, char *, size_t, void **);
stringptr *stringptr_replace(stringptr *, stringptr *, stringptr *); sblist *stringptr_splitc(stringptr *, int); sblist *stringptr_splits(stringptr *, stringptr *);
int stringptrlist_add_strdup(sblist *, stringptr *); void stringptrlist_freeall(sblist *); stringptr *stringptrlist_tostring(sblist *); stringptr *stringptrlist_tostring_dos(sblist *); int stringptrlist_fromfile(sblist *, const char *); int stringptrlist_tofile(sblist *, char *, int); ssize_t stringptrlist_find(sblist *, stringptr *);
stringptr *stringptr_fromfile(char *); int stringptr_ends_with(stringptr *, stringptr *);
void i_sec(sblist *, stringptr *, size_t *, size_t *); void i_next(sblist *, stringptr *, size_t *, size_t *); void i_whole(sblist *, size_t *, size_t *); void i_val(sblist *, size_t, size_t, stringptr *, stringptr *); size_t i_count(sblist *);
void *fp_mk(void); int fileparser_open(void *, const char *); int fileparser_readline(void *); int fileparser_close(void *); int fileparser_getline(void *, stringptr *); ssize_t fileparser_getnextlinelength(void *); int fileparser_readline_userbuf(void *, char *, size_t);
void *fl_mk(); int fl_search(void *, stringptr *, stringptr *, int, int, int, int); size_t fl_size(void *); stringptr *fl_get(void *, size_t); void fl_free(void *);
size_t timestamp(char *, size_t); long long timespec_diff(struct timespec *, struct timespec *); long long getutime(void); void gettimestamp(struct timeval *); long mspassed(struct timeval *); int msleep(long); int microsleep(long);
ssize_t stringptrlist_dup_entries(sblist *); int stringptrlist_contains(sblist *, stringptr *); void *ga_alloc(size_t); void ga_free(void *, size_t);
}
typedef std::string S;
struct Rng { u64 x; u64 n(u64 m) { x += 0x9e3779b97f4a7c15ULL; u64 z = x; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; z ^= z >> 31; return z % m; } S bytes(size_t k) { S s; while (k--) s += (char)n(256); return s; } S text(size_t k, const char *a) { S s; size_t l = strlen(a); while (k--) s += a[n(l)]; return s; } };
struct Out { u64 h = 0; void b(const void *p, size_t n) { h = hash64(p, n, h); } void s(const S &x) { u(x.size()); b(x.data(), x.size()); } void u(u64 x) { b(&x, sizeof x); } void sp(stringptr *x) { if (!x) { u(77); return; } u(x->size); b(x->ptr, x->size); } };
static int cmp1(const void *a, const void *b) { unsigned char x = *(const unsigned char *)a, y = *(const unsigned char *)b; return x < y ? -1 : x > y; }
static int cmp1r(const void *a, const void *b, void *c) { return *(char *)c * cmp1(a, b); }
static const char *NAMES[] = {"sblist", "tlist", "tglist", "map", "hashlist/kvlist", "md5", "sha512", "crc", "rc4", "base64/hex", "numbers", "format", "stringptr", "split/join/replace", "search", "paths", "ini", "options", "files", "logger", "file list", "time", "mkdtemp", "printing", "small strings", "guarded memory", "temporary directories"};
enum { KINDS = sizeof NAMES / sizeof *NAMES };
static void task(int kind, u64 seed, const S &dir, Out &o) {
  Rng r{seed * 1000003 + (u64)kind}; int rounds = 1 + (int)r.n(3);
  for (int q = 0; q < rounds; q++) switch (kind) {
  case 0: { size_t z = 1 + r.n(12); sblist *l = sblist_new(z, r.n(6)); for (int i = 0, n = (int)r.n(40); i < n; i++) { S x = r.bytes(z); switch (r.n(6)) { case 0: sblist_insert(l, &x[0], r.n(sblist_getsize(l) + 1)); break; case 1: if (sblist_getsize(l)) sblist_delete(l, r.n(sblist_getsize(l))); break; case 2: o.u(sblist_addi(l, &x[0])); break; case 3: { void *p = sblist_pop(l); if (p) o.b(p, z); break; } default: sblist_add(l, &x[0]); } } sblist_sort(l, cmp1); for (int i = 0; i < 8; i++) { S x = r.bytes(z); o.u(sblist_bsearch(l, &x[0], cmp1) != (size_t)-1); sblist_insert_sorted(l, &x[0], cmp1); } for (size_t i = 0; i < sblist_getsize(l); i++) o.b(sblist_get(l, i), 1); sblist_free(l);
    { S d = r.bytes(z * (1 + r.n(5))); char ctx = 1; char *dd = (char *)malloc(d.size()); memcpy(dd, d.data(), d.size()); sblist *f = sblist_new_from_data(z, dd, d.size()); o.u(f != 0); if (f) { sblist_sort(f, cmp1); for (int i = 0; i < 8; i++) { S x = r.bytes(z); o.u((u64)sblist_bsearch_r(f, &x[0], cmp1r, &ctx) != ~0ull); o.u((u64)sblist_insert_sorted_r(f, &x[0], cmp1r, &ctx) != ~0ull); } for (size_t i = 0; i < sblist_getsize(f); i++) o.b(sblist_get(f, i), 1); sblist_free(f); } sblist *w = sblist_new(sizeof(char *), r.n(4)); for (int i = 0, n = (int)r.n(6); i < n; i++) { char *q = strdup(r.text(r.n(9), "ab").c_str()); sblist_add(w, &q); } sblist_free_values(w); o.u(sblist_getsize(w)); sblist_free(w); }
    break; }
  case 1: { unsigned z = 1 + (unsigned)r.n(12); tlist *l = tlist_new(z); for (int i = 0, n = (int)r.n(60); i < n; i++) { S x = r.bytes(z); switch (r.n(4)) { case 0: tlist_append(l, &x[0]); break; case 1: if (tlist_getsize(l)) tlist_delete(l, r.n(tlist_getsize(l))); break; default: tlist_insert(l, r.n(tlist_getsize(l) + 1), &x[0]); } } for (size_t i = 0; i < tlist_getsize(l); i++) o.b(tlist_get(l, i), z); S cur; for (size_t i = 0; i < tlist_getsize(l); i++) cur.append((char *)tlist_get(l, i), z); o.s(cur); tlist_free_items(l); o.u(tlist_getsize(l)); tlist_free(l);
    l = tlist_new(sizeof(char *)); for (int i = 0, n = (int)r.n(20); i < n; i++) { char *w = strdup(r.text(r.n(9), "ab").c_str()); o.u((u64)tlist_insert(l, r.n(tlist_getsize(l) + 1), &w)); if (r.n(4) == 0) o.u((u64)tlist_delete_deep(l, r.n(tlist_getsize(l)))); } for (size_t i = 0; i < tlist_getsize(l); i++) o.s(*(char **)tlist_get(l, i)); if (r.n(2)) tlist_free_items_deep(l); o.u(tlist_free_deep(l) == 0); break; }
  case 2: { const c03_ops &T = c03_tbl[r.n(c03_n)]; void *l = T.mk(0); S g(T.isz, 0); for (int i = 0, n = (int)std::min<size_t>(r.n(40), T.maxadds - 1); i < n; i++) { S x = r.bytes(T.isz); switch (r.n(4)) { case 0: T.ins(l, x.data(), r.n(T.size(l) + 1)); break; case 1: if (T.size(l)) T.del(l, r.n(T.size(l))); break; default: T.add(l, x.data()); } } for (size_t i = 0; i < T.size(l); i++) { T.get(l, i, &g[0]); o.b(g.data(), g.size()); } T.fr(l, 0); break; }
  case 3: { bool tgi = r.n(2); const c06_ops *t = tgi ? c06_tbl1 : c06_tbl0; int n = (int)r.n(tgi ? c06_n1 : c06_n0); while (n && t[n].kind == 3) n--; const c06_ops &T = t[n]; void *m = T.mk(0, 5); S v(T.vsz, 0); for (int i = 0, c = (int)r.n(60); i < c; i++) { S k(T.ksz, 0); k[0] = (char)r.n(30); S x = r.bytes(T.vsz); switch (r.n(5)) { case 0: if (T.find(m, k.data()) != -1) T.del_find(m, k.data()); break; case 1: o.u(T.get(m, k.data(), &v[0])); o.s(v); break; default: T.insert(m, k.data(), x.data()); } } std::vector<int64_t> it(200); size_t c = T.foreach(m, it.data(), 200); o.u(c); for (size_t i = 0; i < c; i++) { T.val(m, it[i], &v[0]); o.s(v); } T.fini(m, 0, 0); break; }
  case 4: { hashlist *h = hashlist_new(1 + (u32)r.n(20), 4); for (int i = 0, n = (int)r.n(50); i < n; i++) { S x = r.bytes(4); hashlist_add(h, (u32)r.n(100), &x[0]); } for (int i = 0; i < 4; i++) { sblist *b = hashlist_get(h, (u32)r.n(100)); o.u(b ? sblist_getsize(b) : 0); } hashlist_bucket_iterator bi; hashlist_bucket_iterator_init(&bi); while (sblist *b = hashlist_bucket_next(h, &bi)) o.u(sblist_getsize(b)); hashlist_iterator it; hashlist_iterator_init(&it); void *p; while ((p = hashlist_next(h, &it))) o.b(p, 4); hashlist_free(h);
    sblist *l = kvs_new(r.n(5)); std::vector<S> ks; for (int i = 0; i < 12; i++) ks.push_back(r.text(1 + r.n(2), "abc")); for (size_t i = 0; i < ks.size(); i++) kvs_add(l, &ks[i][0], ks[i].size(), (void *)(i + 1)); for (int i = 0; i < 12; i++) { S k = r.text(1 + r.n(2), "abcd"); void *v = 0; o.u(kvs_find(l, &k[0], k.size(), &v)); o.u((u64)v); } kvs_free(l); break; }
  case 5: { S c(s_md5_size(), 0); md5_init(&c[0]); for (int i = 0, n = (int)r.n(6); i < n; i++) { S x = r.bytes(r.n(150)); md5_update(&c[0], x.data(), x.size()); } S d(16, 0), x = r.bytes(r.n(100)); md5_end(&c[0], &d[0]); o.s(d); char hex[33]; md5str(hex, (const unsigned char *)x.data(), x.size()); o.b(hex, 33); break; }
  case 6: { S c(s_sha_size(), 0); sha512_init(&c[0]); for (int i = 0, n = (int)r.n(4); i < n; i++) { S x = r.bytes(128 * r.n(3)); sha512_update(&c[0], (const unsigned char *)x.data(), x.size()); } S x = r.bytes(r.n(200)); sha512_update(&c[0], (const unsigned char *)x.data(), x.size()); o.b(sha512_end(&c[0]), 64); break; }
  case 7: { bool v = r.n(2); S c(64, 0); unsigned char f[4]; v ? CRC32C_Init(&c[0]) : CRC32_Init(&c[0]); for (int i = 0, n = (int)r.n(5); i < n; i++) { S x = r.bytes(r.n(60)); v ? CRC32C_Update(&c[0], (const u8 *)x.data(), x.size()) : CRC32_Update(&c[0], (const u8 *)x.data(), x.size()); } v ? CRC32C_Final(f, &c[0]) : CRC32_Final(f, &c[0]); o.b(f, 4); break; }
  case 8: { S k = r.bytes(1 + r.n(40)), m = r.bytes(r.n(200)), d(m.size() + 1, 0); rc4((unsigned char *)&d[0], (const unsigned char *)m.data(), m.size(), (const unsigned char *)k.data(), k.size()); o.s(d); break; }
  case 9: { S m = r.bytes(r.n(100)), e(BASE64ENC_BUFSIZE(m.size()), 0), d(m.size() + 8, 0), h(m.size() * 2 + 1, 0), w(m.size() + 1, 0); base64enc(&e[0], (const unsigned char *)m.data(), m.size()); o.s(e); o.u(base64dec((unsigned char *)&d[0], e.c_str(), d.size())); o.s(d); raw2hex(&h[0], (const unsigned char *)m.data(), m.size()); o.s(h); if (m.size()) { o.u(hex2raw(h.c_str(), (unsigned char *)&w[0])); o.s(w); } S t = r.text(r.n(30), "abc"), f(64, 0); o.u(base64enc_str(&f[0], (const unsigned char *)t.c_str(), f.size())); o.s(f); break; }
  case 10: { for (int i = 0; i < 8; i++) { u64 v = r.n(~0ull) >> r.n(64); char b[80] = {0}, *p; p = uint64ToString(v, b); o.s(p ? p : "-"); S y = p; o.u((u64)strtoint64(&y[0], y.size())); p = int64ToString((i64)v, b); o.s(p); p = intToString((int)v, b); o.s(p); S z = p; o.u((u64)(i64)strtoint(&z[0], z.size())); p = uintToString((unsigned)v, b); o.s(p); memset(b, 0, sizeof b); p = numberToString(v, 2 * (1 + (unsigned)r.n(31)), b, 70, (int)r.n(2) * NTS_LOWERCASE_CHARS); o.s(p ? p : "-"); char c = (char)v; o.u((u64)hexval(&c)); } break; }
  case 11: { for (int i = 0; i < 6; i++) { char b[120]; memset(b, 0, sizeof b); S t = r.text(r.n(12), "xyz"); o.u((u64)ulz_snprintf(b, 1 + r.n(119), "%s|%d|%u|%x|%.4d|%llu|%c%%", t.c_str(), (int)r.n(1u << 31) - (1 << 30), (unsigned)r.n(1u << 31), (unsigned)r.n(1u << 31), (int)r.n(3000), (unsigned long long)r.n(~0ull), 'a' + (int)r.n(26))); o.b(b, sizeof b); memset(b, 0, sizeof b); o.u((u64)ulz_snprintf(b, 1 + r.n(119), "%p|%ld|%lu|%zu|%zd|%.25lld|%X", (void *)(uintptr_t)r.n(~0ull), (long)r.n(~0ull), (unsigned long)r.n(~0ull), (size_t)r.n(~0ull), (ssize_t)r.n(~0ull), (long long)r.n(~0ull), (unsigned)r.n(1u << 31))); o.b(b, sizeof b); char f[] = "<%s:%d>"; stringptr *s = stringptr_format(f, t.c_str(), (int)r.n(1000)); o.sp(s); stringptr_free(s); } break; }
  case 12: { S a = r.bytes(r.n(60)) + "q", b = r.bytes(r.n(4)), c = a.substr(r.n(a.size())) + b; stringptr as = {&a[0], a.size()}, bs = {&b[0], b.size()}, cs = {&c[0], c.size()}; stringptr *x = stringptr_concat(&as, &bs, &cs, (stringptr *)0), *y = stringptr_copy(x); o.sp(x); o.sp(y); o.u((u64)stringptr_eq(x, y)); o.u(stringptr_hash(x)); o.u((u64)stringptr_contains(x, &bs)); o.u((u64)stringptr_here(x, r.n(10), &bs)); char *z = stringptr_rchr(x, 'q'); o.u(z ? (u64)(z - x->ptr) : 0); o.u((u64)stringptr_shiftright(y, r.n(20))); o.sp(y); o.u(stringptr_chomp(y)); z = stringptr_strdup(&as); o.b(z, a.size()); free(z); stringptr_free(x); stringptr_free(y); break; }
  case 13: { S t = r.text(r.n(60), "ab,;"), d = r.text(1 + r.n(2), ",a"), w = r.text(r.n(3), "XY"), t2 = t, t3 = t; t.push_back(0); t2.push_back(0); t3.push_back(0); stringptr s = {&t[0], t.size() - 1}, s2 = {&t2[0], t2.size() - 1}, s3 = {&t3[0], t3.size() - 1}, ds = {&d[0], d.size()}, ws = {&w[0], w.size()}; sblist *l = stringptr_splitc(&s, ','); for (size_t i = 0; i < s_size(l); i++) o.sp(s_get(l, i)); stringptr *j = stringptrlist_tostring(l), *k = stringptrlist_tostring_dos(l); o.sp(j); o.sp(k); stringptr_free(j); stringptr_free(k); o.u((u64)stringptrlist_find(l, &ws)); s_free(l); l = stringptr_splits(&s2, &ds); for (size_t i = 0; i < s_size(l); i++) o.sp(s_get(l, i)); s_free(l); j = stringptr_replace(&s3, &ds, &ws); o.sp(j); stringptr_free(j); break; }
  case 14: { S h = r.text(r.n(60), "aAbB c"), n = r.text(1 + r.n(3), "AB"), n2 = r.text(1 + r.n(3), "ab*"); char *p = strstr_uc(&h[0], &n[0], n.size()); o.u(p ? (u64)(p - &h[0]) : ~0ull); p = strstar(h.c_str(), n2.c_str(), n2.size()); o.u(p ? (u64)(p - h.c_str()) : ~0ull); p = findword(&h[0], &n[0], n.size()); o.u(p ? (u64)(p - &h[0]) : ~0ull); o.u((u64)strends(&h[0], &n[0])); S ip = r.bytes(4); char tx[16]; stringfromipv4((unsigned char *)&ip[0], tx); o.s(tx); o.u((u64)isnumericipv4(tx)); unsigned char back[4]; ipv4fromstring(tx, back); o.b(back, 4); break; }
  case 15: { for (int i = 0; i < 5; i++) { S p = "/" + r.text(r.n(30), "a./b"), out(p.size() + 2, 0); char *x = normalizepath_cstr(p.c_str(), &out[0]); o.s(x ? x : "-"); S a = "/" + r.text(r.n(8), "a/"), b = a + "/" + r.text(r.n(8), "b/"), w(2 * (a.size() + b.size()) + 16 + 2 * 4096, 0); stringptr as = {&a[0], a.size()}, bs = {&b[0], b.size()}; o.u((u64)getpathdiff(&as, &bs, &w[0])); char *e = getFileExt(p.c_str(), p.size()); o.u(e ? (u64)(e - p.c_str()) : ~0ull); stringptr ps = {&p[0], p.size()}; e = getfilename(&ps); o.u(e ? (u64)(e - &p[0]) : ~0ull); } break; }
  case 16: { S t; for (int i = 0; i < 20; i++) { if (r.n(4) == 0) t += "[" + r.text(1, "abc") + "]\n"; else t += r.text(1 + r.n(2), "xyz") + "=" + r.text(r.n(5), "123") + "\n"; } S t2 = t; t2.push_back(0); stringptr s = {&t2[0], t.size()}; sblist *l = s_linesplit(&s); o.u(i_count(l)); for (const char *sn : {"a", "b", "c", "d"}) { S nn = sn; stringptr ns = {&nn[0], 1}, v = {0, 0}; size_t a, c; i_sec(l, &ns, &a, &c); o.u(a); o.u(c); for (const char *kn : {"x", "xy", "z"}) { S kk = kn; stringptr ks = {&kk[0], kk.size()}; i_val(l, a, c, &ks, &v); o.u(v.size); if (v.size) o.b(v.ptr, v.size); } for (int g = 0; g < 30 && a; g++) { i_next(l, &ns, &a, &c); o.u(a); o.u(c); } } size_t a, c; i_whole(l, &a, &c); o.u(a); o.u(c); s_free(l); break; }
  case 17: { std::vector<S> a = {"prog"}; for (int i = 0; i < 8; i++) a.push_back((r.n(2) ? "-" : "--") + r.text(1 + r.n(2), "ab") + (r.n(2) ? "=" + r.text(r.n(4), "v") : S())); std::vector<char *> av; for (auto &x : a) av.push_back(&x[0]); op_state st; op_init(&st, (int)av.size(), av.data()); for (const char *n : {"a", "b", "ab", "ba"}) { S nn = n; stringptr ns = {&nn[0], nn.size()}; char *v = op_get(&st, &ns); o.s(v ? v : "-"); o.u((u64)op_hasflag(&st, &ns)); } break; }
  case 18: { S f = dir + "/f", t; int n = (int)r.n(12); sblist *l = s_new(3); for (int i = 0; i < n; i++) { S x = r.text(r.n(30), "abc d"); stringptr xs = {&x[0], x.size()}; stringptrlist_add_strdup(l, &xs); } o.u((u64)stringptrlist_tofile(l, &f[0], 0600)); stringptrlist_freeall(l); o.u(getfilesize(&f[0])); l = s_new(2); o.u((u64)stringptrlist_fromfile(l, f.c_str())); for (size_t i = 0; i < s_size(l); i++) o.sp(s_get(l, i)); stringptrlist_freeall(l); void *p = fp_mk(); if (!fileparser_open(p, f.c_str())) { stringptr ln; for (int i = 0; i < 40; i++) { if (i & 1) o.u((u64)fileparser_getnextlinelength(p)); if (fileparser_readline(p)) break; if (!fileparser_getline(p, &ln)) o.sp(&ln); } fileparser_close(p); } { S big = r.text(900 + r.n(900), "lo ") + "\n" + r.text(r.n(40), "x") + "\n"; stringptr bs2 = {&big[0], big.size()}; o.u((u64)stringptr_tofile(&f[0], &bs2)); if (!fileparser_open(p, f.c_str())) { S ub(2000, 0); for (int i = 0; i < 4; i++) { bool own = r.n(2); int e = own ? fileparser_readline(p) : fileparser_readline_userbuf(p, &ub[0], 700 + r.n(1300)); o.u((u64)e); if (e == -3) { own = false; e = fileparser_readline_userbuf(p, &ub[0], ub.size()); } o.u((u64)e); if (e) break; stringptr ln; if (!own) o.s(ub.c_str()); else if (!fileparser_getline(p, &ln)) o.sp(&ln); } fileparser_close(p); } }
    free(p); S b = r.bytes(1 + r.n(300)); stringptr bs = {&b[0], b.size()}; o.u((u64)stringptr_tofile(&f[0], &bs)); stringptr *g = stringptr_fromfile(&f[0]); o.sp(g); stringptr_free(g); unlink(f.c_str()); break; }
  case 19: { int fd = memfd_create("c32", MFD_CLOEXEC); S t = r.bytes(r.n(30)), c = r.text(r.n(10), "abc"); stringptr ts = {&t[0], t.size()}; l_puts(fd, &ts); l_putc(fd, c.c_str()); l_putd(fd, r.n(~0ull), (int)r.n(2)); piece p[3] = {}; p[0].kind = 0; p[0].sp = &ts; p[1].kind = 3; p[1].i = (int)r.n(1000) - 500; p[2].kind = 1; p[2].cs = &c[0]; l_put(fd, p, 3); errno = ENOENT; l_err(fd, c.c_str()); l_putln(fd); l_space(fd); p[0].cs = &c[0]; p[0].i = (int)r.n(99) - 50; p[0].u = (unsigned)r.n(99); p[0].l = -(long)r.n(99999); p[0].ul = r.n(~0ull); l_macros(fd, p); { off_t e0 = lseek(fd, 0, SEEK_END); l_ts(fd); o.u((u64)(lseek(fd, 0, SEEK_END) - e0)); if (ftruncate(fd, e0)) o.u(1); } char b[600]; ssize_t k = pread(fd, b, sizeof b, 0); o.u((u64)k); if (k > 0) o.b(b, (size_t)k); close(fd); break; }
  case 20: { std::vector<S> fs; for (int i = 0, n = 1 + (int)r.n(6); i < n; i++) { S f = dir + "/" + r.text(1 + r.n(3), "ab") + std::to_string(i); int fd = open(f.c_str(), O_CREAT | O_WRONLY | O_CLOEXEC, 0600); if (fd >= 0) close(fd); fs.push_back(f); } void *l = fl_mk(); S d = dir, m = r.n(2) ? "*" : "a*"; stringptr ds = {&d[0], d.size()}, ms = {&m[0], m.size()}; int e = fl_search(l, &ds, &ms, (int)r.n(2), (int)r.n(2), 1, (int)r.n(2)); o.u((u64)e); if (!e) { o.u(fl_size(l)); for (size_t i = 0; i < fl_size(l); i++) o.sp(fl_get(l, i)); fl_free(l); } free(l); for (auto &f : fs) unlink(f.c_str()); break; }
  case 21: { char b[32]; memset(b, 0, sizeof b); size_t n = timestamp(b, sizeof b); o.u(n); for (size_t i = 0; i < n && i < 31; i++) o.u(b[i] >= '0' && b[i] <= '9' ? '0' : (u64)(unsigned char)b[i]); struct timespec x = {(time_t)r.n(1000), (long)r.n(1000000000)}, y = {(time_t)r.n(1000), (long)r.n(1000000000)}; o.u((u64)timespec_diff(&x, &y)); o.u(getutime() > 0); break; }
  case 22: { S t = dir + "/tXXXXXX"; for (int i = 0; i < 3; i++) { S x = t; char *p = ulz_mkdtemp(&x[0]); struct stat st; o.u(p == &x[0] && !stat(p, &st) && S_ISDIR(st.st_mode) && (st.st_mode & 0777) == 0700 && x.compare(0, t.size() - 6, t, 0, t.size() - 6) == 0); if (p) o.u((u64)rmdir(p)); } break; }
  case 23: { { S t = r.text(r.n(200), "pq "); ulz_printf("%s %d %x\n", t.c_str(), (int)r.n(1000), (unsigned)r.n(1u << 31)); } // standard output is the null device: data races only
    int fd = memfd_create("c32", MFD_CLOEXEC); for (int i = 0, n = 1 + (int)r.n(6); i < n; i++) { S t = r.text(r.n(r.n(4) ? 40 : 1500), "xyz "); ulz_fprintf(fd, "%s|%d|%x%%\n", t.c_str(), (int)r.n(1u << 30) - (1 << 29), (unsigned)r.n(1u << 31)); } std::vector<char> b(20000); ssize_t k = pread(fd, b.data(), b.size(), 0); o.u((u64)k); if (k > 0) o.b(b.data(), (size_t)k); close(fd); break; }
  case 24: { S t = r.text(1 + r.n(60), "aBcD 1."); char *d = strdup_n(&t[0], t.size()); if (d) o.b(d, t.size()); free(d); for (char c : t) { char x = c; makelower(&x); o.u((u64)x); x = c; makeupper(&x); o.u((u64)x); x = c; o.u((u64)(isAlpha(&x) * 8 + isNumber(&x) * 4 + isUpper(&x) * 2 + isLower(&x) + isLetter(&x) * 16)); } o.u((u64)containsChar(&t[0], 'c')); char b[40]; o.s(itoa((int)(unsigned)r.n(1ull << 32), b)); o.s(utoa((unsigned)r.n(1ull << 32), b)); stringptr sp; stringptr *q = stringptr_fromchar(&t[0], &sp); o.sp(q); stringptr_shiftleft(&sp, r.n(10)); o.sp(&sp); S p = "/" + r.text(r.n(30), "a./b"); p.push_back(0); stringptr ps = {&p[0], p.size() - 1}; o.u((u64)normalizepath(&ps)); o.sp(&ps); sblist *l = s_new(r.n(4)); S parts[6]; for (auto &x : parts) { x = r.bytes(r.n(20)); s_add(l, &x[0], x.size()); } o.u((u64)stringptrlist_dup_entries(l)); for (size_t i = 0; i < s_size(l); i++) o.sp(s_get(l, i)); stringptr w = {&parts[2][0], parts[2].size()}; o.u((u64)stringptrlist_contains(l, &w)); stringptrlist_freeall(l); break; }
  case 25: { for (int i = 0; i < 4; i++) { size_t n = 1 + r.n(r.n(3) ? 200 : 9000); char *m = (char *)ga_alloc(n); if (!m) { o.u(0); continue; } S x = r.bytes(n); memcpy(m, x.data(), n); o.b(m, n); ga_free(m, n); } break; }
  case 26: { struct timeval tv; gettimestamp(&tv); o.u((u64)msleep(0)); o.u((u64)microsleep(1)); o.u(mspassed(&tv) < 600000); S pre = "pbt32-" + std::to_string(r.n(1000)) + "-"; char b[64]; memset(b, 0, sizeof b); size_t n = mktempdir(pre.c_str(), b, sizeof b); o.u(n == strlen(b) && n == 9 + pre.size() + 6); if (n) { o.u(getFileModTime(b) > 1000); o.u((u64)rmdir(b)); } break; }
  }
}
struct Thr { std::vector<std::pair<int, u64>> t; std::vector<u64> want, got; S dir; int reps; pthread_barrier_t *b; };
static void *thr(void *v) { Thr *t = (Thr *)v; pthread_barrier_wait(t->b); for (int k = 0; k < t->reps; k++) for (size_t i = 0; i < t->t.size(); i++) { Out o; task(t->t[i].first, t->t[i].second, t->dir, o); if (!k) t->got.push_back(o.h); else if (o.h != t->got[i]) t->got[i] = o.h; } return 0; }
static void plan(std::vector<Thr> &T, bool &anysame) {
  bool samekind = chance(2, 3); int k0 = (int)draw(KINDS - 1); size_t n = T.size(); anysame = false;
  for (size_t i = 0; i < n; i++) { T[i].dir = S(scratch()) + "/t" + std::to_string(i); mkdir(T[i].dir.c_str(), 0700); T[i].reps = 1 + (int)draw(1); do T[i].t.push_back({samekind ? k0 : (int)draw(KINDS - 1), draw(1000000)}); while (more(2) && T[i].t.size() < 8); for (auto &x : T[i].t) note("thread %zu: %s %llu", i, NAMES[x.first], (unsigned long long)x.second); }
  for (size_t i = 1; i < n; i++) for (auto &x : T[i].t) for (auto &y : T[0].t) anysame |= x.first == y.first; if (anysame) nontrivial();
  static int lab[KINDS]; static bool li; if (!li) { for (int i = 0; i < KINDS; i++) lab[i] = -1; li = true; } for (auto &t : T) for (auto &x : t.t) label_(NAMES[x.first], &lab[x.first]);
}
static void together(std::vector<Thr> &T) { size_t n = T.size(); pthread_barrier_t bar; pthread_barrier_init(&bar, 0, (unsigned)n); std::vector<pthread_t> th(n); for (size_t i = 0; i < n; i++) { T[i].b = &bar; CHECK(!pthread_create(&th[i], 0, thr, &T[i]), "harness: thread creation"); } for (auto h : th) pthread_join(h, 0); pthread_barrier_destroy(&bar); }
static void alone(std::vector<Thr> &T) { for (auto &t : T) for (auto &x : t.t) { Out o; task(x.first, x.second, t.dir, o); t.want.push_back(o.h); } }
static void compare(std::vector<Thr> &T) { for (size_t i = 0; i < T.size(); i++) { for (size_t j = 0; j < T[i].t.size(); j++) CHECK(T[i].want[j] == T[i].got[j], "thread %zu got another result for %s than when running alone", i, NAMES[T[i].t[j].first]); rmdir(T[i].dir.c_str()); } }
static void fresh() { // a process of its own, in which no library function has run before the threads start (first uses race with each other)
  std::vector<Thr> T(2 + draw(2)); bool same; plan(T, same); fflush(stderr);
  pid_t p = fork(); CHECK(p >= 0, "harness: fork");
  if (!p) { CRC32_InitTables(); CRC32C_InitTables(); together(T); alone(T); compare(T); _exit(0); }
  int st; while (waitpid(p, &st, 0) < 0) CHECK(errno == EINTR, "harness: wait"); if (WIFEXITED(st)) { if (WEXITSTATUS(st)) _exit(WEXITSTATUS(st)); } else CHECK(0, "killed by signal %d in a fresh process", WTERMSIG(st));
}
static void threads() {
  static bool init; if (!init) { CRC32_InitTables(); CRC32C_InitTables(); init = true; }
  std::vector<Thr> T(2 + draw(2)); bool same; plan(T, same); alone(T); together(T); compare(T);
}
Check the_check = {"C32", "2..4 threads starting together, each running up to 8 generated workloads on objects, buffers, descriptors and directories of its own (27 kinds covering all library parts); results compared with the same workload run alone (before the threads, or, in a fresh process each, after them) and every access checked by ThreadSanitizer; non-trivial: two threads run the same kind of workload",
  {{"fresh", fresh, 1500, 30000, RACY}, {"threads", threads, 14000, 280000, RACY}}};
