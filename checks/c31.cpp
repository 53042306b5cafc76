// C31: every allocation of a history fails once (or from some point on): truthful results, intact contents, no leak
#include "pbt.hpp"
#include <algorithm>
#include <functional>
#include <map>
#include <fcntl.h>
#include <glob.h>
#include <unistd.h>
#include <sys/stat.h>
#include "sblist.h"
#include "stringptr.h"
#include "c03_ops.h"
#include "c06_ops.h"
#include "c19_ops.h"
extern "C" {
#include "tlist.h"
#include "hashlist.h"
extern const c03_ops c03_tbl[]; extern const int c03_n; extern const c06_ops c06_tbl0[], c06_tbl1[]; extern const int c06_n0, c06_n1;
sblist *kvs_new(size_t); int kvs_add(sblist *, char *, size_t, void *); size_t kvs_size(sblist *); void kvs_free(sblist *); int kvs_find(sblist *, char *, size_t, void **);
int sl_add_dup(sblist *, char *); char *sl_get(sblist *, size_t); sblist *sl_new(size_t);
stringptr *stringptr_replace(stringptr *, stringptr *, stringptr *); sblist *stringptr_splitc(stringptr *, int); sblist *stringptr_splits(stringptr *, stringptr *);
int stringptrlist_add_strdup(sblist *, stringptr *); ssize_t stringptrlist_dup_entries(sblist *); void stringptrlist_freeall(sblist *); void stringptrlist_freestrings(sblist *); stringptr *stringptrlist_tostring(sblist *); stringptr *stringptrlist_tostring_dos(sblist *); int stringptrlist_fromfile(sblist *, const char *);
char *strdup_n(const char *, size_t); stringptr *stringptr_fromfile(char *);
void *tgs_i32_new(void); size_t tgs_i32_ins(void *, void *, int (*)(const void *, const void *)); size_t tgs_i32_size(void *); void *tgs_i32_at(void *, size_t); void tgs_i32_free(void *);
void *fl_mk(); int fl_search(void *, stringptr *, stringptr *, int, int, int, int); size_t fl_size(void *); stringptr *fl_get(void *, size_t); void fl_free(void *);
int __real_glob(const char *, int, int (*)(const char *, int), glob_t *); void __real_globfree(glob_t *);
}
static long globs;
extern "C" int __wrap_glob(const char *p, int f, int (*e)(const char *, int), glob_t *g) { int r = __real_glob(p, f, e, g); if (!r) globs++; return r; }
extern "C" void __wrap_globfree(glob_t *g) { globs--; __real_globfree(g); }
typedef std::string S;
struct Op { unsigned code; u64 a, b; };
static std::vector<Op> gops(unsigned avg, size_t max) { std::vector<Op> v; while (v.size() < max && more(avg)) v.push_back({(unsigned)draw(99), draw(1000), draw(1000000)}); return v; }
// --- driver
static bool persistent; static int failures; static long point;
static bool attempt(const char *what, const std::function<bool()> &op, const std::function<void()> &same) {
  int f0 = pa_fired(); bool ok = op(); if (ok) return true;
  CHECK(pa_fired() > f0, "%s reports failure although no allocation failed", what); failures++; same(); LABEL("operation reported the failure");
  if (persistent) return false;
  CHECK(op(), "%s fails again when retried after a failed allocation (allocation %ld)", what, point); LABEL("retry succeeded"); return true;
}
static void noop() {}
// runs `hist` without faults, then once per allocation with that one failing, and with all failing from a point on
static void every(const std::function<void()> &hist) {
  size_t live0 = pa_live(); persistent = false; failures = 0; point = 0; pa_count_reset(); hist(); long n = pa_count(); CHECK(pa_live() == live0, "history leaks without any failure");
  std::vector<std::pair<long, bool>> pts; if (n <= 48) for (long k = 1; k <= n; k++) pts.push_back({k, false}); else { for (long k = 1; k <= 16; k++) pts.push_back({k, false}); for (int i = 0; i < 32; i++) pts.push_back({17 + (long)draw(n - 17), false}); }
  for (int i = 0; i < 4 && n; i++) pts.push_back({1 + (long)draw(n - 1), true});
  int nf = 0; for (auto &p : pts) {
    note("%s %ld of %ld", p.second ? "all allocations fail from number" : "failing allocation number", p.first, n); point = p.first; persistent = p.second; failures = 0; pa_count_reset(); if (persistent) pa_fail_from(p.first); else pa_fail_at(p.first);
    hist(); bool fired = pa_fired(); pa_count_reset(); CHECK(fired, "harness: allocation %ld was not reached", p.first); CHECK(pa_live() == live0, "memory is leaked (%zu blocks) when allocation %ld of %ld fails%s", pa_live() - live0, p.first, n, p.second ? " with all later ones" : ""); nf += failures > 0;
  }
  if (nf >= 2) nontrivial();
}
// --- subjects
static S item(size_t n, u64 v) { S s(n, 0); gfill(&s[0], n, v); return s; }
static int cmp1(const void *a, const void *b) { unsigned char x = *(const unsigned char *)a, y = *(const unsigned char *)b; return x < y ? -1 : x > y; }
static int cmp1r(const void *a, const void *b, void *) { return cmp1(a, b); }
static int cmpi(const void *a, const void *b) { int x = *(const int *)a, y = *(const int *)b; return x < y ? -1 : x > y; }
static void t_sblist() {
  size_t isz = 1 + sizeish(60), blk = sizeish(9); bool sorted = chance(1, 3), wrapd = !sorted && chance(1, 5); size_t wn = draw(6); auto ops = gops(20, 120); note("sblist items of %zu bytes, block %zu%s%s, %zu operations", isz, blk, sorted ? ", sorted" : "", wrapd ? ", wrapped data" : "", ops.size());
  if (wrapd && !wn) wn = 1; std::vector<S> init; if (wrapd) for (size_t i = 0; i < wn; i++) init.push_back(item(isz, 7 + i)); S flat; for (auto &s : init) flat += s; Buf img(flat);
  every([&] {
    std::vector<S> M; sblist *l = 0; char *data = 0;
    if (wrapd) { do data = (char *)malloc(flat.size()); while (!data && !persistent); if (!data) return; memcpy(data, flat.data(), flat.size()); if (!attempt("sblist_new_from_data", [&] { return (l = sblist_new_from_data(isz, data, flat.size())); }, noop)) { free(data); return; } M = init; sblist_set_blockitems(l, blk); }
    else if (!attempt("sblist_new", [&] { return (l = sblist_new(isz, blk)); }, noop)) return;
    auto same = [&] { CHECK(sblist_getsize(l) == M.size(), "list has %zu items, expected %zu", sblist_getsize(l), M.size()); for (size_t i = 0; i < M.size(); i++) { void *p = sblist_get(l, i); CHECK(p && !memcmp(p, M[i].data(), isz), "item %zu is wrong", i); } };
    for (auto &o : ops) { S x = item(isz, o.b); Buf it(x); size_t pos = o.a % (M.size() + 1);
      if (sorted) { if (o.code < 80) { size_t r = 0; bool ctx = o.code & 1; if (attempt("sorted insert", [&] { r = ctx ? sblist_insert_sorted_r(l, it.p, cmp1r, 0) : sblist_insert_sorted(l, it.p, cmp1); return r != (size_t)-1; }, same)) { CHECK(r <= M.size(), "index"); M.insert(M.begin() + (long)r, x); } } else if (!M.empty()) { pos %= M.size(); sblist_delete(l, pos); M.erase(M.begin() + (long)pos); } }
      else if (o.code < 35) { if (attempt("sblist_add", [&] { return !!sblist_add(l, it.p); }, same)) M.push_back(x); }
      else if (o.code < 50) { size_t r = 0; if (attempt("sblist_addi", [&] { r = sblist_addi(l, it.p); return r != (size_t)-1; }, same)) { CHECK(r == M.size(), "addi index"); M.push_back(x); } }
      else if (o.code < 80) { if (attempt("sblist_insert", [&] { return !!sblist_insert(l, it.p, pos); }, same)) M.insert(M.begin() + (long)pos, x); }
      else if (o.code < 85) { if (!M.empty()) { pos %= M.size(); CHECK(sblist_set(l, it.p, pos), "set"); M[pos] = x; } }
      else if (o.code < 92) { if (!M.empty()) { pos %= M.size(); sblist_delete(l, pos); M.erase(M.begin() + (long)pos); } }
      else if (o.code < 98) { void *p = sblist_pop(l); CHECK(!p == M.empty(), "pop"); if (p) M.pop_back(); }
      else { sblist_free_items(l); M.clear(); }
      same(); }
    sblist_free(l); });
}
static void t_tlist() {
  unsigned isz = 1 + (unsigned)sizeish(40); auto ops = gops(15, 60); note("tlist items of %u bytes, %zu operations", isz, ops.size());
  every([&] {
    std::vector<S> M; tlist *l = 0; if (!attempt("tlist_new", [&] { return (l = tlist_new(isz)); }, noop)) return;
    auto same = [&] { CHECK(tlist_getsize(l) == M.size(), "list has %zu items, expected %zu", tlist_getsize(l), M.size()); for (size_t i = 0; i < M.size(); i++) { void *p = tlist_get(l, i); CHECK(p && !memcmp(p, M[i].data(), isz), "item %zu is wrong", i); } };
    for (auto &o : ops) { S x = item(isz, o.b); Buf it(x); size_t pos = o.a % (M.size() + 1);
      if (o.code < 40) { if (attempt("tlist_append", [&] { return !!tlist_append(l, it.p); }, same)) M.push_back(x); }
      else if (o.code < 80) { if (attempt("tlist_insert", [&] { return !!tlist_insert(l, pos, it.p); }, same)) M.insert(M.begin() + (long)pos, x); }
      else if (o.code < 98) { if (!M.empty()) { pos %= M.size(); CHECK(tlist_delete(l, pos), "delete"); M.erase(M.begin() + (long)pos); } }
      else { tlist_free_items(l); M.clear(); }
      same(); }
    tlist_free(l); });
}
static void t_tglist() {
  if (chance(1, 5)) { auto ops = gops(20, 100); note("tglist sorted insertion, %zu operations", ops.size());
    every([&] { std::vector<int> M; void *l = 0; if (!attempt("tglist_new", [&] { return (l = tgs_i32_new()); }, noop)) return; auto same = [&] { CHECK(tgs_i32_size(l) == M.size(), "size"); for (size_t i = 0; i < M.size(); i++) CHECK(*(int *)tgs_i32_at(l, i) == M[i], "item %zu is wrong", i); };
      for (auto &o : ops) { int x = (int)(o.b % 50); size_t r = 0; if (attempt("tglist_insert_sorted", [&] { r = tgs_i32_ins(l, &x, cmpi); return r != (size_t)-1; }, same)) { CHECK(r <= M.size(), "index"); M.insert(M.begin() + (long)r, x); } same(); }
      tgs_i32_free(l); }); return; }
  const c03_ops &T = c03_tbl[draw(c03_n - 1)]; auto ops = gops(20, std::min<size_t>(T.maxadds, 100)); note("%s, %zu operations", T.name, ops.size()); if (!ops.size()) ops.push_back({0, 0, 1});
  every([&] {
    std::vector<S> M; void *l = 0; if (!attempt("creation", [&] { return (l = T.mk(0)); }, noop)) return;
    auto same = [&] { CHECK(T.size(l) == M.size(), "list has %zu items, expected %zu", T.size(l), M.size()); S g(T.isz, 0); for (size_t i = 0; i < M.size(); i++) { T.get(l, i, &g[0]); CHECK(g == M[i], "item %zu is wrong", i); } };
    size_t adds = 0; for (auto &o : ops) { S x = item(T.isz, o.b); size_t pos = o.a % (M.size() + 1); if (adds + 4 >= T.maxadds) break;
      if (o.code < 40) { adds++; if (attempt("add", [&] { return !!T.add(l, x.data()); }, same)) M.push_back(x); }
      else if (o.code < 80) { adds++; if (attempt("insert", [&] { return !!T.ins(l, x.data(), pos); }, same)) M.insert(M.begin() + (long)pos, x); }
      else if (o.code < 88) { if (!M.empty()) { pos %= M.size(); T.set(l, x.data(), pos); M[pos] = x; } }
      else if (!M.empty()) { pos %= M.size(); T.del(l, pos); M.erase(M.begin() + (long)pos); }
      same(); }
    T.fr(l, 0); });
}
static void t_map() {
  bool tgi = draw(1); const c06_ops *t = tgi ? c06_tbl1 : c06_tbl0; int n = (int)draw((tgi ? c06_n1 : c06_n0) - 1); while (n && t[n].kind == 3) n--; const c06_ops &T = t[n]; int hf = (int)draw(5); auto ops = gops(20, 100); note("%s%s hash %d, %zu operations", T.name, tgi ? " (tgilist values)" : "", hf, ops.size());
  auto mkk = [&](i64 k) { S s(T.ksz, 0); if (T.kind == 1) { long long x = k * 3000000000LL; memcpy(&s[0], &x, 8); } else { int x = (int)k; memcpy(&s[0], &x, 4); } return s; };
  every([&] {
    std::map<S, S> M; void *m = 0; if (!attempt("creation", [&] { return (m = T.mk(0, hf)); }, noop)) return;
    auto same = [&] { CHECK(T.size(m) == M.size(), "map has %zu entries, expected %zu", T.size(m), M.size()); S v(T.vsz, 0), k(T.ksz, 0); for (auto &x : M) { int64_t r = T.find(m, x.first.data()); CHECK(r != -1, "key %s is lost", show(x.first).c_str()); T.key(m, r, &k[0]); T.val(m, r, &v[0]); CHECK(k == x.first && v == x.second, "entry %s is wrong", show(x.first).c_str()); } };
    for (auto &o : ops) { S k = mkk((i64)(o.a % 40)), v = item(T.vsz, o.b);
      if (o.code < 55) { int64_t r = 0; if (attempt("insert", [&] { r = T.insert(m, k.data(), v.data()); return r != -1; }, same)) { M[k] = v; S k2(T.ksz, 0); T.key(m, r, &k2[0]); CHECK(k2 == k, "insert returned the position of another key"); } }
      else if (o.code < 75) { if (!M.count(k) && attempt("insert_nocheck", [&] { return T.insert_nocheck(m, k.data(), v.data()) != -1; }, same)) M[k] = v; }
      else if (o.code < 85) { auto x = M.lower_bound(k); if (x != M.end()) { T.del_find(m, x->first.data()); M.erase(x); } }
      else if (o.code < 92) { int64_t r = T.find(m, k.data()); CHECK((r != -1) == (M.count(k) > 0), "find"); if (r != -1) { T.setval(m, r, v.data()); M[k] = v; } }
      else CHECK(!!T.contains(m, k.data()) == (M.count(k) > 0), "contains");
      same(); }
    T.fini(m, 0, 0); });
}
static void t_hash() {
  if (draw(1)) { u32 nb = 1 + (u32)sizeish(40), ds = 1 + (u32)sizeish(40); auto ops = gops(25, 120); note("hashlist with %u buckets, values of %u bytes, %zu additions", nb, ds, ops.size());
    every([&] { hashlist *h = 0; if (!attempt("hashlist_new", [&] { return (h = hashlist_new(nb, ds)); }, noop)) return; std::map<u32, std::vector<S>> M;
      auto same = [&] { for (u32 b = 0; b < nb; b++) { sblist *l = hashlist_get(h, b); auto f = M.find(b); size_t want = f == M.end() ? 0 : f->second.size(); CHECK((l ? sblist_getsize(l) : 0) == want, "bucket %u has %zu values, expected %zu", b, l ? sblist_getsize(l) : 0, want); for (size_t i = 0; i < want; i++) CHECK(!memcmp(sblist_get(l, i), f->second[i].data(), ds), "value is wrong"); }
        hashlist_iterator it; hashlist_iterator_init(&it); size_t c = 0, w = 0; while (hashlist_next(h, &it) && c < 1000) c++; for (auto &x : M) w += x.second.size(); CHECK(c == w, "iteration visits %zu of %zu values", c, w); };
      for (auto &o : ops) { S x = item(ds, o.b); Buf b(x); u32 hv = (u32)o.a; if (attempt("hashlist_add", [&] { int r = hashlist_add(h, hv, b.p); CHECK(r == 0 || r == -1, "hashlist_add returned %d", r); return r == 0; }, same)) M[hv % nb].push_back(x); same(); }
      hashlist_free(h); }); }
  else { size_t blk = sizeish(6); auto ops = gops(20, 80); std::vector<S> ks; for (auto &o : ops) ks.push_back(item(o.a % 4, o.b % 9)); note("kvlist block %zu, %zu additions", blk, ops.size());
    every([&] { sblist *l = 0; if (!attempt("kv_new", [&] { return (l = kvs_new(blk)); }, noop)) return; std::vector<std::pair<S *, void *>> M;
      auto same = [&] { CHECK(kvs_size(l) == M.size(), "list has %zu entries, expected %zu", kvs_size(l), M.size()); for (size_t i = 0; i < M.size(); i++) { void *v = 0, *w = 0; for (auto &y : M) if (*y.first == *M[i].first) { w = y.second; break; } CHECK(kvs_find(l, (char *)M[i].first->data(), M[i].first->size(), &v) && v == w, "key is lost or has another value"); } };
      for (size_t i = 0; i < ops.size(); i++) { void *v = &ops[i]; if (attempt("kv_add", [&] { return !!kvs_add(l, (char *)ks[i].data(), ks[i].size(), v); }, same)) M.push_back({&ks[i], v}); same(); }
      kvs_free(l); }); }
}
static bool is(stringptr *s, const S &w) { return s->size == w.size() && !memcmp(s->ptr, w.data(), w.size()) && !s->ptr[s->size]; }
static void t_string() {
  S a = gbytes(sizeish(200)), b = gbytes(sizeish(60)), f = S(scratch()) + "/c31.txt"; int fd = open(f.c_str(), O_CREAT | O_TRUNC | O_WRONLY | O_CLOEXEC, 0644); S fc = a + "x"; if (fd < 0 || write(fd, fc.data(), fc.size()) != (ssize_t)fc.size()) { if (fd >= 0) close(fd); return; } close(fd); S cs; for (char c : a) if (c) cs += c; size_t dn = draw(cs.size());
  note("strings of %zu and %zu bytes", a.size(), b.size()); Buf ab(a), bb(b), cb(cs, true); stringptr as = {ab.p, a.size()}, bs = {bb.p, b.size()};
  every([&] {
    auto same = [&] { CHECK(as.ptr == ab.p && as.size == a.size() && ab.str() == a && bs.size == b.size() && bb.str() == b, "a source string was changed"); };
    stringptr *r = 0; char *c = 0;
    if (attempt("stringptr_new", [&] { return (r = stringptr_new(a.size())); }, same)) { CHECK(r->size == a.size() && !r->ptr[r->size], "new"); if (r->size) memset(r->ptr, 'x', r->size); stringptr_free(r); }
    if (attempt("stringptr_copy", [&] { return (r = stringptr_copy(&as)); }, same)) { CHECK(is(r, a), "copy differs"); stringptr_free(r); }
    if (attempt("stringptr_concat", [&] { return (r = stringptr_concat(&as, &bs, &as, (stringptr *)0)); }, same)) { CHECK(is(r, a + b + a), "concatenation differs"); stringptr_free(r); }
    if (attempt("stringptr_strdup", [&] { return (c = stringptr_strdup(&bs)); }, same)) { CHECK(!memcmp(c, b.data(), b.size()) && !c[b.size()], "strdup differs"); free(c); }
    char fmt[] = "%s=%d"; if (attempt("stringptr_format", [&] { return (r = stringptr_format(fmt, "value", 42)); }, same)) { CHECK(is(r, "value=42"), "format"); stringptr_free(r); }
    if (dn && attempt("strdup_n", [&] { return (c = strdup_n(cb.p, dn)); }, same)) { CHECK(S(c) == cs.substr(0, dn), "strdup_n"); free(c); }
    if (attempt("stringptr_fromfile", [&] { return (r = stringptr_fromfile((char *)f.c_str())); }, same)) { CHECK(is(r, fc), "file contents differ"); stringptr_free(r); }
    same(); });
}
static void t_strlist() {
  size_t blk = sizeish(6); auto ops = gops(12, 60); bool owned = chance(1, 2); std::vector<S> st; for (auto &o : ops) st.push_back(item(o.a % 9, o.b)); std::vector<Buf *> bufs; for (auto &s : st) bufs.push_back(new Buf(s, true)); note("string list block %zu, %s entries, %zu operations", blk, owned ? "duplicated" : "borrowed", ops.size());
  every([&] {
    sblist *l = 0; if (!attempt("stringptrlist_new", [&] { return (l = s_new(blk)); }, noop)) return; std::vector<S> M;
    auto same = [&] { CHECK(s_size(l) == M.size(), "list has %zu entries, expected %zu", s_size(l), M.size()); for (size_t i = 0; i < M.size(); i++) { stringptr *s = s_get(l, i); CHECK(s && s->size == M[i].size() && (!s->size || !memcmp(s->ptr, M[i].data(), s->size)), "entry %zu is wrong", i); } };
    for (size_t i = 0; i < ops.size(); i++) { auto &o = ops[i]; S &x = st[i]; stringptr sp = {bufs[i]->p, x.size()}; size_t pos = o.a % (M.size() + 1);
      if (o.code < 60) { if (owned ? attempt("stringptrlist_add_strdup", [&] { return !!stringptrlist_add_strdup(l, &sp); }, same) : attempt("stringptrlist_add", [&] { return !!s_add(l, sp.ptr, sp.size); }, same)) M.push_back(x); }
      else if (o.code < 70 && !owned) { if (attempt("stringptrlist_insert", [&] { return !!s_insert(l, pos, sp.ptr, sp.size); }, same)) M.insert(M.begin() + (long)pos, x); }
      else if (o.code < 85) { bool dos = o.code & 1; stringptr *r = 0; if (attempt("stringptrlist_tostring", [&] { return (r = dos ? stringptrlist_tostring_dos(l) : stringptrlist_tostring(l)); }, same)) { S w; for (auto &s : M) w += s + (dos ? "\r\n" : "\n"); CHECK(is(r, w), "joined text is wrong"); stringptr_free(r); } }
      else if (o.code < 95 && !owned && M.size()) { // dup_entries: copies everything, or reports the first entry it could not copy
        std::vector<char *> old; for (size_t j = 0; j < M.size(); j++) old.push_back(s_get(l, j)->ptr); int f0 = pa_fired(); ssize_t r = stringptrlist_dup_entries(l); CHECK(r >= -1 && r < (ssize_t)M.size(), "dup_entries returned %zd", r); CHECK(r == -1 || pa_fired() > f0, "dup_entries failed although no allocation failed"); if (r != -1) failures++; same();
        for (size_t j = 0; j < M.size(); j++) { char *p = s_get(l, j)->ptr; bool dup = r == -1 || j < (size_t)r; CHECK((p != old[j]) == dup, "entry %zu is%s duplicated although dup_entries returned %zd", j, dup ? " not" : "", r); if (dup) { CHECK(pa_is_live(p), "duplicate is not an allocation of its own"); s_get(l, j)->ptr = old[j]; free(p); } } }
      same(); }
    if (owned) stringptrlist_freeall(l); else s_free(l); });
  for (auto b : bufs) delete b;
}
static void t_split() {
  S t = gstr(sizeish(chance(1, 4) ? 200 : 40), "ab,"), d = gstr(draw(2), "a,"), w = gstr(draw(3), "xy"); bool chr = draw(1); int dc = ",ab"[draw(2)]; note("text %s delimiter %s", show(t).c_str(), chr ? S(1, (char)dc).c_str() : show(d).c_str());
  auto pieces = [](const S &t, const S &d) { std::vector<S> v; size_t p = 0; while (d.size()) { size_t q = t.find(d, p); if (q == S::npos) break; v.push_back(t.substr(p, q - p)); p = q + d.size(); } v.push_back(t.substr(p)); return v; };
  auto ps = pieces(t, chr ? S(1, (char)dc) : d), pr = pieces(t, d); S rep; for (size_t i = 0; i < pr.size(); i++) rep += (i ? w : S()) + pr[i]; if (ps.size() > 16) LABEL("split list grows");
  every([&] {
    { sblist *l = 0; Buf *b = 0; Buf db(d, true); stringptr ds = {db.p, d.size()}, s; if (attempt("split", [&] { delete b; b = new Buf(t, true); s = {b->p, t.size()}; return (l = chr ? stringptr_splitc(&s, dc) : stringptr_splits(&s, &ds)); }, [&] { CHECK(s.ptr == b->p && s.size == t.size() && db.str() == d + S(1, 0), "the strings themselves were changed"); })) {
        CHECK(s_size(l) == ps.size(), "split reports success with %zu pieces instead of %zu", s_size(l), ps.size()); for (size_t i = 0; i < ps.size(); i++) { stringptr *p = s_get(l, i); CHECK(p->size == ps[i].size() && !memcmp(p->ptr, ps[i].data(), p->size), "piece %zu is wrong", i); } s_free(l); } delete b; }
    { Buf *b = 0; Buf db(d, true), wb(w, true); stringptr ds = {db.p, d.size()}, ws = {wb.p, w.size()}, s, *r = 0; if (attempt("stringptr_replace", [&] { delete b; b = new Buf(t, true); s = {b->p, t.size()}; return (r = stringptr_replace(&s, &ds, &ws)); }, noop)) { CHECK(is(r, rep), "replace reports success with %s instead of %s", show(r->ptr, r->size).c_str(), show(rep).c_str()); stringptr_free(r); } delete b; } });
}
static void t_lines() {
  S fn = S(scratch()) + "/c31.lines", txt; std::vector<S> lines; while (more(8) && lines.size() < 60) { lines.push_back(gstr(sizeish(30), "abc ")); txt += lines.back() + "\n"; } int fd = open(fn.c_str(), O_CREAT | O_TRUNC | O_WRONLY | O_CLOEXEC, 0644); if (fd < 0) return; if (write(fd, txt.data(), txt.size()) != (ssize_t)txt.size()) { close(fd); return; } close(fd); size_t blk = sizeish(6), pre = draw(2); note("%zu lines, block %zu", lines.size(), blk); Buf keep(S("keep"), true);
  auto sl = [&] { sblist *l = 0; if (!attempt("stringlist_new", [&] { return (l = sl_new(blk)); }, noop)) return; size_t n = 0; std::vector<size_t> have; auto same = [&] { CHECK(sblist_getsize(l) == have.size(), "stringlist has %zu entries, expected %zu", sblist_getsize(l), have.size()); for (size_t i = 0; i < have.size(); i++) CHECK(lines[have[i]] == sl_get(l, i), "stringlist entry %zu is wrong", i); }; for (; n < lines.size(); n++) { if (attempt("stringlist_add_dup", [&] { return !!sl_add_dup(l, (char *)lines[n].c_str()); }, same)) have.push_back(n); same(); } sblist_free_values(l); sblist_free(l); };
  auto ff = [&] { sblist *l = 0; if (!attempt("stringptrlist_new", [&] { return (l = s_new(blk)); }, noop)) return; stringptr k = {keep.p, 4}; size_t pn = 0; for (size_t i = 0; i < pre; i++) if (attempt("stringptrlist_add_strdup", [&] { return !!stringptrlist_add_strdup(l, &k); }, noop)) pn++;
    int f0 = pa_fired(); int r = stringptrlist_fromfile(l, fn.c_str()); CHECK(r || pa_fired() > f0, "loading fails although no allocation failed"); if (!r) failures++; size_t n = s_size(l); CHECK(r ? n == pn + lines.size() : n >= pn && n <= pn + lines.size(), "loading %s, list has %zu entries, file has %zu lines", r ? "succeeded" : "failed", n, lines.size());
    for (size_t i = 0; i < n; i++) { stringptr *s = s_get(l, i); S w = i < pn ? "keep" : lines[i - pn]; CHECK(s->size == w.size() && !memcmp(s->ptr, w.data(), w.size()), "entry %zu is wrong after loading", i); } stringptrlist_freeall(l); };
  if (draw(1)) every(sl); else every(ff);
}
static void t_files() {
  S dir = S(scratch()) + "/c31d"; mkdir(dir.c_str(), 0755); size_t n = sizeish(24); for (size_t i = 0; i < n; i++) { S f = dir + "/f" + std::to_string(i); int fd = open(f.c_str(), O_CREAT | O_WRONLY | O_CLOEXEC, 0644); if (fd >= 0) close(fd); } int dot = draw(1), dd = draw(1), np = draw(1), hid = draw(1); note("%zu files%s%s%s%s", n, dot ? " DOT" : "", dd ? " DOTDOT" : "", np ? " EXCLUDE_PATH" : "", hid ? " HIDDEN" : "");
  Buf ab(dir), mb(S("f*")); stringptr as = {ab.p, dir.size()}, ms = {mb.p, 2}; size_t want = n ? n + (hid ? 0 : dot + dd) : 0;
  if (n) every([&] { void *l = fl_mk(); if (!l && persistent) return; if (!l) l = fl_mk(); long g0 = globs; size_t live = pa_live(); if (attempt("filelist_search", [&] { return fl_search(l, &as, &ms, dot, dd, np, hid) == 0; }, [&] { CHECK(globs == g0, "failed search keeps the directory listing"); CHECK(pa_live() == live, "failed search keeps memory"); })) { CHECK(fl_size(l) == want, "search reports success with %zu entries instead of %zu", fl_size(l), want); fl_free(l); CHECK(globs == g0, "directory listing not released"); } free(l); });
  for (size_t i = 0; i < n; i++) unlink((dir + "/f" + std::to_string(i)).c_str()); rmdir(dir.c_str());
}
// lists and maps that own heap memory: what a failed call did not take over stays the caller's, everything else is released with the container
static void *must(size_t n) { void *p; do p = malloc(n); while (!p && !persistent); if (p) memset(p, 'v', n); return p; }
static void t_owned() {
  if (draw(1)) { int k = 0, tg = -1, tgi = -1; for (k = 0; k < c03_n; k++) { if (!strcmp(c03_tbl[k].name, "tglist<pt>")) tg = k; if (!strcmp(c03_tbl[k].name, "tgilist<pt>")) tgi = k; }
    const c03_ops &T = c03_tbl[draw(1) ? tgi : tg]; auto ops = gops(20, 100); note("%s of heap blocks, %zu operations", T.name, ops.size()); if (!ops.size()) ops.push_back({0, 0, 1});
    every([&] { std::vector<void *> M; void *l = 0; if (!attempt("creation", [&] { return (l = T.mk(0)); }, noop)) return;
      auto same = [&] { CHECK(T.size(l) == M.size(), "list has %zu items, expected %zu", T.size(l), M.size()); for (size_t i = 0; i < M.size(); i++) { void *g; T.get(l, i, &g); CHECK(g == M[i], "item %zu is wrong", i); } };
      for (auto &o : ops) { size_t pos = o.a % (M.size() + 1);
        if (o.code < 85) { void *x = must(1 + o.b % 40); if (!x) break; bool ins = o.code >= 35; if (attempt(ins ? "insert" : "add", [&] { return ins ? !!T.ins(l, &x, pos) : !!T.add(l, &x); }, same)) M.insert(M.begin() + (long)(ins ? pos : M.size()), x); else free(x); }
        else if (!M.empty()) { pos %= M.size(); T.del(l, pos); if (!T.indexed) free(M[pos]); M.erase(M.begin() + (long)pos); }
        same(); }
      T.free_values(l); T.fr(l, 0); }); return; }
  bool tgi = draw(1); const c06_ops *t = tgi ? c06_tbl1 : c06_tbl0; int cnt = tgi ? c06_n1 : c06_n0; std::vector<int> idx; for (int i = 0; i < cnt; i++) if (t[i].ptrs) idx.push_back(i);
  const c06_ops &T = t[oneof(idx)]; int hf = (int)draw(5); auto ops = gops(20, 80); note("%s%s of heap strings, hash %d, %zu operations", T.name, tgi ? " (tgilist values)" : "", hf, ops.size());
  every([&] { std::map<S, std::pair<char *, char *>> M; void *m = 0; if (!attempt("creation", [&] { return (m = T.mk(0, hf)); }, noop)) return;
    auto same = [&] { CHECK(T.size(m) == M.size(), "map has %zu entries, expected %zu", T.size(m), M.size()); for (auto &x : M) { char probe[8], *pp = probe, *v = 0; strcpy(probe, x.first.c_str()); CHECK(T.get(m, &pp, &v) && v == x.second.second, "entry %s is wrong", x.first.c_str()); } };
    for (auto &o : ops) { static const char *K[] = {"", "a", "b", "ab", "ba", "aab", "abb", "bb"}; S k = K[o.a % 8]; auto f = M.find(k);
      if (o.code < 75) { char *v = (char *)must(6); if (!v) break; if (f != M.end()) { char *c = f->second.first; CHECK(T.insert(m, &c, &v) != -1, "overwriting"); free(f->second.second); f->second.second = v; continue; }
        char *c = (char *)must(k.size() + 1); if (!c) { free(v); break; } strcpy(c, k.c_str()); bool nc = o.code < 25; if (attempt("insert", [&] { return (nc ? T.insert_nocheck(m, &c, &v) : T.insert(m, &c, &v)) != -1; }, same)) M[k] = {c, v}; else { free(c); free(v); } }
      else if (f != M.end() && !tgi) { char *c = f->second.first; T.del_find(m, &c); free(c); free(f->second.second); M.erase(f); }
      same(); }
    T.fini(m, 0, 3); });
}
Check the_check = {"C31", "generated histories, each run once without faults and then once per allocation with exactly that allocation failing (all points up to 48 allocations, 48 of them beyond) and with all allocations failing from drawn points; truthfulness of results, contents, retry and leaks judged against a model; non-trivial: at least two of the runs had an operation that reported a failed allocation",
  {{"sblist", t_sblist, 9000, 150000, LEAK}, {"tlist", t_tlist, 9000, 150000, LEAK}, {"tglist", t_tglist, 12000, 200000, LEAK}, {"map", t_map, 10000, 200000, LEAK}, {"owned", t_owned, 9000, 150000, LEAK}, {"hash", t_hash, 7000, 120000, LEAK}, {"string", t_string, 7000, 120000, LEAK | FDS}, {"strlist", t_strlist, 9000, 150000, LEAK}, {"split", t_split, 16000, 300000, LEAK}, {"lines", t_lines, 5000, 80000, LEAK | FDS}, {"files", t_files, 2500, 40000, LEAK | FDS}}};
