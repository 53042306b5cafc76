// C01: sblist / sptrlist / stringlist against a vector model
#include "pbt.hpp"
#include <algorithm>
#include <map>
#include <sys/types.h>
#include "sblist.h"
extern "C" {
sblist *sp_new(size_t); void sp_init(sblist *, size_t); int sp_add(sblist *, void *); int sp_set(sblist *, void *, size_t); void *sp_get(sblist *, size_t); size_t sp_count(sblist *); void sp_free_items(sblist *); void sp_free(sblist *);
sblist *sl_new(size_t); int sl_add(sblist *, char *); int sl_add_dup(sblist *, char *); char *sl_get(sblist *, size_t); size_t sl_size(sblist *); void sl_delete(sblist *, size_t); void sl_free(sblist *); size_t sl_foreach(sblist *, char **, size_t); size_t sl_iter(sblist *, char **, size_t);
}
typedef std::vector<std::string> Model;
static size_t cmpsize;
static int cmp(const void *a, const void *b) { return memcmp(a, b, cmpsize); }

static std::string item(size_t isz) {
  std::string s(isz, 0);
  if (isz <= 4 && chance(1, 2)) { for (auto &c : s) c = (char)draw(255); return s; }
  u64 k = draw(chance(1, 3) ? 5 : 100000); gfill(&s[0], isz, k * 77 + 1); return s;
}
static void verify_ends(sblist *l, const Model &m, size_t isz) {
  CHECK(sblist_getsize(l) == m.size() && sblist_get_count(l) == m.size(), "size is %zu, expected %zu", sblist_getsize(l), m.size());
  CHECK(!!sblist_empty(l) == m.empty(), "sblist_empty is %d with %zu items", sblist_empty(l), m.size());
}
static void verify(sblist *l, const Model &m, size_t isz) {
  verify_ends(l, m, isz);
  for (size_t i = 0; i < m.size(); i++) {
    void *p = sblist_get(l, i); CHECK(p, "get(%zu) is NULL, size %zu", i, m.size());
    CHECK(!memcmp(p, m[i].data(), isz), "item %zu is %s, expected %s", i, show(p, isz, 24).c_str(), show(m[i], 24).c_str());
  }
  for (size_t i : {m.size(), m.size() + 1, (size_t)-1, (size_t)1 << 32, ((size_t)-1) / isz + 1, (size_t)1 << 63}) if (i >= m.size()) CHECK(!sblist_get(l, i), "get(%zu) is not NULL, size %zu", i, m.size());
}
static void verify_iter(sblist *l, const Model &m, size_t isz) {
  void *p; size_t n = 0;
  sblist_iter(l, p) { CHECK(n < m.size() && !memcmp(p, m[n].data(), isz), "sblist_iter: step %zu of %zu wrong", n, m.size()); n++; }
  CHECK(n == m.size(), "sblist_iter visited %zu of %zu", n, m.size()); n = 0;
  sblist_iter_counter(l, it, p) { CHECK(it == n && n < m.size() && !memcmp(p, m[n].data(), isz), "sblist_iter_counter: step %zu wrong", n); n++; }
  CHECK(n == m.size(), "sblist_iter_counter visited %zu of %zu", n, m.size()); n = 0;
  size_t it2; sblist_iter_counter2(l, it2, p) { CHECK(n < m.size() && !memcmp(p, m[n].data(), isz), "sblist_iter_counter2: step %zu wrong", n); n++; }
  CHECK(n == m.size() && it2 == n, "sblist_iter_counter2 visited %zu of %zu", n, m.size());
  for (size_t i = 0; i < m.size(); i++) CHECK((void *)sblist_item_from_index(l, i) == sblist_get(l, i), "item_from_index(%zu) differs from get", i);
}
static size_t outside(size_t n) { // an index >= n
  switch (draw(5)) { case 0: return n; case 1: return n + 1; case 2: return n + draw(5000); case 3: return (size_t)-1 - draw(3); case 4: return ((size_t)1 << 32) + n; default: return ((size_t)1 << 63) + draw(2); }
}
static size_t gen_isz() { switch (weighted({6, 4, 3, 2, 1})) { case 0: return 1 + draw(15); case 1: return oneof<size_t>({16, 24, 32, 40, 48, 64, 100}); case 2: return oneof<size_t>({127, 128, 200, 255, 256, 257, 300, 511, 512, 513, 1023, 1024, 1025}); case 3: return oneof<size_t>({2047, 2048, 2049, 4095, 4096, 4097, 5000, 8192}); default: return 1 + draw(20000); } }
static size_t gen_block() { switch (weighted({3, 3, 2, 1})) { case 0: return draw(4); case 1: return 0; case 2: return oneof<size_t>({5, 7, 8, 9, 15, 16, 17, 32, 64}); default: return 65 + draw(2000); } }

// one operation; returns name
static void step(sblist *&l, Model &m, size_t isz, bool &dyn, size_t maxn) {
  size_t n = m.size(); Buf b(item(isz));
  switch (weighted({14, 8, 10, 6, 8, 5, 2, 1, 6, 2, 1, 1})) {
  case 0: note("add"); if (n >= maxn) break; CHECK(sblist_add(l, b) == 1, "add returned failure"); m.push_back(b.str()); break;
  case 1: { note("addi"); if (n >= maxn) break; size_t r = sblist_addi(l, b); CHECK(r == n, "addi returned %zu, expected %zu", r, n); m.push_back(b.str()); break; }
  case 2: { if (n >= maxn) break; size_t p = chance(1, 4) ? n : chance(1, 4) ? 0 : draw(n); note("insert@%zu", p); CHECK(sblist_insert(l, b, p) == 1, "insert at %zu of %zu failed", p, n); m.insert(m.begin() + p, b.str()); if (p < n) LABEL("insert-middle"); break; }
  case 3: { if (!n) break; size_t p = draw(n - 1); note("set@%zu", p); CHECK(sblist_set(l, b, p) == 1, "set at %zu of %zu failed", p, n); m[p] = b.str(); break; }
  case 4: { if (!n) break; size_t p = chance(1, 4) ? n - 1 : chance(1, 4) ? 0 : draw(n - 1); note("delete@%zu", p); sblist_delete(l, p); m.erase(m.begin() + p); LABEL("delete"); break; }
  case 5: { note("pop"); void *p = sblist_pop(l); if (!n) { CHECK(!p, "pop of an empty list is not NULL"); LABEL("pop-empty"); } else { CHECK(p && !memcmp(p, m.back().data(), isz), "pop returned a wrong item"); m.pop_back(); } break; }
  case 6: { cmpsize = 1 + draw(isz - 1); note("sort on %zu bytes", cmpsize); sblist_sort(l, cmp);
    Model a; for (size_t i = 0; i < n; i++) { void *p = sblist_get(l, i); CHECK(p, "get after sort"); a.emplace_back((char *)p, isz); if (i) CHECK(cmp(a[i - 1].data(), a[i].data()) <= 0, "not sorted at %zu", i); }
    Model x = a, y = m; std::sort(x.begin(), x.end()); std::sort(y.begin(), y.end()); CHECK(x == y, "sort changed the items"); m = a; if (n > 1) LABEL("sort"); break; }
  case 7: note("free_items"); sblist_free_items(l); m.clear(); LABEL("free-items-reuse"); break;
  case 8: { size_t p = outside(n); note("out-of-range %zu", p); LABEL("out-of-range");
    switch (draw(3)) { case 0: CHECK(sblist_set(l, b, p) == 0, "set at %zu of %zu did not fail", p, n); break; case 1: sblist_delete(l, p); break; case 2: CHECK(!sblist_get(l, p), "get %zu of %zu", p, n); break; default: if (p > n) { CHECK(sblist_insert(l, b, p) == 0, "insert at %zu of %zu did not fail", p, n); } } break; }
  case 9: { note("set_blockitems"); size_t bi = gen_block(); sblist_set_blockitems(l, bi); break; }
  case 10: { note("grow_if_needed"); CHECK(sblist_grow_if_needed(l) == 1, "grow failed"); break; }
  default: { note("filter"); ssize_t it; void *p; size_t k = 0; unsigned mod = 2 + (unsigned)draw(2); sblist_iter_counter2s(l, it, p) { u8 c = *(u8 *)p; if (c % mod == 0) { sblist_delete(l, (size_t)it); it--; } CHECK(k++ <= n, "iteration with deletion does not end"); }
    Model r; for (auto &s : m) if ((u8)s[0] % mod) r.push_back(s); if (r.size() < m.size()) LABEL("filter-delete"); m = r; }
  }
}
static sblist *make(size_t isz, size_t bi, bool dyn) { if (dyn) { sblist *l = sblist_new(isz, bi); CHECK(l, "sblist_new failed"); return l; } sblist *l = new sblist; memset(l, 0x5a, sizeof *l); sblist_init(l, isz, bi); return l; }
static void unmake(sblist *l, bool dyn) { if (dyn) sblist_free(l); else { sblist_free_items(l); CHECK(sblist_getsize(l) == 0, "size after free_items"); delete l; } }

static void history() {
  size_t isz = gen_isz(), bi = gen_block(); bool dyn = draw(1); note("itemsize %zu blockitems %zu %s", isz, bi, dyn ? "new" : "init");
  size_t cap = isz > 1000 ? 24 : 400; sblist *l = make(isz, bi, dyn); Model m; size_t ops = 0, peak = 0; unsigned avg = chance(1, 6) ? 150 : 25;
  while (more(avg) && ops < 500) { step(l, m, isz, dyn, cap); ops++; peak = std::max(peak, m.size()); if (m.size() < 40 || ops % 8 == 0) verify(l, m, isz); else verify_ends(l, m, isz); }
  verify(l, m, isz); verify_iter(l, m, isz); if (chance(1, 8)) sblist_free(0), sblist_free_items(0);
  unmake(l, dyn); if (ops >= 4 && peak >= 2) nontrivial(); if (bi && peak > bi) LABEL("grown-beyond-block"); if (!bi && peak * isz > 4096) LABEL("grown-beyond-page"); if (isz > 4096) LABEL("item>page");
}
// many items: sizes around the growth steps and beyond 64Ki items, checked at checkpoints
static void bulk() {
  size_t isz = oneof<size_t>({1, 2, 3, 4, 8, 12, 16, 24, 33}), bi = gen_block(); if (bi == 1 || bi == 2) bi = 3;
  size_t n = chance(1, 3) ? 60000 + draw(10000) : 200 + draw(20000); if (bi && bi < 16) n = std::min<size_t>(n, 70000);
  note("itemsize %zu blockitems %zu n %zu", isz, bi, n); sblist *l = make(isz, bi, true); std::vector<char> m; std::vector<char> tmp(isz); u64 seed = draw(1 << 30); Buf b(isz);
  auto ins = [&](size_t pos, u64 v) { gfill(b.p, isz, v); CHECK(sblist_insert(l, b, pos) == 1, "insert failed"); m.insert(m.begin() + pos * isz, b.p, b.p + isz); };
  auto full = [&] { CHECK(sblist_getsize(l) * isz == m.size(), "size is %zu, expected %zu", sblist_getsize(l), m.size() / isz); for (size_t i = 0; i < m.size() / isz; i++) { void *p = sblist_get(l, i); CHECK(p && !memcmp(p, &m[i * isz], isz), "item %zu of %zu wrong", i, m.size() / isz); } CHECK(!sblist_get(l, m.size() / isz), "get past the end"); };
  m.reserve((n + 3000) * isz);
  for (size_t i = 0; i < n; i++) { gfill(b.p, isz, seed + i); if (i % 3 == 2) { CHECK(sblist_addi(l, b) == i, "addi index"); } else CHECK(sblist_add(l, b) == 1, "add failed"); m.insert(m.end(), b.p, b.p + isz); if ((i & (i + 1)) == 0 || i % 5000 == 0) full(); }
  full();
  size_t k = draw(60); for (size_t i = 0; i < k; i++) { size_t c = m.size() / isz; size_t pos; switch (draw(3)) { case 0: pos = draw(c - 1); break; case 1: pos = std::min<size_t>(c - 1, (size_t)(65536 + range(-3, 3))); break; case 2: pos = std::min<size_t>(c - 1, (size_t)(32768 + range(-2, 2))); break; default: pos = std::min<size_t>(c - 1, 255 + draw(3)); }
    if (chance(1, 2)) { sblist_delete(l, pos); m.erase(m.begin() + pos * isz, m.begin() + (pos + 1) * isz); } else ins(pos, seed * 3 + i); if (i % 8 == 0) full(); }
  full(); sblist_free(l); nontrivial(); if (n > 65536) LABEL("more-than-64Ki-items");
}
static void fromdata() {
  size_t isz = gen_isz(); size_t cnt = isz > 1000 ? draw(4) : sizeish(300); size_t extra = chance(1, 3) ? draw(isz - 1) : 0; size_t dl = cnt * isz + extra;
  char *d = (char *)malloc(dl ? dl : 1); gfill(d, dl, draw(1000)); note("itemsize %zu datalen %zu", isz, dl);
  Model m; for (size_t i = 0; i < cnt; i++) m.emplace_back(d + i * isz, isz);
  bool ro = chance(1, 5); sblist *l = sblist_new_from_data(isz, d, dl); CHECK(l, "new_from_data failed"); verify(l, m, isz); verify_iter(l, m, isz);
  if (ro) { LABEL("from-data-readonly"); } else { if (chance(1, 3)) { size_t bi = gen_block(); sblist_set_blockitems(l, bi); note("blockitems %zu", bi); } size_t ops = 0; bool dyn = true; while (more(20) && ops++ < 200) { step(l, m, isz, dyn, cnt + (isz > 1000 ? 24 : 400)); if (m.size() < 64 || ops % 8 == 0) verify(l, m, isz); } verify(l, m, isz); verify_iter(l, m, isz); if (m.size() > cnt) LABEL("from-data-grown"); }
  nontrivial(); sblist_free(l);
}
static void pointers() {
  int kind = (int)draw(1); size_t bi = gen_block(); bool dyn = draw(1); sblist *l; note("%s block %zu", kind ? "stringlist" : "sptrlist", bi);
  if (kind) l = sl_new(bi), dyn = true; else if (dyn) l = sp_new(bi); else { l = new sblist; sp_init(l, bi); }
  CHECK(l, "new failed"); std::vector<std::string> m; std::vector<char *> ptr; size_t ops = 0;
  while (more(25) && ops++ < 300) {
    std::string s = chance(1, 3) ? gstr(sizeish(40), "ab\xff z") : gstr(draw(8), "abc"); size_t n = m.size();
    switch (weighted({5, 4, 2, 2, 1})) {
    case 0: { char *c = strdup(s.c_str()); CHECK((kind ? sl_add(l, c) : sp_add(l, c)) == 1, "add failed"); note("add %s", show(s).c_str()); m.push_back(s); ptr.push_back(c); break; }
    case 1: if (kind) { Buf b(s, true); CHECK(sl_add_dup(l, b) == 1, "add_dup failed"); note("add_dup %s", show(s).c_str()); char *c = sl_get(l, n); CHECK(c && c != b.p, "add_dup stored the caller's pointer"); m.push_back(s); ptr.push_back(c); } else if (n) { size_t p = draw(n - 1); char *c = strdup(s.c_str()); CHECK(sp_set(l, c, p) == 1, "set failed"); free(ptr[p]); ptr[p] = c; m[p] = s; note("set@%zu", p); } break;
    case 2: if (n) { size_t p = draw(n - 1); note("delete@%zu", p); char *c = ptr[p]; if (kind) sl_delete(l, p); else sblist_delete(l, p); free(c); ptr.erase(ptr.begin() + p); m.erase(m.begin() + p); LABEL("pointer-delete"); } break;
    case 3: if (kind) { std::vector<char *> o(n + 1); size_t k = sl_foreach(l, o.data(), n); CHECK(k == n, "stringlist_foreach visited %zu of %zu", k, n); o.resize(n); CHECK(o == ptr, "stringlist_foreach order"); k = sl_iter(l, o.data(), n); CHECK(k == n && o == ptr, "stringlist_iter"); } break;
    default: { void *x = sblist_pop(l); if (!n) CHECK(!x, "pop"); else { CHECK(x && *(char **)x == ptr.back(), "pop returned the wrong pointer"); free(ptr.back()); ptr.pop_back(); m.pop_back(); } }
    }
    CHECK(sp_count(l) == m.size() && (!kind || sl_size(l) == m.size()), "count"); for (size_t i = 0; i < m.size(); i++) { char *c = (char *)(kind ? sl_get(l, i) : sp_get(l, i)); CHECK(c == ptr[i] && m[i] == c, "entry %zu wrong", i); }
    if (kind) CHECK(!sl_get(l, m.size()) && !sl_get(l, (size_t)-1), "stringlist_get outside is not NULL");
  }
  if (ops > 2) nontrivial();
  size_t before = pa_live(); sblist_free_values(l); CHECK(pa_live() + m.size() == before, "sblist_free_values released %zu blocks, list holds %zu pointers", before - pa_live(), m.size()); LABEL("free-values");
  if (kind) sl_free(l); else if (dyn) sp_free(l); else { sp_free_items(l); delete l; }
}
// more than 2^32 bytes or items: the list is all zero except for a few marked bytes, the model keeps only those
static void huge() {
  u64 i = case_index(); size_t isz = i % 3 == 0 ? 1 : i % 3 == 1 ? (i < 3 ? 1u << 30 : 1u << 28) + 3 : 9, n = ((5ull << 30) + 99 - (i >= 3 ? 2816ull << 20 : 0)) / isz; pa_limit = 16ull << 30; nontrivial(); note("itemsize %zu, %zu items", isz, n);
  char *d = (char *)calloc(n, isz); CHECK(d, "harness: memory"); std::map<size_t, char> m; auto mark = [&](size_t k, char c) { if (k < n) d[k * isz + isz - 1] = c, m[k] = c; };
  mark(0, 1); mark(2, 2); mark((1u << 31) + 1, 3); mark((1ull << 32) - 1, 4); mark((1ull << 32) + 5, 5); mark(n - 3, 6); mark(n - 1, 7);
  sblist *l = sblist_new_from_data(isz, d, n * isz); CHECK(l, "new_from_data"); sblist_set_blockitems(l, isz > 1000 ? 1 : 1000); Huge it(isz);
  auto look = [&](const char *w) { CHECK(sblist_getsize(l) == n, "%s: size is %zu, expected %zu", w, sblist_getsize(l), n); std::vector<size_t> ks = {1, n / 2, 1ull << 31, 1ull << 32, n - 2}; for (auto &x : m) ks.push_back(x.first); for (size_t k : ks) if (k < n) { char *p = (char *)sblist_get(l, k), c = m.count(k) ? m[k] : 0; CHECK(p && p[isz - 1] == c, "%s: item %zu of %zu is %d, expected %d", w, k, n, p ? p[isz - 1] : -1, c); } CHECK(!sblist_get(l, n), "%s: get beyond the end", w); };
  auto del = [&](size_t k) { sblist_delete(l, k); std::map<size_t, char> r; for (auto &x : m) if (x.first != k) r[x.first - (x.first > k)] = x.second; m = r; n--; };
  look("from_data"); { size_t k = n - 2; it.p[isz - 1] = 9; CHECK(sblist_set(l, it.p, k), "set at %zu", k); m[k] = 9; look("set"); k = std::min<size_t>(n / 2, (1ull << 32) + 1); del(k); look("delete"); }
  CHECK(!sblist_set(l, it.p, n) && !sblist_insert(l, it.p, n + 1), "an index beyond the end is accepted"); { char *p = (char *)sblist_pop(l); CHECK(p && p[isz - 1] == (m.count(n - 1) ? m[n - 1] : 0), "pop"); m.erase(n - 1); n--; look("pop"); }
  del(0); look("delete of the first"); { it.p[isz - 1] = 8; size_t k = std::min<size_t>(n - 1, (1ull << 32) + 7); CHECK(sblist_insert(l, it.p, k) == 1, "insert at %zu", k); std::map<size_t, char> r; for (auto &x : m) r[x.first + (x.first >= k)] = x.second; r[k] = 8; m = r; n++; look("insert"); }
  for (int q = 0; q < 2; q++) { it.p[isz - 1] = (char)(10 + q); CHECK(sblist_addi(l, it.p) == n, "addi does not return %zu", n); m[n] = (char)(10 + q); n++; } look("add"); sblist_free(l); pa_limit = 3ull << 30;
}
Check the_check = {"C01", "random operation histories (choice sequences) over random item/block sizes, each compared with a std::vector model after every step; non-trivial: at least 4 operations with a peak of at least 2 items (bulk, from-data: always; pointers: more than 2 operations)",
  {{"huge", huge, 3, 6, ENUM | SOLO | SLOW | LEAK}, {"history", history, 100000, 3000000, LEAK | FUZZ}, {"from_data", fromdata, 40000, 800000, LEAK | FUZZ}, {"pointers", pointers, 40000, 800000, LEAK | FUZZ}, {"bulk", bulk, 240, 8000, LEAK}}};
