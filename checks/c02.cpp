// C02: sorted insertion and binary search against an ideal sorted sequence
#include "pbt.hpp"
#include <algorithm>
#include <cmath>
#include "sblist.h"
#define T(N) extern "C" { void *tgs_##N##_new(void); size_t tgs_##N##_ins(void *, void *, int (*)(const void *, const void *)); size_t tgs_##N##_size(void *); void *tgs_##N##_at(void *, size_t); void tgs_##N##_sort(void *, int (*)(const void *, const void *)); void tgs_##N##_free(void *); }
T(i32) T(i64) T(r20) T(r70k)

// items: first 4 bytes = key (int), rest = tag bytes. Comparison by a key transform.
static size_t isz; static int dir, shiftk; static const void *needle; static bool searching; static const char *lo_p, *hi_p; static u64 ncmp; static const char *cberr; static void *wantctx; static const void *curneedle_copy;
static int keyof(const void *p) { int k = 0; memcpy(&k, p, std::min<size_t>(4, isz)); return k; }
static int order(int a, int b) { a >>= shiftk; b >>= shiftk; int r = a < b ? -1 : a > b; r = dir ? -r : r; return r; }
static int amp = 1;
static int cmp2(const void *a, const void *b) {
  ncmp++;
  if (searching) {
    if (needle ? a != needle : memcmp(a, curneedle_copy, isz)) cberr = "first argument of the comparison is not the searched-for item";
    if ((const char *)b < lo_p || (const char *)b >= hi_p || ((const char *)b - lo_p) % isz) { cberr = "second argument of the comparison is not a list item"; return 0; }
  }
  int r = order(keyof(a), keyof(b)); if (amp == 0) { i64 d = (i64)(keyof(a) >> shiftk) - (keyof(b) >> shiftk); if (dir) d = -d; return d == 0 ? 0 : (d > 2147483647 || d < -2147483647 - 1) ? r : (int)d; } // plain difference
  if (amp < 0) return r < 0 ? -2147483647 - 1 : r ? 2147483647 : 0;
  return r * amp;
}
static int cmp3(const void *a, const void *b, void *ctx) { if (ctx != wantctx) cberr = "context pointer was not passed through"; return cmp2(a, b); }
static void bound(u64 n, const char *what) { u64 lim = 2 * (u64)(n ? std::ceil(std::log2((double)n + 1)) : 0) + 4; CHECK(ncmp <= lim, "%s made %llu comparisons on %llu items (limit %llu)", what, (unsigned long long)ncmp, (unsigned long long)n, (unsigned long long)lim); }
typedef std::vector<std::string> V;

struct Ops { int kind; void *h; sblist *s;
  size_t size() { return kind == 0 ? sblist_getsize(s) : kind == 1 ? tgs_i32_size(h) : kind == 2 ? tgs_i64_size(h) : kind == 4 ? tgs_r70k_size(h) : tgs_r20_size(h); }
  char *at(size_t i) { return (char *)(kind == 0 ? sblist_get(s, i) : kind == 1 ? tgs_i32_at(h, i) : kind == 2 ? tgs_i64_at(h, i) : kind == 4 ? tgs_r70k_at(h, i) : tgs_r20_at(h, i)); }
  size_t ins(void *p, int variant, void *ctx) { if (kind == 0) return variant ? sblist_insert_sorted_r(s, p, cmp3, ctx) : sblist_insert_sorted(s, p, cmp2); return kind == 1 ? tgs_i32_ins(h, p, cmp2) : kind == 2 ? tgs_i64_ins(h, p, cmp2) : kind == 4 ? tgs_r70k_ins(h, p, cmp2) : tgs_r20_ins(h, p, cmp2); }
  void srt() { if (kind == 0) sblist_sort(s, cmp2); else if (kind == 1) tgs_i32_sort(h, cmp2); else if (kind == 2) tgs_i64_sort(h, cmp2); else if (kind == 4) tgs_r70k_sort(h, cmp2); else tgs_r20_sort(h, cmp2); }
};
static void run(size_t maxn, bool big) {
  Ops o; o.kind = chance(1, 200) ? 4 : (int)weighted({4, 1, 1, 1}); if (o.kind == 4) maxn = 12, big = false; o.s = 0; o.h = 0; isz = o.kind == 0 ? oneof<size_t>({1, 2, 4, 5, 8, 12, 16, 33, 100}) : o.kind == 1 ? 4 : o.kind == 2 ? 8 : o.kind == 4 ? 70000 : 20;
  dir = (int)draw(1); shiftk = (int)oneof<size_t>({0, 0, 1, 3}); amp = oneof<int>({1, 1, 7, 1000000, 256, 65536, 1 << 30, 0, 0, -1}); searching = false; cberr = 0; size_t bi = oneof<size_t>({0, 1, 3, 8, 64}); if (big) bi = 64;
  if (o.kind == 0) o.s = sblist_new(isz, bi); else o.h = o.kind == 1 ? tgs_i32_new() : o.kind == 2 ? tgs_i64_new() : o.kind == 4 ? tgs_r70k_new() : tgs_r20_new();
  note("%s itemsize %zu dir %d shift %d", o.kind == 0 ? "sblist" : "tglist", isz, dir, shiftk);
  int pattern = (int)draw(5); i64 span = oneof<i64>({1, 3, 10, 100, 100000, 2000000000}); if (isz == 1) span = std::min<i64>(span, 100); if (isz == 2) span = std::min<i64>(span, 30000);
  std::vector<std::string> model; u64 seedbase = big ? draw(1 << 30) : 0; size_t n = 0, dups = 0; size_t target = big ? 1000 + draw(maxn - 1000) : maxn; static char ctxobj; wantctx = &ctxobj; int variant = (int)draw(1);
  auto key = [&](size_t i) -> i64 { switch (pattern) { case 0: case 5: if (big) { u64 r; u64 x = seedbase + i; gfill(&r, 8, x); return (i64)(r % (u64)(2 * span + 1)) - span; } return range(0, 2 * span) - span; case 1: return std::min<i64>(i, span); case 2: return -std::min<i64>(i, span); case 3: return (i % 2 ? 1 : -1) * std::min<i64>((i64)i / 2, span); default: return (i64)(i * 7919 % 101) % (span + 1); } };
  auto less = [&](const std::string &a, const std::string &b) { return order(keyof(a.data()), keyof(b.data())) < 0; };
  auto checklist = [&] {
    CHECK(o.size() == model.size(), "size %zu, expected %zu", o.size(), model.size());
    V a; for (size_t i = 0; i < model.size(); i++) { a.emplace_back(o.at(i), isz); if (i) CHECK(order(keyof(a[i - 1].data()), keyof(a[i].data())) <= 0, "list not sorted at index %zu", i); }
    std::sort(a.begin(), a.end()); V b = model; std::sort(b.begin(), b.end()); CHECK(a == b, "list items differ from the inserted items");
  };
  auto search = [&](const std::string &nd) {
    if (o.kind != 0) return; Buf b(nd); size_t n = model.size(); bool exp = false; for (auto &m : model) if (order(keyof(m.data()), keyof(nd.data())) == 0) { exp = true; break; }
    needle = b.p; searching = true; lo_p = n ? (char *)sblist_get(o.s, 0) : 0; hi_p = lo_p + n * isz; ncmp = 0;
    size_t r = variant ? sblist_bsearch_r(o.s, b, cmp3, wantctx) : sblist_bsearch(o.s, b, cmp2); searching = false; CHECK(!cberr, "bsearch: %s", cberr); bound(n, "bsearch");
    if (exp) { CHECK(r < n && order(keyof(o.at(r)), keyof(nd.data())) == 0, "bsearch returned %zd for a present key %d (n=%zu)", (ssize_t)r, keyof(nd.data()), n); LABEL("found"); } else { CHECK(r == (size_t)-1, "bsearch returned %zd for an absent key %d", (ssize_t)r, keyof(nd.data())); LABEL("not-found"); }
  };
  std::string it(isz, 0); u64 tag = 0;
  while (big ? n < target : (more(pattern ? 40 : 20) && n < target)) {
    int k = (int)key(n); it.assign(isz, 0); gfill(&it[0], isz, ++tag); memcpy(&it[0], &k, std::min<size_t>(4, isz)); if (isz < 4) { for (size_t j = 0; j < isz; j++) it[j] = (char)(k >> (8 * j)); }
    // keys of 1- and 2-byte items are compared as unsigned small values
    Buf b(it); size_t before = model.size(); needle = o.kind == 0 ? b.p : 0; curneedle_copy = b.p; searching = true; lo_p = before ? o.at(0) : 0; hi_p = lo_p + before * isz; ncmp = 0;
    size_t r = o.ins(b.p, variant, wantctx); searching = false; CHECK(!cberr, "insert_sorted: %s", cberr); bound(before, "insert_sorted");
    CHECK(r <= before, "insert_sorted returned %zd with %zu items", (ssize_t)r, before); CHECK(o.size() == before + 1, "size after insert"); CHECK(!memcmp(o.at(r), it.data(), isz), "the new item is not at the returned index %zu", r);
    CHECK((r == 0 || order(keyof(o.at(r - 1)), keyof(it.data())) <= 0) && (r == before || order(keyof(it.data()), keyof(o.at(r + 1))) <= 0), "neighbours of the new item at %zu of %zu are out of order", r, before + 1);
    note("ins %d->%zu", keyof(it.data()), r); model.push_back(it); n++;
    if (!big || (n & (n - 1)) == 0) checklist();
    if (!big && chance(1, 3)) { std::string q = it; int kk = (int)(chance(1, 2) ? keyof(oneof(model).data()) + range(-1, 1) * (1 << shiftk) : key(n + 5)); if (isz < 4) { for (size_t j = 0; j < isz; j++) q[j] = (char)(kk >> (8 * j)); } else memcpy(&q[0], &kk, 4); search(q); }
  }
  if (!big && model.empty()) search(std::string(isz, 1));
  checklist();
  if (big && o.kind == 0) { std::sort(model.begin(), model.end(), less); for (int i = 0; i < 40; i++) { std::string q = i % 2 ? model[draw(model.size() - 1)] : model[0]; if (i % 2 == 0) { int kk = (int)key(draw(100000)) + (int)range(-1, 1); memcpy(&q[0], &kk, std::min<size_t>(4, isz)); } search(q); } for (size_t i : {(size_t)0, model.size() - 1, model.size() / 2}) search(std::string(o.at(i), isz)); }
  // sorting an unsorted list gives a sorted permutation; searches then work
  if (!big && o.kind == 0 && chance(1, 4) && model.size() > 1) { for (size_t i = model.size(); i-- > 1;) { size_t j = draw(i); std::string a(o.at(i), isz), b(o.at(j), isz); sblist_set(o.s, &b[0], i); sblist_set(o.s, &a[0], j); } searching = false; o.srt(); checklist(); search(model[0]); LABEL("sort-then-search"); }
  for (size_t i = 1; i < model.size() && i < 50; i++) for (size_t j = 0; j < i; j++) if (order(keyof(model[i].data()), keyof(model[j].data())) == 0) { dups = 1; break; }
  if (dups) LABEL("duplicate-keys"); if (model.size() >= 3) nontrivial();
  if (o.kind == 0) sblist_free(o.s); else if (o.kind == 1) tgs_i32_free(o.h); else if (o.kind == 2) tgs_i64_free(o.h); else if (o.kind == 4) tgs_r70k_free(o.h); else tgs_r20_free(o.h);
}
static void small() { run(120, false); }
static void large() { run(g_thorough ? 40000 : 12000, true); }
// lists beyond 64 Ki items: presorted by plain appends, then searched and extended at every kind of position
static void huge() {
  isz = 4; dir = 0; shiftk = 0; amp = oneof<int>({1, 256, 0, -1}); cberr = 0; searching = false; size_t n = 65000 + draw(25000); int variant = (int)draw(1); static char c; wantctx = &c; sblist *l = sblist_new(4, oneof<size_t>({0, 64, 1000})); void *t = tgs_i32_new();
  for (size_t i = 0; i < n; i++) { int k = (int)(2 * i + 1); sblist_add(l, &k); CHECK(tgs_i32_ins(t, &k, cmp2) == i, "ascending insert into a tglist of %zu items", i); } note("n %zu", n);
  size_t cur = n; std::vector<int> extra; for (int i = 0; i < 120; i++) {
    size_t p = chance(1, 3) ? std::min<size_t>(n - 1, 65536 + (size_t)range(0, 6) - 3) : draw(n - 1); int q = (int)(2 * p + draw(1) + (chance(1, 2) ? 1 : 0)); bool present = (q & 1) || std::find(extra.begin(), extra.end(), q) != extra.end(); if (q > (int)(2 * n - 1)) { present = false; for (int e : extra) if (e == q) present = true; }
    searching = true; needle = &q; lo_p = (char *)sblist_get(l, 0); hi_p = lo_p + 4 * cur; ncmp = 0; size_t r = variant ? sblist_bsearch_r(l, &q, cmp3, &c) : sblist_bsearch(l, &q, cmp2); CHECK(!cberr, "bsearch: %s", cberr); bound(cur, "bsearch");
    if (present) CHECK(r < cur && *(int *)sblist_get(l, r) == q, "bsearch(%d) in %zu items gave %zd", q, cur, (ssize_t)r); else CHECK(r == (size_t)-1, "bsearch of absent %d gave %zd", q, (ssize_t)r);
    if (i % 3 == 0) { ncmp = 0; r = variant ? sblist_insert_sorted_r(l, &q, cmp3, &c) : sblist_insert_sorted(l, &q, cmp2); searching = false; CHECK(!cberr, "insert: %s", cberr); bound(cur, "insert_sorted"); size_t r2 = tgs_i32_ins(t, &q, cmp2); cur++; extra.push_back(q);
      CHECK(r < cur && *(int *)sblist_get(l, r) == q && r2 < cur && *(int *)tgs_i32_at(t, r2) == q, "insert_sorted(%d) into %zu items returned %zd / %zd", q, cur - 1, (ssize_t)r, (ssize_t)r2); }
    searching = false;
  }
  CHECK(sblist_getsize(l) == cur && tgs_i32_size(t) == cur, "size"); for (size_t i = 1; i < cur; i++) CHECK(*(int *)sblist_get(l, i - 1) <= *(int *)sblist_get(l, i) && *(int *)tgs_i32_at(t, i - 1) <= *(int *)tgs_i32_at(t, i), "not sorted at %zu", i);
  sblist_free(l); tgs_i32_free(t); nontrivial(); LABEL("more-than-64Ki-items");
}
// every list over keys {0,2,4,..} of length <= 10 with every insertion key: exhaustive small space of binary-search shapes
static void shapes() {
  u64 idx = case_index(); isz = 4; dir = 0; shiftk = 0; amp = 1; cberr = 0; size_t n = 0; while (idx >= 2 * n + 1) idx -= 2 * n + 1, n++; int q = (int)idx; // n distinct keys 1,3,5..; key q in 0..2n
  note("n=%zu key=%d", n, q);
  for (int variant = 0; variant < 3; variant++) {
    sblist *l = sblist_new(4, 4); void *t = tgs_i32_new(); for (size_t i = 0; i < n; i++) { int k = (int)(2 * i + 1); sblist_add(l, &k); searching = false; tgs_i32_ins(t, &k, cmp2); }
    searching = true; needle = &q; lo_p = n ? (char *)sblist_get(l, 0) : 0; hi_p = lo_p + 4 * n; ncmp = 0; static char c; wantctx = &c;
    size_t r = variant == 1 ? sblist_bsearch_r(l, &q, cmp3, &c) : sblist_bsearch(l, &q, cmp2); CHECK(!cberr, "bsearch: %s", cberr); bound(n, "bsearch");
    size_t exp = q % 2 ? (size_t)(q / 2) : (size_t)-1; CHECK(r == exp, "bsearch(%d) in %zu odd keys gave %zd, expected %zd", q, n, (ssize_t)r, (ssize_t)exp);
    ncmp = 0; if (variant == 2) { searching = false; r = tgs_i32_ins(t, &q, cmp2); } else r = variant ? sblist_insert_sorted_r(l, &q, cmp3, &c) : sblist_insert_sorted(l, &q, cmp2);
    searching = false; CHECK(!cberr, "insert: %s", cberr); bound(n, "insert");
    size_t a = (size_t)(q / 2), b = q % 2 ? a + 1 : a; CHECK(r == a || r == b, "insert_sorted(%d) into %zu odd keys at %zd, expected %zu or %zu", q, n, (ssize_t)r, a, b);
    for (size_t i = 0; i + 1 < n + 1; i++) { int x = variant == 2 ? *(int *)tgs_i32_at(t, i) : *(int *)sblist_get(l, i), y = variant == 2 ? *(int *)tgs_i32_at(t, i + 1) : *(int *)sblist_get(l, i + 1); CHECK(x <= y, "not sorted"); }
    CHECK((variant == 2 ? tgs_i32_size(t) : sblist_getsize(l)) == n + 1, "size");
    sblist_free(l); tgs_i32_free(t);
  }
  nontrivial();
}
Check the_check = {"C02", "random insertion/lookup sequences over random orders (reversed, coarse, large comparison results), key patterns and item types, compared with the inserted multiset and sortedness after every insertion; plus every (list length <= 300, search key) shape; non-trivial: at least 3 items inserted",
  {{"sequences", small, 60000, 2500000, LEAK | FUZZ}, {"large", large, 160, 3000, LEAK}, {"huge", huge, 12, 300, LEAK}, {"shapes", shapes, 301L * 301, 301L * 301, LEAK | ENUM}}};
