// C04: tlist (treap list) against a vector model
#include "pbt.hpp"
#include <algorithm>
extern "C" {
#include "tlist.h"
}
typedef std::vector<std::string> Model;
static void verify_at(tlist *t, const Model &m, size_t isz, size_t i) { void *p = tlist_get(t, i); CHECK(p, "get(%zu) of %zu is NULL", i, m.size()); CHECK(!memcmp(p, m[i].data(), isz), "item %zu of %zu is %s, expected %s", i, m.size(), show(p, isz, 20).c_str(), show(m[i], 20).c_str()); }
static size_t outside(size_t n) { switch (draw(5)) { case 0: return n; case 1: return n + 1 + draw(100); case 2: return ((size_t)1 << 32) + draw(n); case 3: return (size_t)-1 - draw(2); case 4: return 0xffffffffu - draw(1); default: return ((size_t)1 << (32 + draw(31))) + draw(n); } }
static void verify(tlist *t, const Model &m, size_t isz) {
  CHECK(tlist_getsize(t) == m.size(), "size %zu, expected %zu", tlist_getsize(t), m.size()); for (size_t i = 0; i < m.size(); i++) verify_at(t, m, isz, i);
  for (size_t i : {m.size(), m.size() + 1, (size_t)1 << 32, ((size_t)1 << 32) + m.size(), (size_t)-1}) CHECK(!tlist_get(t, i), "get(%zu) of %zu is not NULL", i, m.size());
}
static void hist(bool big) {
  size_t isz = big ? oneof<size_t>({1, 4, 8, 12}) : weighted({4, 1}) ? oneof<size_t>({64, 100, 255, 256, 257, 1000, 4096}) : 1 + draw(24); tlist *t = tlist_new((unsigned)isz); CHECK(t, "tlist_new failed"); Model m; size_t ops = 0, peak = 0; u64 ctr = 0; note("itemsize %zu", isz);
  unsigned avg = big ? 2500 : chance(1, 4) ? 150 : 25; size_t maxops = big ? 6000 : 600, cap = big ? 6000 : 300; int bias = (int)draw(3);
  while (ops < maxops && more(avg)) {
    ops++; size_t n = m.size(); std::string it(isz, 0); gfill(&it[0], isz, big ? ++ctr : draw(chance(1, 2) ? 3 : 100000)); Buf b(it);
    switch (weighted({bias == 0 ? 12u : 5u, bias == 1 ? 20u : 6u, bias == 2 ? 12u : 6u, 2, 3, big ? 0u : 1u})) {
    case 0: if (n < cap) { note("append"); CHECK(tlist_append(t, b) == 1, "append failed"); m.push_back(it); } break;
    case 1: if (n < cap) { size_t p = chance(1, 6) ? 0 : chance(1, 6) ? n : draw(n); note("insert@%zu", p); CHECK(tlist_insert(t, p, b) == 1, "insert at %zu of %zu failed", p, n); m.insert(m.begin() + p, it); if (p && p < n) LABEL("insert-middle"); } break;
    case 2: if (n) { size_t p = chance(1, 6) ? 0 : chance(1, 6) ? n - 1 : draw(n - 1); note("delete@%zu", p); CHECK(tlist_delete(t, p) == 1, "delete %zu of %zu failed", p, n); m.erase(m.begin() + p); LABEL("delete"); } break;
    case 3: if (n) { size_t p = draw(n - 1); void *q = tlist_get(t, p); CHECK(q, "get NULL"); note("overwrite@%zu", p); memcpy(q, b, isz); m[p] = it; } break;
    case 4: { size_t p = outside(n); note("outside %zu", p); LABEL("out-of-range"); switch (draw(2)) { case 0: CHECK(!tlist_get(t, p), "get(%zu) of %zu is not NULL", p, n); break; case 1: CHECK(tlist_delete(t, p) == 0, "delete(%zu) of %zu did not fail", p, n); break; default: if (p > n) { CHECK(tlist_insert(t, p, b) == 0, "insert(%zu) of %zu did not fail", p, n); } } break; }
    default: if (chance(1, 4)) { note("free_items"); tlist_free_items(t); m.clear(); CHECK(tlist_getsize(t) == 0, "size after free_items"); LABEL("free-items"); }
    }
    peak = std::max(peak, m.size()); if (!big || (ops & 255) == 0) verify(t, m, isz); else if (!m.empty()) { CHECK(tlist_getsize(t) == m.size(), "size"); verify_at(t, m, isz, draw(m.size() - 1)); }
  }
  verify(t, m, isz); CHECK(tlist_free(t) == NULL, "tlist_free did not return NULL"); if (ops >= 4 && peak >= 2) nontrivial(); if (peak > 64) LABEL("peak>64"); if (peak > 1000) LABEL("peak>1000");
}
static void small() { hist(false); }
static void big() { hist(true); }
static void deep() {
  tlist *t = tlist_new(sizeof(char *)); CHECK(t, "tlist_new"); std::vector<char *> m; size_t ops = 0, n; bool had = false;
  while (more(25) && ops++ < 300) {
    n = m.size();
    switch (weighted({8, 4, 2, 2, 1, 1})) {
    case 0: { char *c = (char *)malloc(1 + draw(30)); *c = (char)draw(127); size_t p = draw(n); note("insert@%zu", p); CHECK(tlist_insert(t, p, &c) == 1, "insert"); m.insert(m.begin() + p, c); break; }
    case 1: if (n) { size_t p = draw(n - 1); size_t lv = pa_live(); char *c = m[p]; note("delete_deep@%zu", p); CHECK(tlist_delete_deep(t, p) == 1, "delete_deep"); CHECK(!pa_is_live(c), "delete_deep did not free the stored pointer"); CHECK(lv - pa_live() == 2, "delete_deep released %zu blocks, expected 2", lv - pa_live()); m.erase(m.begin() + p); LABEL("delete-deep"); had = true; } break;
    case 2: if (n) { size_t p = draw(n - 1); char *c = m[p]; note("delete@%zu", p); CHECK(tlist_delete(t, p) == 1, "delete"); CHECK(pa_is_live(c), "delete freed the stored pointer"); free(c); m.erase(m.begin() + p); } break;
    case 3: { size_t p = outside(n); note("deep outside"); CHECK(tlist_delete_deep(t, p) == 0, "delete_deep(%zu) of %zu did not fail", p, n); break; }
    case 4: note("free_items_deep"); tlist_free_items_deep(t); for (char *c : m) CHECK(!pa_is_live(c), "free_items_deep left a stored pointer allocated"); m.clear(); LABEL("free-items-deep"); break;
    default: note("free_items"); tlist_free_items(t); for (char *c : m) { CHECK(pa_is_live(c), "free_items freed a stored pointer"); free(c); } m.clear();
    }
    CHECK(tlist_getsize(t) == m.size(), "size"); for (size_t i = 0; i < m.size(); i++) { char **q = (char **)tlist_get(t, i); CHECK(q && *q == m[i], "item %zu", i); }
  }
  if (had || m.size()) nontrivial();
  if (draw(1)) { CHECK(tlist_free_deep(t) == NULL, "tlist_free_deep did not return NULL"); for (char *c : m) CHECK(!pa_is_live(c), "free_deep left a stored pointer allocated"); LABEL("free-deep"); } else { CHECK(tlist_free(t) == NULL, "free"); for (char *c : m) { CHECK(pa_is_live(c), "tlist_free freed a stored pointer"); free(c); } }
}
// many items: index arithmetic beyond 16 bits
static void huge() {
  size_t n = 66000 + draw(30000); tlist *t = tlist_new(4); std::vector<u32> m; m.reserve(n + 10); int mode = (int)draw(2); note("n=%zu mode %d", n, mode); u64 s = draw(1 << 30);
  for (size_t i = 0; i < n; i++) { u32 v = (u32)(i * 2654435761u + s); size_t p = mode == 0 ? i : mode == 1 ? i / 2 : i - (i % 7 < i ? i % 7 : 0); CHECK(tlist_insert(t, p, &v) == 1, "insert"); m.insert(m.begin() + p, v); }
  auto full = [&] { CHECK(tlist_getsize(t) == m.size(), "size"); for (size_t i = 0; i < m.size(); i++) { u32 *q = (u32 *)tlist_get(t, i); CHECK(q && *q == m[i], "item %zu of %zu", i, m.size()); } CHECK(!tlist_get(t, m.size()), "get past the end"); };
  full(); for (int i = 0; i < 300; i++) { size_t p = i % 2 ? draw(m.size() - 1) : (size_t)(65536 + range(-3, 3)) % m.size(); CHECK(tlist_delete(t, p) == 1, "delete"); m.erase(m.begin() + p); } full(); tlist_free(t); nontrivial();
}
Check the_check = {"C04", "random operation histories with random item sizes against a std::vector model, plus pointer lists with per-block release accounting and lists beyond 64Ki items; non-trivial: at least 4 operations and a peak of at least 2 items (deep: pointers involved; huge: always)",
  {{"histories", small, 90000, 3000000, LEAK | FUZZ}, {"long", big, 400, 8000, LEAK}, {"deep", deep, 90000, 1500000, LEAK | FUZZ}, {"huge", huge, 16, 200, LEAK}}};
