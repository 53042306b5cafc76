// C03: tglist / tgilist over several element and index types against a vector model
#include "pbt.hpp"
#include <algorithm>
#include "c03_ops.h"
#include "inl.hpp"
extern "C" const c03_ops c03_tbl[]; extern "C" const int c03_n;
typedef std::vector<std::string> Model;
static size_t csz; static int cmp(const void *a, const void *b) { return memcmp(a, b, csz); }
static void verify(const c03_ops &o, void *l, const Model &m, bool iter) {
  CHECK(o.size(l) == m.size(), "size %zu, expected %zu", o.size(l), m.size()); CHECK(!!o.empty(l) == m.empty(), "empty"); CHECK(o.itemsize(l) == o.isz, "itemsize");
  std::string b(o.isz, 0); for (size_t i = 0; i < m.size(); i++) { o.get(l, i, &b[0]); CHECK(b == m[i], "item %zu of %zu is %s, expected %s", i, m.size(), show(b, 20).c_str(), show(m[i], 20).c_str()); }
  if (iter) { std::string a(o.isz * m.size() + 1, 0), e; size_t n = o.foreach(l, &a[0], m.size()); CHECK(n == m.size(), "foreach visited %zu of %zu", n, m.size()); for (auto &x : m) e += x; a.resize(e.size()); CHECK(a == e, "foreach order"); }
}
static void go(bool big, bool fat = false) {
  std::vector<int> idx; for (int i = 0; i < c03_n; i++) if ((c03_tbl[i].isz > 60000) == fat) idx.push_back(i); const c03_ops &o = c03_tbl[oneof(idx)]; int style = (int)draw(1); void *l = o.mk(style); CHECK(l, "new failed"); note("%s %s", o.name, style ? "init" : "new");
  Model m; size_t adds = 0, ops = 0, peak = 0; bool ptrs = false;
  size_t maxops = big ? 3000 : 400, cap = big ? 3000 : 150; if (o.isz > 100 && !(big && draw(3) == 3)) cap /= 4; if (fat) cap = 9, maxops = 40;
  unsigned avg = big ? 1500 : chance(1, 4) ? 120 : 20; int bias = (int)draw(2); u64 ctr = 0;
  while (ops < maxops && more(avg)) {
    ops++; std::string it(o.isz, 0); if (big) gfill(&it[0], o.isz, ++ctr); else if (o.isz <= 4) { for (auto &c : it) c = (char)draw(255); } else gfill(&it[0], o.isz, draw(1000)); size_t n = m.size(); bool can = adds < o.maxadds && n < cap;
    switch (weighted({bias == 1 ? 20u : 8u, bias == 2 ? 20u : 8u, 4, bias == 0 ? 6u : 3u, 2, 2, 2, 2, 2, 1, 1, 2})) {
    case 0: if (can) { note("add"); CHECK(o.add(l, it.data()) == 1, "add"); m.push_back(it); adds++; } break;
    case 1: if (can) { size_t p = chance(1, 5) ? n : chance(1, 5) ? 0 : draw(n); note("insert@%zu", p); CHECK(o.ins(l, it.data(), p) == 1, "insert at %zu of %zu", p, n); m.insert(m.begin() + p, it); adds++; if (p < n) LABEL("insert-middle"); } break;
    case 2: if (n) { size_t p = draw(n - 1); note("set@%zu", p); CHECK(o.set(l, it.data(), p) == 1, "set"); m[p] = it; } break;
    case 3: if (n) { size_t p = chance(1, 5) ? n - 1 : draw(n - 1); note("delete@%zu", p); o.del(l, p); m.erase(m.begin() + p); LABEL("delete"); } break;
    case 4: if (can) { note("insert@size"); CHECK(o.ins_end(l, it.data()) == 1, "insert at getsize"); m.push_back(it); adds++; } break;
    case 5: if (can) { note("insert@size/2"); CHECK(o.ins_mid(l, it.data()) == 1, "insert at getsize/2"); m.insert(m.begin() + n / 2, it); adds++; } break;
    case 6: if (n) { note("delete@size-1"); o.del_last(l); m.pop_back(); } break;
    case 7: if (n) { note("set@size-1"); CHECK(o.set_last(l, it.data()) == 1, "set last"); m.back() = it; } break;
    case 8: if (n && can) { size_t p = draw(n - 1); note("add(get %zu)", p); CHECK(o.add_self(l, p) == 1, "add self"); m.push_back(m[p]); adds++; LABEL("self-add"); } break;
    case 9: if (!o.indexed) { csz = o.isz; note("sort"); o.sort(l, cmp); std::sort(m.begin(), m.end(), [](const std::string &a, const std::string &b) { return memcmp(a.data(), b.data(), a.size()) < 0; }); LABEL("sort"); } break;
    case 10: if (chance(1, 4)) { note("free_items+init"); o.reinit(l); m.clear(); adds = 0; LABEL("reinit"); } break;
    default: if (n && can) { size_t p = draw(n - 1), q = draw(n); note("insert(get %zu)@%zu", p, q); CHECK(o.ins_self(l, p, q) == 1, "insert self"); std::string x = m[p]; m.insert(m.begin() + q, x); adds++; }
    }
    peak = std::max(peak, m.size()); if (!big || (ops & 63) == 0) verify(o, l, m, !big && (ops & 3) == 0);
  }
  verify(o, l, m, true); o.fr(l, style); (void)ptrs;
  if (ops >= 4 && peak >= 2) nontrivial(); if (peak > 4) LABEL("grown"); if (peak > 64) LABEL("grown>64"); if (o.indexed) LABEL("tgilist"); if (o.maxadds != (size_t)-1 && adds > 200) LABEL("narrow-index-near-limit");
}
static void small() { go(false); }
static void big() { go(true); }
static void fatitems() { go(false, true); }
// beyond 64 Ki items
static void huge() {
  std::vector<int> idx; for (int i = 0; i < c03_n; i++) if (c03_tbl[i].maxadds > 200000 && c03_tbl[i].isz <= 400) idx.push_back(i); const c03_ops &o = c03_tbl[oneof(idx)]; int style = (int)draw(1); void *l = o.mk(style); Model m; u64 ctr = draw(1u << 30); size_t n = o.isz > 40 && draw(3) ? 1000 + draw(6000) : 65400 + draw(9000); note("%s %zu items", o.name, n);
  std::string it(o.isz, 0); for (size_t i = 0; i < n; i++) { gfill(&it[0], o.isz, ++ctr); CHECK(o.add(l, it.data()) == 1, "add"); m.push_back(it); }
  for (int i = 0; i < 150; i++) { n = m.size(); size_t p = chance(1, 3) ? std::min<size_t>(n - 1, (size_t)(65536 + range(-3, 3))) : draw(n - 1); gfill(&it[0], o.isz, ++ctr); switch (draw(4)) { case 0: CHECK(o.ins(l, it.data(), p) == 1, "insert"); m.insert(m.begin() + p, it); break; case 1: o.del(l, p); m.erase(m.begin() + p); break; case 2: CHECK(o.set(l, it.data(), p) == 1, "set"); m[p] = it; break; case 3: CHECK(o.ins_end(l, it.data()) == 1, "insert at the end"); m.push_back(it); break; default: { size_t q = draw(n); CHECK(o.ins_self(l, p, q) == 1, "insert self"); std::string x = m[p]; m.insert(m.begin() + q, x); } } }
  verify(o, l, m, true); o.fr(l, style); nontrivial(); LABEL("more-than-64Ki-items");
}
// lists of heap pointers: free_values releases each exactly once
static void values() {
  int k = 0, tg = -1, tgi = -1; for (k = 0; k < c03_n; k++) { if (!strcmp(c03_tbl[k].name, "tglist<pt>")) tg = k; if (!strcmp(c03_tbl[k].name, "tgilist<pt>")) tgi = k; }
  const c03_ops &o = c03_tbl[draw(1) ? tgi : tg]; int style = (int)draw(1); void *l = o.mk(style); size_t n = 0, owned = 0; note("%s", o.name);
  while (more(20) && n < 200) { if (chance(1, 6) && o.size(l)) { size_t p = draw(o.size(l) - 1); void *x; o.get(l, p, &x); o.del(l, p); if (!o.indexed) { free(x); owned--; } note("delete@%zu", p); } else { void *x = malloc(1 + draw(40)); size_t p = draw(o.size(l)); CHECK(o.ins(l, &x, p) == 1, "insert"); note("insert@%zu", p); owned++; } n++; }
  size_t live = pa_live(); o.free_values(l); CHECK(live - pa_live() == owned, "free_values released %zu blocks instead of %zu", live - pa_live(), owned); if (!o.indexed) CHECK(o.size(l) == 0, "size after free_values is %zu", o.size(l));
  o.fr(l, style); if (owned) nontrivial();
}
// programs using the macros inline, compiled without sanitizers
static void inlined() { inl::program(0); }
Check the_check = {"C03", "random in-range operation histories over 10 tglist and 7 tgilist instantiations, model compared after every operation; non-trivial: at least 4 operations and a peak of at least 2 items (values: at least one pointer owned; inlined: generated programs with the macros in one function, compiled by gcc and clang at -O1/-Os/-O2/-O3 and compared with the model, 3 operations with a deletion)",
  {{"histories", small, 400000, 8000000, LEAK | FUZZ}, {"long", big, 6000, 90000, LEAK}, {"huge", huge, 60, 900, LEAK}, {"fat-items", fatitems, 1500, 20000, LEAK}, {"values", values, 60000, 600000, LEAK}, {"inlined", inlined, 180, 6000, SLOW}}};
