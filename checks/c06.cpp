// C06: bmap / hbmap against std::map
#include "pbt.hpp"
#include <algorithm>
#include <map>
#include <set>
#include "c06_ops.h"
#include "inl.hpp"
extern "C" const c06_ops c06_tbl0[], c06_tbl1[]; extern "C" const int c06_n0, c06_n1;
struct Less { int kind; bool operator()(const std::string &a, const std::string &b) const { if (kind == 0) { int x, y; memcpy(&x, a.data(), 4); memcpy(&y, b.data(), 4); return x < y; } if (kind == 1) { long long x, y; memcpy(&x, a.data(), 8); memcpy(&y, b.data(), 8); return x < y; } return a < b; } };
typedef std::map<std::string, std::string, Less> Map;
static std::string mkkey(const c06_ops &o, i64 k) { std::string s(o.ksz, 0); if (o.kind == 1) { long long x = k * 3000000000LL; memcpy(&s[0], &x, 8); } else { int x = (int)k; memcpy(&s[0], &x, 4); if (o.kind == 2) s[8] = (char)(k >> 2); } return s; }
static std::string mkval(const c06_ops &o, u64 v) { std::string s(o.vsz, 0); gfill(&s[0], o.vsz, v); return s; }
static void verify(const c06_ops &o, void *m, const Map &M) {
  CHECK(o.size(m) == M.size(), "size %zu, expected %zu", o.size(m), M.size()); std::vector<int64_t> it(M.size() + 1); size_t n = o.foreach(m, it.data(), M.size()); CHECK(n == M.size(), "iteration visited %zu of %zu entries", n, M.size());
  std::string k(o.ksz, 0), v(o.vsz, 0); auto x = M.begin(); std::set<std::string> seen;
  for (size_t i = 0; i < n; i++) {
    o.key(m, it[i], &k[0]); o.val(m, it[i], &v[0]);
    if (!o.hashed) { CHECK(k == x->first, "key %zu in iteration order is %s, expected %s", i, show(k).c_str(), show(x->first).c_str()); CHECK(v == x->second, "value at index %zu is wrong", i); ++x; }
    else { auto f = M.find(k); CHECK(f != M.end(), "iteration yields a key that is not in the map: %s", show(k).c_str()); CHECK(seen.insert(k).second, "iteration yields key %s twice", show(k).c_str()); CHECK(f->second == v, "iteration yields the wrong value for key %s", show(k).c_str()); }
  }
}
static void lookup(const c06_ops &o, void *m, const Map &M, const std::string &k) {
  auto f = M.find(k); int64_t r = o.find(m, k.data()); std::string v(o.vsz, 0), kk(o.ksz, 0); CHECK(!!o.contains(m, k.data()) == (f != M.end()), "contains(%s) is wrong", show(k).c_str()); int g = o.get(m, k.data(), &v[0]);
  if (f == M.end()) { CHECK(r == -1, "find of absent %s gave %lld", show(k).c_str(), (long long)r); CHECK(!g, "get of an absent key is not NULL"); LABEL("lookup-absent"); }
  else { CHECK(r != -1 && g && v == f->second, "lookup of %s failed or gave the wrong value", show(k).c_str()); o.key(m, r, &kk[0]); CHECK(kk == k, "find returned the position of another key"); o.val(m, r, &v[0]); CHECK(v == f->second, "value at found position"); o.val_find(m, k.data(), &v[0]); CHECK(v == f->second, "getval(find())"); LABEL("lookup-present"); }
}
static void hist(bool big, bool many = false) {
  bool tgi = draw(1); const c06_ops *t = tgi ? c06_tbl1 : c06_tbl0; int n; n = many ? (tgi ? c06_n1 : c06_n0) - 1 : (int)draw((tgi ? c06_n1 : c06_n0) - 2); if (t[n].ptrs) n = n ? n - 1 : n; const c06_ops &o = t[n]; int hf = (int)draw(5), style = (int)draw(1);
  void *m = o.mk(style, hf); CHECK(m, "creation failed"); CHECK(o.ks(m) == o.ksz && o.vs(m) == o.vsz, "key/value size"); Map M(Less{o.kind}); note("%s%s hash %d", o.name, tgi ? " (tgilist values)" : "", hf);
  i64 span = many ? oneof<i64>({8, 70001, 200000, 4000000}) : big ? 4000 : oneof<i64>({3, 8, 30, 400}); i64 base = oneof<i64>({0, -2, -200, 2000000000}); size_t ops = 0, maxops = many ? 600 : big ? 9000 : 400, over = 0, dels = 0; unsigned avg = many ? 250 : big ? 5000 : chance(1, 4) ? 120 : 25;
  while (ops < maxops && more(avg)) {
    ops++; i64 kk = base + (i64)draw(span); std::string k = mkkey(o, kk), v = mkval(o, big ? ops : draw(1000));
    switch (weighted({10, 3, 5, 3, 3, 2, 1})) {
    case 0: { note("insert %lld", (long long)kk); bool was = M.count(k); int64_t r = o.insert(m, k.data(), v.data()); CHECK(r != -1, "insert failed"); M[k] = v; std::string k2(o.ksz, 0), v2(o.vsz, 0); o.key(m, r, &k2[0]); o.val(m, r, &v2[0]); CHECK(k2 == k && v2 == v, "insert returned the position of another entry"); if (was) { LABEL("overwrite"); over++; } break; }
    case 1: if (!M.count(k)) { note("insert_nocheck %lld", (long long)kk); int64_t r = o.insert_nocheck(m, k.data(), v.data()); CHECK(r != -1, "insert_nocheck failed"); M[k] = v; std::string k2(o.ksz, 0), v2(o.vsz, 0); o.key(m, r, &k2[0]); o.val(m, r, &v2[0]); CHECK(k2 == k && v2 == v, "insert_nocheck returned the position of another entry"); } break;
    case 2: if (!M.empty()) { if (!M.count(k)) { auto x = M.lower_bound(k); if (x == M.end()) --x; k = x->first; } int64_t r = o.find(m, k.data()); CHECK(r != -1, "find"); if (draw(1)) { note("delete(find) %lld", (long long)kk); o.del_find(m, k.data()); LABEL("delete-by-find-expression"); } else { note("delete %lld", (long long)kk); o.del(m, r); } M.erase(k); dels++; } break;
    case 3: { int64_t r = o.find(m, k.data()); if (r != -1 && M.count(k)) { note("setvalue %lld", (long long)kk); switch (draw(2)) { case 0: o.setval(m, r, v.data()); break; case 1: o.setval_find(m, k.data(), v.data()); break; default: CHECK(o.get_write(m, k.data(), v.data()), "get"); } M[k] = v; } break; }
    case 4: note("lookup %lld", (long long)kk); lookup(o, m, M, k); break;
    case 5: { i64 k2 = base + range(-2, 2) + (chance(1, 2) ? span : 0); lookup(o, m, M, mkkey(o, k2)); break; }
    default: if (chance(1, 6) || !big) { if (chance(1, 3)) { note("drain"); o.drain(m); M.clear(); LABEL("drain-idiom"); } }
    }
    if (!big || (ops & 255) == 0) verify(o, m, M);
  }
  verify(o, m, M); if (o.hashed) LABEL("hbmap"); else LABEL("bmap"); if (M.size() > 200) LABEL("size>200");
  for (int i = 0; i < 3; i++) lookup(o, m, M, mkkey(o, base + (i64)draw(span)));
  if (ops >= 4 && (over || dels)) nontrivial(); o.fini(m, style, 0);
}
static void small() { hist(false); }
static void big() { hist(true); }
static void many() { hist(true, true); LABEL("more-than-64Ki-buckets"); }
// maps (and single buckets) beyond 64 Ki entries
static void huge() {
  bool tgi = draw(1); const c06_ops *t = tgi ? c06_tbl1 : c06_tbl0; int cnt = tgi ? c06_n1 : c06_n0; std::vector<int> idx; for (int i = 0; i < cnt; i++) if (!t[i].ptrs && t[i].kind != 2 && t[i].buckets < 1000) idx.push_back(i); const c06_ops &o = t[oneof(idx)]; int hf = (int)draw(5), style = (int)draw(1);
  void *m = o.mk(style, hf); CHECK(m, "creation failed"); Map M(Less{o.kind}); size_t n = 66000 + draw(6000); note("%s%s hash %d, %zu entries", o.name, tgi ? " (tgilist values)" : "", hf, n);
  for (size_t i = 0; i < n; i++) { std::string k = mkkey(o, (i64)i * 2), v = mkval(o, i); CHECK((i % 5 ? o.insert_nocheck(m, k.data(), v.data()) : o.insert(m, k.data(), v.data())) != -1, "insert"); M.emplace_hint(M.end(), k, v); }
  for (int i = 0; i < 200; i++) { i64 x = chance(1, 3) ? 2 * 65536 + range(-6, 6) : (i64)draw(2 * n + 1); std::string k = mkkey(o, x), v = mkval(o, draw(1u << 30)); lookup(o, m, M, k); switch (draw(3)) { case 0: CHECK(o.insert(m, k.data(), v.data()) != -1, "insert"); M[k] = v; break; case 1: if (M.count(k)) { o.del_find(m, k.data()); M.erase(k); } break; case 2: { int64_t r = o.find(m, k.data()); if (M.count(k)) { CHECK(r != -1, "find"); o.setval(m, r, v.data()); M[k] = v; } break; } default:; } lookup(o, m, M, k); }
  verify(o, m, M); LABEL("more-than-64Ki-entries"); nontrivial(); o.fini(m, style, 0);
}
// maps owning heap strings: the destruction flags release exactly what they say
static void owned() {
  bool tgi = draw(1); const c06_ops *t = tgi ? c06_tbl1 : c06_tbl0; int cnt = tgi ? c06_n1 : c06_n0; std::vector<int> idx; for (int i = 0; i < cnt; i++) if (t[i].ptrs) idx.push_back(i); const c06_ops &o = t[oneof(idx)]; int flags = (int)draw(3), hf = (int)draw(5), style = (int)draw(1); void *m = o.mk(style, hf); CHECK(m, "creation"); note("%s flags %d hash %d", o.name, flags, hf);
  std::map<std::string, std::pair<char *, char *>> M; std::vector<char *> deadvals; size_t ops = 0;
  while (more(20) && ops++ < 200) {
    std::string k = gstr(draw(3), "ab"); char *c;
    switch (weighted({6, 3, 2})) {
    case 0: { note("insert %s", k.c_str()); auto f = M.find(k); char *v = strdup("value"); if (f == M.end()) { c = strdup(k.c_str()); CHECK(o.insert(m, &c, &v) != -1, "insert"); M[k] = {c, v}; } else { c = f->second.first; char probe[8]; strcpy(probe, k.c_str()); char *pp = probe; CHECK(o.insert(m, &pp, &v) != -1, "insert"); free(f->second.second); f->second.second = v; LABEL("owned-overwrite"); } break; }
    case 1: if (!M.empty()) { auto f = M.lower_bound(k); if (f == M.end()) --f; note("delete %s", f->first.c_str()); c = f->second.first; o.del_find(m, &c); free(c); if (!tgi) free(f->second.second); else deadvals.push_back(f->second.second); M.erase(f); } break;
    default: { char probe[8]; strcpy(probe, k.c_str()); char *pp = probe, *v = 0; int g = o.get(m, &pp, &v); auto f = M.find(k); CHECK(!!g == (f != M.end()) && (!g || v == f->second.second), "get of %s", k.c_str()); }
    }
    CHECK(o.size(m) == M.size(), "size");
  }
  std::vector<int64_t> it(M.size() + 1); CHECK(o.foreach(m, it.data(), M.size()) == M.size(), "foreach count"); { auto x = M.begin(); for (size_t i = 0; i < M.size(); i++, ++x) { char *k, *v; o.key(m, it[i], &k); o.val(m, it[i], &v); auto f = M.find(k); CHECK(f != M.end() && f->second.first == k && f->second.second == v, "entry"); if (!o.hashed) CHECK(x->first == k, "iteration order"); } }
  o.fini(m, style, flags);
  for (auto &x : M) { CHECK(pa_is_live(x.second.first) == !(flags & 1), "key %s after fini(%d) is %s", x.first.c_str(), flags, flags & 1 ? "still allocated" : "freed"); CHECK(pa_is_live(x.second.second) == !(flags & 2), "value after fini(%d) is %s", flags, flags & 2 ? "still allocated" : "freed"); if (!(flags & 1)) free(x.second.first); if (!(flags & 2)) free(x.second.second); }
  if (tgi && !(flags & 2)) for (char *c : deadvals) free(c);
  if (ops >= 3) nontrivial();
}
// programs using the macros inline, compiled without sanitizers
static void inlined() { inl::program(2); }
Check the_check = {"C06", "random histories over 8 bmap and 18 hbmap instantiations (1..70001 buckets, 6 hash functions incl. constant and all-ones, both value-list implementations) against std::map, with full iteration compared after every operation; non-trivial: at least 4 operations with at least one overwrite or delete (owned: 3 operations; inlined: generated programs with the macros in one function, compiled by gcc and clang at -O1/-Os/-O2/-O3 and compared with the model, 3 operations with a deletion)",
  {{"histories", small, 120000, 3000000, LEAK | FUZZ}, {"long", big, 240, 4000, LEAK}, {"huge", huge, 24, 400, LEAK}, {"many-buckets", many, 160, 2400, LEAK}, {"owned", owned, 60000, 1000000, LEAK | FUZZ}, {"inlined", inlined, 120, 6000, SLOW}}};
