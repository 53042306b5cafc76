// C07: hashlist and kvlist
#include "pbt.hpp"
#include <algorithm>
#include <map>
extern "C" {
#include "hashlist.h"
sblist *kvs_new(size_t); int kvs_add(sblist *, char *, size_t, void *); int kvs_set(sblist *, size_t, char *, size_t, void *); char *kvs_key(sblist *, size_t); size_t kvs_ksize(sblist *, size_t); void *kvs_val(sblist *, size_t); int kvs_null(sblist *, size_t); size_t kvs_size(sblist *); void kvs_free(sblist *); int kvs_find(sblist *, char *, size_t, void **); int kvs_find_null(sblist *, int, void **);
}
typedef std::vector<std::string> V;
static void verify(hashlist *h, const std::map<u32, V> &M, u32 nb, u32 ds, bool removed) {
  // bucket iterator
  hashlist_bucket_iterator bi; hashlist_bucket_iterator_init(&bi); std::map<sblist *, u32> where; for (auto &x : M) { sblist *l = hashlist_get(h, x.first); CHECK(l || x.second.empty(), "hashlist_get(%u) is NULL", x.first); if (l) { CHECK(!where.count(l), "two buckets share a list"); where[l] = x.first; } }
  size_t seen = 0, want = 0; for (auto &x : M) want += !x.second.empty(); std::map<u32, int> vis; sblist *l;
  while ((l = hashlist_bucket_next(h, &bi))) { CHECK(where.count(l), "bucket iterator returned a list no value was added to"); u32 b = where[l]; CHECK(!vis[b]++, "bucket iterator visited bucket %u twice", b); if (!M.at(b).empty()) seen++; CHECK(vis.size() <= M.size(), "bucket iterator does not end"); }
  CHECK(seen == want, "bucket iterator visited %zu of %zu non-empty buckets", seen, want); CHECK(!hashlist_bucket_next(h, &bi) && !hashlist_bucket_next(h, &bi), "bucket iterator continues after the end");
  for (auto &x : M) { sblist *l = hashlist_get(h, x.first); if (!l) continue; CHECK(sblist_getsize(l) == x.second.size(), "bucket %u holds %zu values, expected %zu", x.first, sblist_getsize(l), x.second.size()); for (size_t i = 0; i < x.second.size(); i++) CHECK(!memcmp(sblist_get(l, i), x.second[i].data(), ds), "value %zu of bucket %u", i, x.first); }
  V all, got; for (auto &x : M) for (auto &v : x.second) all.push_back(v); hashlist_iterator it; hashlist_iterator_init(&it); void *p; while ((p = hashlist_next(h, &it))) { got.emplace_back((char *)p, ds); CHECK(got.size() <= all.size(), "entry iterator yields more than the %zu stored values", all.size()); }
  CHECK(got.size() == all.size(), "entry iterator yielded %zu of %zu values", got.size(), all.size()); std::sort(all.begin(), all.end()); std::sort(got.begin(), got.end()); CHECK(all == got, "entry iterator yielded other values than were stored"); for (int i = 0; i < 3; i++) CHECK(!hashlist_next(h, &it), "entry iterator continues after the end");
}
static void hl(bool big) {
  u32 nb = big ? oneof<u32>({1, 2, 64, 1000, 65536, 70000}) : oneof<u32>({1, 2, 3, 4, 7, 8, 16, 33, 64, 255, 256, 257}), ds = oneof<u32>({1, 2, 4, 8, 12, 40, 100, 300}); hashlist *h = hashlist_new(nb, ds); CHECK(h, "hashlist_new failed"); note("buckets %u datasize %u", nb, ds);
  std::map<u32, V> M; size_t n = 0, cap = big ? 3000 : 200; int pat = (int)draw(3); bool removed = false; u64 ctr = 0;
  verify(h, M, nb, ds, false);
  while (n < cap && more(big ? 1500 : 30)) {
    u32 hash = pat == 0 ? anyu32() : pat == 1 ? (u32)draw(7) : pat == 2 ? (u32)(draw(3) * nb + draw(1)) : (u32)(0xffffffffu - draw(9)); n++;
    if (!big && chance(1, 8) && !M.empty()) { auto x = M.lower_bound(hash % nb); if (x == M.end()) --x; sblist *l = hashlist_get(h, x->first); if (l && !x->second.empty()) { size_t p = draw(x->second.size() - 1); note("remove value %zu of bucket %u", p, x->first); sblist_delete(l, p); x->second.erase(x->second.begin() + p); removed = true; LABEL("removed-from-bucket"); if (x->second.empty()) LABEL("emptied-bucket"); verify(h, M, nb, ds, removed); continue; } }
    std::string v(ds, 0); gfill(&v[0], ds, big ? ++ctr : draw(50)); Buf b(v); note("add %u", hash); int r = hashlist_add(h, hash, b); CHECK(r == 0, "hashlist_add returned %d", r); M[hash % nb].push_back(v); if (M[hash % nb].size() > 8) LABEL("bucket>8");
    u32 q = chance(1, 2) ? hash : anyu32(); sblist *l = hashlist_get(h, q); auto f = M.find(q % nb); CHECK((l != 0) == (f != M.end()), "hashlist_get(%u) is %s", q, l ? "not NULL" : "NULL");
    if (!big || (n & 255) == 0) verify(h, M, nb, ds, removed);
  }
  verify(h, M, nb, ds, removed); hashlist_free(h); if (chance(1, 20)) hashlist_free(0); if (n >= 2) nontrivial();
}
// one bucket beyond 64 Ki values
static void hlhuge() {
  u32 nb = oneof<u32>({1, 2, 3}), ds = oneof<u32>({1, 4, 8}); hashlist *h = hashlist_new(nb, ds); CHECK(h, "hashlist_new failed"); std::map<u32, V> M; size_t n = 66000 + draw(20000); u64 base = draw(1u << 30); note("buckets %u datasize %u values %zu", nb, ds, n);
  for (size_t i = 0; i < n; i++) { u32 hash = (u32)(i % 50 ? 5 : i); std::string v(ds, 0); gfill(&v[0], ds, base + i); CHECK(hashlist_add(h, hash, &v[0]) == 0, "hashlist_add"); M[hash % nb].push_back(v); }
  verify(h, M, nb, ds, false); hashlist_free(h); nontrivial(); LABEL("more-than-64Ki-values");
}
static void kvhuge() {
  sblist *l = kvs_new(oneof<size_t>({0, 64})); size_t n = 65600 + draw(1000); std::vector<Buf *> b; for (size_t i = 0; i < n; i++) { char k[16]; int z = snprintf(k, sizeof k, "k%zu", i); b.push_back(new Buf(std::string(k, z))); CHECK(kvs_add(l, b[i]->p, b[i]->n, (void *)(uintptr_t)(i + 1)) == 1, "kv_add"); }
  for (int i = 0; i < 10; i++) { size_t p = i & 1 ? draw(n - 1) : 65530 + draw(60); Buf q(b[p]->str()); void *v = 0; CHECK(kvs_find(l, q, q.n, &v) == 1 && v == (void *)(uintptr_t)(p + 1), "kv_find of key %zu of %zu", p, n); } kvs_free(l); for (auto x : b) delete x; nontrivial();
}
static void hlsmall() { hl(false); }
static void hlbig() { hl(true); }
static void kv() {
  sblist *l = kvs_new(oneof<size_t>({0, 1, 4, 64})); CHECK(l, "kv_new"); struct E { Buf *b; void *v; }; std::vector<E> m; size_t ops = 0; bool hit = false;
  auto gk = [&] { switch (draw(4)) { case 0: return gstr(draw(4), "ab"); case 1: return std::string("a\0b", 3).substr(0, draw(3)); case 2: return std::string(draw(3), '\0'); case 3: return gbytes(sizeish(40)); default: return m.empty() ? std::string("k") : m[draw(m.size() - 1)].b->str() + (chance(1, 2) ? std::string(1, (char)draw(1)) : ""); } };
  while (more(25) && ops++ < 150) {
    std::string k = gk();
    switch (weighted({4, 1, 5})) {
    case 0: { Buf *b = new Buf(k); void *v = (void *)(uintptr_t)(1000 + ops); note("add %s", show(k, 20).c_str()); CHECK(kvs_add(l, b->p, b->n, v) == 1, "kv_add"); m.push_back({b, v}); break; }
    case 1: { Buf *b = new Buf(k); void *v = (void *)(uintptr_t)(5000 + ops); size_t p = draw(m.size()); note("set@%zu %s", p, show(k, 20).c_str()); int r = kvs_set(l, p, b->p, b->n, v); if (p < m.size()) { CHECK(r == 1, "kv_set"); delete m[p].b; m[p] = {b, v}; } else { CHECK(r == 0, "kv_set beyond the end"); delete b; } break; }
    default: { Buf q(k); char *qp = q.p; size_t qn = q.n; if (!m.empty() && chance(1, 4)) { const Buf *e = m[draw(m.size() - 1)].b; size_t o = chance(2, 3) ? 0 : draw(e->n); qn = draw(e->n - o); qp = e->p + o; k = std::string(qp, qn); LABEL("kv-slice"); } void *sent = (void *)0x77, *v = sent; int r = kvs_find(l, qp, qn, &v); const E *e = 0; for (auto &x : m) if (x.b->str() == k) { e = &x; break; } note("find %s", show(k, 20).c_str()); CHECK(r == (e ? 1 : 0), "kv_find(%s) returned %d, expected %d", show(k).c_str(), r, e ? 1 : 0); CHECK(v == (e ? e->v : sent), "kv_find(%s) delivered the wrong value", show(k).c_str()); if (e) { hit = true; LABEL("kv-hit"); } else LABEL("kv-miss"); }
    }
    CHECK(kvs_size(l) == m.size() && kvs_null(l, m.size()), "size"); for (size_t i = 0; i < m.size(); i++) CHECK(kvs_key(l, i) == m[i].b->p && kvs_ksize(l, i) == m[i].b->n && kvs_val(l, i) == m[i].v, "entry %zu", i);
  }
  void *v; for (int i = 0; i < 3; i++) CHECK(kvs_find_null(l, i, &v) == 0, "kv_find with a NULL argument");
  kvs_free(l); for (auto &x : m) delete x.b; if (hit) nontrivial();
}
Check the_check = {"C07", "random additions (and removals from returned buckets) over bucket counts 1..70000 with hash patterns (colliding, dense, extreme), all buckets and both iterators compared with the model after every step; random key/value lists with binary and prefix-related keys; non-trivial: at least 2 operations (kv: at least one successful lookup)",
  {{"hashlist", hlsmall, 60000, 2000000, LEAK | FUZZ}, {"hashlist-big", hlbig, 200, 4000, LEAK}, {"hashlist-huge", hlhuge, 24, 300, LEAK}, {"kvlist-huge", kvhuge, 8, 60, LEAK}, {"kvlist", kv, 150000, 4000000, LEAK | FUZZ}}};
