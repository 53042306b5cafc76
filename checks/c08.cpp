// C08: pool allocator (10 geometries) and guard_alloc
#include "pbt.hpp"
#include <algorithm>
#include <map>
#include <set>
#include <cerrno>
#include <fcntl.h>
#include <unistd.h>
#include <sys/mman.h>
#include "c08_ops.h"
extern "C" { extern const c08_ops c08_ssa0, c08_ssa1, c08_ssa2, c08_ssa3, c08_ssa4, c08_ssa5, c08_ssa6, c08_ssa7, c08_ssa8, c08_ssa9; void *ga_alloc(size_t); void ga_free(void *, size_t);
void *__real_mmap(void *, size_t, int, int, int, off_t); int __real_munmap(void *, size_t); int __real_mprotect(void *, size_t, int); }
static bool tracking; static int failmmap, failmprot; static std::set<uintptr_t> pages; static const char *gerr;
extern "C" void *__wrap_mmap(void *a, size_t n, int pr, int fl, int fd, off_t o) { if (!tracking) return __real_mmap(a, n, pr, fl, fd, o); if (failmmap) { errno = ENOMEM; return MAP_FAILED; } void *r = __real_mmap(a, n, pr, fl, fd, o); if (r != MAP_FAILED) for (uintptr_t p = (uintptr_t)r; p < (uintptr_t)r + n; p += 4096) pages.insert(p >> 12); return r; }
extern "C" int __wrap_munmap(void *a, size_t n) { if (!tracking) return __real_munmap(a, n); if ((uintptr_t)a & 4095 || !n) { errno = EINVAL; return -1; } for (uintptr_t p = (uintptr_t)a & ~4095ul; p < (uintptr_t)a + n; p += 4096) if (!pages.erase(p >> 12)) { gerr = "a page that was not allocated (or is already free) is unmapped"; return 0; } return __real_munmap(a, n); }
extern "C" int __wrap_mprotect(void *a, size_t n, int pr) { if (!tracking) return __real_mprotect(a, n, pr); if (failmprot) { errno = ENOMEM; return -1; } for (uintptr_t p = (uintptr_t)a; p < (uintptr_t)a + n; p += 4096) if (!pages.count(p >> 12)) { gerr = "protection of a foreign page is changed"; return 0; } return __real_mprotect(a, n, pr); }

static void pool(bool longrun) {
  static const c08_ops *cfg[] = {&c08_ssa0, &c08_ssa1, &c08_ssa2, &c08_ssa3, &c08_ssa4, &c08_ssa5, &c08_ssa6, &c08_ssa7, &c08_ssa8, &c08_ssa9}; const c08_ops &o = *cfg[draw(9)]; int st = (int)draw(1); char *pl = (char *)o.mk(st); note("maxelem %zu elemsize %zu", o.max, o.esz);
  std::map<char *, u64> live; std::vector<char *> order, freed; size_t ops = 0, maxops = longrun ? 6000 : std::min<size_t>(o.max * 3 + 40, 400); u64 ctr = 0; char *anchor = 0; bool full = false, hole = false; int bias = (int)draw(2);
  auto checkp = [&](char *p) { std::string e(o.esz, 0); gfill(&e[0], o.esz, live[p]); CHECK(!memcmp(p, e.data(), o.esz), "contents of a live element changed"); };
  auto alloc = [&](size_t sz) {
    char *p = (char *)o.al(pl, st, sz); bool expect = sz <= o.esz && live.size() < o.max; note("alloc %zu", sz);
    if (!expect) { CHECK(!p, "allocation of %zu bytes with %zu of %zu elements live succeeded", sz, live.size(), o.max); if (live.size() == o.max) { full = true; LABEL("pool-full"); } else LABEL("oversized"); return; }
    CHECK(p, "allocation failed with only %zu of %zu elements live", live.size(), o.max); CHECK(p >= pl && p + o.esz <= pl + o.poolsize, "element outside the pool"); if (!anchor) anchor = p; CHECK((p > anchor ? p - anchor : anchor - p) % o.esz == 0, "element not on an element boundary");
    CHECK(!live.count(p), "element handed out twice"); auto n = live.upper_bound(p); if (n != live.end()) CHECK(p + o.esz <= n->first, "elements overlap"); if (n != live.begin()) { --n; CHECK(n->first + o.esz <= p, "elements overlap"); }
    CHECK(((live.empty() ? p : std::max(p, live.rbegin()->first)) - (live.empty() ? p : std::min(p, live.begin()->first))) <= (ptrdiff_t)((o.max - 1) * o.esz), "elements span more than the pool"); if (std::find(freed.begin(), freed.end(), p) != freed.end()) { LABEL("reused"); }
    live[p] = ++ctr; gfill(p, o.esz, ctr); order.push_back(p);
  };
  while (ops < maxops && more(longrun ? 3000 : (unsigned)std::min<size_t>(o.max * 2 + 10, 150))) {
    ops++;
    switch (weighted({bias == 0 ? 14u : 8u, 1, bias == 1 ? 12u : 7u, 2})) {
    case 0: alloc(chance(1, 3) ? draw(o.esz) : o.esz); break;
    case 1: alloc(o.esz + 1 + (chance(1, 2) ? draw(5000) : draw(2))); break;
    case 2: if (!order.empty()) { size_t i = bias == 2 ? order.size() - 1 : draw(order.size() - 1); char *p = order[i]; note("free #%zu", i); checkp(p); if (i + 1 < order.size()) hole = true; if (draw(1)) o.rel(pl, st, p); else CHECK(!o.relnull(pl, st, p), "SSNULL"); order.erase(order.begin() + i); live.erase(p); if (freed.size() < 50) freed.push_back(p); } break;
    default: { char *p = 0; LABEL("bogus-free"); switch (draw(6)) { case 0: p = 0; break; case 1: if (!freed.empty()) { p = oneof(freed); if (live.count(p)) p = 0; } break; case 2: if (o.esz > 1 && !order.empty()) p = oneof(order) + 1 + draw(o.esz - 2); break; case 3: if (anchor) p = anchor + o.esz * o.max * (1 + draw(3)); break; case 4: if (anchor) p = anchor - o.esz * (o.max + draw(1000)); break; case 5: p = (char *)&p; break; default: p = (char *)(uintptr_t)anyu64(); if (p >= pl && p < pl + o.poolsize) p = 0; }
      note("bogus free"); o.rel(pl, st, p); } }
    if ((ops & 15) == 0 || ops < 20) for (auto &x : live) checkp(x.first);
  }
  for (auto &x : live) checkp(x.first);
  // whatever happened, exactly max - live more elements are available
  if (chance(1, 2) || longrun) { size_t more_ = o.max - live.size(); for (size_t i = 0; i < more_; i++) alloc(o.esz); CHECK(live.size() == o.max, "pool"); alloc(o.esz); alloc(1); for (auto &x : live) checkp(x.first); LABEL("filled-up"); while (!order.empty()) { size_t i = draw(order.size() - 1); checkp(order[i]); o.rel(pl, st, order[i]); live.erase(order[i]); order[i] = order.back(); order.pop_back(); if (!longrun && chance(1, 4)) { alloc(o.esz); if (ops++ > 3000) break; } } }
  o.fr(pl, st); if (hole || full) nontrivial();
}
static void pool_small() { pool(false); }
static void pool_long() { pool(true); }
static bool accessible(char *p) { static int fd = -1; if (fd < 0) { int e[2]; if (pipe(e)) return false; fd = e[1]; fcntl(fd, F_SETFL, O_NONBLOCK); fcntl(e[0], F_SETFL, O_NONBLOCK); static int rfd; rfd = e[0]; (void)rfd; } ssize_t r = write(fd, p, 1); if (r == 1) { return true; } if (errno == EFAULT) return false; close(fd); fd = -1; return accessible(p); }
static void guard() {
  struct B { char *p; size_t n; u64 s; }; std::vector<B> v; pages.clear(); gerr = 0; size_t ops = 0; u64 ctr = 0; failmmap = failmprot = 0;
  auto chk = [&](B &b) { std::string e(b.n, 0); gfill(&e[0], b.n, b.s); CHECK(!memcmp(b.p, e.data(), b.n), "contents of a %zu-byte block changed", b.n); };
  while (more(12) && ops++ < 100) {
    if (v.empty() || chance(3, 5)) {
      size_t n = sizenear(chance(1, 6) ? 200000 : 20000, {0, 4096, 8192, 12288, 65536, 4096 * 40}); if (chance(1, 3)) n = 4096 * draw(6) + (size_t)range(0, 3); if (chance(1, 6)) n = 0; if (chance(1, 40)) { n = chance(1, 2) ? (size_t)-1 - draw(20000) : ((size_t)1 << (48 + draw(15))) + draw(9000); LABEL("huge-size"); tracking = true; char *h = (char *)ga_alloc(n); tracking = false; note("guard_alloc(%zu)", n); CHECK(!h, "guard_alloc(%zu) succeeded", n); CHECK(!gerr, "guard_alloc(%zu): %s", n, gerr); continue; } bool fm = chance(1, 12), fp = chance(1, 12); failmmap = fm; failmprot = fp; size_t pb = pages.size(); tracking = true; char *p = (char *)ga_alloc(n); tracking = false; failmmap = failmprot = 0; note("guard_alloc(%zu)%s", n, fm ? " mmap fails" : fp ? " mprotect fails" : "");
      CHECK(!gerr, "guard_alloc(%zu): %s", n, gerr); if (fm || fp) { LABEL("injected-failure"); if (!p) { CHECK(pages.size() == pb, "failed guard_alloc keeps %zu pages", pages.size() - pb); continue; } } // a call that succeeds nevertheless has to deliver all the same
      CHECK(p, "guard_alloc(%zu) failed", n); if (n) { CHECK(accessible(p) && accessible(p + n - 1), "block of %zu bytes is not accessible", n); } CHECK(!accessible(p + n), "the byte after a block of %zu bytes is accessible", n); for (int i = 0; i < 3; i++) CHECK(!accessible(p + n + draw(4095)), "the guard page of a %zu-byte block is accessible", n); CHECK(((uintptr_t)p + n) % 4096 == 0, "guard does not start at the end of the block");
      for (auto &b : v) CHECK(p + n + 4096 <= b.p || b.p + b.n + 4096 <= p || n == 0 || b.n == 0, "blocks overlap"); gfill(p, n, ++ctr); v.push_back({p, n, ctr}); if (n % 4096 == 0) LABEL("page-multiple"); nontrivial();
    } else { size_t i = draw(v.size() - 1); chk(v[i]); note("guard_free #%zu (%zu)", i, v[i].n); tracking = true; ga_free(v[i].p, v[i].n); tracking = false; CHECK(!gerr, "guard_free(%zu): %s", v[i].n, gerr); v.erase(v.begin() + i); for (auto &b : v) chk(b); }
  }
  for (auto &b : v) { chk(b); tracking = true; ga_free(b.p, b.n); tracking = false; CHECK(!gerr, "guard_free(%zu): %s", b.n, gerr); } CHECK(pages.empty(), "%zu pages remain mapped after everything was freed", pages.size());
}
Check the_check = {"C08", "random alloc/free/bogus-free histories over 10 pool geometries (2..2048 elements, 1..4096 bytes) with content patterns in every live element; random guard_alloc histories with page accounting and injected mmap/mprotect failures; non-trivial: a pool history with a hole in the middle or a full pool, a guard history with at least one block",
  {{"pool", pool_small, 120000, 3000000, LEAK}, {"pool-long", pool_long, 400, 8000, LEAK}, {"guard", guard, 60000, 1000000, 0}}};
