// C05: work per tlist operation, counted in basic blocks of the library (compiler trace-pc callback)
#include "pbt.hpp"
#include <cmath>
#include <algorithm>
extern "C" {
#include "tlist.h"
}
static u64 blocks; static char *lowest;
extern "C" __attribute__((no_sanitize("all"))) void __sanitizer_cov_trace_pc(void) { blocks++; char c; if (&c < lowest) lowest = &c; }
static void go(size_t nmin, size_t nmax) {
  size_t n = nmin + draw(nmax - nmin); int pat = (int)draw(8); u64 x = draw(1 << 30) * 2 + 1; note("n=%zu pattern %d", n, pat);
  auto rnd = [&](size_t k) { u64 r; gfill(&r, 8, x++); return k ? (size_t)(r % k) : 0; };
  tlist *t = tlist_new(sizeof(u32)); double lg; u64 worstavg = 0; char *base = (char *)__builtin_frame_address(0); lowest = base; size_t size = 0; u32 v = 0; size_t focus = 0;
  // constant: measured on the pinned code the average is about 10-14 blocks per level of log2 N; the limit is several times that
  auto limit = [&](size_t k) { lg = std::log2((double)k + 2); return 100.0 * lg + 300; };
  u64 acc = 0; size_t cnt = 0; const char *phase = "build";
  auto op = [&](u64 b) { acc += b; cnt++; };
  auto flush = [&] { if (cnt >= 200) { double avg = (double)acc / cnt; CHECK(avg <= limit(size), "%s: %.0f basic blocks per operation on average over %zu operations at %zu items (limit %.0f)", phase, avg, cnt, size, limit(size)); worstavg = std::max<u64>(worstavg, (u64)avg); } acc = 0; cnt = 0; };
  for (size_t i = 0; i < n; i++) {
    size_t p; switch (pat) { case 0: p = size; break; case 1: p = 0; break; case 2: p = rnd(size + 1); break; case 3: p = size / 2; break; case 4: if (i % 64 == 0) focus = rnd(size + 1); p = std::min(focus, size); break; case 5: p = i % 2 ? 0 : size; break; case 6: p = size ? size - 1 : 0; break; case 7: p = (size_t)(i * 40503u) % (size + 1); break; default: p = std::min<size_t>(size, 1); }
    blocks = 0; int r = tlist_insert(t, p, &v); op(blocks); CHECK(r == 1, "insert failed"); size++; v++;
    if ((i & 1023) == 1023 || (i & (i + 1)) == 0) flush();
  }
  flush(); phase = "indexed read";
  for (int seq = 0; seq < 3; seq++) { size_t k = std::min<size_t>(size, 3000); for (size_t i = 0; i < k; i++) { size_t p = seq == 0 ? rnd(size) : seq == 1 ? i : size - 1 - i; blocks = 0; void *q = tlist_get(t, p); op(blocks); CHECK(q, "get"); } flush(); }
  phase = "alternating delete and insert";
  for (size_t i = 0; i < 3000; i++) { size_t p = pat == 0 ? size - 1 : pat == 1 ? 0 : pat == 3 ? size / 2 : rnd(size); blocks = 0; CHECK(tlist_delete(t, p) == 1, "delete"); op(blocks); size--; p = pat == 1 ? size : pat == 0 ? 0 : rnd(size + 1); blocks = 0; tlist_insert(t, p, &v); op(blocks); size++; v++; }
  flush(); phase = "indexed read after churn"; for (size_t i = 0; i < 1000; i++) { blocks = 0; tlist_get(t, rnd(size)); op(blocks); } flush();
  phase = "drain"; size_t leave = draw(size);
  while (size > leave) { size_t p = pat == 0 ? size - 1 : pat == 1 ? 0 : pat == 3 ? size / 2 : pat == 5 ? (size % 2 ? 0 : size - 1) : rnd(size); blocks = 0; CHECK(tlist_delete(t, p) == 1, "delete"); op(blocks); size--; if ((size & 1023) == 0) flush(); }
  flush(); blocks = 0; tlist_free(t); if (leave > 300) CHECK((double)blocks / leave <= limit(leave) + 40, "tlist_free: %.0f basic blocks per item at %zu items", (double)blocks / leave, leave);
  CHECK(base - lowest < (1 << 20), "an operation used %zu bytes of stack at %zu items", (size_t)(base - lowest), n); nontrivial();
  if (describing()) note("worst average %llu blocks, stack %zu bytes", (unsigned long long)worstavg, (size_t)(base - lowest));
  if (n > 100000) LABEL("n>100000"); switch (pat) { case 0: LABEL("append"); break; case 1: LABEL("prepend"); break; case 2: LABEL("random"); break; case 4: LABEL("clustered"); break; default: LABEL("other pattern"); }
}
static void mid() { go(300, 12000); }
static void large() { go(60000, g_thorough ? 600000 : 260000); }
Check the_check = {"C05", "random sizes and position patterns; basic blocks executed inside the library are counted per operation and averaged over windows of at least 200 operations; non-trivial: every case (at least 300 items built, read, churned and drained)",
  {{"medium", mid, 1500, 20000, 0}, {"large", large, 64, 600, 0}}};
