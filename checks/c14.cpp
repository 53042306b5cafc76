// C14: CRC-32 and CRC-32C
#include "pbt.hpp"
#include <memory>
#include <sys/mman.h>
#include "c13_ops.h"
#include "refhash.hpp"
static const uint32_t POLY[2] = {0xedb88320u, 0x82f63b78u};
static void init() { static bool d; if (!d) { CRC32_InitTables(); CRC32C_InitTables(); d = true; } }
static void upd(int v, void *c, const uint8_t *p, size_t n) { v ? CRC32C_Update(c, p, n) : CRC32_Update(c, p, n); }
static uint32_t fin(int v, void *c) { Buf b(4); v ? CRC32C_Final(b.u(), c) : CRC32_Final(b.u(), c); return b.u()[0] | b.u()[1] << 8 | b.u()[2] << 16 | (uint32_t)b.u()[3] << 24; }
static void chunks() {
  init(); size_t k = 1 + draw(3); struct S { int v; std::string m; size_t pos = 0; std::unique_ptr<Buf> c; int upds = 0; }; std::vector<S> v(k); bool multi = false, both = false; for (auto &s : v) { s.v = (int)draw(1); s.m = gbytes(sizenear(chance(1, 10) ? 5000 : 200, {3, 4, 5, 7, 8, 9, 64})); s.c.reset(new Buf(s.v ? s_crcc_size() : s_crc_size(), (int)draw(255))); int r = s.v ? CRC32C_Init(s.c->p) : CRC32_Init(s.c->p); CHECK(r == 0, "Init returned %d", r); if (s.v != v[0].v) both = true; note("%s of %s", s.v ? "CRC-32C" : "CRC-32", show(s.m, 40).c_str()); }
  for (size_t steps = 0; steps < 200; steps++) { size_t i = draw(k - 1); if (v[i].pos == v[i].m.size() && v[i].upds) for (i = 0; i < k && v[i].pos == v[i].m.size() && v[i].upds; i++) {} if (i == k) break; S &s = v[i]; size_t rem = s.m.size() - s.pos, n = chance(1, 8) ? 0 : chance(1, 3) ? rem : draw(rem); if (steps > 150) n = rem; size_t off = draw(7); Buf b(off + n); memcpy(b.p + off, s.m.data() + s.pos, n); std::string im = b.str(); note("update %zu at offset %zu", n, off); upd(s.v, s.c->p, b.u() + off, n); CHECK(b.str() == im, "input modified"); if (n && s.pos) multi = true; s.pos += n; s.upds++; if (chance(1, 10)) { draw(1) ? CRC32_InitTables() : CRC32C_InitTables(); LABEL("tables initialised again midway"); } }
  for (auto &s : v) { uint32_t got = fin(s.v, s.c->p), want = ref::crc(s.m.data(), s.pos, POLY[s.v]); CHECK(got == want, "%s of %zu bytes is %08x, expected %08x", s.v ? "CRC-32C" : "CRC-32", s.pos, got, want); } if (multi) nontrivial(); if (both) LABEL("both variants interleaved");
}
static void lengths() { init(); u64 i = case_index(); size_t n = i / 2 < 300 ? i / 2 : 300 + (i / 2 - 300) * 53; int v = (int)(i & 1); std::string m(n, 0); gfill(&m[0], n, g_seed * 7919 + i); Buf b(m), c(s_crc_size()); v ? CRC32C_Init(c.p) : CRC32_Init(c.p); upd(v, c.p, b.u(), n); uint32_t got = fin(v, c.p), want = ref::crc(m.data(), n, POLY[v]); note("variant %d length %zu", v, n); nontrivial(); CHECK(got == want, "CRC of %zu bytes is %08x, expected %08x", n, got, want); }
static void pairs() { // all two-byte messages, both variants: covers every entry of the first table from every reachable low byte
  init(); u64 i = case_index(); int v = (int)(i >> 16); unsigned char m[2] = {(unsigned char)(i >> 8), (unsigned char)i}; Buf b(m, 2), c(s_crc_size()); v ? CRC32C_Init(c.p) : CRC32_Init(c.p); upd(v, c.p, b.u(), 2); uint32_t got = fin(v, c.p), want = ref::crc(m, 2, POLY[v]); note("variant %d bytes %02x %02x", v, m[0], m[1]); nontrivial(); CHECK(got == want, "CRC is %08x, expected %08x", got, want); }
static void words() { // 4-byte messages hitting every index of all four tables
  init(); u64 i = case_index(); int v = (int)(i & 1), pos = (int)(i >> 1) & 3; unsigned char m[4] = {0, 0, 0, 0}; m[pos] = (unsigned char)(i >> 3); Buf b(m, 4), c(s_crc_size()); v ? CRC32C_Init(c.p) : CRC32_Init(c.p); upd(v, c.p, b.u(), 4); uint32_t got = fin(v, c.p), want = ref::crc(m, 4, POLY[v]); note("variant %d byte %d = %02x", v, pos, m[pos]); nontrivial(); CHECK(got == want, "CRC is %08x, expected %08x", got, want); }
static void huge() { // more than 2^32 bytes in one call equals the same data in chunks below 2^31
  init(); int v = (int)case_index() & 1; size_t n = case_index() < 2 ? (1ull << 32) + 12345 : (1ull << 31) + 77; note("variant %d, %zu bytes", v, n); nontrivial(); uint8_t *p = (uint8_t *)mmap(0, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) return; p[0] = 0x80; p[n / 2] = 0x77; p[n - 1] = 1; Buf a(s_crc_size()), c(s_crc_size()); v ? CRC32C_Init(a.p) : CRC32_Init(a.p); v ? CRC32C_Init(c.p) : CRC32_Init(c.p); upd(v, a.p, p, n); for (size_t q = 0; q < n;) { size_t k = n - q < 1000000007 ? n - q : 1000000007; upd(v, c.p, p + q, k); q += k; } uint32_t x = fin(v, a.p), y = fin(v, c.p); munmap(p, n); CHECK(x == y, "CRC of %zu bytes in one call is %08x, in chunks %08x", n, x, y); }
Check the_check = {"C14", "random messages at random alignments split into random updates over 1..4 interleaved contexts of both variants, with table re-initialisation midway, against a bit-wise reference; all two-byte messages, all single-byte positions of 4-byte words and lengths 0..299 plus a lattice enumerated; 2 and 4 GiB inputs in one call against chunks; non-trivial: at least two non-empty updates of one message (enumerated legs: every case)",
  {{"huge", huge, 4, 4, ENUM | SLOW}, {"lengths", lengths, 1600, 4000, ENUM | LEAK}, {"pairs", pairs, 131072, 131072, ENUM}, {"words", words, 2048, 2048, ENUM}, {"chunks", chunks, 250000, 5000000, FUZZ | LEAK}, {"chunks-long", chunks, 2000, 30000, LEAK | LONGS}}};
