// C09: bit arrays, byte order helpers, character classes
#include "pbt.hpp"
#include "c09_ops.h"
#include "strlib.h"
#include <map>
static void bits() {
  size_t n = sizenear(chance(1, 10) ? 20000 : 300, {0, 8, 16, 64, 256}); size_t bytes = s_ba_size(n); CHECK(bytes == (n + 7) / 8 && s_ba_size_expr(n) == bytes, "BA_SIZE_REQUIRED(%zu) = %zu", n, bytes); note("%zu bits", n);
  if (!n) return; Buf b(bytes, 0); std::vector<bool> m(n); std::string init = gbytes(bytes); memcpy(b, init.data(), bytes); auto raw = [&](size_t i) { return (init[i / 8] >> (i % 8)) & 1; };
  for (size_t i = 0; i < n; i++) m[i] = raw(i); std::string img = init; size_t ops = 0, changes = 0;
  while (more(30) && ops++ < 300) {
    size_t i = chance(1, 4) ? n - 1 - draw(n > 8 ? 8 : n - 1) : draw(n - 1); int v = (int)draw(1); if (m[i] != !!v) changes++;
    switch (draw(2)) { case 0: if (v) s_ba_true(b.u(), i); else s_ba_false(b.u(), i); note("%s %zu", v ? "true" : "false", i); break; default: { int c = v ? (chance(1, 2) ? 1 : (int)(1u << draw(31))) : 0; s_ba_set(b.u(), i, c); note("set %zu = %d", i, c); } }
    m[i] = v; unsigned char &e = (unsigned char &)img[i / 8]; e = (unsigned char)((e & ~(1u << (i % 8))) | (v << (i % 8)));
    CHECK(!memcmp(b, img.data(), bytes), "writing bit %zu = %d changed other bits", i, v); size_t j = draw(n - 1); int g = s_ba_get(b.u(), j); CHECK(g == (int)m[j], "bit %zu reads %d, was last set to %d", j, g, (int)m[j]); CHECK(s_ba_get_expr(b.u(), j) == (int)m[j], "bit %zu through an expression", j);
    size_t k = draw(bytes * 8 - 1); int want = ((unsigned char)img[k / 8] >> (7 - k % 8)) & 1; CHECK(s_ba_getsw(b.u(), k) == want && s_ba_getsw_expr(b.u(), k) == want, "swapped read of bit %zu", k);
  }
  for (size_t i = 0; i < n; i++) CHECK(s_ba_get(b.u(), i) == (int)m[i], "bit %zu", i); if (changes > 1) nontrivial();
}
// index expressions of other types
static void types() {
  static const size_t MX[] = {2147483647, 4294967295u, 1ull << 40, 1ull << 40, 32767, 255}; int t = (int)draw(5); size_t cap = 40000; if (MX[t] < cap) cap = MX[t]; size_t n = 1 + draw(cap - 1); size_t bytes = (n + 7) / 8; CHECK(s_ba_size_ty(n, t) == bytes, "BA_SIZE_REQUIRED(%zu) = %zu with index type %d", n, s_ba_size_ty(n, t), t); note("%zu bits, index type %d", n, t);
  Buf b(bytes, 0); std::string img = gbytes(bytes); memcpy(b, img.data(), bytes); nontrivial();
  for (int q = 0; q < 20; q++) { size_t i = chance(1, 4) ? n - 1 - draw(n > 8 ? 7 : n - 1) : draw(n - 1); int v = (int)draw(3); note("%zu = %d", i, v & 1); s_ba_put_ty(b.u(), i, t, v); unsigned char &e = (unsigned char &)img[i / 8]; e = (unsigned char)((e & ~(1u << (i % 8))) | ((v & 1) << (i % 8))); CHECK(!memcmp(b, img.data(), bytes), "writing bit %zu = %d with index type %d", i, v & 1, t);
    size_t j = draw(n - 1); CHECK(s_ba_get_ty(b.u(), j, t) == ((unsigned char)img[j / 8] >> (j % 8) & 1), "bit %zu read with index type %d", j, t); CHECK(s_ba_getsw_ty(b.u(), j / 8 * 8, t) == ((unsigned char)img[j / 8] >> 7 & 1), "swapped bit %zu read with index type %d", j / 8 * 8, t); }
}
// bit positions beyond 2^31, 2^32 and 2^35
static void huge() {
  size_t n = (std::vector<size_t>{(1ull << 31) + 77, (1ull << 32) + 77, (1ull << 33) + 13, (1ull << 35) + 5})[case_index() % 4], bytes = n / 8 + 1; note("%zu bits", n); nontrivial(); CHECK(s_ba_size(n) == bytes && s_ba_size_expr(n) == bytes && s_ba_size_ty(n, 3) == bytes && s_ba_size_ty(n, 2) == bytes, "BA_SIZE_REQUIRED(%zu) = %zu", n, s_ba_size(n));
  CHECK(s_ba_size(n * 8 - 5) == n, "BA_SIZE_REQUIRED(%zu) = %zu", n * 8 - 5, s_ba_size(n * 8 - 5)); CHECK(s_ba_size(~(size_t)0) == (size_t)1 << 61, "BA_SIZE_REQUIRED(SIZE_MAX) = %zu", s_ba_size(~(size_t)0));
  Huge h(bytes); std::map<size_t, unsigned char> img; std::vector<size_t> at = {0, 7, 8, 70, n - 1, n - 2, n - 71, n / 2, n / 2 - 1, (1ull << 31) - 1, 1ull << 31, (1ull << 31) + 1}; if (n > 1ull << 32) { at.push_back((1ull << 32) - 1); at.push_back(1ull << 32); at.push_back((1ull << 32) + 8); } for (int i = 0; i < 40; i++) at.push_back(draw(n - 1));
  for (size_t i : at) img[i / 8] = 0;
  for (size_t q = 0; q < at.size() * 3; q++) { size_t i = at[draw(at.size() - 1)]; if (q < at.size()) i = at[q]; int v = q < at.size() ? 1 : (int)draw(1); unsigned char *p = (unsigned char *)h.p; switch (draw(3)) { case 0: if (v) s_ba_true(p, i); else s_ba_false(p, i); break; case 1: s_ba_set(p, i, v << 9); break; case 2: s_ba_put_ty(p, i, 2, v); break; default: s_ba_put_ty(p, i, 3, v | 2); }
    unsigned char &e = img[i / 8]; e = (unsigned char)((e & ~(1u << (i % 8))) | (v << (i % 8))); for (auto &x : img) CHECK(p[x.first] == x.second, "after writing bit %zu = %d of %zu byte %zu is %02x, not %02x", i, v, n, x.first, p[x.first], x.second);
    size_t j = at[draw(at.size() - 1)]; int want = img[j / 8] >> (j % 8) & 1; CHECK(s_ba_get(p, j) == want && s_ba_get_expr(p, j) == want && s_ba_get_ty(p, j, 2) == want && s_ba_get_ty(p, j, 3) == want && (j > 0xffffffffu || s_ba_get_ty(p, j, 1) == want), "bit %zu of %zu reads wrong", j, n); want = img[j / 8] >> (7 - j % 8) & 1; CHECK(s_ba_getsw(p, j) == want && s_ba_getsw_expr(p, j) == want && s_ba_getsw_ty(p, j, 3) == want, "swapped bit %zu of %zu", j, n); }
}
static void order() {
  u64 x = chance(1, 3) ? (u64)anyu32() << 32 | anyu32() : anyu64(); note("x = %llx", (unsigned long long)x); u64 e64 = 0; for (int i = 0; i < 8; i++) e64 |= ((x >> (8 * i)) & 255) << (56 - 8 * i); CHECK(s_swap64(x) == e64, "byteswap64(%llx) = %llx", (unsigned long long)x, (unsigned long long)s_swap64(x)); CHECK(s_swap64(s_swap64(x)) == x, "byteswap64 does not invert itself");
  u32 y = anyu32(); u32 e32 = y << 24 | (y & 0xff00) << 8 | (y >> 8 & 0xff00) | y >> 24; CHECK(s_swap32(y) == e32, "byteswap32(%x) = %x", y, s_swap32(y)); CHECK(s_swap32i((int)y) == e32, "byteswap32((int)%x) = %x", y, s_swap32i((int)y)); CHECK(s_swap32(s_swap32(y)) == y, "byteswap32 does not invert itself");
  unsigned char le[4]; u32 l = s_le32(y); memcpy(le, &l, 4); CHECK(le[0] == (y & 255) && le[1] == (y >> 8 & 255) && le[2] == (y >> 16 & 255) && le[3] == y >> 24, "le32(%x)", y);
  long long a = (long long)anyu64(), c = chance(1, 4) ? a : (long long)anyu64(); CHECK(s_min(a, c) == (a < c ? a : c) && s_max(a, c) == (a > c ? a : c), "MIN/MAX(%lld, %lld)", a, c);
  if (e64 != x) nontrivial();
}
static void all16() {
  unsigned v = (unsigned)case_index(); note("16-bit value %x", v); uint16_t x = (uint16_t)v, r = s_swap16(x); CHECK(r == (uint16_t)(x << 8 | x >> 8), "byteswap16(%x) = %x", x, r); uint16_t l = s_le16(x); unsigned char le[2]; memcpy(le, &l, 2); CHECK(le[0] == (x & 255) && le[1] == x >> 8, "le16(%x)", x); unsigned one = 1; CHECK(s_is_le() == *(unsigned char *)&one, "IS_LITTLE_ENDIAN"); nontrivial();
}
static void chars() {
  unsigned v = (unsigned)case_index(); Buf b(1); b[0] = (char)v; char c = (char)v; note("byte %u", v); bool uc = v >= 'A' && v <= 'Z', lc = v >= 'a' && v <= 'z', num = v >= '0' && v <= '9'; nontrivial();
  auto chk = [&](const char *n, bool got, bool want) { CHECK(got == want, "%s(byte %u) = %d", n, v, got); }; auto in = [&](const char *s) { return v && strchr(s, (int)v) != nullptr; };
  chk("isUpper", isUpper(b), uc); chk("isLower", isLower(b), lc); chk("isNumber", isNumber(b), num); chk("isLetter", isLetter(b), uc || lc); chk("isAlpha", isAlpha(b), uc || lc || num); CHECK(b[0] == c, "a predicate changed the byte");
  int hv = hexval(b), want = num ? (int)v - '0' : v >= 'a' && v <= 'f' ? (int)v - 'a' + 10 : v >= 'A' && v <= 'F' ? (int)v - 'A' + 10 : 0; CHECK(hv == want, "hexval(byte %u) = %d", v, hv);
  makelower(b); CHECK((unsigned char)b[0] == (uc ? v + 32 : v), "makelower(byte %u) = %u", v, (unsigned char)b[0]); b[0] = c; makeupper(b); CHECK((unsigned char)b[0] == (lc ? v - 32 : v), "makeupper(byte %u) = %u", v, (unsigned char)b[0]);
  chk("STRSWITCH_LETTERS_UC", s_sw_uc(c), uc); chk("STRSWITCH_LETTERS_LC", s_sw_lc(c), lc); chk("STRSWITCH_LETTERS", s_sw_letters(c), uc || lc); chk("STRSWITCH_NUMBERS", s_sw_numbers(c), num); chk("STRSWITCH_ALPHA", s_sw_alpha(c), uc || lc || num); chk("STRSWITCH_MATH_OPS", s_sw_math(c), in("*/+-%="));
  bool nac = in("*/+-%= @,;.:_!$&()[]{}<>#~"), nash = in("*/+-%= @,;.:_!&()[]{}<>#~"), na = nac || in("?\"'\\"), an = uc || lc || num; chk("STRSWITCH_NON_ALPHA_C", s_sw_nac(c), nac); chk("STRSWITCH_NON_ALPHA_SH", s_sw_nash(c), nash); chk("STRSWITCH_NON_ALPHA", s_sw_na(c), na); chk("STRSWITCH_PRINTABLE", s_sw_print(c), an || na); chk("STRSWITCH_C_PRINTABLE", s_sw_cprint(c), an || nac); chk("STRSWITCH_SH_PRINTABLE", s_sw_shprint(c), an || nash);
  CHECK(s_bytem(v) == v && s_bytel(v) == v, "BYTEM/BYTEL(%u) = %u/%u", v, s_bytem(v), s_bytel(v));
}
Check the_check = {"C09", "bits: random write histories on bit arrays of 0..20000 bits against a bit-vector model and byte image (non-trivial: at least two bits changed); byte order: boundary-biased random values (non-trivial: not a palindrome), all 65536 16-bit values; index expressions of six integer types and arrays of up to 2^35 bits; characters: all 256 byte values through every predicate, conversion and strswitch set",
  {{"chars", chars, 256, 256, ENUM | LEAK}, {"all16", all16, 65536, 65536, ENUM}, {"bits", bits, 1500000, 20000000, FUZZ}, {"types", types, 100000, 2000000, FUZZ}, {"huge", huge, 4, 4, ENUM}, {"order", order, 3000000, 40000000, FUZZ}}};
