// C10: integer <-> text
#include "pbt.hpp"
#include <climits>
#include "strlib.h"
static std::string digits(u64 n, unsigned base, const char *cy) { std::string s; do { s.insert(s.begin(), cy[n % base]); n /= base; } while (n); return s; }
static const char *CY = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz";
static const char *CYL = "0123456789abcdefghijklmnopqrstuvwxyz";
static std::string dec(i64 v) { bool neg = v < 0; u64 a = neg ? 0 - (u64)v : (u64)v; return (neg ? "-" : "") + digits(a, 10, CY); }
#define SAME(call, r, b, want) do { CHECK((r) != NULL, call " returned NULL"); CHECK((r) >= b.p && (r) < b.p + b.n, call ": result is not inside the caller's buffer"); CHECK(memchr(r, 0, b.p + b.n - (r)), call ": result is not terminated inside the buffer"); CHECK(want == (r), call " = \"%s\", expected \"%s\"", r, want.c_str()); } while (0)
static u64 decval() { // powers of ten and their neighbours, else boundary-biased
  if (chance(1, 3)) { u64 p = 1; for (u64 i = draw(19); i; i--) p *= 10; p *= 1 + draw(8); return p + (u64)range(-2, 2); } return anyu64(); }
static void one32(u32 v) {
  { Buf b(12); char *r = itoa((int)v, b); SAME("itoa", r, b, dec((int)v)); } { Buf b(11); char *r = utoa(v, b); SAME("utoa", r, b, dec(v)); }
  { Buf b(12); char *r = intToString((int)v, b); SAME("intToString", r, b, dec((int)v)); Buf c(r, strlen(r)); int k = strtoint(c, c.n); CHECK(k == (int)v, "strtoint(\"%s\") = %d", r, k); i64 k64 = strtoint64(c, c.n); CHECK(k64 == (int)v, "strtoint64(\"%s\") = %lld", r, (long long)k64); }
  { Buf b(11); char *r = uintToString(v, b); SAME("uintToString", r, b, dec(v)); Buf c(r, strlen(r)); i64 k64 = strtoint64(c, c.n); CHECK(k64 == (i64)v, "strtoint64(\"%s\") = %lld", r, (long long)k64); }
}
static void v32() { u32 v = chance(1, 2) ? (u32)decval() : anyu32(); if (chance(1, 4)) v = 0 - v; note("32-bit value %u (%d)", v, (int)v); if (v >> 31) LABEL("high bit"); if (v > 9) nontrivial(); one32(v); }
static void v64() {
  u64 v = decval(); if (chance(1, 4)) v = 0 - v; note("64-bit value %llu (%lld)", (unsigned long long)v, (long long)v); if (v >> 32) nontrivial();
  { Buf b(21); char *r = int64ToString((i64)v, b); SAME("int64ToString", r, b, dec((i64)v)); Buf c(r, strlen(r)); i64 k = strtoint64(c, c.n); CHECK(k == (i64)v, "strtoint64(\"%s\") = %lld", r, (long long)k); }
  { Buf b(21); char *r = uint64ToString(v, b); SAME("uint64ToString", r, b, digits(v, 10, CY)); }
  CHECK(!int64ToString((i64)v, 0) && !uint64ToString(v, 0) && !intToString((int)v, 0) && !uintToString((u32)v, 0), "a NULL buffer must give NULL");
}
static void radix() {
  unsigned base = chance(1, 8) ? (unsigned)(chance(1, 3) ? anyu32() : draw(70)) : 2 * (1 + (unsigned)draw(30)); u64 v = chance(1, 8) ? draw(3) : decval(); if (chance(1, 3) && base > 1) { u64 p = 1; for (u64 i = draw(64); i; i--) { if (p > ~0ull / base) break; p *= base; } v = p * (1 + draw(3)) + (u64)range(-1, 1); } if (chance(1, 8)) v = 0 - v;
  int flags = (int)draw(7); bool ok = base % 2 == 0 && base >= 2 && base <= 62; size_t maxlen = chance(2, 5) ? 0 : chance(1, 40) ? sizenear(1200, {255, 256, 257, 512, 1024}) : sizeish(80); bool neg = (flags & NTS_SIGNED_TYPE) && v >> 63; u64 a = neg ? 0 - v : v; note("numberToString(%llu, base %u, maxlen %zu, flags %d)", (unsigned long long)v, base, maxlen, flags);
  if (!ok) { Buf b(1300); char *r = numberToString(v, base, b, maxlen, flags); CHECK(!r, "unsupported base %u gave \"%s\"", base, r); LABEL("unsupported base"); return; }
  std::string d = digits(a, base, (flags & NTS_LOWERCASE_CHARS) && base <= 36 ? CYL : CY); size_t full = d.size(), len = maxlen ? maxlen : full; if (maxlen) { if (d.size() > maxlen) { d = d.substr(d.size() - maxlen); LABEL("truncated to low digits"); } if (flags & NTS_PAD) d.insert(0, maxlen - d.size(), '0'); else while (d.size() > 1 && d[0] == '0') d.erase(0, 1); }
  std::string want = (neg ? "-" : "") + d; Buf b(len + ((flags & NTS_SIGNED_TYPE) ? 1 : 0) + 1); char *r = numberToString(v, base, b, maxlen, flags); SAME("numberToString", r, b, want); if (full > 1 && (maxlen || base != 10)) nontrivial(); if (neg) LABEL("negative"); if (flags & NTS_PAD && maxlen > full) LABEL("padded");
}
static void parse() { // digit strings straight from the generator, leading zeros and trailing bytes included
  bool neg = draw(1); size_t lead = chance(1, 3) ? draw(6) : 0; bool big = draw(1); u64 v = decval(); u64 lim = big ? (neg ? 1ull << 63 : (1ull << 63) - 1) : (neg ? 1ull << 31 : (1ull << 31) - 1); if (chance(1, 6)) v = lim - draw(3); if (v > lim) v %= lim + 1; std::string s = (neg ? "-" : "") + std::string(lead, '0') + digits(v, 10, CY); size_t cut = s.size(); if (s.size() - neg > 19 && v < 1000000000000000000ull) { s = (neg ? "-" : "") + digits(v, 10, CY); cut = s.size(); }
  if (chance(1, 2)) { s += gstr(1 + draw(3), "0123456789-x "); LABEL("more bytes after the given length"); } else LABEL("ends exactly at the given length"); Buf b(s); note("parse \"%s\" len %zu", s.c_str(), cut); i64 want = neg ? (i64)(0 - v) : (i64)v; i64 r = big ? strtoint64(b, cut) : strtoint(b, cut); CHECK(r == want, "parsing \"%.*s\" gives %lld", (int)cut, s.c_str(), (long long)r); CHECK(b.str() == s, "the text was modified"); CHECK(strtoint(b, 0) == 0 && strtoint64(b, 0) == 0 && strtoint(0, 5) == 0 && strtoint64(0, 5) == 0, "empty text is 0"); if (v > 9) nontrivial();
}
static void sweep() { // 65536 consecutive values
  u32 base = g_thorough ? (u32)case_index() << 16 : ((u32)draw(65535) << 16); note("values %u..%u", base, base + 65535); nontrivial(); static char ib[12], ub[11], sb[12], tb[11];
  for (u32 k = 0; k < 65536; k++) { u32 v = base + k; char *r; if (itoa((int)v, ib) != ib) FAIL("itoa does not return its buffer"); char want[16]; char *w = want + 15; *w = 0; u32 n = v; do *--w = (char)('0' + n % 10); while (n /= 10); utoa(v, ub); if (strcmp(ub, w)) FAIL("utoa(%u) = \"%s\"", v, ub); r = uintToString(v, tb); if (strcmp(r, w)) FAIL("uintToString(%u) = \"%s\"", v, r);
    w = want + 15; bool neg = (int)v < 0; n = neg ? 0 - v : v; do *--w = (char)('0' + n % 10); while (n /= 10); if (neg) *--w = '-'; if (strcmp(ib, w)) FAIL("itoa(%d) = \"%s\"", (int)v, ib); r = intToString((int)v, sb); if (strcmp(r, w)) FAIL("intToString(%d) = \"%s\"", (int)v, r); int p = strtoint(r, strlen(r)); if (p != (int)v) FAIL("strtoint(\"%s\") = %d", r, p); }
}
static void table() { size_t i = case_index(); CHECK(conv_cypher_len == 62 && conv_cypher[i] == CY[i], "digit table entry %zu", i); nontrivial(); note("digit %zu", i); }
Check the_check = {"C10", "boundary-biased 32/64-bit values (powers of ten and of the base with neighbours, type limits) through every formatter in exact-size buffers, then parsed back; radix formatting over bases/flags/lengths against a reference conversion; sweeps of 65536 consecutive 32-bit values (all of them in the thorough tier); non-trivial: value of more than one digit (64-bit: above 32 bits; radix: base other than 10 or a length limit)",
  {{"table", table, 62, 62, ENUM}, {"v32", v32, 600000, 8000000, FUZZ}, {"v64", v64, 800000, 10000000, FUZZ}, {"radix", radix, 1500000, 20000000, FUZZ}, {"parse", parse, 800000, 10000000, FUZZ}, {"sweep", sweep, 500, 65536, 0}}};
