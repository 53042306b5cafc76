// C15: RC4
#include "pbt.hpp"
#include "strlib.h"
#include "refhash.hpp"
static void rnd() {
  std::string key = gbytes(1 + (chance(1, 3) ? draw(255) : chance(1, 2) ? draw(15) : 255 - draw(3))), m = gbytes(sizenear(chance(1, 10) ? 3000 : 150, {255, 256, 257, 512, 768})); if (chance(1, 20)) { key += gbytes(draw(60)); LABEL("long key"); } note("key %s message %s", show(key, 24).c_str(), show(m, 40).c_str()); std::string want = ref::rc4(key, m); Buf k(key), s(m); if (m.size() > 1) nontrivial(); if (m.size() > 256) LABEL("message beyond 256");
  { Buf d(m.size()); rc4(d.u(), s.u(), m.size(), k.u(), key.size()); CHECK(d.str() == want, "rc4 gives %s, expected %s", show(d.str()).c_str(), show(want).c_str()); CHECK(s.str() == m, "source modified"); CHECK(k.str() == key, "key modified"); Buf e(m.size()); rc4(e.u(), d.u(), m.size(), k.u(), key.size()); CHECK(e.str() == m, "decryption does not restore the message"); size_t pre = draw(m.size()); Buf f(pre); rc4(f.u(), s.u(), pre, k.u(), key.size()); CHECK(f.str() == want.substr(0, pre), "a prefix of the message encrypts differently"); }
  rc4(s.u(), s.u(), m.size(), k.u(), key.size()); CHECK(s.str() == want, "in-place rc4 differs"); rc4(s.u(), s.u(), m.size(), k.u(), key.size()); CHECK(s.str() == m, "in-place decryption does not restore the message"); CHECK(k.str() == key, "key modified");
}
static void keys() { // every key length, long keystream
  u64 i = case_index(); size_t kl = 1 + i % 256; std::string key(kl, 0); gfill(&key[0], kl, g_seed * 31 + i); std::string m(1024 + i % 700, 0); gfill(&m[0], m.size(), i); Buf k(key), s(m), d(m.size()); rc4(d.u(), s.u(), m.size(), k.u(), kl); note("key length %zu, message length %zu", kl, m.size()); nontrivial(); CHECK(d.str() == ref::rc4(key, m), "rc4 with a %zu-byte key differs from the standard", kl); }
static void longkeys() { // keys of 64 Ki bytes and more: RC4 uses the first 256
  static const size_t L[] = {257, 511, 512, 32767, 32768, 65535, 65536, 65537, 65791, 65792, 1u << 20, (1u << 24) + 1, 1ull << 31, (1ull << 32), (1ull << 32) + 5, (1ull << 33) + 255}; size_t kl = L[case_index() % 16]; Huge k(kl); std::string key(300, 0), m = gbytes(700); gfill(&key[0], 300, case_index()); key.resize(std::min<size_t>(kl, 300)); memcpy(k.p, key.data(), key.size()); Buf s(m), d(m.size()); note("key of %zu bytes", kl); nontrivial(); rc4(d.u(), s.u(), m.size(), (unsigned char *)k.p, kl); CHECK(d.str() == ref::rc4(key.substr(0, 256), m), "rc4 with a key of %zu bytes does not use its first 256 bytes", kl); CHECK(!memcmp(k.p, key.data(), key.size()), "key modified"); }
static void big() { u64 i = case_index(); size_t n = (i ? 20 : 70) * 1000 * 1000 + 13; std::string key = "big message key", m(n, 0); gfill(&m[0], n, i); Buf d(n); note("message of %zu bytes", n); nontrivial(); rc4(d.u(), (const unsigned char *)m.data(), n, (const unsigned char *)key.data(), key.size()); CHECK(d.str() == ref::rc4(key, m), "rc4 of %zu bytes differs", n); }
static void huge() { // more than 2^32 bytes in one call
  size_t n = (1ull << 32) + 4099; unsigned char key[5] = {1, 2, 0, 4, 5}; note("message of %zu bytes", n); nontrivial(); Huge s(n), d(n + 1); s.p[7] = 1; s.p[n - 1] = 2; d.p[n] = '#'; rc4((unsigned char *)d.p, (unsigned char *)s.p, n, key, 5); CHECK(d.p[n] == '#', "a byte beyond the message was written");
  unsigned char b[256]; for (int i = 0; i < 256; i++) b[i] = (unsigned char)i; unsigned char j = 0; for (int i = 0; i < 256; i++) { j = (unsigned char)(j + b[i] + key[i % 5]); std::swap(b[i], b[j]); } unsigned char x = 0; j = 0; for (size_t i = 0; i < n; i++) { x++; j = (unsigned char)(j + b[x]); std::swap(b[x], b[j]); unsigned char w = (unsigned char)(b[(unsigned char)(b[x] + b[j])] ^ s.p[i]); CHECK((unsigned char)d.p[i] == w, "byte %zu of a message of %zu bytes is %02x, expected %02x", i, n, (unsigned char)d.p[i], w); }
}
Check the_check = {"C15", "random keys of 1..256 bytes (some longer) and messages, encrypted into a separate buffer, in place, as a prefix, and decrypted again, against a textbook implementation; every key length with 1-1.7 KB messages; messages of tens of megabytes; non-trivial: message of at least two bytes",
  {{"huge", huge, 1, 1, ENUM | SLOW}, {"long-keys", longkeys, 16, 16, ENUM | LEAK}, {"big", big, 2, 4, ENUM | SLOW}, {"keys", keys, 2560, 60000, ENUM | LEAK}, {"random", rnd, 300000, 6000000, FUZZ | LEAK}, {"random-long", rnd, 3000, 40000, LEAK | LONGS}}};
