// C12: base64 and hex
#include "pbt.hpp"
#include <algorithm>
#include "strlib.h"
static const char *AL = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static std::string b64(const std::string &s) { // bit-string definition
  std::string r; size_t bits = s.size() * 8; for (size_t i = 0; i < bits; i += 6) { unsigned v = 0; for (size_t k = 0; k < 6; k++) { size_t b = i + k; v = v << 1 | (b < bits ? ((unsigned char)s[b / 8] >> (7 - b % 8)) & 1 : 0); } r += AL[v]; } while (r.size() % 4) r += '='; return r; }
static bool wellformed(const std::string &t, std::string &out) { // length multiple of 4, alphabet, padding only as last one or two
  out.clear(); if (t.size() % 4) return false; size_t pad = 0; while (pad < t.size() && t[t.size() - 1 - pad] == '=') pad++; if (pad > 2) return false; size_t n = t.size() - pad; unsigned acc = 0, nb = 0; for (size_t i = 0; i < n; i++) { const char *p = t[i] ? strchr(AL, t[i]) : 0; if (!p) return false; acc = acc << 6 | (unsigned)(p - AL); nb += 6; if (nb >= 8) { nb -= 8; out += (char)(acc >> nb); acc &= (1u << nb) - 1; } } if (n % 4 == 1) return false; return true; }
static std::string gsrc(size_t max) { return gbytes(sizenear(max, {1, 2, 3, 48, 256})); }
static void enc() {
  std::string s = gsrc(chance(1, 20) ? 5000 : 200), want = b64(s); note("base64 of %s", show(s).c_str()); if (s.size()) nontrivial(); if (s.size() % 3 == 1) LABEL("two pads"); if (s.size() % 3 == 2) LABEL("one pad");
  CHECK(BASE64ENC_BYTES(s.size()) == want.size() && BASE64ENC_BUFSIZE(s.size()) == want.size() + 1, "BASE64ENC_BYTES(%zu)", s.size()); size_t N = s.size(); CHECK(BASE64DEC_BYTES(want.size()) >= N && BASE64DEC_BUFSIZE(want.size()) == want.size() / 4 * 3 + 1, "BASE64DEC_BYTES");
  { Buf src(s), d(BASE64ENC_BUFSIZE(N)); base64enc(d, src.u(), N); CHECK(std::string(d.p, want.size()) == want && d[want.size()] == 0, "base64enc gives %s, expected %s", show(d.p, want.size()).c_str(), want.c_str()); CHECK(src.str() == s, "input modified");
    Buf e(want, true); Buf o(BASE64DEC_BUFSIZE(want.size())); size_t r = base64dec(o.u(), e, o.n); CHECK(r == N, "decoding %s returns %zu, expected %zu", show(want).c_str(), r, N); CHECK(!memcmp(o, s.data(), N), "decoding %s gives different bytes", show(want).c_str()); CHECK(o[N] == 0, "decoded data is not terminated"); CHECK(e.str() == std::string(want.c_str(), want.size() + 1), "input modified"); }
  std::string z = s; for (auto &c : z) if (!c) c = '\x7f'; std::string wz = b64(z); Buf src(z, true); size_t L = wz.size() + 1, dl; switch (draw(4)) { case 0: dl = L; break; case 1: dl = L + draw(20); break; case 2: dl = L - 1; break; case 3: dl = draw(L); break; default: dl = L > 4 ? L - 4 : 0; } Buf d(dl ? dl : 1, 0x5A); int r = base64enc_str(d, src.u(), dl); note("base64enc_str dst_len %zu of %zu", dl, L);
  if (dl >= L) CHECK(r && std::string(d.p, wz.size()) == wz && d[wz.size()] == 0, "base64enc_str = %d %s, expected %s", r, show(d.p, wz.size()).c_str(), wz.c_str()); else { CHECK(!r, "base64enc_str succeeds with %zu bytes, needs %zu", dl, L); LABEL("encode: too small"); if (!dl) CHECK(d[0] == 0x5A, "a byte was written with dst_len 0"); }
}
static void dec() { // arbitrary, mutated and valid texts; arbitrary destination sizes
  std::string t; switch (draw(3)) { case 0: t = b64(gsrc(60)); LABEL("valid"); break; case 1: { t = b64(gsrc(40)); size_t k = 1 + draw(2); while (k--) switch (draw(5)) { case 0: if (t.size()) t[draw(t.size() - 1)] = (char)(1 + draw(254)); break; case 1: t.insert(draw(t.size()), 1, "=A+/9z"[draw(5)]); break; case 2: if (t.size()) t.erase(draw(t.size() - 1), 1); break; case 3: t += oneof<std::string>({"=", "==", "===", "====", "A===", "AA==", "QQ==QUFB", "AAA", "\n"}); break; case 4: if (t.size()) t[draw(t.size() - 1)] = '='; break; default: if (t.size() > 1) std::swap(t[t.size() - 1], t[draw(t.size() - 1)]); } LABEL("mutated"); break; } case 2: t = gstr(sizeish(24), "ABz9+/="); LABEL("alphabet soup"); break; default: t = gbytes(sizeish(16)); for (auto &c : t) if (!c) c = '='; LABEL("bytes"); }
  std::string out; bool ok = wellformed(t, out); size_t full = t.size() / 4 * 3 + 1; size_t dl = chance(2, 3) ? full + (chance(1, 3) ? draw(10) : 0) : draw(full + 2); Buf e(t, true), o(dl ? dl : 1, 0x5A); note("base64dec %s into %zu", show(t).c_str(), dl); size_t r = base64dec(o.u(), e, dl); if (t.size() > 3) nontrivial(); if (ok && !t.empty()) LABEL("decode: accepted");
  if (!dl) CHECK(o[0] == 0x5A, "a byte was written with dst_len 0"); if (!ok || t.empty()) { CHECK(r == 0, "malformed text %s decodes to %zu bytes", show(t).c_str(), r); return; }
  if (dl >= full) { CHECK(r == out.size(), "base64dec %s returned %zu, expected %zu", show(t).c_str(), r, out.size()); } else if (dl < out.size() + 1) { CHECK(r == 0, "base64dec returned %zu for a destination of only %zu bytes", r, dl); LABEL("decode: too small"); } if (r) CHECK(r == out.size() && !memcmp(o, out.data(), r), "base64dec %s gives other bytes", show(t).c_str());
}
static void hex() {
  std::string s = gsrc(chance(1, 20) ? 3000 : 120); size_t n = s.size(); Buf src(s), d(2 * n + 1); raw2hex(d, src.u(), n); std::string want; for (unsigned char c : s) { want += "0123456789abcdef"[c >> 4]; want += "0123456789abcdef"[c & 15]; } note("hex of %s", show(s).c_str()); CHECK(std::string(d.p, 2 * n) == want && d[2 * n] == 0, "raw2hex gives %s", show(d.p, 2 * n).c_str()); CHECK(src.str() == s, "input modified"); if (n) nontrivial();
  std::string t = want; for (auto &c : t) if (c >= 'a' && chance(1, 2)) c -= 32; Buf h(t, true), o(n ? n : 1, 0x5A); size_t r = hex2raw(h, o.u()); CHECK(r == n && !memcmp(o, s.data(), n), "hex2raw(%s) = %zu bytes", show(t).c_str(), r); if (!n) CHECK(o[0] == 0x5A, "hex2raw of nothing writes");
  if (n) { std::string u = t.substr(1); Buf h2(u, true), o2(n); std::string w = s; w[0] &= 15; r = hex2raw(h2, o2.u()); CHECK(r == n && o2.str() == w, "hex2raw(%s) (odd length) = %zu bytes %s", show(u).c_str(), r, show(o2.str()).c_str()); LABEL("odd length"); CHECK(h2.str() == std::string(u.c_str(), u.size() + 1), "input modified"); }
}
static void small() { // every byte string of length 0..2, and of length 3 over the index
  u64 i = case_index(); std::string s; if (i == 0) s = ""; else if (i <= 256) s = std::string(1, (char)(i - 1)); else if (i <= 256 + 65536) { u64 k = i - 257; s = std::string{(char)(k >> 8), (char)k}; } else { u64 k = (i - 256 - 65537) * 251; s = std::string{(char)(k >> 16), (char)(k >> 8), (char)k}; }
  note("%s", show(s).c_str()); nontrivial(); std::string want = b64(s); Buf src(s), d(want.size() + 1); base64enc(d, src.u(), s.size()); CHECK(want == d.p, "base64enc gives %s, expected %s", d.p, want.c_str()); Buf o(want.size() / 4 * 3 + 1); CHECK(base64dec(o.u(), d, o.n) == s.size() && !memcmp(o, s.data(), s.size()), "round trip of %s", show(s).c_str());
}
static void quads() { // all 4-character texts over a small alphabet (padding, bad characters) decided exactly
  static const char A[] = "AQ/+9z=*-\x80 "; u64 i = case_index(); std::string t; int len = i < 11 ? 1 : i < 11 + 121 ? 2 : i < 11 + 121 + 1331 ? 3 : i < 11 + 121 + 1331 + 14641 ? 4 : 8; u64 k = len == 1 ? i : len == 2 ? i - 11 : len == 3 ? i - 132 : len == 4 ? i - 1463 : (i - 16104) * 7919; for (int j = 0; j < len; j++) { t += A[k % 11]; k /= 11; } std::string out; bool ok = wellformed(t, out); Buf e(t, true), o(t.size() / 4 * 3 + 1); size_t r = base64dec(o.u(), e, o.n); note("%s", show(t).c_str()); nontrivial(); CHECK(r == (ok ? out.size() : 0) && (!r || !memcmp(o, out.data(), r)), "base64dec(%s) = %zu, expected %zu", show(t).c_str(), r, ok ? out.size() : 0);
}
static void huge() { // sizes beyond 31 and 32 bits
  u64 i = case_index(), op = i % 4; size_t n = i < 4 ? (1ull << 32) + 4096 : (1ull << 31) + 4096; nontrivial();
  switch (op) {
  case 0: { n = n / 2 + 7; note("raw2hex of %zu bytes", n); Huge s(n), d(2 * n + 1, '#'); s.p[3] = 0x7e; s.p[n - 1] = (char)0xa5; raw2hex(d.p, (unsigned char *)s.p, n); CHECK(!memcmp(d.p, "0000007e00", 10) && !memcmp(d.p + 2 * n - 4, "00a5", 5) && d.p[n] == '0' && d.p[2 * n + 1] == '#', "raw2hex of %zu bytes", n); break; }
  case 1: { n += 2; note("hex2raw of %zu digits", n); Huge s(n + 1, '0'), d(n / 2, '#'); s.p[n] = 0; s.p[5] = '7'; s.p[n - 1] = 'c'; size_t r = hex2raw(s.p, (unsigned char *)d.p); CHECK(r == n / 2, "hex2raw of %zu digits returned %zu", n, r); CHECK(d.p[2] == 7 && d.p[n / 2 - 1] == 12 && d.p[n / 2 - 2] == 0 && d.p[n / 4] == 0 && d.p[n / 2] == '#', "hex2raw of %zu digits", n); break; }
  case 2: { n = n / 4 * 3 + 2; size_t e = (n + 2) / 3 * 4; note("base64enc of %zu bytes", n); Huge s(n), d(e + 1, '#'); s.p[2] = 0x3f; s.p[n - 1] = 1; base64enc(d.p, (unsigned char *)s.p, n); CHECK(!memcmp(d.p, "AAA/AAA", 7) && d.p[e / 2] == 'A' && !memcmp(d.p + e - 8, n % 3 == 0 ? "AAAAAAAB" : n % 3 == 2 ? "AAAAAAE=" : "AAAAAQ==", 9) && d.p[e + 1] == '#', "base64enc of %zu bytes", n); break; }
  default: { size_t o = n / 4 * 3; note("base64dec of %zu characters", n); Huge s(n + 1, 'A'), d(o + 1, '#'); s.p[n] = 0; s.p[3] = '/'; s.p[n - 1] = '='; s.p[n - 2] = 'E'; size_t r = base64dec((unsigned char *)d.p, s.p, o + 1); CHECK(r == o - 1, "base64dec of %zu characters returned %zu, expected %zu", n, r, o - 1); CHECK(d.p[2] == 0x3f && d.p[o - 2] == 1 && d.p[o - 3] == 0 && d.p[o / 2] == 0 && d.p[o + 1] == '#', "base64dec of %zu characters", n); } }
}
Check the_check = {"C12", "byte strings encoded and compared with a bit-level base64/hex definition in exactly sized buffers, decoded back; valid, mutated and random texts decoded against an independent grammar with destination sizes around the documented one; all byte strings up to length 2, a lattice of length 3 and all texts up to 4 characters over an 11-character alphabet enumerated; non-trivial: non-empty source / text of at least 4 characters",
  {{"huge", huge, 4, 8, ENUM | SLOW}, {"small", small, 132000, 132000, ENUM}, {"quads", quads, 16104 + 27000, 16104 + 1000000, ENUM}, {"encode", enc, 900000, 8000000, FUZZ}, {"decode", dec, 3000000, 40000000, FUZZ}, {"hex", hex, 400000, 6000000, FUZZ}, {"encode-long", enc, 4000, 50000, LONGS}, {"decode-long", dec, 4000, 50000, LONGS}, {"hex-long", hex, 4000, 50000, LONGS}}};
