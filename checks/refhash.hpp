// Independent reference implementations written from the specifications (constants are computed, not copied).
#pragma once
#include <cmath>
#include <cstdint>
#include <cstring>
#include <string>
namespace ref {
struct MD5K { uint32_t k[64]; MD5K() { for (int i = 0; i < 64; i++) k[i] = (uint32_t)(long double)floorl(fabsl(sinl((long double)(i + 1))) * 4294967296.0L); } };
inline void md5block(uint32_t h[4], const unsigned char *p) {
  static const MD5K K; static const int S[4][4] = {{7, 12, 17, 22}, {5, 9, 14, 20}, {4, 11, 16, 23}, {6, 10, 15, 21}}; uint32_t m[16]; for (int i = 0; i < 16; i++) m[i] = p[4 * i] | p[4 * i + 1] << 8 | p[4 * i + 2] << 16 | (uint32_t)p[4 * i + 3] << 24;
  uint32_t a = h[0], b = h[1], c = h[2], d = h[3];
  for (int i = 0; i < 64; i++) { uint32_t f; int g; switch (i / 16) { case 0: f = (b & c) | (~b & d); g = i; break; case 1: f = (d & b) | (~d & c); g = (5 * i + 1) % 16; break; case 2: f = b ^ c ^ d; g = (3 * i + 5) % 16; break; default: f = c ^ (b | ~d); g = 7 * i % 16; } uint32_t t = d; d = c; c = b; uint32_t x = a + f + K.k[i] + m[g]; int s = S[i / 16][i % 4]; b = b + (x << s | x >> (32 - s)); a = t; }
  h[0] += a; h[1] += b; h[2] += c; h[3] += d;
}
inline std::string md5(const void *data, size_t n) {
  uint32_t h[4] = {0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476}; const unsigned char *p = (const unsigned char *)data; size_t i = 0; for (; i + 64 <= n; i += 64) md5block(h, p + i);
  std::string t(n > i ? (const char *)p + i : "", n - i); t += (char)0x80; while (t.size() % 64 != 56) t += '\0'; uint64_t bits = (uint64_t)n * 8; for (int k = 0; k < 8; k++) t += (char)(bits >> (8 * k)); for (size_t k = 0; k < t.size(); k += 64) md5block(h, (const unsigned char *)t.data() + k);
  std::string r; for (int k = 0; k < 4; k++) for (int j = 0; j < 4; j++) r += (char)(h[k] >> (8 * j)); return r;
}
struct SHAK { uint64_t k[80], h[8]; static uint64_t frac(int p, int root) { // first 64 fractional bits of the root
    unsigned __int128 lo = 0, hi = (unsigned __int128)1 << 70; auto le = [&](unsigned __int128 x) { // (x/2^64)^root <= p, x < 2^70
      uint32_t X[3] = {(uint32_t)x, (uint32_t)(x >> 32), (uint32_t)(x >> 64)}; uint32_t R[9] = {1}; int n = 1; for (int r = 0; r < root; r++) { uint32_t T[9] = {0}; for (int i = 0; i < n; i++) { uint64_t c = 0; for (int j = 0; j < 3; j++) { c += (uint64_t)R[i] * X[j] + T[i + j]; T[i + j] = (uint32_t)c; c >>= 32; } for (int q = i + 3; c && q < 9; q++) { c += T[q]; T[q] = (uint32_t)c; c >>= 32; } } memcpy(R, T, sizeof R); n = n + 3 > 9 ? 9 : n + 3; if (n > 6 && r + 1 < root) n = 6; }
      int w = 2 * root; uint64_t top = R[w] | (uint64_t)(w + 1 < 9 ? R[w + 1] : 0) << 32; return top < (uint64_t)p; };
    while (hi - lo > 1) { unsigned __int128 mid = lo + (hi - lo) / 2; if (le(mid)) lo = mid; else hi = mid; } return (uint64_t)lo; }
  SHAK() { int n = 0; for (int p = 2; n < 80; p++) { bool pr = true; for (int d = 2; d * d <= p; d++) if (p % d == 0) pr = false; if (!pr) continue; k[n] = frac(p, 3); if (n < 8) h[n] = frac(p, 2); n++; } } };
inline const SHAK &shak() { static const SHAK K; return K; }
inline void sha512block(uint64_t H[8], const unsigned char *p) {
  const SHAK &K = shak(); uint64_t w[80]; for (int t = 0; t < 16; t++) { w[t] = 0; for (int j = 0; j < 8; j++) w[t] = w[t] << 8 | p[8 * t + j]; } auto rr = [](uint64_t x, int n) { return x >> n | x << (64 - n); };
  for (int t = 16; t < 80; t++) w[t] = (rr(w[t - 2], 19) ^ rr(w[t - 2], 61) ^ w[t - 2] >> 6) + w[t - 7] + (rr(w[t - 15], 1) ^ rr(w[t - 15], 8) ^ w[t - 15] >> 7) + w[t - 16];
  uint64_t v[8]; memcpy(v, H, sizeof v); for (int t = 0; t < 80; t++) { uint64_t T1 = v[7] + (rr(v[4], 14) ^ rr(v[4], 18) ^ rr(v[4], 41)) + ((v[4] & v[5]) ^ (~v[4] & v[6])) + K.k[t] + w[t], T2 = (rr(v[0], 28) ^ rr(v[0], 34) ^ rr(v[0], 39)) + ((v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2])); v[7] = v[6]; v[6] = v[5]; v[5] = v[4]; v[4] = v[3] + T1; v[3] = v[2]; v[2] = v[1]; v[1] = v[0]; v[0] = T1 + T2; } for (int i = 0; i < 8; i++) H[i] += v[i];
}
inline std::string sha512(const void *data, size_t n) {
  uint64_t h[8]; memcpy(h, shak().h, sizeof h); const unsigned char *p = (const unsigned char *)data; size_t i = 0; for (; i + 128 <= n; i += 128) sha512block(h, p + i); std::string t(n > i ? (const char *)p + i : "", n - i); t += (char)0x80; while (t.size() % 128 != 112) t += '\0'; unsigned __int128 bits = (unsigned __int128)n * 8; for (int k = 15; k >= 0; k--) t += (char)(bits >> (8 * k)); for (size_t k = 0; k < t.size(); k += 128) sha512block(h, (const unsigned char *)t.data() + k); std::string r; for (int k = 0; k < 8; k++) for (int j = 7; j >= 0; j--) r += (char)(h[k] >> (8 * j)); return r;
}
inline uint32_t crc(const void *data, size_t n, uint32_t poly_reflected) { uint32_t c = 0xffffffff; const unsigned char *p = (const unsigned char *)data; for (size_t i = 0; i < n; i++) { c ^= p[i]; for (int k = 0; k < 8; k++) c = c & 1 ? c >> 1 ^ poly_reflected : c >> 1; } return ~c; }
inline std::string rc4(const std::string &key, const std::string &msg) { unsigned char S[256]; for (int i = 0; i < 256; i++) S[i] = (unsigned char)i; int j = 0; for (int i = 0; i < 256; i++) { j = (j + S[i] + (unsigned char)key[i % key.size()]) & 255; std::swap(S[i], S[j]); } std::string o; int a = 0, b = 0; for (unsigned char c : msg) { a = (a + 1) & 255; b = (b + S[a]) & 255; std::swap(S[a], S[b]); o += (char)(c ^ S[(S[a] + S[b]) & 255]); } return o; }
inline std::string hex(const std::string &s) { std::string r; for (unsigned char c : s) { r += "0123456789abcdef"[c >> 4]; r += "0123456789abcdef"[c & 15]; } return r; }
}
