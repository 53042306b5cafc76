// C16: C-string searches
#include "pbt.hpp"
#include "strlib.h"
static std::string nonul(std::string s) { for (auto &c : s) if (!c) c = 'a'; return s; }
static unsigned char up(unsigned char c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
static bool lead(char c) { return c && strchr(" \t\n:,.;-", c); }
static bool trail(char c) { return c == 0 || strchr(" \t\n:,.;-\r", c); }
struct Case { std::string h, n; };
static void query(const std::string &h, std::string n, long slice = -1) {
  size_t H = h.size(), N = n.size(); Buf hb(h, true), nb0(n); char *nb = nb0.p; if (slice >= 0) nb = hb.p + slice; long uc = -1, st = -1, wd = -1;
  if (N) for (size_t i = 0; i + N <= H; i++) { bool u = true, s = true; for (size_t j = 0; j < N; j++) { if (up((unsigned char)h[i + j]) != (unsigned char)n[j]) u = false; if (n[j] != '*' && h[i + j] != n[j]) s = false; } if (u && uc < 0) uc = (long)i; if (s && st < 0) st = (long)i; if (u && wd < 0 && (i == 0 || lead(h[i - 1])) && trail(i + N < H ? h[i + N] : 0)) wd = (long)i; }
  note("haystack %s needle %s (expect %ld %ld %ld)", show(h).c_str(), show(n).c_str(), uc, st, wd);
  auto chk = [&](const char *f, char *r, long want) { long got = r ? r - hb.p : -1; if (r) CHECK(got >= 0 && got <= (long)H, "%s returns a pointer outside the haystack", f); CHECK(got == want, "%s(%s, %s) finds position %ld, leftmost match is %ld", f, show(h).c_str(), show(n).c_str(), got, want); };
  chk("strstr_uc", strstr_uc(hb, nb, N), uc); chk("strstar", strstar(hb, nb, N), st); chk("findword", findword(hb, nb, N), wd); CHECK(hb.str() == std::string(h.c_str(), H + 1) && nb0.str() == n, "an argument was modified");
  if (N && (uc >= 0 || st >= 0)) { nontrivial(); LABEL("match"); } if (wd >= 0) LABEL("word match"); if (uc >= 0 && wd < 0) LABEL("occurs but not as a word"); if (wd > uc && uc >= 0) LABEL("word match after a non-word match"); if (N > H) LABEL("needle longer than haystack");
}
static void rnd() {
  static const char *alph[] = {"Aa", "AaBb", "ab*", "AB", "aA b-", "Ab,. \t\n\r:;-x", "abcABC*[\\]`{z@Z"}; const char *al = alph[draw(6)]; std::string h, n; h = chance(1, 8) ? nonul(gbytes(sizeish(60))) : gstr(sizeish(chance(1, 10) ? 400 : 40), al);
  switch (draw(4)) { case 0: n = gstr(sizeish(6), al); break; case 1: if (h.size()) { size_t p = draw(h.size() - 1), l = 1 + draw(std::min<size_t>(h.size() - p - 1, 12)); n = h.substr(p, l); } break; case 2: { std::string unit = gstr(1 + draw(2), al); size_t k = 1 + draw(4); for (size_t i = 0; i < k; i++) n += unit; n += gstr(draw(2), al); std::string t; for (size_t i = 0; i < draw(4); i++) t += gstr(1, al); for (size_t i = draw(12) + 1; i; i--) t += unit; t += n; h = t + h; break; } case 3: n = nonul(gbytes(1 + draw(3))); { size_t p = draw(h.size()); h.insert(p, n); } break; default: n = gstr(1 + draw(5), "AB"); { size_t k = 1 + draw(4); while (k--) { size_t p = draw(h.size()); std::string w = n; for (auto &c : w) if (chance(1, 2) && c >= 'A' && c <= 'Z') c += 32; if (chance(1, 2)) w = gstr(1, " ,-.:x\t;") + w; if (chance(1, 2)) w += gstr(1, " ,-.:x\r\n"); h.insert(p, w); } } }
  if (h.size() && chance(1, 8)) { size_t p = chance(1, 2) ? 0 : draw(h.size() - 1), l = 1 + draw(h.size() - p - 1); if (chance(1, 2)) for (size_t j = p; j < p + l; j++) h[j] = (char)up((unsigned char)h[j]); LABEL("needle is a slice of the haystack"); query(h, h.substr(p, l), (long)p); return; }
  if (chance(2, 3)) for (auto &c : n) c = (char)up((unsigned char)c); if (chance(1, 4)) for (auto &c : n) if (chance(1, 3)) c = '*'; query(h, n);
}
static void longneedle() { // needles longer than 64 Ki
  size_t N = oneof<size_t>({65534, 65535, 65536, 65537, 70000, 131072, 131075}), H = N + 1 + draw(200000); std::string n = gstr(N, "AB"), h; if (chance(1, 2)) n = std::string(N, 'A'); n[0] = 'Z'; size_t p = draw(H - N); h = std::string(H, ' '); for (size_t i = 0; i < 20; i++) h[draw(H - 1)] = ".;A"[draw(2)]; h.replace(draw(H - N), N - 1 - draw(9), n.substr(0, N - 10)); h.resize(H, 'A'); h.replace(p, N, n); size_t bad = chance(1, 2) ? draw(N - 1) : chance(1, 2) ? 65535 + draw(2) : N; if (bad < N) h[p + bad] = 'b' == n[bad] + 32 ? 'C' : 'c'; note("needle of %zu at %zu of %zu, differing at %zu", N, p, H, bad);
  Buf hb(h, true), nb(n); size_t w = h.find(n); char *r = strstar(hb, nb, N); CHECK(r == (w == std::string::npos ? 0 : hb.p + w), "strstar with a needle of %zu finds %ld, expected %ld", N, r ? (long)(r - hb.p) : -1L, (long)w); std::string u = h; for (auto &c : u) c = (char)up((unsigned char)c); w = u.find(n); r = strstr_uc(hb, nb, N); CHECK(r == (w == std::string::npos ? 0 : hb.p + w), "strstr_uc with a needle of %zu finds %ld, expected %ld", N, r ? (long)(r - hb.p) : -1L, (long)w);
  long wd = -1; size_t tries = 0; for (size_t q = u.find(n); q != std::string::npos && tries++ < 300000; q = u.find(n, q + 1)) if ((!q || lead(u[q - 1])) && trail(q + N < H ? u[q + N] : 0)) { wd = (long)q; break; } r = findword(hb, nb, N); CHECK((r ? r - hb.p : -1) == wd, "findword with a needle of %zu finds %ld, expected %ld", N, r ? (long)(r - hb.p) : -1L, wd); nontrivial();
}
static void tiny() { // every haystack up to 7 and needle up to 4 over a 3-letter alphabet (quick: a subset by stride)
  u64 i = case_index(); static const char A[] = "Aa "; u64 k = i; size_t nl = 1 + k % 4; k /= 4; std::string n; for (size_t j = 0; j < nl; j++) { n += "A *"[k % 3]; k /= 3; } size_t hl = k % 8; k /= 8; std::string h; for (size_t j = 0; j < hl; j++) { h += A[k % 3]; k /= 3; } query(h, n);
}
static void misc() {
  std::string a = nonul(gbytes(sizeish(40))), b = chance(1, 2) ? a.substr(draw(a.size())) : gstr(sizeish(5), "ab"); if (chance(1, 3)) { a = gstr(sizeish(10), "ab"); b = gstr(sizeish(4), "ab"); } if (chance(1, 6) && b.size()) b[draw(b.size() - 1)] ^= 1; b = nonul(b); Buf x(a, true), y(b, true); bool want = a.size() >= b.size() && a.compare(a.size() - b.size(), b.size(), b) == 0; note("strends(%s, %s)", show(a).c_str(), show(b).c_str()); CHECK(!!strends(x, y) == want, "strends(%s, %s) = %d", show(a).c_str(), show(b).c_str(), !want); { size_t k = draw(a.size()); CHECK(strends(x, x.p + k), "strends(%s) with its own tail at %zu", show(a).c_str(), k); } if (want && b.size()) nontrivial();
  char c = a.size() && chance(1, 2) ? a[draw(a.size() - 1)] : (char)(1 + draw(254)); bool has = a.find(c) != std::string::npos; CHECK(!!containsChar(x, c) == has, "containsChar(%s, byte %d) = %d", show(a).c_str(), (unsigned char)c, !has); CHECK(!containsChar(0, c), "containsChar(NULL)");
  std::string d = gbytes(sizeish(60)); size_t n = chance(1, 2) ? d.size() : draw(d.size()); Buf s(d); char *r = strdup_n(s, n); note("strdup_n(%s, %zu)", show(d).c_str(), n); if (!n) CHECK(!r, "strdup_n with length 0"); else { CHECK(r, "strdup_n failed"); CHECK(!memcmp(r, d.data(), n) && r[n] == 0, "strdup_n(%s, %zu) is not the terminated prefix", show(d).c_str(), n); free(r); } CHECK(!strdup_n(0, 3), "strdup_n(NULL)"); CHECK(s.str() == d && x.str() == std::string(a.c_str(), a.size() + 1), "an argument was modified");
  CHECK(!strstr_uc(0, y, b.size()) && !strstr_uc(x, 0, 3) && !strstar(0, y, b.size()) && !strstar(x, 0, 3) && !strstr_uc(x, y, 0) && !strstar(x, y, 0), "NULL/empty arguments must give NULL");
}
static void huge() { // sizes and positions beyond 31 and 32 bits
  u64 i = case_index(), op = i % 6; size_t n = i < 6 ? (1ull << 32) + 4099 : (1ull << 31) + 17; nontrivial(); pa_limit = 12ull << 30; note("operation %d, %zu bytes", (int)op, n);
  Huge h(n + 1, 'a'); h.p[n] = 0; char x[8]; long got, want = (long)n - 3; size_t far = i < 6 && op > 2 ? 40000 : n - 3; // the far end is left to the thorough tier where a byte-wise walk takes a minute
  switch (op) {
  case 0: { strcpy(x, "aaa"); CHECK(strends(h.p, x), "strends misses the end of %zu bytes", n); h.p[n - 2] = 'b'; strcpy(x, "aba"); CHECK(strends(h.p, x), "strends misses the end of %zu bytes", n); strcpy(x, "aaa"); CHECK(!strends(h.p, x) && !strends(x, h.p), "strends on %zu bytes", n); h.p[n - (1ull << 31) - 1] = 0; strcpy(x, "aa"); CHECK(strends(h.p, x), "strends"); break; }
  case 1: { h.p[n - 3] = 'z'; CHECK(containsChar(h.p, 'z'), "containsChar misses the byte at %zu", n - 3); CHECK(!containsChar(h.p, 'y'), "containsChar finds an absent byte"); break; }
  case 2: { h.p[n - 3] = 'z'; char *d = strdup_n(h.p, n - 1); CHECK(d && d[n - 3] == 'z' && d[n - 2] == 'a' && d[n - 1] == 0 && d[0] == 'a' && d[n / 2] == 'a', "strdup_n(%zu)", n - 1); free(d); break; }
  case 3: h.p[far] = 'Q'; strcpy(x, "QA"); got = strstr_uc(h.p, x, 2) ? strstr_uc(h.p, x, 2) - h.p : -1; CHECK(got == (long)far, "strstr_uc finds %ld, expected %zu", got, far); break;
  case 4: h.p[far] = 'Q'; strcpy(x, "Q*"); { char *r = strstar(h.p, x, 2); CHECK(r == h.p + far, "strstar finds %ld, expected %zu", r ? (long)(r - h.p) : -1L, far); } break;
  default: h.p[far] = 'q'; h.p[far - 1] = ' '; h.p[far + 1] = ','; strcpy(x, "Q"); { char *r = findword(h.p, x, 1); CHECK(r == h.p + far, "findword finds %ld, expected %zu", r ? (long)(r - h.p) : -1L, far); } }
  (void)want; pa_limit = 3ull << 30;
}
Check the_check = {"C16", "haystacks/needles over small alphabets (both cases, separators, '*'), needles cut from the haystack, repeated units with a near-miss prefix, planted words with and without separators, raw bytes; all short haystack/needle pairs over 3 letters enumerated; oracle: naive leftmost search; non-trivial: the substring or wildcard search matches (misc: a non-empty suffix matches)",
  {{"huge", huge, 6, 12, ENUM | SLOW | LEAK}, {"tiny", tiny, 4 * 81 * 8 * 243, 4 * 81 * 8 * 2187, ENUM}, {"search", rnd, 4000000, 40000000, FUZZ}, {"misc", misc, 900000, 5000000, FUZZ | LEAK}, {"long-needle", longneedle, 40, 600, LEAK}, {"search-long", rnd, 2500, 80000, LONGS}, {"misc-long", misc, 6000, 80000, LEAK | LONGS}}};
