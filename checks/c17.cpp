// C17: IPv4 text
#include "pbt.hpp"
#include "strlib.h"
static std::string canon(const unsigned char *a) { char t[32]; sprintf(t, "%u.%u.%u.%u", a[0], a[1], a[2], a[3]); return t; }
static void one(const unsigned char *a) {
  Buf ip(a, 4), o(16); stringfromipv4(ip.u(), o); std::string want = canon(a); CHECK(memchr(o, 0, 16) && want == o.p, "stringfromipv4 gives %s, expected %s", show(o.p, 16).c_str(), want.c_str()); CHECK(ip.str() == std::string((const char *)a, 4), "address modified"); Buf t(want, true), r(4); CHECK(ipv4fromstring(t, r.u()) == 1, "ipv4fromstring(%s) failed", want.c_str()); CHECK(!memcmp(r, a, 4), "ipv4fromstring(%s) = %s", want.c_str(), canon(r.u()).c_str()); CHECK(isnumericipv4(t), "isnumericipv4(%s) = 0", want.c_str()); CHECK(t.str() == std::string(want.c_str(), want.size() + 1), "text modified");
}
static void rnd() { unsigned char a[4]; static const int ed[] = {0, 1, 9, 10, 11, 19, 20, 90, 99, 100, 101, 109, 110, 119, 190, 199, 200, 201, 209, 210, 249, 250, 254, 255}; for (auto &x : a) x = (unsigned char)(chance(1, 2) ? ed[draw(23)] : draw(255)); note("%s", canon(a).c_str()); nontrivial(); one(a);
  std::string z; for (int i = 0; i < 4; i++) { char t[8]; sprintf(t, chance(1, 2) ? "%03u" : chance(1, 2) ? "%02u" : "%u", a[i]); if (i) z += '.'; z += t; } Buf b(z, true), r(4); CHECK(ipv4fromstring(b, r.u()) == 1 && !memcmp(r, a, 4), "ipv4fromstring(%s) = %s", z.c_str(), canon(r.u()).c_str()); }
static void octets() { u64 i = case_index(); unsigned char a[4] = {(unsigned char)(i * 7), (unsigned char)(i * 13 + 100), (unsigned char)(i * 31), (unsigned char)(i * 3)}; a[i & 3] = (unsigned char)(i >> 2); note("%s", canon(a).c_str()); nontrivial(); one(a); }
static bool valid(const std::string &s) { size_t p = 0; for (int k = 0; k < 4; k++) { size_t d = 0; unsigned long v = 0; while (p < s.size() && s[p] >= '0' && s[p] <= '9') { v = v * 10 + (unsigned long)(s[p] - '0'); if (v > 100000) v = 100000; d++; p++; } if (!d || v > 255) return false; if (k < 3) { if (p >= s.size() || s[p] != '.') return false; p++; } } return p == s.size(); }
static std::string component() { switch (draw(6)) { case 0: return std::to_string(draw(255)); case 1: return std::to_string(draw(9)); case 2: return std::to_string(250 + draw(12)); case 3: return std::to_string(draw(100000)); case 4: return ""; case 5: return gstr(draw(4), "0123456789"); default: return gstr(draw(3), "0129a -+x"); } }
static void check_text(const std::string &s) {
  Buf b(s, true); bool v = valid(s); int r = isnumericipv4(b); note("%s", show(s).c_str());
  // canonical texts must be accepted; invalid ones rejected; zero-padded valid ones (more than 3 digits) are left open
  bool longdigits = false; { size_t run = 0; for (char c : s) { run = c >= '0' && c <= '9' ? run + 1 : 0; if (run > 3) longdigits = true; } }
  if (!v) CHECK(!r, "isnumericipv4 accepts %s", show(s).c_str()); else { LABEL("valid"); if (!longdigits) CHECK(r, "isnumericipv4 rejects %s", show(s).c_str()); } if (s.size() > 6) nontrivial();
  Buf o(4); size_t dots = 0; for (char c : s) dots += c == '.'; int p = ipv4fromstring(b, o.u()); if (dots < 3) CHECK(p == 0, "ipv4fromstring(%s) succeeds", show(s).c_str()); else CHECK(p == 1, "ipv4fromstring(%s) fails although it has four parts", show(s).c_str()); CHECK(b.str() == std::string(s.c_str(), s.size() + 1), "text modified"); if (r) { unsigned q[4]; if (sscanf(s.c_str(), "%u.%u.%u.%u", q, q + 1, q + 2, q + 3) == 4) CHECK(p && o.u()[0] == q[0] && o.u()[1] == q[1] && o.u()[2] == q[2] && o.u()[3] == q[3], "an accepted text parses to another address"); }
}
static void texts() {
  std::string s; if (chance(3, 4)) { size_t n = chance(2, 3) ? 4 : 1 + draw(6); for (size_t i = 0; i < n; i++) { if (i) s += '.'; s += chance(3, 4) ? std::to_string(draw(255)) : component(); } size_t m = draw(2); while (m--) switch (draw(3)) { case 0: s.insert(draw(s.size()), 1, "0123456789. a"[draw(12)]); break; case 1: if (s.size()) s.erase(draw(s.size() - 1), 1); break; case 2: s += gstr(1, ".0 5\n"); break; default: if (s.size()) s[draw(s.size() - 1)] = "0.9 :/"[draw(5)]; } } else s = gstr(sizeish(18), "012569.");
  check_text(s);
}
static void soup() { // every text of up to 9 characters over {1,.} plus near misses over {2,5,6,.} sampled by index
  u64 i = case_index(); std::string s; if (i < 1022) { u64 k = i + 2; while (k > 1) { s += k & 1 ? '1' : '.'; k >>= 1; } } else { u64 k = (i - 1022) * 2654435761u; for (int j = 0; j < 11; j++) { s += "256.."[k % 5]; k /= 5; } } check_text(s); nontrivial(); }
Check the_check = {"C17", "addresses with edge-biased octets formatted, parsed back and validated; every octet value in every position; texts made of valid and invalid components, mutated by insertion/deletion/replacement, and enumerated short texts, judged by an independent dotted-quad grammar; non-trivial: address case, or text of at least 7 characters",
  {{"octets", octets, 1024, 1024, ENUM}, {"soup", soup, 60000, 1000000, ENUM}, {"addresses", rnd, 3000000, 40000000, FUZZ}, {"texts", texts, 4000000, 60000000, FUZZ}}};
