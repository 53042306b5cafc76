// C11: printf family
#include "pbt.hpp"
#include <cerrno>
#include <climits>
#include <memory>
#include "stringptr.h"
#include "c11_ops.h"
#include "capture.hpp"
#include <sys/syscall.h>
// every write of the library passes here: a length no buffer can have is recorded (and fails, as in the kernel)
static size_t g_badlen; extern "C" ssize_t write(int fd, const void *b, size_t n) { if (n > 1 << 30) g_badlen = n; return syscall(SYS_write, fd, b, n); }
struct Gen { std::string fmt, out; uint64_t a[10]; std::vector<std::unique_ptr<Buf>> strs; bool bad = false; int nconv = 0; bool hard = false; };
static u64 ival() { u64 v = anyu64(); if (chance(1, 4)) { u64 p = 1; for (u64 i = draw(19); i; i--) p *= 10; v = p + (u64)range(-1, 1); } if (chance(1, 5)) v = 0 - v; return v; }
static void gen(Gen &g, size_t maxlit, bool allowbad) {
  int n = 0; bool wantbad = allowbad && chance(1, 8); size_t badat = draw(8), step = 0; for (auto &x : g.a) x = 0x4141414141414141ull;
  auto lit = [&](size_t k) { std::string s = chance(1, 3) ? gbytes(k) : gstr(k, "abc .0123456789dsx\n"); for (auto &c : s) if (!c || c == '%') c = '_'; g.fmt += s; g.out += s; };
  while (n < 9 && step < 30 && more(5)) {
    step++; if (chance(1, 2)) lit(sizeish(maxlit)); if (wantbad && step - 1 == badat) break;
    if (chance(1, 8)) { g.fmt += "%%"; g.out += "%"; continue; }
    static const char *dir[] = {"d", "u", "x", "X", "s", "c", "p", "ld", "lu", "lld", "llu", "zd", "zu"}; const char *d = dir[draw(12)]; std::string prec; size_t N = 0; bool isint = strcmp(d, "s") && strcmp(d, "c");
    if (isint && chance(2, 5)) { N = g_long && chance(1, 6) ? oneof<size_t>({254, 510, 990, 4080, 16380, 65530}) + draw(20) : chance(1, 8) ? 1 + draw(300) : 1 + draw(25); if (N > 65535) LABEL("precision above 65535"); char t[16]; sprintf(t, ".%zu", N); if (chance(1, 12)) sprintf(t, ".0%zu", N); prec = t; g.hard = true; }
    g.fmt += "%" + prec + d; static std::vector<char> refv(70000); char *ref = refv.data(); size_t refn = refv.size(); g.nconv++; u64 v = ival(); g.a[n] = v; std::string f = "%" + prec + d;
    if (!strcmp(d, "s")) { std::string s = gbytes(sizeish(maxlit)); for (auto &c : s) if (!c) c = '%'; g.strs.emplace_back(new Buf(s, true)); g.a[n] = (u64)(uintptr_t)g.strs.back()->p; g.out += s; }
    else if (!strcmp(d, "c")) { unsigned char c = (unsigned char)(1 + draw(254)); g.a[n] = (v & ~255ull) | c; g.out += (char)c; }
    else { if (!strcmp(d, "p")) f = "%" + prec + "llX"; size_t l = strlen(d); if (l == 1 && *d != 'p') { snprintf(ref, refn, f.c_str(), (int)v); } else snprintf(ref, refn, f.c_str(), (long long)v); g.out += ref; if (l == 1 && *d != 'p' && (v & 0x80000000)) g.hard = true; if (l > 1 && v >> 63) g.hard = true; }
    n++;
  }
  if (chance(1, 3)) lit(sizeish(maxlit));
  if (wantbad) { g.bad = true; static const char *bad[] = {"%", "%f", "%5d", "%-d", "%i", "%o", "%lx", "%zx", "%llX", "%.", "%.d", "%.3", "%l", "%z", "%ls", "%n", "%+d", "% d", "%#x", "%q", "%\x01", "%hd", "%e"}; size_t k = draw(22); g.fmt += bad[k]; if (strcmp(bad[k], "%") && strcmp(bad[k], "%.") && strcmp(bad[k], "%.3") && strcmp(bad[k], "%l") && strcmp(bad[k], "%z") && chance(1, 2)) g.fmt += "tail"; if (chance(1, 12)) { g.fmt = g.fmt.substr(0, g.fmt.size()); } LABEL("unsupported directive"); }
  else if (allowbad && n < 9 && chance(1, 30)) { g.fmt += "%s"; g.a[n] = 0; g.bad = true; LABEL("NULL string argument"); }
}
static void snp() {
  Gen g; gen(g, 60, true); Buf f(g.fmt, true); size_t L = g.out.size(), sz; note("fmt %s want %s", show(g.fmt).c_str(), show(g.out).c_str()); if (g.hard || g.nconv > 1) nontrivial();
  long (*fn)(char *, size_t, const char *, const uint64_t *) = draw(1) ? s_snprintf : draw(1) ? s_vsnprintf : s_rsnprintf;
  long r0 = fn(0, chance(1, 2) ? 0 : draw(50), f, g.a); CHECK(r0 == (g.bad ? -1 : (long)L), "with no destination: returned %ld, expected %ld", r0, g.bad ? -1 : (long)L);
  switch (draw(5)) { case 0: sz = draw(L + 2); break; case 1: sz = L + 1; break; case 2: sz = L; break; case 3: sz = draw(3); break; case 4: sz = L ? L - 1 : 0; break; default: sz = L + 2 + draw(100); }
  Buf d(sz ? sz : 1, 0x5A); note("destsize %zu", sz); if (!sz) LABEL("destsize 0"); else if (sz <= L) LABEL("truncating"); long r = fn(d, sz, f, g.a);
  CHECK(f.str() == std::string(g.fmt.c_str(), g.fmt.size() + 1), "format string modified"); if (!sz) CHECK(d[0] == 0x5A, "a byte was written with destsize 0");
  if (g.bad) { CHECK(r == -1, "returned %ld for an unsupported format, expected -1", r); return; }
  size_t want = sz ? std::min(L, sz - 1) : 0; CHECK(r == (long)want, "returned %ld, expected %zu", r, want); if (sz) { CHECK(!memcmp(d, g.out.data(), want), "produced %s, expected %s", show(d.p, want).c_str(), show(g.out.data(), want).c_str()); CHECK(d[want] == 0, "result not terminated"); }
}
static void spf() {
  Gen g; gen(g, chance(1, 6) ? 900 : 60, true); Buf f(g.fmt, true); note("stringptr_format %s", show(g.fmt).c_str()); uint64_t *a = g.a; if (g.out.size() > 999) LABEL("beyond 999 bytes"); if (g.hard || g.nconv > 1) nontrivial();
  stringptr *s = stringptr_format(f, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9]);
  if (g.bad) { CHECK(!s, "stringptr_format returned a string of size %zd for an unsupported format", s ? (ssize_t)s->size : 0); } else { size_t w = std::min<size_t>(g.out.size(), 999); CHECK(s, "stringptr_format failed"); CHECK(s->size == w && !memcmp(s->ptr, g.out.data(), w), "stringptr_format gave %s, expected %s", show(s->ptr, std::min<size_t>(s->size, 1000)).c_str(), show(g.out).c_str()); CHECK(s->ptr[w] == 0, "not terminated"); free(s); }
  if (chance(1, 20)) CHECK(!stringptr_format(0), "NULL format");
}
static void print() {
  Gen g; gen(g, chance(1, 8) ? 1500 : 60, true); Buf f(g.fmt, true); int how = (int)draw(5); std::string want = g.bad ? "" : g.out.substr(0, 4095), got; note("print via %d: %s", how, show(g.fmt).c_str()); if (g.out.size() > 4095) LABEL("beyond 4095 bytes"); if (g.hard || g.nconv > 1) nontrivial(); if (g.bad) LABEL("failing format"); g_badlen = 0;
  { Capture c(how == 0 || how == 1 || how == 4 ? 1 : how == 5 ? 2 : -1); switch (how) { case 0: s_printf(f, g.a); break; case 1: s_uprintf(f, g.a); break; case 2: s_fprintf(c.fd(), f, g.a); break; case 3: s_dprintf(c.fd(), f, g.a); break; case 4: s_fstdout(f, g.a); break; default: s_fstderr(f, g.a); } got = c.done(); }
  CHECK(!g_badlen, "write called with a length of %zd", (ssize_t)g_badlen);
  CHECK(got == want, "printed %zu bytes %s, expected %zu bytes %s", got.size(), show(got).c_str(), want.size(), show(want).c_str());
}
static void repl() {
  std::string s = gbytes(sizeish(300)); for (auto &c : s) if (!c) c = '0'; Buf b(s, true); int how = (int)draw(2); std::string got, want; int e = (int)draw(130); if (s.size()) nontrivial(); note("how %d %s", how, show(s).c_str());
  { Capture c(how == 2 ? 2 : 1); switch (how) { case 0: s_puts(b); want = s + "\n"; break; case 1: { int k = (int)draw(1); s_putsif(b, k); want = (k ? s : "") + "\n"; break; } default: s_perror(b, e); want = s + ": " + strerror(e) + "\n"; } got = c.done(); }
  CHECK(got == want, "%s printed %s, expected %s", how == 2 ? "perror" : "puts", show(got).c_str(), show(want).c_str());
}
static void huge() { // lengths beyond 31 and 32 bits
  u64 op = draw(5); uint64_t a[10] = {0}; size_t n = (1ull << (op & 1 ? 32 : 31)) + 7; nontrivial(); note("operation %llu, %zu bytes", (unsigned long long)op, n); static const char *N[] = {"huge: text in the format", "huge: text in the format", "huge: string argument", "huge: string argument", "huge: precision", "huge: destination"}; static int lab[6] = {-1, -1, -1, -1, -1, -1}; label_(N[op], &lab[op]);
  if (op == 4) { a[0] = 7; long r = s_snprintf(0, 0, "%.2147483000d", a); CHECK(r == 2147483000l, "returned %ld for 2147483000 digits", r); return; }
  Huge h(n + 1, 'q'); h.p[n] = 0;
  if (op == 5) { Huge d(n + 40, 'z'); a[0] = (u64)(uintptr_t)h.p; a[1] = 12345; long r = s_snprintf(d.p, n + 4, "%s%d", a); CHECK(r == (long)n + 3, "returned %ld for %zu bytes", r, n + 3); CHECK(d.p[0] == 'q' && d.p[n - 1] == 'q' && !memcmp(d.p + n, "123", 4) && d.p[n + 4] == 'z', "the end of %zu bytes is wrong", n + 3); return; }
  a[0] = (u64)(uintptr_t)h.p; a[1] = 12345; long r = op < 2 ? s_snprintf(0, 0, h.p, a) : s_snprintf(0, 0, "%s%d", a); CHECK(r == (long)n + (op < 2 ? 0 : 5), "returned %ld for %zu bytes", r, n + (op < 2 ? 0 : 5));
}
Check the_check = {"C11", "formats assembled from literal text and supported directives with boundary-biased arguments (upper argument halves filled with garbage), about one in eight ended by an unsupported directive or NULL %s; expected text built directive by directive with libc; destination sizes around the exact length in exact-size buffers; output captured from real descriptors; non-trivial: at least two conversions, a precision, or an integer with its top bit set",
  {{"huge", huge, 6, 6, ENUM | SLOW}, {"snprintf", snp, 1200000, 15000000, FUZZ | LEAK}, {"format", spf, 500000, 6000000, FUZZ | LEAK}, {"print", print, 250000, 3000000, 0}, {"stdio-repl", repl, 120000, 1000000, 0}, {"snprintf-long", snp, 4000, 60000, LEAK | LONGS}, {"print-long", print, 1500, 20000, LONGS}, {"format-long", spf, 3000, 40000, LEAK | LONGS}}};
