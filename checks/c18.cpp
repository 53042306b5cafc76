// C18: stringptr
#include "pbt.hpp"
#include <memory>
#include <cerrno>
#include <climits>
#include <pthread.h>
#include <sched.h>
#include <fcntl.h>
#include <stdio_ext.h>
#include <sys/ioctl.h>
#include <unistd.h>
#include "stringptr.h"
#include "c18_ops.h"
struct S { std::string v; Buf b; Buf st; S(const std::string &x, bool nul) : v(x), b(x, nul), st(sizeof(stringptr)) { sp()->ptr = b.p; sp()->size = v.size(); } stringptr *sp() { return (stringptr *)st.p; } bool same() { return sp()->ptr == b.p && sp()->size == v.size() && !memcmp(b.p, v.data(), v.size()); } };
static std::string gv(size_t max = 60) { switch (draw(3)) { case 0: return gstr(sizeish(max), "ab"); case 1: return gstr(sizeish(max), "a\n\rb"); case 2: return gbytes(sizeish(max)); default: { std::string s = gstr(sizeish(20), "abc"); if (s.size() && chance(1, 2)) s[draw(s.size() - 1)] = 0; return s; } } }
static uint32_t elf(const std::string &s) { uint32_t h = 0; for (unsigned char c : s) { h = h * 16 + c; uint32_t g = h & 0xf0000000u; h ^= g >> 24; h &= 0xfffffff; } return h; }
static void isnew(stringptr *r, const std::string &want, const char *what) { CHECK(r, "%s failed", what); CHECK(r->size == want.size(), "%s has size %zu, expected %zu", what, r->size, want.size()); CHECK(!memcmp(r->ptr, want.data(), want.size()), "%s is %s, expected %s", what, show(r->ptr, r->size).c_str(), show(want).c_str()); CHECK(r->ptr[r->size] == 0, "%s is not terminated", what); }
static void ops() {
  S a(gv(chance(1, 20) ? 3000 : 60), chance(1, 2)); std::string bv = gv(20); switch (draw(5)) { case 0: bv = a.v; break; case 1: { size_t p = draw(a.v.size()); bv = a.v.substr(p, draw(a.v.size() - p)); break; } case 2: bv = a.v; if (bv.size()) bv[draw(bv.size() - 1)] ^= (char)(1 << draw(7)); break; case 3: { size_t p = draw(a.v.size()); bv = a.v.substr(p, draw(a.v.size() - p)); if (bv.size()) bv[bv.size() - 1] ^= 1; break; } default: break; }
  S b(bv, chance(1, 2)); note("a %s b %s", show(a.v, 50).c_str(), show(bv, 50).c_str()); if (a.v.size() && bv.size()) nontrivial();
  bool eq = a.v == bv; CHECK(!!stringptr_eq(a.sp(), b.sp()) == eq, "stringptr_eq = %d", !eq); CHECK(stringptr_eq(0, 0) && !stringptr_eq(a.sp(), 0) && !stringptr_eq(0, a.sp()) && stringptr_eq(a.sp(), a.sp()), "stringptr_eq with NULL or itself");
  bool has = a.v.find(bv) != std::string::npos; if (has && bv.size()) LABEL("contained"); CHECK(!!stringptr_contains(a.sp(), b.sp()) == has, "stringptr_contains(%s, %s) = %d", show(a.v).c_str(), show(bv).c_str(), !has);
  size_t found = a.v.find(bv); size_t pos = has && chance(1, 2) ? found : chance(1, 8) ? (size_t)anyu64() : draw(a.v.size() + 2); bool here = pos <= a.v.size() && a.v.size() - pos >= bv.size() && a.v.compare(pos, bv.size(), bv) == 0; note("here at %zu", pos); CHECK(!!stringptr_here(a.sp(), pos, b.sp()) == here, "stringptr_here(%s, %zu, %s) = %d", show(a.v).c_str(), pos, show(bv).c_str(), !here); if (pos > a.v.size()) LABEL("position beyond the end");
  int ch = chance(1, 2) && a.v.size() ? (unsigned char)a.v[draw(a.v.size() - 1)] : (int)draw(255); if (chance(1, 3)) ch = (char)ch; size_t rp = a.v.rfind((char)ch); char *r = stringptr_rchr(a.sp(), ch); CHECK(r == (rp == std::string::npos ? 0 : a.b.p + rp), "stringptr_rchr(%s, %d) = %ld", show(a.v).c_str(), ch, r ? (long)(r - a.b.p) : -1L); CHECK(!stringptr_rchr(0, ch), "rchr(NULL)");
  CHECK(stringptr_hash(a.sp()) == elf(a.v), "stringptr_hash(%s) = %x, expected %x", show(a.v).c_str(), stringptr_hash(a.sp()), elf(a.v));
  stringptr *c = stringptr_copy(a.sp()); isnew(c, a.v, "stringptr_copy"); CHECK(stringptr_hash(c) == elf(a.v) && stringptr_eq(c, a.sp()), "copy differs"); free(c); CHECK(!stringptr_copy(0), "copy(NULL)");
  char *d = stringptr_strdup(a.sp()); CHECK(d && !memcmp(d, a.v.data(), a.v.size()) && d[a.v.size()] == 0, "stringptr_strdup"); free(d); CHECK(!stringptr_strdup(0), "strdup(NULL)");
  size_t n = sizeish(300); stringptr *w = stringptr_new(n); CHECK(w && w->size == n && w->ptr[n] == 0, "stringptr_new(%zu)", n); memset(w->ptr, 0x41, n); CHECK(w->ptr[n] == 0, "stringptr_new(%zu) storage", n); stringptr *grown = stringptr_copy(w); free(w); isnew(grown, std::string(n, 'A'), "copy of new"); free(grown);
  std::string cs = gv(40); for (auto &x : cs) if (!x) x = '0'; Buf cb(cs, true); stringptr o, *po = stringptr_fromchar(cb, &o); CHECK(po == &o && o.ptr == cb.p && o.size == cs.size(), "stringptr_fromchar"); po = stringptr_fromchar(0, &o); CHECK(po == &o && !o.ptr && !o.size, "stringptr_fromchar(NULL)"); int m = s_macros(a.sp(), b.sp(), cb, cs.size()); CHECK(!m, "macro check %d", m);
  int k = chance(1, 20) ? 12 : 1 + (int)draw(7); std::vector<std::unique_ptr<S>> ps; stringptr *pv[12]; std::string want; for (int i = 0; i < k; i++) { if (i && chance(1, 4)) { pv[i] = pv[draw(i - 1)]; want.append(pv[i]->ptr, pv[i]->size); } else { ps.emplace_back(new S(gv(30), false)); pv[i] = ps.back()->sp(); want += ps.back()->v; } } stringptr *cc = s_concat(pv, k); isnew(cc, want, "stringptr_concat"); free(cc); for (auto &x : ps) CHECK(x->same(), "concat modified an operand");
  CHECK(a.same() && b.same(), "an operand was modified");
}
static void alias() { // strings that are slices of one buffer
  std::string x = gv(chance(1, 20) ? 400 : 30); Buf b(x, chance(1, 2)); size_t p1 = draw(x.size()), l1 = draw(x.size() - p1), p2 = chance(2, 3) ? p1 : draw(x.size()), l2 = chance(1, 4) && p2 + l1 <= x.size() ? l1 : draw(x.size() - p2); stringptr a = {b.p + p1, l1}, c = {b.p + p2, l2}; std::string av = x.substr(p1, l1), cv = x.substr(p2, l2); note("in %s: [%zu,+%zu) and [%zu,+%zu)", show(x, 50).c_str(), p1, l1, p2, l2); if (l1 != l2 && p1 == p2 && l1 && l2) { nontrivial(); LABEL("same start, other length"); }
  CHECK(!!stringptr_eq(&a, &c) == (av == cv) && !!stringptr_eq(&c, &a) == (av == cv), "stringptr_eq of two slices is %d", !!stringptr_eq(&a, &c)); bool has = av.find(cv) != std::string::npos; CHECK(!!stringptr_contains(&a, &c) == has, "stringptr_contains of two slices is %d", !has); size_t pos = chance(1, 2) && p2 >= p1 ? p2 - p1 : draw(l1 + 1); bool here = pos <= l1 && l1 - pos >= l2 && av.compare(pos, l2, cv) == 0; CHECK(!!stringptr_here(&a, pos, &c) == here, "stringptr_here of two slices at %zu is %d", pos, !here);
  CHECK(stringptr_hash(&a) == elf(av) && stringptr_hash(&c) == elf(cv), "hash of a slice"); stringptr *pv[4] = {&a, &c, &a, &c}; stringptr *r = s_concat(pv, 4); isnew(r, av + cv + av + cv, "concat of slices"); free(r); r = stringptr_copy(&c); isnew(r, cv, "copy of a slice"); free(r); CHECK(a.ptr == b.p + p1 && a.size == l1 && c.ptr == b.p + p2 && c.size == l2 && !memcmp(b.p, x.data(), x.size()), "an operand was modified");
}
static void shifts() { // slicing, shifting, chomping on one string and its buffer
  S s(gv(50), true); std::string img = s.v + '\0'; size_t off = 0, len = s.v.size(); note("start %s", show(s.v).c_str()); stringptr *p = s.sp(); size_t steps = 0, eff = 0;
  while (more(5) && steps++ < 40) {
    switch (draw(2)) {
    case 0: { size_t c = chance(1, 6) ? (size_t)anyu64() : draw(len + 1); note("shiftright %zu", c); int r = stringptr_shiftright(p, c); CHECK(!!r == (c <= len), "shiftright(%zu) of size %zu returned %d", c, len, r); if (c <= len) off += c, len -= c, eff += c > 0; break; }
    case 1: { size_t c = chance(1, 6) ? (size_t)anyu64() : draw(len + 1); note("shiftleft %zu", c); int r = stringptr_shiftleft(p, c); CHECK(!!r == (c <= len), "shiftleft(%zu) of size %zu returned %d", c, len, r); if (c <= len) len -= c, img[off + len] = 0, eff += c > 0; break; }
    default: { size_t k = 0; while (len && (img[off + len - 1] == '\n' || img[off + len - 1] == '\r')) len--, img[off + len] = 0, k++; note("chomp"); size_t r = stringptr_chomp(p); CHECK(r == k, "chomp removed %zu line-end bytes, expected %zu", r, k); if (k) { eff++; LABEL("chomp removed"); } } }
    CHECK(p->ptr == s.b.p + off && p->size == len, "string is [%ld, +%zu], expected [%zu, +%zu]", (long)(p->ptr - s.b.p), p->size, off, len); CHECK(s.b.str() == img, "buffer is %s, expected %s", show(s.b.str()).c_str(), show(img).c_str());
  }
  CHECK(!stringptr_shiftleft(0, 1) && !stringptr_shiftright(0, 1) && !stringptr_chomp(0), "NULL arguments"); if (eff > 1) nontrivial();
}
struct Feed { int fd; std::vector<std::string> parts; volatile bool stop; };
static void *feeder(void *x) { Feed *f = (Feed *)x; for (auto &s : f->parts) { size_t o = 0; while (o < s.size() && !f->stop) { ssize_t r = write(f->fd, s.data() + o, s.size() - o); if (r > 0) o += (size_t)r; else if (errno == EAGAIN) sched_yield(); else break; } int q = 1; for (int i = 0; i < 2000 && !f->stop; i++) { if (ioctl(f->fd, FIONREAD, &q) || !q) break; sched_yield(); } } close(f->fd); return 0; }
static void lines() {
  std::string in; while (more(6) && in.size() < 9000) { size_t n = chance(1, 12) ? sizenear(5000, {1023, 1024, 4095, 4096}) : sizeish(30); std::string l = gbytes(n); for (auto &c : l) if (!c || c == '\n') c = 'x'; in += l + "\n"; } if (in.size() && chance(1, 3)) { in.pop_back(); LABEL("no final newline"); }
  size_t bs = chance(1, 3) ? 2 + draw(20) : sizenear(6000, {80, 1024, 4096}) + 2; int chomp = (int)draw(1); Feed f; f.stop = false; size_t pos = 0; while (pos < in.size()) { size_t k = chance(1, 2) ? in.size() - pos : 1 + draw(std::min<size_t>(in.size() - pos - 1, 40)); f.parts.push_back(in.substr(pos, k)); pos += k; if (f.parts.size() > 30) { f.parts.push_back(in.substr(pos)); break; } } note("input %s, %zu arrivals, buffer %zu, chomp %d", show(in, 50).c_str(), f.parts.size(), bs, chomp); if (f.parts.size() > 1) LABEL("arrives in pieces"); if (in.find('\n') != std::string::npos && in.size() > 3) nontrivial();
  int pp[2]; if (pipe(pp)) return; dup2(pp[0], 0); close(pp[0]); fcntl(pp[1], F_SETFL, O_NONBLOCK); f.fd = pp[1]; clearerr(stdin); __fpurge(stdin); pthread_t th; if (pthread_create(&th, 0, feeder, &f)) { close(pp[1]); return; }
  std::string err; pos = 0; for (size_t i = 0; i < 20000; i++) { Buf b(bs); stringptr r = read_stdin_line(b, bs, chomp); if (pos == in.size()) { if (r.ptr || r.size) err = "a line is returned after the end of the input"; break; } size_t e = in.find('\n', pos), n = std::min(bs - 1, e == std::string::npos ? in.size() - pos : e + 1 - pos); std::string want = in.substr(pos, n); pos += n; if (want.size() == bs - 1 && want.back() != '\n') LABEL("line longer than the buffer"); if (chomp && want.size() && want.back() == '\n') want.pop_back(); if (!r.ptr) { err = "end reported early at byte " + std::to_string(pos - n); break; } if (r.size != want.size() || memcmp(r.ptr, want.data(), want.size())) { err = "line is " + show(r.ptr, std::min<size_t>(r.size, 6000), 60) + ", expected " + show(want, 60); break; } if (r.ptr < b.p || r.ptr >= b.p + bs) { err = "result outside the buffer"; break; } if (r.ptr[r.size] != 0) { err = "line is not terminated"; break; } }
  f.stop = true; int nul = open("/dev/null", O_RDONLY); dup2(nul, 0); close(nul); pthread_join(th, 0); clearerr(stdin); __fpurge(stdin); CHECK(err.empty(), "%s", err.c_str());
}
static void huge() { // sizes and positions beyond 31 and 32 bits
  u64 i = case_index(), op = i % 8, v = i / 8; size_t n = v == 0 ? (1ull << 32) + 4099 : v == 1 ? (1ull << 31) + 17 : (1ull << 32) + (1ull << 31) + 5; nontrivial(); note("operation %d, size %zu", (int)op, n); pa_limit = 20ull << 30;
  static const char *N[] = {"huge: eq", "huge: here/rchr/slicing", "huge: contains", "huge: hash", "huge: copy", "huge: strdup", "huge: concat", "huge: chomp"}; static int lab[8] = {-1, -1, -1, -1, -1, -1, -1, -1}; label_(N[op], &lab[op]);
  Huge h(n + 1, op == 7 ? '\n' : 0); stringptr a = {h.p, n}; h.p[5] = 'h'; h.p[n - 3] = 'e'; h.p[n] = 0;
  switch (op) {
  case 0: { Huge g(n + 1); g.p[5] = 'h'; g.p[n - 3] = 'e'; stringptr b = {g.p, n}, s = {g.p, n - (1ull << 32) < n ? n - (1ull << 32) : 12}; CHECK(stringptr_eq(&a, &b), "equal strings of %zu bytes compare unequal", n); g.p[n - 1] = 1; CHECK(!stringptr_eq(&a, &b), "strings of %zu bytes with different last bytes compare equal", n); CHECK(!stringptr_eq(&a, &s) && !stringptr_eq(&s, &a), "strings of %zu and %zu bytes compare equal", n, s.size); break; }
  case 1: { char t[4] = {0, 'e', 0, 0}; stringptr x = {t, 4}; CHECK(stringptr_here(&a, n - 4, &x), "stringptr_here(%zu) of %zu", n - 4, n); CHECK(!stringptr_here(&a, n - 3, &x) && !stringptr_here(&a, 4, &x) && !stringptr_here(&a, n + 1, &x) && !stringptr_here(&a, ~0ull - 1, &x), "stringptr_here in the wrong place"); char *r = stringptr_rchr(&a, 'e'); CHECK(r == h.p + n - 3, "stringptr_rchr finds offset %ld", r ? (long)(r - h.p) : -1L); r = stringptr_rchr(&a, 'h'); CHECK(r == h.p + 5, "stringptr_rchr finds offset %ld, expected 5", r ? (long)(r - h.p) : -1L); CHECK(!stringptr_rchr(&a, 'q'), "stringptr_rchr finds an absent byte");
    stringptr s = a; CHECK(stringptr_shiftright(&s, n - 3) && s.ptr == h.p + n - 3 && s.size == 3, "shiftright(%zu) leaves size %zu", n - 3, s.size); CHECK(!stringptr_shiftright(&s, 1ull << 32) && !stringptr_shiftleft(&s, (1ull << 32) + 2) && s.size == 3, "a shift by more than the size succeeds"); s = a; CHECK(stringptr_shiftleft(&s, 3) && s.size == n - 3 && h.p[n - 3] == 0 && s.ptr == h.p, "shiftleft"); CHECK(stringptr_shiftleft(&s, n - 10) && s.size == 7 && h.p[5] == 'h', "shiftleft(%zu) leaves size %zu", n - 10, s.size); break; }
  case 2: { char t[2] = {'e', 0}; stringptr x = {t, 2}; if (v != 1) { h.p[20000] = 'e'; h.p[n - 3] = 'f'; } CHECK(stringptr_contains(&a, &x), "stringptr_contains misses the only occurrence at %zu of %zu", v != 1 ? 20000 : n - 3, n); t[1] = 'x'; CHECK(!stringptr_contains(&x, &a), "a longer string is contained"); break; }
  case 3: { h.p[n - 1] = 'q'; uint32_t w = elf(std::string(h.p, 6) + std::string(60 + (n - 9) % 6, 0) + std::string(h.p + n - 3, 3)) /* runs of zeros act with period 6 */, got = stringptr_hash(&a); CHECK(got == w, "stringptr_hash of %zu bytes is %x, expected %x", n, got, w); break; }
  case 4: case 5: { char *c; stringptr *r = 0; if (op == 4) { r = stringptr_copy(&a); CHECK(r && r->size == n, "copy has size %zu, expected %zu", r ? r->size : 0, n); c = r->ptr; } else c = stringptr_strdup(&a); CHECK(c && c[5] == 'h' && c[n - 3] == 'e' && c[n] == 0 && c[0] == 0 && c[n / 2] == 0, "a copy of %zu bytes differs", n); if (r) stringptr_free(r); else free(c); break; }
  case 6: { char t[] = "tail"; stringptr x = {t, 4}, *pv[3] = {&x, &a, &x}; stringptr *r = s_concat(pv, 3); CHECK(r && r->size == n + 8, "concatenation has size %zu, expected %zu", r ? r->size : 0, n + 8); CHECK(!memcmp(r->ptr, "tail", 4) && r->ptr[9] == 'h' && r->ptr[n + 1] == 'e' && !memcmp(r->ptr + n + 4, "tail", 5), "concatenation of %zu bytes differs", n + 8); stringptr_free(r); break; }
  default: { a.size = n; h.p[5] = '\n'; h.p[3] = 'k'; h.p[n - 3] = '\n'; if (v != 1) h.p[n - (1ull << 31) - 20] = 'k'; size_t want = v != 1 ? (1ull << 31) + 19 : n - 4, r = stringptr_chomp(&a); CHECK(r == want && a.size == n - want, "chomp removed %zu bytes, expected %zu", r, want); } }
  pa_limit = 3ull << 30;
}
Check the_check = {"C18", "pairs of byte strings (equal, substring, one bit off, unrelated; zeros and line ends included) in exact-size unterminated buffers through every operation against std::string; histories of shift/chomp on one string with a full image of its buffer; standard input fed through a pipe in random pieces with buffer sizes around the line lengths; sizes beyond 2^31 and 2^32 (sparse); 16 MiB and larger parts; non-trivial: both strings non-empty / at least two effective slicing steps / input with a line end and more than 3 bytes",
  {{"huge", huge, 8, 24, ENUM | SLOW | LEAK}, {"alias", alias, 300000, 5000000, FUZZ | LEAK}, {"ops", ops, 900000, 8000000, FUZZ | LEAK}, {"slices", shifts, 1000000, 8000000, FUZZ | LEAK}, {"stdin", lines, 10000, 120000, 0}, {"ops-long", ops, 4000, 60000, LEAK | LONGS}, {"slices-long", shifts, 4000, 60000, LEAK | LONGS}}};
