// C27: logger
#include "pbt.hpp"
#include <cerrno>
#include <ctime>
#include <memory>
#include <unistd.h>
#include <sys/mman.h>
#include "c27_ops.h"
typedef std::string S;
static int scramble = -1;
extern "C" ssize_t __real_write(int, const void *, size_t);
// a successful call may leave any value in errno
extern "C" ssize_t __wrap_write(int fd, const void *b, size_t n) { ssize_t r = __real_write(fd, b, n); if (r >= 0 && scramble >= 0) { errno = scramble; } return r; }
static int memfd(int at) { int t = memfd_create("log", 0); dup2(t, at); close(t); return at; }
static S content(int fd) { off_t n = lseek(fd, 0, SEEK_END); S s((size_t)n, 0); if (n && pread(fd, &s[0], (size_t)n, 0) != n) s = "?"; return s; }
struct P { piece p; stringptr sp; std::unique_ptr<Buf> b, c; S text, txt_sp, txt_cs; };
static S nz(S s) { for (auto &c : s) if (!c) c = '0'; return s; }
static S gtext() { return chance(1, 30) ? gbytes(sizeish(20000)) : gbytes(sizeish(40)); }
static void gpiece(P &x) {
  x.txt_sp = gtext(); x.b.reset(new Buf(x.txt_sp)); x.sp.ptr = x.b->p; x.sp.size = x.txt_sp.size(); x.p.sp = &x.sp; if (chance(1, 20)) { x.p.sp = 0; x.txt_sp.clear(); LABEL("NULL piece"); } x.txt_cs = nz(gtext()); x.c.reset(new Buf(x.txt_cs, true)); x.p.cs = x.c->p; if (chance(1, 20)) { x.p.cs = 0; x.txt_cs.clear(); } u64 v = anyu64(); x.p.i = (int)v; x.p.u = (unsigned)v; x.p.l = (long)v; x.p.ul = (unsigned long)v; if (chance(1, 4)) { x.p.i = (int)anyu32(); x.p.u = anyu32(); } x.p.kind = (int)draw(6);
  switch (x.p.kind) { case 0: x.text = x.txt_sp; break; case 1: case 2: x.text = x.txt_cs; break; case 3: x.text = std::to_string(x.p.i); break; case 4: x.text = std::to_string(x.p.u); break; case 5: x.text = std::to_string(x.p.l); break; default: x.text = std::to_string(x.p.ul); }
}
static S stamp(time_t t) { struct tm m; localtime_r(&t, &m); char b[64]; snprintf(b, 64, "%04d-%02d-%02d %02d:%02d:%02d", 1900 + m.tm_year, m.tm_mon + 1, m.tm_mday, m.tm_hour, m.tm_min, m.tm_sec); return b; }
static void session() {
  static int A = memfd(202), B = memfd(203); int fds[3] = {A, B, 2}; S want[3]; for (int f : {A, B}) { if (ftruncate(f, 0)) {} lseek(f, 0, SEEK_SET); } static int C = memfd(204); if (ftruncate(C, 0)) {} lseek(C, 0, SEEK_SET); int saved = dup2(2, 205); dup2(C, 2); size_t ops = 0; bool multi = false; S bad;
  while (more(6) && ops++ < 40 && bad.empty()) {
    int w = (int)weighted({6, 3, 1}), fd = fds[w]; S &e = want[w]; S add; int e0 = (int)draw(133);
    switch (draw(9)) {
    case 0: { S t = gtext(); Buf b(t); stringptr s = {b.p, t.size()}; l_puts(fd, &s); if (chance(1, 10)) l_puts(fd, 0); add = t; note("puts %s", show(t, 30).c_str()); if (b.str() != t) bad = "argument modified"; break; }
    case 1: { S t = nz(gtext()); Buf b(t, true); l_putc(fd, b.p); if (chance(1, 10)) l_putc(fd, 0); add = t; note("putc %s", show(t, 30).c_str()); break; }
    case 2: { u64 v = anyu64(); int sg = (int)draw(1); l_putd(fd, v, sg); add = sg ? std::to_string((i64)v) : std::to_string(v); note("putd %s", add.c_str()); break; }
    case 3: l_putln(fd); add = "\n"; note("putln"); break;
    case 4: l_space(fd); add = " "; note("space"); break;
    case 5: case 6: { int n = (int)draw(8); std::vector<P> v((size_t)n); piece p[8]; for (int i = 0; i < n; i++) { gpiece(v[(size_t)i]); p[i] = v[(size_t)i].p; p[i].sp = v[(size_t)i].p.sp; add += v[(size_t)i].text; } l_put(fd, p, n); add += "\n"; note("put of %d pieces %s", n, show(add, 40).c_str()); if (n > 1) { multi = true; LABEL("several pieces"); } break; }
    case 7: { P x; gpiece(x); l_macros(fd, &x.p); add = x.txt_sp + "lit" + x.txt_cs + x.txt_cs + std::to_string(x.p.i) + std::to_string(x.p.u) + std::to_string(x.p.l) + std::to_string(x.p.ul) + "\n"; note("put through the macros"); break; }
    case 8: { S t = nz(gtext()); Buf b(t, true); bool nul = chance(1, 12); int sc = chance(1, 3) ? (int)draw(133) : -1; add = (nul ? S() : t) + ": " + strerror(e0) + "\n"; bool pe = w == 2 && draw(1); scramble = sc; if (sc >= 0) LABEL("errno changed by a write"); errno = e0; if (pe) { l_perr(nul ? 0 : b.p); } else { l_err(fd, nul ? 0 : b.p); } scramble = -1; note("error %d", e0); LABEL("error message"); break; }
    default: { time_t t1 = time(0); l_ts(fd); time_t t2 = time(0); S got = content(fd); if (got.size() < e.size()) { bad = "output was lost"; break; } add = got.substr(e.size()); bool ok = false; for (time_t t = t1; t <= t2; t++) ok = ok || add == stamp(t); if (!ok) bad = "timestamp is " + show(add) + ", expected " + stamp(t2); note("timestamp"); LABEL("timestamp"); } }
    e += add;
    for (int k = 0; k < 3 && bad.empty(); k++) if (k == w || chance(1, 4)) { S got = content(k == 2 ? C : fds[k]); if (got != want[k]) { size_t d = 0; while (d < got.size() && d < want[k].size() && got[d] == want[k][d]) d++; bad = "descriptor " + std::to_string(k) + " received " + std::to_string(got.size()) + " bytes, expected " + std::to_string(want[k].size()) + "; from the first difference: " + show(got.substr(d), 40) + " instead of " + show(want[k].substr(d), 40); } }
  }
  dup2(saved, 2); if (ops > 2 && multi) nontrivial(); CHECK(bad.empty(), "%s", bad.c_str());
}
Check the_check = {"C27", "sequences of logging calls on three descriptors with arbitrary bytes (counted, unterminated), C strings, boundary numbers of every type, NULL pieces, up to 8 pieces per call, error numbers and timestamps; the bytes each descriptor received compared after every call; non-trivial: at least three calls, one with several pieces",
  {{"session", session, 300000, 2500000, 0}, {"session-long", session, 2000, 30000, LONGS}}};
