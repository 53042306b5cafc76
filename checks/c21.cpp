// C21: fileparser
#include "pbt.hpp"
#include "faultio.hpp"
#include <memory>
#include "stringptr.h"
extern "C" { void *fp_mk(); size_t fp_len(void *); size_t fp_bufsize(); int fileparser_open(void *, const char *); int fileparser_readline(void *); int fileparser_close(void *); int fileparser_getline(void *, stringptr *); ssize_t fileparser_getnextlinelength(void *); int fileparser_readline_userbuf(void *, char *, size_t); }
#include <sys/mman.h>
static void *mmap_big(size_t n) { return mmap(0, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); }
static void munmap_big(void *p, size_t n) { munmap(p, n); }
static size_t LIM;
static std::string gtext() {
  std::string t; unsigned avg = chance(1, 10) ? 40 : 5; size_t n = 0;
  while (more(avg) && n++ < 200 && t.size() < 40000) { size_t len; switch (draw(5)) { case 0: len = 0; break; case 1: len = sizenear(5000, {LIM - 1, LIM, 2 * LIM, 2 * LIM - 1, 4096}); break; case 2: len = LIM * (1 + draw(3)) + draw(2) - 1; break; default: len = sizeish(40); } std::string l = gbytes(len); for (auto &c : l) if (c == '\n') c = 0; if (len && chance(1, 3)) { l[len - 1] = '\r'; } t += l + "\n"; }
  if (!t.empty() && chance(1, 2)) { t.pop_back(); } return t;
}
static void history() {
  LIM = fp_bufsize(); std::string f = std::string(scratch()) + "/t", text = gtext(); if (!spit(f, text)) return; note("text %s", show(text, 60).c_str()); fio = FaultIO(); switch (weighted({2, 2, 1})) { case 1: fio.shortp = 1 + (unsigned)draw(14); break; case 2: fio.shortp = (unsigned)draw(6); fio.failp = 1; break; default: break; }
  void *p = fp_mk(); { std::string m = f + "-missing"; Buf mb(m, true); CHECK(fileparser_open(p, mb.p) != 0, "opening a missing file succeeded"); CHECK(fileparser_open(p, 0) != 0 && fileparser_open(0, mb.p) != 0, "NULL arguments"); if (chance(1, 4)) CHECK(fileparser_close(p) == 0, "close after failed open"); }
  { Buf fb(f, true); int r = fileparser_open(p, fb.p); CHECK(r == 0, "open returned %d", r); } fio.arm();
  size_t pos = 0, steps = 0, nread = 0, longl = 0; int ends = 0; bool mixed = false, q = false;
  auto linelen = [&] { size_t e = text.find('\n', pos); return (e == std::string::npos ? text.size() : e) - pos; };
  while (steps++ < 700 && (ends < 3)) {
    size_t L = linelen(); bool eof = pos >= text.size(), lastl = text.find('\n', pos) == std::string::npos; long f0 = fio.fails; auto advance = [&] { pos += L + (lastl ? 0 : 1); nread++; };
    switch (weighted({6, 5, 3})) {
    case 0: { int r = fileparser_readline(p); note("readline=%d", r); if (fio.fails > f0) { CHECK(r != 0 && r != -2 && r != -3, "a failing read was reported as %d", r); break; }
      if (eof) { CHECK(r == -2, "at the end of the file readline returned %d", r); ends++; break; } if (L >= LIM) { CHECK(r == -3, "readline of a %zu-byte line returned %d", L, r); longl++; LABEL("line does not fit the internal buffer"); Buf b(L + 1 + draw(3)); r = fileparser_readline_userbuf(p, b.p, b.n); if (fio.fails > f0) break; CHECK(r == 0, "readline_userbuf(%zu) of a %zu-byte line after -3 returned %d", b.n, L, r); CHECK(fp_len(p) == L && !memcmp(b.p, text.data() + pos, L) && b.p[L] == 0, "line at byte %zu was altered", pos); advance(); break; }
      CHECK(r == 0, "readline at byte %zu (line of %zu) returned %d", pos, L, r); stringptr s; CHECK(fileparser_getline(p, &s) == 0, "getline"); CHECK(s.size == L && !memcmp(s.ptr, text.data() + pos, L), "line at byte %zu is %s, expected %s", pos, show(s.ptr, std::min<size_t>(s.size, 1024), 40).c_str(), show(text.data() + pos, L, 40).c_str()); CHECK(s.ptr[s.size] == 0, "line is not terminated"); advance(); break; }
    case 1: { size_t bs; switch (draw(3)) { case 0: bs = L + 1; break; case 1: bs = L ? L : 1; break; case 2: bs = 1 + sizeish(60); break; default: bs = sizenear(5000, {LIM, L}) + 1; } Buf b(bs); int r = fileparser_readline_userbuf(p, b.p, bs); note("userbuf(%zu)=%d", bs, r); mixed = true; if (fio.fails > f0) { CHECK(r != 0 && r != -2 && r != -3, "a failing read was reported as %d", r); break; }
      if (eof) { CHECK(r == -2, "at the end of the file readline_userbuf returned %d", r); ends++; break; } if (L >= bs) { CHECK(r == -3, "readline_userbuf(%zu) of a %zu-byte line returned %d", bs, L, r); LABEL("line does not fit the caller's buffer"); break; }
      CHECK(r == 0, "readline_userbuf(%zu) at byte %zu (line of %zu) returned %d", bs, pos, L, r); CHECK(fp_len(p) == L, "length %zu reported for a line of %zu", fp_len(p), L); CHECK(!memcmp(b.p, text.data() + pos, L) && b.p[L] == 0, "line at byte %zu is %s, expected %s", pos, show(b.p, L + 1, 40).c_str(), show(text.data() + pos, L, 40).c_str()); advance(); break; }
    default: { ssize_t r = fileparser_getnextlinelength(p); note("nextlen=%zd", r); q = true; if (fio.fails > f0) { CHECK(r < 0 || r == (ssize_t)L, "next line length %zd after a failing read, the line has %zu", r, L); LABEL("failing read during the length query"); break; } if (eof) { CHECK(r == -1, "next line length at the end of the file is %zd", r); break; } CHECK(r == (ssize_t)L, "next line length is %zd, the line has %zu", r, L); if (L >= LIM) LABEL("length of a long line"); } }
  }
  fio.on = false; if (fio.shorts) LABEL("short reads"); if (fio.fails) LABEL("failing reads"); if (nread > 1 && (mixed || q)) nontrivial(); stringptr s; CHECK(fileparser_getline(0, &s) != 0 && fileparser_getline(p, 0) != 0 && fileparser_close(0) != 0 && fileparser_readline_userbuf(0, 0, 0) != 0, "NULL arguments"); CHECK(fileparser_close(p) == 0, "close"); free(p);
}
static void readall() { // the usual loop: every line once, then the end
  LIM = fp_bufsize(); std::string f = std::string(scratch()) + "/t", text = gtext(); if (!spit(f, text)) return; fio = FaultIO(); if (draw(1)) fio.shortp = 1 + (unsigned)draw(14); void *p = fp_mk(); Buf fb(f, true); CHECK(fileparser_open(p, fb.p) == 0, "open"); std::vector<std::string> want; for (size_t i = 0; i < text.size();) { size_t e = text.find('\n', i); if (e == std::string::npos) e = text.size(); want.push_back(text.substr(i, e - i)); i = e + 1; } note("text %s, %zu lines", show(text, 60).c_str(), want.size()); if (want.size() > 1) nontrivial();
  fio.arm(); size_t k = 0; int r; bool peek = draw(1); while (1) { ssize_t nl = peek ? fileparser_getnextlinelength(p) : (k < want.size() ? (ssize_t)want[k].size() : -1); if (nl < 0) { r = fileparser_readline(p); CHECK(r == -2 && k == want.size(), "end reported (%d) after %zu of %zu lines", r, k, want.size()); break; } CHECK(k < want.size(), "more lines than the file has"); Buf b((size_t)nl + 1); r = fileparser_readline_userbuf(p, b.p, b.n); CHECK(r == 0 && (size_t)nl == want[k].size() && !memcmp(b.p, want[k].data(), (size_t)nl) && b.p[nl] == 0, "line %zu read with its reported length %zd: result %d, expected %s", k, nl, r, show(want[k], 40).c_str()); k++; }
  fio.on = false; fileparser_close(p); free(p);
}
static void huge() { // sparse file beyond 4 GiB
  std::string f = std::string(scratch()) + "/h"; int h = __real_open(f.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_CLOEXEC, 0644); if (h < 0) return; const size_t L = 700000000; std::vector<size_t> ends; off_t o = 0; for (int i = 0; i < 7; i++) { o += (off_t)(L - draw(1000)); if (pwrite(h, "\n", 1, o) != 1) { close(h); unlink(f.c_str()); return; } ends.push_back((size_t)o); o++; } std::string tail = "first\n\nlast"; if (pwrite(h, tail.data(), tail.size(), o) < 0) {} close(h);
  void *p = fp_mk(); Buf fb(f, true); CHECK(fileparser_open(p, fb.p) == 0, "open"); nontrivial(); char *b = (char *)mmap_big(L + 1); size_t start = 0; std::string err; for (size_t i = 0; i < ends.size() && err.empty(); i++) { int r = fileparser_readline_userbuf(p, b, L + 1); if (r || fp_len(p) != ends[i] - start) err = "line " + std::to_string(i) + " at byte " + std::to_string(start) + ": result " + std::to_string(r) + " length " + std::to_string(fp_len(p)); start = ends[i] + 1; }
  const char *T[] = {"first", "", "last"}; for (int i = 0; i < 3 && err.empty(); i++) { ssize_t n = fileparser_getnextlinelength(p); int r = fileparser_readline(p); stringptr s; fileparser_getline(p, &s); if (n != (ssize_t)strlen(T[i]) || r || s.size != strlen(T[i]) || memcmp(s.ptr, T[i], s.size)) err = std::string("line \"") + T[i] + "\" beyond 4 GiB is read wrongly"; } if (err.empty() && fileparser_readline(p) != -2) err = "end not reported"; fileparser_close(p); free(p); unlink(f.c_str()); munmap_big(b, L + 1); CHECK(err.empty(), "%s", err.c_str());
}
Check the_check = {"C21", "texts with blank, zero-containing, carriage-return-ended lines and lengths around the internal buffer and its multiples, with and without final newline, read by random histories of readline / readline_userbuf (buffers around the line length) / length queries while reads are cut short or fail, against an offset model; the usual read-all loop; one sparse file beyond 4 GiB; non-trivial: at least two lines (histories: and more than one kind of call)",
  {{"history", history, 40000, 800000, LEAK | FDS}, {"readall", readall, 30000, 600000, LEAK | FDS}, {"huge", huge, 1, 2, SOLO | SLOW | FDS}}};
