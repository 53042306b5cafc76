// C20: whole-file load/save, line lists, size and modification time, under short / failing / racing I/O
#include "pbt.hpp"
#include "faultio.hpp"
#include <memory>
#include <climits>
#include <sys/stat.h>
#include <sys/time.h>
#include "stringptr.h"
extern "C" { struct sblist; sblist *z_new(); int z_add(sblist *, char *, size_t); size_t z_size(sblist *); stringptr *z_get(sblist *, size_t); void z_free(sblist *); int stringptrlist_tofile(sblist *, char *, int); int stringptrlist_fromfile(sblist *, const char *); void stringptrlist_freeall(sblist *); size_t getfilesize(char *); time_t getFileModTime(const char *); }
static std::string fn() { return std::string(scratch()) + "/f"; }
static void regime() { fio = FaultIO(); switch (weighted({3, 3, 3, 2})) { case 0: break; case 1: fio.shortp = 1 + (unsigned)draw(14); break; case 2: fio.failp = 1 + (unsigned)draw(4); fio.openp = chance(1, 4) ? 4 : 0; fio.sticky = draw(1); if (draw(1)) fio.shortp = 4; break; default: fio.change_at = (long)draw(4); if (draw(1)) fio.shortp = 8; } }
static void tell() { note("shorts %ld failures %ld changes %ld", fio.shorts, fio.fails, fio.changes); if (fio.shorts) LABEL("short counts"); if (fio.fails) LABEL("failing calls"); if (fio.changes) LABEL("file changes meanwhile"); if (!fio.shorts && !fio.faulty()) LABEL("undisturbed"); }
static std::string content() { size_t n = g_long ? (chance(1, 3) ? sizeish(5000) : (size_t)(chance(1, 2) ? ((1 + draw(9)) << 20) / (1 + draw(1)) + draw(8) : 200000 + draw(5 << 20)) - (size_t)draw(4)) : chance(1, 8) ? sizenear(200000, {65535, 65536, 65537, 131072}) : sizeish(3000); if (n <= 4000) return gbytes(n); std::string s(n, 0); gfill(&s[0], n, draw(1000)); return s; }
static void whole() {
  std::string f = fn(), old = content(), data = content(); unlink(f.c_str()); bool had = chance(2, 3); if (had) spit(f, old);
  // save
  regime(); Buf db(data), nb(f, true); stringptr sp = {db.p, data.size()}; note("old %ld data %zu", had ? (long)old.size() : -1L, data.size()); bool missing_dir = chance(1, 12); std::string target = missing_dir ? f + "/x/y" : f; Buf tb(target, true); fio.change_at = -1; fio.arm(); size_t r = stringptr_tofile(tb.p, &sp); fio.on = false; tell(); if (data.size() > 1) nontrivial(); bool ok; std::string now = slurp(f, &ok);
  if (missing_dir) { CHECK(r == 0, "saving into a missing directory returned %zu", r); CHECK(ok == had && (!had || now == old), "another file was changed"); unlink(f.c_str()); had = false; }
  else {
    CHECK(r <= data.size(), "tofile returned %zu for %zu bytes", r, data.size()); if (!fio.fails) CHECK(r == data.size() || fio.shorts, "tofile reported %zu of %zu without any failure", r, data.size());
    if (r == data.size() && !(data.empty() && fio.fails)) { CHECK(ok, "success reported but there is no file"); CHECK(now == data, "success reported but the file has %zu bytes (first difference at %zu), expected %zu", now.size(), (size_t)(std::mismatch(now.begin(), now.begin() + (long)std::min(now.size(), data.size()), data.begin()).first - now.begin()), data.size()); }
    else if (ok && r) { CHECK(now.size() >= r && now.size() <= data.size() && data.compare(0, now.size(), now) == 0, "%zu bytes reported, file has %zu which are not a prefix", r, now.size()); }
    CHECK(!memcmp(db.p, data.data(), data.size()), "the saved string was modified"); struct stat st; if (!had && ok && !stat(f.c_str(), &st)) CHECK(st.st_mode & S_IRUSR, "created file is not readable by its owner: mode %o", st.st_mode & 07777);
  }
  CHECK(stringptr_tofile(0, &sp) == 0 && stringptr_tofile(nb.p, 0) == 0, "NULL arguments");
  // load
  std::string x = content(), y = content(); if (chance(1, 2)) y = x.substr(0, draw(x.size())); else if (chance(1, 2)) y = x + y; bool present = !chance(1, 12); if (present) spit(f, x); else unlink(f.c_str()); regime(); if (fio.change_at >= 0) { bool rm = chance(1, 6); fio.change = [&, rm] { if (rm) unlink(f.c_str()); else if (truncate(f.c_str(), (off_t)std::min(x.size(), y.size())) == 0) { int h = __real_open(f.c_str(), O_WRONLY | O_CLOEXEC, 0); if (h >= 0) { if (pwrite(h, y.data(), y.size(), 0) < 0) {} close(h); } } }; if (y.size() >= x.size()) LABEL("grows while being read"); else LABEL("shrinks while being read"); if (!present) fio.change = nullptr; }
  note("load %ld bytes, then %zu", present ? (long)x.size() : -1L, y.size()); size_t live = pa_live(); fio.arm(); stringptr *s = stringptr_fromfile(nb.p); fio.on = false; tell(); bool disturbed = fio.faulty() || fio.shorts;
  if (s) { CHECK(present && x.size(), "a string was returned for %s file", present ? "an empty" : "a missing"); std::string got(s->ptr, s->size); bool good = got == x; if (fio.changes) { good = good || got == y || (y.size() >= x.size() && got == y.substr(0, x.size())); if (!good && got.size() <= std::max(x.size(), y.size())) { good = true; for (size_t i = 0; i < got.size() && good; i++) good = (i < x.size() && got[i] == x[i]) || (i < y.size() && got[i] == y[i]); good = good && (got.size() == x.size() || got.size() == y.size()); } } CHECK(good, "loading returned %zu bytes that are not the file's (%zu) as success", got.size(), x.size()); CHECK(s->ptr[s->size] == 0, "not terminated"); free(s); }
  else CHECK(disturbed || !present || x.empty(), "loading an undisturbed file of %zu bytes failed", x.size());
  CHECK(pa_live() == live, "leak while loading"); if (fio.shorts && !fio.faulty() && s) LABEL("short counts survived");
}
struct V { std::vector<std::string> v; };
static std::vector<std::string> glines() { std::vector<std::string> v; unsigned avg = chance(1, 10) ? 60 : 6; while (more(avg) && v.size() < 300) { std::string l; switch (draw(5)) { case 0: break; case 1: l = gbytes(sizenear(1022, {1000, 1020, 1022, 1023}) % 1023); break; case 2: l = gbytes(1000 + draw(22)); break; default: l = gbytes(sizeish(30)); } for (auto &c : l) if (c == '\n') c = ' '; v.push_back(l); } return v; }
static void lists() {
  std::string f = fn(); Buf nb(f, true); auto v = glines(); unlink(f.c_str()); bool had = chance(1, 2); std::string old = content(); if (had) spit(f, old);
  sblist *l = z_new(); std::vector<std::unique_ptr<Buf>> keep; std::string want; for (auto &s : v) { keep.emplace_back(new Buf(s)); z_add(l, keep.back()->p, s.size()); want += s + "\n"; }
  regime(); fio.change_at = -1; int modes[] = {0600, 0644, 0640, 0660, 0400, 0444, 0440}; int mode = modes[draw(6)]; mode_t um = umask(022); umask(um); if (!(mode & 0200)) LABEL("mode without write permission"); note("%zu lines, %zu bytes, mode %o", v.size(), want.size(), mode); if (v.size() > 1) nontrivial(); for (auto &s : v) if (s.empty()) LABEL("blank line"); fio.arm(); int r = stringptrlist_tofile(l, nb.p, mode); fio.on = false; tell(); z_free(l); bool ok; std::string now = slurp(f, &ok);
  if (r) { CHECK(ok && now == want, "tofile reported success but the file has %zu bytes, expected %zu", now.size(), want.size()); struct stat st; if (!had && !stat(f.c_str(), &st)) CHECK((int)(st.st_mode & 0777) == (mode & ~(int)um), "file mode %o, requested %o", st.st_mode & 0777, mode); } else CHECK(fio.fails || fio.shorts, "tofile failed undisturbed");
  // load (written by us so that the text is known; missing final newline, over-long lines)
  auto w = glines(); bool toolong = chance(1, 8); if (toolong) { std::string b = gbytes(sizenear(5000, {1024, 1025, 2047, 2048, 2049, 4096}) + 1024); for (auto &c : b) if (c == '\n') c = 'y'; w.insert(w.begin() + (long)draw(w.size()), b); LABEL("line longer than the reader's limit"); } std::string text; for (auto &s : w) text += s + "\n"; if (!w.empty() && !w.back().empty() && chance(1, 3)) { text.pop_back(); LABEL("no final newline"); } bool present = !chance(1, 12); if (present) spit(f, text); else unlink(f.c_str());
  std::vector<std::string> pre; if (chance(1, 3)) pre = {"already", ""}; l = z_new(); for (auto &s : pre) { char *d = (char *)malloc(s.size() + 1); memcpy(d, s.c_str(), s.size() + 1); z_add(l, d, s.size()); } regime(); fio.change_at = -1; note("load %ld lines (%zu bytes) after %zu", present ? (long)w.size() : -1L, text.size(), pre.size()); fio.arm(); r = stringptrlist_fromfile(l, nb.p); fio.on = false; tell();
  size_t n = z_size(l); CHECK(n >= pre.size(), "entries of the list were lost"); std::vector<std::string> all = pre; all.insert(all.end(), w.begin(), w.end()); if (!present) all = pre; CHECK(n <= all.size(), "list has %zu entries, file has %zu lines", n, w.size()); for (size_t i = 0; i < n; i++) { stringptr *s = z_get(l, i); CHECK(s && std::string(s->ptr, s->size) == all[i], "line %zu is %s, expected %s", i, s ? show(s->ptr, std::min<size_t>(s->size, 5000), 40).c_str() : "NULL", show(all[i], 40).c_str()); CHECK(s->ptr[s->size] == 0, "line %zu is not terminated", i); }
  if (r) { CHECK(present, "success for a missing file"); CHECK(n == all.size(), "success reported after %zu of %zu lines", n - pre.size(), w.size()); } else CHECK(!present || toolong || fio.fails || fio.shorts, "loading an undisturbed file of %zu lines failed after %zu", w.size(), n - pre.size());
  stringptrlist_freeall(l);
}
static void meta() {
  std::string f = fn() + "m"; Buf nb(f, true); unlink(f.c_str()); int h = __real_open(f.c_str(), O_WRONLY | O_CREAT | O_CLOEXEC, 0644); if (h < 0) return; off_t n = chance(1, 4) ? (off_t)draw(1ull << 36) : chance(1, 2) ? (off_t)((1ull << (31 + draw(3))) + draw(4) - 2) : (off_t)sizeish(100000); if (ftruncate(h, n)) n = 0; struct timespec ts[2] = {{1, 0}, {chance(1, 8) ? (time_t)-(i64)draw(1000000) : (time_t)draw(chance(1, 4) ? (1ull << 33) : 2000000000), (long)draw(999999999)}}; futimens(h, ts); struct stat st; fstat(h, &st); close(h); note("size %lld mtime %lld", (long long)n, (long long)st.st_mtime); if (n > 1) nontrivial(); if (n > 0xffffffffll) LABEL("size above 4 GiB"); size_t s = getfilesize(nb.p); time_t m = getFileModTime(nb.p); unlink(f.c_str()); CHECK(s == (size_t)n, "getfilesize = %zu, the file has %lld bytes", s, (long long)n); CHECK(m == st.st_mtime, "getFileModTime = %lld, expected %lld", (long long)m, (long long)st.st_mtime); CHECK(getfilesize(nb.p) == 0 && getFileModTime(nb.p) == 0, "missing file");
}
static void huge() { // files and buffers beyond 2^32 bytes
  size_t n = case_index() ? (1ull << 31) + 8191 : (1ull << 32) + 4099; std::string f = fn() + "h"; unlink(f.c_str()); fio = FaultIO(); nontrivial(); pa_limit = 8ull << 30; note("%zu bytes", n);
  int h = __real_open(f.c_str(), O_WRONLY | O_CREAT | O_CLOEXEC, 0644); if (h < 0) return; bool ok = pwrite(h, "end", 3, (off_t)n - 3) == 3 && pwrite(h, "mid", 3, (off_t)n / 2) == 3 && pwrite(h, "begin", 5, 0) == 5; close(h); if (!ok) { unlink(f.c_str()); return; } Buf nb(f, true); size_t g = getfilesize(nb.p); stringptr *r = stringptr_fromfile(nb.p); unlink(f.c_str()); CHECK(g == n, "getfilesize is %zu of %zu", g, n);
  CHECK(r && r->size == n, "stringptr_fromfile returned %zu of %zu bytes", r ? r->size : 0, n); CHECK(!memcmp(r->ptr, "begin", 6) && !memcmp(r->ptr + n / 2, "mid", 4) && !memcmp(r->ptr + n - 3, "end", 4), "stringptr_fromfile of %zu bytes altered the contents", n);
  Buf nul(std::string("/dev/null"), true); size_t w = stringptr_tofile(nul.p, r); free(r); CHECK(w == n, "stringptr_tofile of %zu bytes returned %zu", n, w); pa_limit = 3ull << 30;
}
Check the_check = {"C20", "strings and line lists (blank, 1023-byte and over-long lines, zeros, missing final newline, pre-existing longer files, missing directories) saved and loaded while the wrapped open/read/write calls return short counts, EINTR/EIO/ENOSPC once or persistently, or the file is truncated, grown or removed at a chosen call; file size and times incl. sizes above 4 GiB; non-trivial: more than one byte / more than one line",
  {{"huge", huge, 1, 2, ENUM | SOLO | SLOW | LEAK | FDS}, {"whole", whole, 60000, 900000, LEAK | FDS}, {"whole-mega", whole, 250, 6000, LEAK | FDS | LONGS}, {"lists", lists, 60000, 900000, LEAK | FDS}, {"meta", meta, 20000, 200000, FDS}}};
