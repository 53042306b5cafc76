// C22: filelist against the known directory contents and fnmatch
#include "pbt.hpp"
#include <algorithm>
#include <climits>
#include <cerrno>
#include <map>
#include <set>
#include <fcntl.h>
#include <fnmatch.h>
#include <glob.h>
#include <unistd.h>
#include <sys/stat.h>
#include "stringptr.h"
extern "C" { void *fl_mk(); int fl_search(void *, stringptr *, stringptr *, int, int, int, int); size_t fl_size(void *); stringptr *fl_get(void *, size_t); void fl_free(void *);
int __real_glob(const char *, int, int (*)(const char *, int), glob_t *); void __real_globfree(glob_t *); }
static long globs;
extern "C" int __wrap_glob(const char *p, int f, int (*e)(const char *, int), glob_t *g) { int r = __real_glob(p, f, e, g); if (!r) globs++; return r; }
extern "C" void __wrap_globfree(glob_t *g) { globs--; __real_globfree(g); }
typedef std::string S;
static S gname(bool fordir) { S s; switch (draw(5)) { case 5: s = oneof(std::vector<S>{"~", "~root", "~a", "~/", "$HOME", "{a,b}", "a{b,c}", "`a`", "-", "--", "a b", "#", "%s", "!", "&a", "~nobody"}); break; case 0: s = gstr(1 + draw(3), "ab."); break; case 1: s = gstr(1 + draw(4), "ab*?[]\\"); break; case 2: s = S(".") + gstr(draw(3), "ab."); break; case 3: s = gbytes(1 + draw(5)); for (auto &c : s) if (!c || c == '/') c = '~'; break; default: s = gstr(1 + draw(5), "abAB -{}!^~$"); } while (s.back() == '/') s.pop_back(); if (s == "." || s == "..") s = fordir ? "d" : "..a"; return s; }
static S gmask(const std::map<S, int> &names) {
  S m; if (!names.empty() && chance(1, 3)) { auto it = names.begin(); std::advance(it, (long)draw(names.size() - 1)); for (char c : it->first) { if (c == '\\' || ((c == '*' || c == '?' || c == '[') && chance(1, 2))) m += '\\'; m += chance(1, 5) && c != '.' ? '?' : c; } if (chance(1, 3)) m += "*"; return m; }
  switch (draw(6)) { case 0: return "*"; case 1: return ".*"; case 2: return "*." + gstr(1, "ab"); case 3: return "*" + gstr(1, "ab.") + "*"; case 4: return S("[") + (draw(1) ? "!" : "") + gstr(1 + draw(1), "ab") + "]*"; case 5: return gstr(1 + draw(2), "ab?"); default: do m += oneof(std::vector<S>{"*", "?", "a", "b", ".", "\\*", "[ab]", "[a-b]", "[!a]"}); while (more(2)); return m; }
}
static void tree() {
  S base = S(scratch()) + "/t" + std::to_string(getpid() % 7); if (mkdir(base.c_str(), 0755) && errno != EEXIST) return; S dn; if (chance(2, 3)) dn = gname(true); else dn = "plain"; S dir = base + "/" + dn; if (mkdir(dir.c_str(), 0755)) { rmdir(base.c_str()); return; }
  std::map<S, int> names; unsigned avg = chance(1, 20) ? 60 : 5; while (more(avg) && names.size() < 150) { S n = gname(false); if (names.count(n)) continue; S p = dir + "/" + n; int k = (int)weighted({5, 3, 1, 1}); bool ok; switch (k) { case 0: { int f = open(p.c_str(), O_CREAT | O_WRONLY | O_CLOEXEC, 0644); ok = f >= 0; if (ok) close(f); break; } case 1: ok = !mkdir(p.c_str(), 0755); break; case 2: ok = !symlink(".", p.c_str()); break; default: ok = !symlink("/nonexistent/x", p.c_str()); } if (ok) names[n] = k; }
  for (int round = 0; round < 3; round++) {
  int dot = draw(1), dotdot = draw(1), nopath = draw(1), hidden = draw(1); S mask = gmask(names); int kind = (int)weighted({8, 3, 2, 1, 1}); S arg; bool cwd = false, bad = false;
  switch (kind) { case 0: arg = dir; break; case 1: arg = dir + S(1 + draw(2), '/'); break; case 2: cwd = true; if (chance(1, 2) && dn[0] != '/' ) { if (chdir(base.c_str())) cwd = false, arg = dir; else { arg = dn + S(draw(2), '/'); LABEL("relative directory"); } } else if (chdir(dir.c_str())) cwd = false, arg = dir; else arg = draw(1) ? S() : S("."); break; case 3: arg = dir + "/nosuch" + gstr(draw(2), "[*\\"); bad = true; break; default: arg = dir; if (!names.empty()) { for (auto &x : names) if (x.second == 0) { arg = dir + "/" + x.first; bad = true; LABEL("not a directory"); break; } } }
  note("dir %s mask %s%s%s%s%s entries", show(arg.substr(std::min(arg.size(), base.size()))).c_str(), show(mask).c_str(), dot ? " DOT" : "", dotdot ? " DOTDOT" : "", nopath ? " EXCLUDE_PATH" : "", hidden ? " HIDDEN" : ""); for (auto &x : names) note("%s%s", show(x.first).c_str(), x.second == 1 || x.second == 2 ? "/" : "");
  S pre = arg.empty() ? "./" : arg; if (pre.back() != '/') pre += '/'; std::vector<S> want; bool spec = mask[0] == '.' && !hidden, dots = false; int matched = 0;
  if (!bad) { for (auto &x : names) if (!fnmatch(mask.c_str(), x.first.c_str(), hidden ? 0 : FNM_PERIOD)) { want.push_back((nopath ? S() : pre) + x.first + (x.second == 1 || x.second == 2 ? "/" : "")); matched++; if (x.first[0] == '.') LABEL("hidden entry matched"); if (x.second == 1) LABEL("directory matched"); }
    for (const char *d : {".", ".."}) { bool req = d[1] ? dotdot : dot; if (hidden) { if (!fnmatch(mask.c_str(), d, 0)) { dots = true; if (req) want.push_back((nopath ? S() : pre) + d + "/"); } } else if (req) { if (matched || spec) want.push_back(S(d) + "/"); } } }
  Buf ab(arg), mb(mask); stringptr as = {ab.p, arg.size()}, ms = {mb.p, mask.size()}; void *l = fl_mk(); long g0 = globs; size_t live0 = pa_live(); int r = fl_search(l, arg.empty() && draw(1) ? 0 : &as, &ms, dot, dotdot, nopath, hidden); if (cwd && chdir("/")) {} if (arg.find_first_of("[*?\\") != S::npos) LABEL("special characters in the directory name");
  if (r) { CHECK(!matched, "search returned %d although %d entries match", r, matched); CHECK(globs == g0 && pa_live() == live0, "a failed search keeps memory"); LABEL("nothing found"); }
  else { std::vector<S> got; for (size_t i = 0; i < fl_size(l); i++) { stringptr *s = fl_get(l, i); CHECK(s && s->ptr && s->ptr[s->size] == 0, "entry %zu is not a terminated string", i); got.push_back(S(s->ptr, s->size)); } CHECK(!bad, "searching a missing directory or a file succeeded with %zu entries", got.size()); auto isdot = [&](const S &s) { size_t n = s.size(); return s == "./" || s == "../" || (n >= 3 && s.compare(n - 3, 3, "/./") == 0) || (n >= 4 && s.compare(n - 4, 4, "/../") == 0); };
    if (spec) { got.erase(std::remove_if(got.begin(), got.end(), isdot), got.end()); want.erase(std::remove_if(want.begin(), want.end(), isdot), want.end()); LABEL("dot mask"); } else if (!matched && !dots) FAIL("nothing matches, but the search succeeded with %zu entries", got.size());
    std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end()); if (got != want) { S a, b; for (auto &x : got) if (!std::count(want.begin(), want.end(), x) || std::count(got.begin(), got.end(), x) != std::count(want.begin(), want.end(), x)) a += show(x) + " "; for (auto &x : want) if (!std::count(got.begin(), got.end(), x)) b += show(x) + " "; FAIL("%zu entries, expected %zu; unexpected or repeated: %s missing: %s", got.size(), want.size(), a.c_str(), b.c_str()); }
    fl_free(l); CHECK(globs == g0, "freeing the list does not release the search result"); CHECK(pa_live() == live0, "freeing the list leaks"); }
  free(l); if (matched && names.size() > 1) nontrivial(); }
  for (auto &x : names) { S p = dir + "/" + x.first; if (x.second == 1) rmdir(p.c_str()); else unlink(p.c_str()); } rmdir(dir.c_str()); rmdir(base.c_str());
}
static void lengths() { // very long directories and masks: correct or refused, never out of bounds
  S dir = S(scratch()) + "/L"; mkdir(dir.c_str(), 0755); S f = dir + "/x"; int h = open(f.c_str(), O_CREAT | O_WRONLY | O_CLOEXEC, 0644); if (h >= 0) close(h); S arg = dir, mask = "*"; size_t n = 0; bool real = false;
  switch (draw(3)) { case 0: n = sizenear(9000, {4096, 4095, 4094, 4093, 2048}); arg += S(n > arg.size() ? n - arg.size() : 0, '/'); real = true; break; case 1: n = sizenear(9000, {4096, 2047, 2048, 4094}); arg = S(n + 1, "*?[\\"[draw(3)]); break; case 2: n = sizenear(9000, {4096, 4095, 4094}); mask = S(n + 1, '*'); break; default: n = sizenear(4096, {4096, 2048}); arg += S(n, '/'); mask = S(sizenear(4096, {4096 - std::min<size_t>(arg.size(), 4096)}) + 1, '?'); }
  size_t total = arg.size() + (arg.back() != '/') + mask.size(); note("dir %zu bytes, mask %zu bytes", arg.size(), mask.size()); Buf ab(arg), mb(mask); stringptr as = {ab.p, arg.size()}, ms = {mb.p, mask.size()}; void *l = fl_mk(); long g0 = globs; int r = fl_search(l, &as, &ms, 0, 0, (int)draw(1), 0); if (total > 3500 && total < 5000) nontrivial(); if (r == 0) { CHECK(fl_size(l) >= 1, "success without entries"); fl_free(l); } else if (real && total < 4000) FAIL("searching a directory of %zu bytes with mask %zu failed: %d", arg.size(), mask.size(), r); CHECK(globs == g0, "search result not released"); free(l);
  Buf z(1); stringptr e = {z.p, 0}; l = fl_mk(); CHECK(fl_search(l, &as, &e, 0, 0, 0, 0) && fl_search(l, &as, 0, 0, 0, 0, 0) && fl_search(0, &as, &as, 0, 0, 0, 0), "empty or NULL arguments accepted"); free(l);
}
Check the_check = {"C22", "directories with files, subdirectories, links (also dangling) whose names and own path contain wildcards, backslashes, dots, arbitrary bytes; masks derived from the names or from a wildcard grammar; all flag combinations; directory given with or without slashes, empty, missing or a plain file; compared as multisets with the known entries filtered by fnmatch; path/mask lengths around PATH_MAX; non-trivial: at least one match among at least two entries / total length near PATH_MAX",
  {{"tree", tree, 25000, 500000, LEAK | FDS}, {"lengths", lengths, 10000, 200000, LEAK | FDS}}};
