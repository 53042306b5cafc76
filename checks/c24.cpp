// C24: ulz_mkdtemp, mktempdir
#include "pbt.hpp"
#include <cerrno>
#include <map>
#include <set>
#include <unistd.h>
#include <sys/stat.h>
extern "C" { char *ulz_mkdtemp(char *); size_t mktempdir(const char *, char *, size_t); int __real_mkdir(const char *, mode_t); int __real_rand(void); }
typedef std::string S;
// sim: mkdir is a stand-in that only records; otherwise it is counted and passed on
static struct { bool on, sim; long calls, collide, extreme; std::map<S, mode_t> made; std::set<S> taken; int shm_err, tmp_err, any_err, after; std::vector<S> tried; } M;
extern "C" int __wrap_mkdir(const char *p, mode_t m) {
  if (!M.on) return __real_mkdir(p, m); if (++M.calls > 100000) { M.on = false; FAIL("no end of attempts after 100000 names"); } S s(p); if (M.tried.size() < 4000) M.tried.push_back(s); if (!M.sim) { int r = __real_mkdir(p, m); if (!r) M.made[s] = m; return r; }
  if (M.any_err && M.calls > M.after) { errno = M.any_err; return -1; } if (!s.compare(0, 9, "/dev/shm/") && M.shm_err) { errno = M.shm_err; return -1; } if (!s.compare(0, 5, "/tmp/") && M.tmp_err) { errno = M.tmp_err; return -1; }
  if (M.made.count(s) || M.taken.count(s)) { errno = EEXIST; return -1; } if (M.collide > 0) { M.collide--; M.taken.insert(s); errno = EEXIST; return -1; } M.made[s] = m; return 0;
}
extern "C" int __wrap_rand(void) { if (M.on && M.extreme > 0) { M.extreme--; return M.extreme % 3 == 0 ? RAND_MAX : M.extreme % 3 == 1 ? 0 : RAND_MAX - 1; } return __real_rand(); }
static void reset(bool sim) { M.on = false; M.sim = sim; M.calls = M.collide = M.extreme = 0; M.made.clear(); M.taken.clear(); M.shm_err = M.tmp_err = M.any_err = M.after = 0; M.tried.clear(); srand((unsigned)draw(0xffffffff)); }
static int gerr() { static const int E[] = {EACCES, ENOENT, ENOSPC, EROFS, ENOTDIR, EPERM, ENAMETOOLONG}; return E[draw(6)]; }
static bool plain(const S &s) { for (unsigned char c : s) if (!isalnum(c)) return false; return true; }
static void owner_only(const S &n) { auto it = M.made.find(n); if (it != M.made.end() && M.sim) { CHECK((it->second & 0777) == 0700, "directory created with mode %o", it->second); return; } struct stat st; CHECK(!lstat(n.c_str(), &st) && S_ISDIR(st.st_mode), "the returned name is not a directory that was created"); CHECK((st.st_mode & 0077) == 0, "directory has mode %o", st.st_mode & 0777); }
static void templ() { // simulated mkdir: collisions, errors
  reset(true); S pre = chance(1, 2) ? "/nowhere/" + gstr(draw(8), "ab/X.") : gstr(draw(10), "abX"); bool malformed = chance(1, 10); S t = malformed ? gstr(draw(5), "aX") : pre + "XXXXXX"; M.collide = chance(1, 2) ? (long)draw(chance(1, 10) ? 300 : 6) : 0; long coll = M.collide; M.extreme = chance(1, 4) ? (long)draw(30) : 0; if (chance(1, 6)) { M.any_err = gerr(); M.after = chance(1, 2) ? (int)draw(3) : 0; } note("template %s, %ld collisions, error %d after %d", show(t).c_str(), coll, M.any_err, M.after);
  Buf b(t, true); errno = 0; M.on = true; char *r = ulz_mkdtemp(b.p); int e = errno; M.on = false;
  if (malformed) { CHECK(!r, "template %s accepted", show(t).c_str()); CHECK(M.made.empty() && !M.calls, "something was created from a malformed template"); CHECK(e == EINVAL, "errno is %d", e); LABEL("malformed template"); return; }
  CHECK(b.p[t.size()] == 0 && !memcmp(b.p, t.data(), t.size() - 6), "something else than the trailing six X was changed: %s", show(b.p, b.n).c_str()); if (coll) { LABEL("collisions"); nontrivial(); }
  if (r) { CHECK(r == b.p, "another pointer returned"); S n(r), suf = n.substr(n.size() - 6); CHECK(plain(suf), "name %s contains other characters than letters and digits", show(n).c_str()); CHECK(!M.taken.count(n), "the name %s of an existing directory was returned", show(n).c_str()); owner_only(n); CHECK(M.made.size() <= 1, "%zu directories created", M.made.size()); if (!M.made.size()) rmdir(r); }
  else { CHECK(M.any_err && M.calls > M.after, "failure reported without an error"); CHECK(e == M.any_err, "errno is %d, mkdir failed with %d", e, M.any_err); CHECK(M.made.empty(), "a directory was left behind"); LABEL("failing mkdir"); }
}
static void prefix() {
  reset(true); S p = chance(1, 20) ? gstr(sizeish(4200), "ab") : gstr(draw(20), "ab_/"); size_t need = 9 + p.size() + 7, bs = chance(1, 2) ? need + draw(4) - 2 : chance(1, 2) ? draw(need) : need + sizeish(100); if (chance(1, 3)) M.shm_err = gerr(); if (chance(1, 4)) M.tmp_err = gerr(); M.collide = chance(1, 3) ? (long)draw(4) : 0; note("prefix %s buffer %zu (needs %zu) shm %d tmp %d", show(p, 30).c_str(), bs, need, M.shm_err, M.tmp_err); Buf pb(p, true), b(bs); M.on = true; size_t r = mktempdir(pb.p, b.p, bs); M.on = false; nontrivial();
  if (bs < need) { LABEL("buffer too small"); if (bs < 5 + p.size() + 7 || r == 0) { CHECK(r == 0, "a %zu-byte name reported in a %zu-byte buffer", r, bs); CHECK(M.made.empty(), "directory created although the buffer is too small"); return; } }
  if (r == 0) { CHECK(M.shm_err && M.tmp_err, "failure reported although %s works", M.shm_err ? "/tmp" : "/dev/shm"); CHECK(M.made.empty(), "directory left behind"); LABEL("both directories unusable"); return; }
  CHECK(r < bs && strlen(b.p) == r, "returned size %zu, name has %zu", r, strnlen(b.p, bs)); S n(b.p, r), dir = M.shm_err ? "/tmp/" : "/dev/shm/"; CHECK(n.size() == dir.size() + p.size() + 6 && !n.compare(0, dir.size(), dir) && !n.compare(dir.size(), p.size(), p) && plain(n.substr(n.size() - 6)), "name is %s", show(n).c_str()); CHECK(!M.taken.count(n), "existing name returned"); owner_only(n); if (M.shm_err) LABEL("fallback to /tmp"); if (!M.made.count(n)) rmdir(n.c_str());
}
static void real() { // real directories in the scratch directory, real collisions through equal random seeds, umasks
  reset(false); S base = S(scratch()) + "/"; mode_t um[] = {0, 022, 077, 027}; mode_t u = um[draw(3)]; unsigned seed = (unsigned)draw(0xffffffff); S t = base + gstr(draw(5), "aX") + "XXXXXX"; int n = 1 + (int)draw(3); std::set<S> got; mode_t o = umask(u); note("umask %o, %d directories, template %s", u, n, show(t.substr(base.size())).c_str()); S err;
  for (int i = 0; i < n && err.empty(); i++) { srand(seed); Buf b(t, true); M.on = true; char *r = ulz_mkdtemp(b.p); M.on = false; struct stat st; if (!r) err = "creation failed"; else if (lstat(r, &st) || !S_ISDIR(st.st_mode)) err = "no directory created"; else if ((st.st_mode & 0777) != (0700 & ~u)) err = "mode is wrong"; else if (!got.insert(r).second) err = "the same directory was returned twice"; else if (M.made.size() && !M.made.count(r)) err = "the name is not the one that was created"; }
  umask(o); if (n > 1) { nontrivial(); LABEL("real collisions"); } for (auto &d : got) rmdir(d.c_str()); for (auto &d : M.made) if (rmdir(d.first.c_str()) == 0 && err.empty()) err = "an extra directory was left behind"; CHECK(err.empty(), "%s", err.c_str());
  S bad = base + "missing/dir/aXXXXXX"; Buf bb(bad, true); M.on = true; char *r = ulz_mkdtemp(bb.p); M.on = false; CHECK(!r && errno == ENOENT, "missing parent: %s, errno %d", r ? "succeeded" : "failed", errno);
}
Check the_check = {"C24", "templates (short, extra X, slashes) and prefixes with mkdir replaced by a recording stand-in that reports chosen collisions and errors, random numbers at their extremes, buffers around the needed size; real directories in the scratch directory with forced name collisions and several umasks; non-trivial: at least one collision / every prefix case / several real directories",
  {{"template", templ, 600000, 5000000, 0}, {"prefix", prefix, 300000, 4000000, 0}, {"real", real, 40000, 300000, FDS}}};
