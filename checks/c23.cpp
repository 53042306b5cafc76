// C23: path functions
#include "pbt.hpp"
#include <climits>
#include "stringptr.h"
extern "C" { int normalizepath(stringptr *); char *normalizepath_cstr(const char *, char *); char *psp_normalizepath_cstr(const char *, char *); ssize_t getpathdiff(stringptr *, stringptr *, char *); char *getfilename(stringptr *); char *getFileExt(const char *, size_t); }
typedef std::string S;
static bool model(const S &p, S &out) { if (p.empty() || p[0] != '/') return false; std::vector<S> st; size_t i = 0; while (i < p.size()) { while (i < p.size() && p[i] == '/') i++; size_t e = p.find('/', i); if (e == S::npos) e = p.size(); S c = p.substr(i, e - i); i = e; if (c.empty() || c == ".") continue; if (c == "..") { if (st.empty()) return false; st.pop_back(); } else st.push_back(c); } out.clear(); for (auto &c : st) out += "/" + c; if (out.empty()) out = "/"; return true; }
static S comp() { switch (weighted({5, 3, 4, 2, 3, 1})) { case 0: return gstr(1 + draw(2), "ab"); case 1: return "."; case 2: return ".."; case 3: return ""; case 4: return gstr(1 + draw(4), "a.b"); default: { S s = gbytes(1 + draw(6)); for (auto &c : s) if (!c || c == '/') c = '\\'; return s; } } }
static S gpath(bool big) { S p; if (!chance(1, 12)) p = "/"; if (chance(1, 6)) p += S(draw(4), '/'); unsigned avg = big ? 400 : chance(1, 8) ? 30 : 5; size_t n = 0; bool first = true; while (more(avg) && n++ < 5000) { if (!first) p += S(chance(1, 5) ? 1 + draw(3) : 1, '/'); first = false; p += big && chance(1, 2) ? gstr(1 + draw(60), "abcdefgh.") : comp(); } if (chance(1, 4)) p += S(1 + draw(2), '/'); if (chance(1, 10)) p += "/."; if (chance(1, 10)) p += "/.."; return p; }
static void judge(const S &p) {
  S want; bool ok = model(p, want); { Buf in(p, true), out(p.size() + 1); char *r = normalizepath_cstr(in.p, out.p); if (ok) { CHECK(r == out.p, "normalizepath_cstr(%s) %s", show(p).c_str(), r ? "returned another pointer" : "failed"); CHECK(want == r, "normalizepath_cstr(%s) = %s, expected %s", show(p).c_str(), show(S(r)).c_str(), show(want).c_str()); } else CHECK(!r, "normalizepath_cstr(%s) succeeded with %s", show(p).c_str(), show(S(r)).c_str()); CHECK(!memcmp(in.p, p.c_str(), p.size() + 1), "input modified"); }
  Buf b(p, true); stringptr s = {b.p, p.size()}; int r = normalizepath(&s); CHECK(s.ptr == b.p, "pointer changed");
  if (r) { CHECK(ok, "normalizepath(%s) succeeded with %s", show(p).c_str(), show(s.ptr, s.size).c_str()); CHECK(s.size == want.size() && !memcmp(s.ptr, want.data(), s.size) && s.ptr[s.size] == 0, "normalizepath(%s) = %s, expected %s", show(p).c_str(), show(s.ptr, s.size).c_str(), show(want).c_str()); stringptr t = s; CHECK(normalizepath(&t) == 1 && t.size == want.size() && !memcmp(t.ptr, want.data(), t.size), "normalising %s again changes it", show(want).c_str()); }
  else { CHECK(!ok || p.size() >= PATH_MAX, "normalizepath(%s) failed", show(p).c_str()); CHECK(s.size == p.size() && !memcmp(b.p, p.c_str(), p.size() + 1), "failed normalizepath(%s) modified its argument", show(p).c_str()); if (ok) LABEL("too long, refused"); }
  if (!ok) LABEL("relative or above the root"); else if (want != p) { LABEL("changed by normalisation"); }
}
static void norm() { S p = gpath(false); note("%s", show(p, 200).c_str()); if (p.find('.') != S::npos && p.size() > 3) nontrivial(); judge(p); }
static void longp() { S p; switch (draw(3)) { case 3: p = gpath(true); break; case 0: p = "/" + S(sizenear(9000, {4094, 4095, 4096, 4097}), 'a'); break; case 2: { size_t n = sizenear(9000, {4094, 4095, 4096}); while (p.size() < n) p += chance(1, 8) ? "/../x" : "/abcdefg"; break; } case 1: p = "/" + S(sizenear(9000, {4094, 4095, 4096}), (char)47) + S(draw(5), (char)98); break; } note("%zu bytes", p.size()); if (p.size() > 3000) nontrivial(); judge(p); }
static void tiny() { u64 i = case_index(); S p; static const char A[] = "/.ab"; for (u64 k = i; k; k = (k - 1) / 4) p += A[(k - 1) & 3]; note("%s", show(p).c_str()); if (p.size() > 3) nontrivial(); judge(p); }
static void psp() { // the PSP build: drive name and colon before the first slash
  S pre, rest; static const char *D[] = {"ms0:", "umd:", "", ":", "a:b:", "ms0", "x", ".:", "..:", "ms0:x"};
  switch (weighted({6, 2, 1})) { case 0: pre = D[draw(9)]; break; case 1: pre = gstr(draw(5), "a.:b"); break; default: pre = gbytes(draw(6)); for (auto &c : pre) if (!c || c == '/') c = ':'; }
  rest = gpath(chance(1, 30)); S p = pre + rest; note("%s", show(p, 200).c_str()); size_t sl = p.find('/'); S want; bool ok = sl != S::npos && (sl == 0 || p[sl - 1] == ':'); if (ok) { S w; ok = model(p.substr(sl), w); want = p.substr(0, sl) + w; }
  Buf in(p, true), out(p.size() + 1); char *r = psp_normalizepath_cstr(in.p, out.p);
  if (!ok) CHECK(!r, "PSP normalizepath_cstr(%s) succeeded with %s", show(p).c_str(), show(S(r)).c_str());
  else { CHECK(r == out.p, "PSP normalizepath_cstr(%s) %s", show(p).c_str(), r ? "returned another pointer" : "failed"); S g = r; bool root = sl && want.size() == sl + 1; CHECK(g == want || (root && g + "/" == want), "PSP normalizepath_cstr(%s) = %s, expected %s", show(p).c_str(), show(g).c_str(), show(want).c_str()); if (sl) { LABEL("drive"); nontrivial(); } if (root) LABEL("drive root"); }
  if (!ok) LABEL("PSP: refused"); CHECK(!memcmp(in.p, p.c_str(), p.size() + 1), "input modified");
}
static void parts() {
  S a = gpath(false), b; switch (draw(4)) { case 0: b = gpath(false); break; case 1: b = a + "/" + gpath(false); break; case 2: b = a + gstr(1 + draw(2), "ab/."); break; case 3: b = a; break; default: { S w; b = model(a, w) ? (w == "/" ? S() : w) + "/" + gstr(1 + draw(3), "ab") : a; } } if (chance(1, 6)) std::swap(a, b);
  S na, nb; bool oa = model(a, na), ob = model(b, nb); note("diff %s %s", show(a).c_str(), show(b).c_str()); { Buf ba(a, true), bb(b, true), w(b.size() + 1); stringptr sa = {ba.p, a.size()}, sb = {bb.p, b.size()}; ssize_t r = getpathdiff(&sa, &sb, w.p);
    if (!oa || !ob) CHECK(r == -1, "getpathdiff(%s, %s) = %zd although a path is not absolute or leaves the root", show(a).c_str(), show(b).c_str(), r);
    else if (na == nb) { CHECK((r == 0 && w.p[0] == 0) || (na == "/" && r == 1 && !strcmp(w.p, "/")), "getpathdiff of equal paths %s = %zd", show(na).c_str(), r); LABEL("equal paths"); }
    else { S pre = na == "/" ? "" : na; bool anc = nb.size() > pre.size() && nb.compare(0, pre.size(), pre) == 0 && nb[pre.size()] == '/'; if (anc) { S want = nb.substr(pre.size()); CHECK(r == (ssize_t)want.size() && want == w.p, "getpathdiff(%s, %s) = %zd %s, expected %s", show(na).c_str(), show(nb).c_str(), r, r >= 0 ? show(S(w.p)).c_str() : "", show(want).c_str()); LABEL("ancestor"); nontrivial(); } else { CHECK(r == -1, "getpathdiff(%s, %s) = %zd %s although the first is not an ancestor", show(na).c_str(), show(nb).c_str(), r, r >= 0 ? show(S(w.p)).c_str() : ""); if (nb.compare(0, na.size(), na) == 0) LABEL("shared name prefix only"); } }
    if (oa && ob) CHECK(sa.size == na.size() && !memcmp(sa.ptr, na.data(), sa.size), "first path left as %s", show(sa.ptr, sa.size).c_str()); }
  S f = chance(1, 3) ? gstr(draw(8), "a./b") : gpath(false); { Buf fb(f); size_t d = f.rfind('.'); char *e = getFileExt(fb.p, f.size()), *x = d == S::npos ? 0 : fb.p + d + 1; CHECK(e == x, "getFileExt(%s) = %s, expected %s", show(f).c_str(), e ? show(e, (size_t)(fb.p + f.size() - e)).c_str() : "NULL", x ? show(x, f.size() - d - 1).c_str() : "NULL"); stringptr s = {fb.p, f.size()}; size_t sl = f.rfind('/'); char *g = getfilename(&s); CHECK(g == (sl == S::npos ? 0 : fb.p + sl + 1), "getfilename(%s)", show(f).c_str()); if (d == S::npos) LABEL("no dot"); if (sl == S::npos) LABEL("no slash"); note("name %s", show(f).c_str()); CHECK(fb.str() == f, "input modified"); }
}
Check the_check = {"C23", "paths built from names, '.', '..', '...'-like names, empty components, repeated and trailing slashes and arbitrary bytes, relative and absolute, up to and beyond PATH_MAX, against a component-stack model, in exact-size buffers; all strings up to 9 over {/ . a b}; drive-prefixed paths for the PSP build of the C-string variant; path pairs (ancestor, equal, shared prefix, unrelated) and file names; non-trivial: a dot and more than 3 bytes / more than 3000 bytes / an ancestor pair / an accepted drive path",
  {{"tiny", tiny, 349525, 1398101, ENUM}, {"norm", norm, 1500000, 20000000, FUZZ}, {"long", longp, 60000, 800000, 0}, {"psp", psp, 300000, 5000000, FUZZ}, {"parts", parts, 700000, 10000000, FUZZ}}};
