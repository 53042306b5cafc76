// C25: iniparser
#include "pbt.hpp"
#include <memory>
#include <set>
#include <sys/types.h>
#include "stringptr.h"
extern "C" { struct sblist; void i_sec(sblist *, stringptr *, size_t *, size_t *); void i_next(sblist *, stringptr *, size_t *, size_t *); void i_whole(sblist *, size_t *, size_t *); void i_val(sblist *, size_t, size_t, stringptr *, stringptr *); ssize_t i_valat(sblist *, size_t, size_t, stringptr *, stringptr *, size_t); size_t i_count(sblist *); sblist *i_new(); void i_add(sblist *, char *, size_t); size_t i_size(sblist *); stringptr *i_get(sblist *, size_t); sblist *i_split(stringptr *); void i_free(sblist *); }
typedef std::string S;
static S gname() { return chance(1, 12) ? gstr(1 + draw(30), "ab c.=-") : gstr(1 + maybelong(draw(3)), "ab"); }
static S gkey() { return chance(1, 15) ? gstr(1 + draw(6), "ab =[") : gstr(1 + maybelong(draw(2)), "xy"); }
static S gline(bool odd) {
  switch (weighted({4, 10, 1, 1, 2, odd ? 2u : 0u})) { case 0: return "[" + gname() + "]" + (chance(1, 4) ? gstr(1 + (chance(1, 5) ? sizeish(60) : maybelong(draw(2))), " \t") : ""); case 1: { S k = gkey(); if (k[0] == '[') k[0] = 'x'; return k + "=" + (chance(1, 5) ? S() : chance(1, 8) ? gstr(draw(6), "=[]x y\t") : gstr(1 + maybelong(draw(4)), "xy01")); } case 2: return ""; case 3: { S s = gbytes(1 + draw(8)); for (auto &c : s) if (c == '\n' || c == 0) c = ';'; if (s[0] == '[') s[0] = '#'; return s; } case 4: { S k = gkey(); if (k[0] == '[') k[0] = 'y'; return chance(1, 3) ? k : chance(1, 2) ? k + " =v" : "=" + k; } default: return oneof(std::vector<S>{"[", "[a", "[a] b", "[a]]", "a]", " [a]", "[ab", "[a]x=1", "]", "[x=1"}); }
}
static bool header(const S &l) { if (l.size() < 3 || l[0] != '[') return false; size_t e = l.find_last_not_of(" \t"); return e != S::npos && l[e] == ']'; }
static void lookup() {
  std::vector<S> v; unsigned avg = chance(1, 10) ? 60 : 10; if (g_long && draw(7) == 7) { size_t n = 65000 + draw(700); for (size_t i = 0; i < n; i++) v.push_back(i % 3 ? "fill=1" : "; c"); } size_t lim = v.size() + 300; while (more(avg) && v.size() < lim) v.push_back(gline(false)); std::vector<std::unique_ptr<Buf>> keep; sblist *l; std::unique_ptr<Buf> text; bool viatext = draw(1); S t;
  if (viatext) { for (auto &x : v) t += x + "\n"; if (!t.empty()) t.pop_back(); if (v.empty()) v.push_back(""); else if (v.size() == 1 && v[0].empty()) {} text.reset(new Buf(t, true)); stringptr sp = {text->p, t.size()}; l = i_split(&sp); } else { l = i_new(); for (auto &x : v) { keep.emplace_back(new Buf(x)); i_add(l, keep.back()->p, x.size()); } }
  CHECK(i_size(l) == v.size(), "list has %zu lines, expected %zu", i_size(l), v.size()); for (auto &x : v) note("%s", show(x).c_str());
  std::vector<size_t> heads; for (size_t i = 0; i < v.size(); i++) if (header(v[i])) heads.push_back(i); CHECK(i_count(l) == heads.size(), "section count is %zu, the text has %zu headers", i_count(l), heads.size());
  std::vector<S> names; for (size_t h : heads) { size_t e = v[h].find(']'); S n = v[h].substr(1, e - 1); bool k = false; for (auto &x : names) k = k || x == n; if (!k) names.push_back(n); }
  std::vector<S> q = names; q.push_back(gname()); if (names.size()) { S n = oneof(names); q.push_back(n.substr(0, n.size() - 1) + "z"); if (n.size() > 1) q.push_back(n.substr(0, n.size() - 1)); q.push_back(n + "a"); } size_t walked = 0; std::vector<S> keys; for (auto &x : v) { size_t e = x.find('='); if (e != S::npos && e && keys.size() < 12) keys.push_back(x.substr(0, e)); } keys.push_back(gkey()); if (keys.size() > 1) { S k = keys[0]; if (k.size() > 1) keys.push_back(k.substr(0, k.size() - 1)); keys.push_back(k + "x"); }
  auto ends = [&](size_t h) { size_t e = h + 1; while (e < v.size() && !(v[e].size() && v[e][0] == '[')) e++; return e; };
  bool found = false, dup = false; std::set<S> seen;
  auto values = [&](size_t a, size_t e, const char *where) { for (auto &k : keys) { Buf kb(k); stringptr ks = {kb.p, k.size()}, r = {kb.p, 77}; if (chance(1, 4)) for (size_t i = 0; i < v.size() && i < 40; i++) if (v[i].compare(0, k.size(), k) == 0) { ks.ptr = i_get(l, i)->ptr; LABEL("key is a slice of the text"); break; } size_t at = a; auto hit = [&](size_t i) { return v[i].size() > k.size() && v[i].compare(0, k.size(), k) == 0 && v[i][k.size()] == '='; }; while (at < e && !hit(at)) at++; i_val(l, a, e - a, &ks, &r);
      if (at == e) CHECK(!r.size && !r.ptr, "%s: key %s is absent but has value %s", where, show(k).c_str(), r.ptr ? show(r.ptr, std::min<size_t>(r.size, 100)).c_str() : "NULL"); else { S w = v[at].substr(k.size() + 1); CHECK(r.ptr && r.size == w.size() && !memcmp(r.ptr, w.data(), w.size()) && r.ptr == i_get(l, at)->ptr + k.size() + 1, "%s: value of %s is %s, expected %s", where, show(k).c_str(), r.ptr ? show(r.ptr, std::min<size_t>(r.size, 100)).c_str() : "NULL", show(w).c_str()); found = true; }
      size_t st = a + draw(e - a), at2 = st; while (at2 < e && !hit(at2)) at2++; ssize_t li = i_valat(l, a, e - a, &ks, &r, st); CHECK(li == (at2 == e ? -1 : (ssize_t)at2), "%s: getvalue_at from line %zu found line %zd, expected %zd", where, st, li, at2 == e ? (ssize_t)-1 : (ssize_t)at2); if (at2 < e) CHECK(r.size == v[at2].size() - k.size() - 1 && r.ptr == i_get(l, at2)->ptr + k.size() + 1, "getvalue_at value"); else CHECK(!r.size && !r.ptr, "getvalue_at value of an absent key"); } };
  for (auto &n : q) { if (n.find(']') != S::npos) continue; Buf nb(n); stringptr ns = {nb.p, n.size()}; if (chance(1, 4)) for (size_t h : heads) if (v[h].compare(1, n.size(), n) == 0) { ns.ptr = i_get(l, h)->ptr + 1; LABEL("name is a slice of the text"); break; } size_t a, c; std::vector<size_t> want; for (size_t h : heads) if (v[h].compare(0, n.size() + 2, "[" + n + "]") == 0) want.push_back(h); i_sec(l, &ns, &a, &c); bool inlist = false; for (auto &x : names) inlist = inlist || x == n;
    if (want.empty()) { CHECK(a == 0 && c == 0, "section %s is absent but reported at %zu+%zu", show(n).c_str(), a, c); stringptr r = {0, 1}; Buf kb(keys[0]); stringptr ks = {kb.p, keys[0].size()}; i_val(l, a, c, &ks, &r); CHECK(!r.size && !r.ptr, "a value in an absent section"); continue; }
    size_t k = 0; while (1) { if (k == want.size()) { CHECK(a == 0 && c == 0, "section %s: another one reported at %zu+%zu after %zu", show(n).c_str(), a, c, k); break; } CHECK(a == want[k] + 1 && c == ends(want[k]) - a, "section %s number %zu reported at lines %zu+%zu, expected %zu+%zu", show(n).c_str(), k, a, c, want[k] + 1, ends(want[k]) - want[k] - 1); values(a, a + c, n.c_str()); k++; if (k > 1) dup = true; i_next(l, &ns, &a, &c); } if (inlist && seen.insert(n).second) walked += k; }
  CHECK(walked == heads.size(), "walking all sections visits %zu of %zu headers", walked, heads.size()); if (dup) LABEL("repeated section"); if (found) LABEL("key found"); if (heads.size() > 1 && found) nontrivial();
  size_t a, c; i_whole(l, &a, &c); CHECK(a == 0 && c == v.size(), "file as section is %zu+%zu", a, c); values(0, v.size(), "(file)");
  for (size_t i = 0; i < v.size(); i++) { stringptr *s = i_get(l, i); CHECK(s->size == v[i].size() && !memcmp(s->ptr, v[i].data(), s->size), "line %zu was modified", i); } i_free(l);
}
static void count() { std::vector<S> v; while (more(8) && v.size() < 60) v.push_back(gline(true)); std::vector<std::unique_ptr<Buf>> keep; sblist *l = i_new(); size_t n = 0; for (auto &x : v) { keep.emplace_back(new Buf(x)); i_add(l, keep.back()->p, x.size()); n += header(x); note("%s", show(x).c_str()); } if (n > 1) nontrivial(); CHECK(i_count(l) == n, "section count is %zu, the text has %zu header lines", i_count(l), n); // robustness of lookups on malformed headers: in bounds, result inside the list
  S q = gname(); Buf nb(q); stringptr ns = {nb.p, q.size()}; size_t a, c; i_sec(l, &ns, &a, &c); CHECK(a + c <= v.size() && a + c >= a, "section %zu+%zu outside the %zu lines", a, c, v.size()); for (size_t g = 0; g <= v.size() && a; g++) { size_t pa = a; i_next(l, &ns, &a, &c); CHECK(!a || a > pa, "the section walk does not advance"); CHECK(a + c <= v.size(), "section outside the file"); } CHECK(!a, "the section walk does not end"); i_free(l); }
static void many() { // more sections than 16 bits count
  size_t n = 65530 + draw(3000); S t; std::vector<size_t> at; for (size_t i = 0, line = 0; i < n; i++) { at.push_back(line); t += "[s" + std::to_string(i) + "]\nk=" + std::to_string(i) + "\n"; line += 2; if (chance(1, 50)) { t += "\n"; line++; } } at.push_back(0); t.pop_back(); Buf b(t, true); stringptr sp = {b.p, t.size()}; sblist *l = i_split(&sp); note("%zu sections", n); nontrivial(); CHECK(i_count(l) == n, "section count is %zu, the text has %zu headers", i_count(l), n);
  for (int k = 0; k < 6; k++) { size_t i = k == 0 ? n - 1 : k == 1 ? 32768 + draw(9) : draw(n - 1); S nm = "s" + std::to_string(i), w = std::to_string(i); Buf nb(nm), kb(S("k")); stringptr ns = {nb.p, nm.size()}, ks = {kb.p, 1}, r = {0, 0}; size_t a, c; i_sec(l, &ns, &a, &c); CHECK(a == at[i] + 1, "section %zu of %zu reported at line %zu, expected %zu", i, n, a, at[i] + 1); i_val(l, a, c, &ks, &r); CHECK(r.size == w.size() && !memcmp(r.ptr, w.data(), w.size()), "value in section %zu of %zu is %s", i, n, r.ptr ? show(r.ptr, r.size).c_str() : "NULL"); ssize_t li = i_valat(l, a, c, &ks, &r, a); CHECK(li == (ssize_t)a, "getvalue_at reports line %zd, expected %zu", li, a); i_next(l, &ns, &a, &c); CHECK(!a && !c, "a second section of a name that occurs once"); } i_free(l); }
Check the_check = {"C25", "INI texts with repeated, adjacent, empty and prefix-sharing sections and keys, values with brackets and equal signs, trailing blanks after headers, blank and comment lines, in exact-size unterminated line buffers or split from one text; every section and key of the text plus near-miss names looked up, compared with the definition; malformed headers for the count; non-trivial: at least two sections and a found key / at least two headers",
  {{"lookup", lookup, 250000, 2500000, FUZZ | LEAK}, {"count", count, 300000, 5000000, FUZZ | LEAK}, {"lookup-long", lookup, 60, 1500, LEAK | LONGS}, {"many", many, 2, 200, LEAK}}};
