// C19: string lists
#include "pbt.hpp"
#include <algorithm>
#include <memory>
#include "stringptrlist.h"
#include "c19_ops.h"
typedef std::vector<std::string> V;
static V split(const std::string &s, const std::string &d) { V v; if (d.empty()) { v.push_back(s); return v; } size_t p = 0; for (;;) { size_t q = s.find(d, p); if (q == std::string::npos) break; v.push_back(s.substr(p, q - p)); p = q + d.size(); } v.push_back(s.substr(p)); return v; }
static std::string join(const V &v, const std::string &d) { std::string r; for (size_t i = 0; i < v.size(); i++) { if (i) r += d; r += v[i]; } return r; }
static void expect(sblist *l, const V &v, const char *what) { CHECK(l, "%s returned NULL", what); CHECK(s_size(l) == v.size(), "%s gives %zu pieces, expected %zu", what, s_size(l), v.size()); CHECK(!!s_empty(l) == v.empty(), "%s: empty test", what); for (size_t i = 0; i < v.size(); i++) { stringptr *p = s_get(l, i); CHECK(p && p->size == v[i].size() && (!p->size || !memcmp(p->ptr, v[i].data(), p->size)), "%s: piece %zu is %s, expected %s", what, i, p ? show(p->ptr, p->size).c_str() : "NULL", show(v[i]).c_str()); } CHECK(!s_get(l, v.size()), "%s: an extra piece", what); }
static std::string gtext(size_t max) { switch (draw(3)) { case 0: return gstr(sizeish(max), "ab"); case 1: return gstr(sizeish(max), "a,\n"); case 2: return gbytes(sizeish(max)); default: return gstr(sizeish(max), "aab"); } }
static std::string gdelim(const std::string &s) { switch (draw(4)) { case 0: return gstr(1 + draw(2), "ab"); case 1: { std::string u = gstr(1, "a,"); return std::string(1 + draw(3), u[0]); } case 2: { if (s.empty()) return "x"; size_t p = draw(s.size() - 1); return s.substr(p, 1 + draw(std::min<size_t>(s.size() - p - 1, 4))); } case 3: return gbytes(1 + draw(2)); default: { std::string u = gstr(1 + draw(2), "ab"); return u + u; } } }
static void splits() {
  std::string s = gtext(chance(1, 15) ? 600 : 50), d = chance(1, 15) ? "" : gdelim(s); if (chance(1, 4) && !d.empty()) { size_t k = 1 + draw(5); while (k--) s.insert(draw(s.size()), d); if (chance(1, 2)) s += d; if (chance(1, 2)) s = d + s; } note("text %s delimiter %s", show(s).c_str(), show(d).c_str()); V v = split(s, d); if (v.size() > 1) nontrivial(); if (v.size() > 16) LABEL("more than 16 pieces"); if (d.empty()) LABEL("empty delimiter");
  Buf b(s, true), db(d); stringptr sp = {b.p, s.size()}, dp = {db.p, d.size()}; sblist *l = stringptr_splits(&sp, &dp); expect(l, v, "stringptr_splits"); for (size_t i = 0; i < v.size(); i++) { stringptr *p = s_get(l, i); CHECK(p->ptr >= b.p && p->ptr + p->size <= b.p + s.size(), "piece %zu does not lie in the original buffer", i); CHECK(p->ptr[p->size] == 0, "piece %zu is not terminated", i); }
  std::string img = s + '\0'; size_t at = 0; for (size_t i = 0; i + 1 < v.size(); i++) { at += v[i].size(); img[at] = 0; at += d.size(); } CHECK(b.str() == img, "the buffer after splitting is %s, expected %s", show(b.str()).c_str(), show(img).c_str()); CHECK(sp.ptr == b.p && sp.size == s.size() && db.str() == d, "an argument was modified"); CHECK(join(v, d) == s, "oracle"); s_free(l);
  // single character
  int c = s.size() && chance(2, 3) ? (unsigned char)s[draw(s.size() - 1)] : chance(1, 2) ? '\n' : (int)draw(255); if (chance(1, 2)) c = (char)c; V vc = split(s, std::string(1, (char)c)); Buf b2(s, true); stringptr s2 = {b2.p, s.size()}; note("splitc %d", c); sblist *l2 = c == '\n' && chance(1, 2) ? s_linesplit(&s2) : stringptr_splitc(&s2, c); expect(l2, vc, "stringptr_splitc"); for (size_t i = 0; i < vc.size(); i++) { stringptr *p = s_get(l2, i); CHECK(p->ptr[p->size] == 0, "piece %zu is not terminated", i); } std::string im2 = s + '\0'; for (auto &x : im2) if (x == (char)c) x = 0; CHECK(b2.str() == im2, "buffer after splitc"); if (vc.size() > 1) nontrivial(); s_free(l2);
  // replace
  std::string w = chance(1, 4) ? "" : chance(1, 3) ? d + d : gtext(8), want = d.empty() ? s : join(v, w); Buf b3(s, true), wb(w); stringptr s3 = {b3.p, s.size()}, wp = {wb.p, w.size()}; note("replace with %s", show(w).c_str()); stringptr *r = stringptr_replace(&s3, &dp, &wp); CHECK(r, "stringptr_replace failed"); CHECK(r->size == want.size() && !memcmp(r->ptr, want.data(), want.size()) && r->ptr[r->size] == 0, "stringptr_replace gives %s, expected %s", show(r->ptr, r->size).c_str(), show(want).c_str()); free(r); CHECK(wb.str() == w && db.str() == d, "an argument was modified"); CHECK(!stringptr_replace(0, &dp, &wp) && !stringptr_replace(&s3, 0, &wp) && !stringptr_replace(&s3, &dp, 0), "NULL arguments");
}
static int cmp(const void *a, const void *b) { const stringptr *x = (const stringptr *)a, *y = (const stringptr *)b; size_t n = std::min(x->size, y->size); int r = n ? memcmp(x->ptr, y->ptr, n) : 0; return r ? r : x->size < y->size ? -1 : x->size > y->size; }
static void lists() { // history of list operations; owned = entries are heap copies made by the list functions
  std::vector<std::unique_ptr<Buf>> pool; V m; bool owned = draw(1); sblist *l = s_new(chance(1, 3) ? 1 + draw(3) : 16); CHECK(l, "new"); size_t ops = 0; auto mk = [&](std::string s) { pool.emplace_back(new Buf(s, true)); return pool.back()->p; }; auto word = [&]() { return chance(1, 2) && !m.empty() ? m[draw(m.size() - 1)] : gtext(chance(1, 10) ? 100 : 6); }; bool dup = false;
  while (more(10) && ops++ < 60) {
    switch (weighted({6, 2, 2, 3, 2, 2, 1})) {
    case 0: { std::string s = word(); note("add %s", show(s).c_str()); if (owned) { Buf t(s); stringptr sp = {t.p, s.size()}; CHECK(stringptrlist_add_strdup(l, &sp), "add_strdup failed"); CHECK(t.str() == s, "source modified"); } else CHECK(s_add(l, mk(s), s.size()), "add failed"); m.push_back(s); break; }
    case 1: if (!owned && !m.empty()) { size_t i = draw(m.size() - 1); std::string s = word(); note("set %zu %s", i, show(s).c_str()); CHECK(s_set(l, i, mk(s), s.size()), "set"); m[i] = s; } break;
    case 2: if (!owned) { size_t i = draw(m.size()); std::string s = word(); note("insert %zu %s", i, show(s).c_str()); s_insert(l, i, mk(s), s.size()); m.insert(m.begin() + (long)i, s); } break;
    case 3: { std::string s = chance(1, 2) ? word() : gtext(5); Buf t(s); stringptr sp = {t.p, s.size()}; if (!m.empty() && chance(1, 3)) { size_t i = draw(m.size() - 1); stringptr *e = s_get(l, i); size_t q = chance(2, 3) ? 0 : draw(m[i].size()), k = draw(m[i].size() - q); sp.ptr = e->ptr ? e->ptr + q : e->ptr; sp.size = k; s = m[i].substr(q, k); LABEL("searched text is a slice of an entry"); } long w = -1; for (size_t i = 0; i < m.size(); i++) if (m[i] == s) { w = (long)i; break; } note("find %s", show(s).c_str()); CHECK(stringptrlist_find(l, &sp) == w, "stringptrlist_find(%s) = %zd, expected %ld", show(s).c_str(), stringptrlist_find(l, &sp), w); CHECK(!!stringptrlist_contains(l, &sp) == (w >= 0), "stringptrlist_contains(%s)", show(s).c_str()); if (w >= 0) { LABEL("found"); nontrivial(); } break; }
    case 4: { std::string a, b; for (auto &s : m) a += s + "\n", b += s + "\r\n"; stringptr *r = stringptrlist_tostring(l); CHECK(r && r->size == a.size() && !memcmp(r->ptr, a.data(), a.size()) && !r->ptr[r->size], "stringptrlist_tostring gives %s, expected %s", r ? show(r->ptr, r->size).c_str() : "NULL", show(a).c_str()); free(r); r = stringptrlist_tostring_dos(l); CHECK(r && r->size == b.size() && !memcmp(r->ptr, b.data(), b.size()) && !r->ptr[r->size], "stringptrlist_tostring_dos gives %s, expected %s", r ? show(r->ptr, r->size).c_str() : "NULL", show(b).c_str()); free(r); break; }
    case 5: if (!owned && m.size() && !dup) { note("dup_entries"); ssize_t r = stringptrlist_dup_entries(l); CHECK(r == -1, "dup_entries = %zd", r); for (size_t i = 0; i < m.size(); i++) { stringptr *p = s_get(l, i); for (auto &q : pool) CHECK(p->ptr != q->p, "entry %zu was not duplicated", i); CHECK(p->ptr[p->size] == 0, "duplicate not terminated"); } pool.clear(); owned = true; LABEL("dup_entries"); } break;
    default: if (owned) { note("freestrings"); stringptrlist_freestrings(l); for (size_t i = 0; i < m.size(); i++) { stringptr *p = s_get(l, i); CHECK(p && !p->ptr && !p->size, "entry %zu after freestrings", i); } for (auto &s : m) s.clear(); if (chance(1, 2)) stringptrlist_freestrings(l); } }
    expect(l, m, "list");
  }
  if (owned) stringptrlist_freeall(l); else s_free(l); stringptrlist_freeall(0); CHECK(stringptrlist_find(0, 0) == -1, "find(NULL)");
}
static void sorted() { sblist *l = s_new(16); V m; std::vector<std::unique_ptr<Buf>> pool; size_t n = draw(30); for (size_t i = 0; i < n; i++) { std::string s = gtext(5); pool.emplace_back(new Buf(s, true)); note("insert_sorted %s", show(s).c_str()); int r = s_insert_sorted(l, pool.back()->p, s.size(), cmp); CHECK(r >= 0, "insert_sorted"); m.insert(std::upper_bound(m.begin(), m.end(), s), s); expect(l, m, "sorted list"); CHECK(s_get(l, (size_t)r)->ptr == pool.back()->p, "insert_sorted returned %d, not the new entry", r); } if (n > 1) nontrivial(); s_free(l); }
static void tiny() { // all texts up to 8 over {a,b} with all delimiters up to 3, replacement "" / "a" / "ba"
  u64 i = case_index(); static const char *D[] = {"a", "b", "aa", "ab", "ba", "bb", "aaa", "aab", "aba", "abb", "baa", "bab", "bba", "bbb"}; std::string d = D[i % 14]; i /= 14; std::string w = i % 3 == 0 ? "" : i % 3 == 1 ? "a" : "ba"; i /= 3; std::string s; for (u64 k = i + 1; k > 1; k >>= 1) s += k & 1 ? 'b' : 'a'; V v = split(s, d); note("%s by %s -> %s", s.c_str(), d.c_str(), w.c_str()); nontrivial(); Buf b(s, true), db(d), wb(w), b2(s, true); stringptr sp = {b.p, s.size()}, dp = {db.p, d.size()}, wp = {wb.p, w.size()}, s2 = {b2.p, s.size()}; sblist *l = stringptr_splits(&sp, &dp); expect(l, v, "stringptr_splits"); s_free(l); stringptr *r = stringptr_replace(&s2, &dp, &wp); std::string want = join(v, w); CHECK(r && r->size == want.size() && !memcmp(r->ptr, want.data(), want.size()), "replace(%s, %s, %s) = %s", s.c_str(), d.c_str(), w.c_str(), r ? show(r->ptr, r->size).c_str() : "NULL"); free(r); }
static void many() { // lists whose positions and sizes exceed 16 bits
  size_t n = 65530 + draw(3000); std::string text; std::vector<size_t> st; for (size_t i = 0; i < n; i++) { st.push_back(text.size()); text += std::to_string(i); if (i + 1 < n) text += ";;"; } Buf b(text, true), d(std::string(";;")); stringptr sp = {b.p, text.size()}, dp = {d.p, 2}; note("%zu pieces", n); nontrivial(); sblist *l = stringptr_splits(&sp, &dp); CHECK(l && s_size(l) == n, "splitting gives %zu pieces, expected %zu", l ? s_size(l) : 0, n);
  for (int k = 0; k < 5; k++) { size_t i = k == 0 ? n - 1 : k == 1 ? 65535 + draw(1) : draw(n - 1); if (i >= n) i = n - 1; std::string w = std::to_string(i); Buf t(w); stringptr q = {t.p, w.size()}, *e = s_get(l, i); CHECK(e->size == w.size() && e->ptr == b.p + st[i], "piece %zu is wrong", i); CHECK(stringptrlist_find(l, &q) == (ssize_t)i && stringptrlist_contains(l, &q), "stringptrlist_find of piece %zu gives %zd", i, stringptrlist_find(l, &q)); }
  Buf x(std::string("x")); stringptr xs = {x.p, 1}; CHECK(stringptrlist_find(l, &xs) == -1, "an absent text is found"); CHECK(stringptrlist_dup_entries(l) == -1, "dup_entries"); std::string want; for (size_t i = 0; i < n; i++) want += std::to_string(i) + "\r\n"; stringptr *r = stringptrlist_tostring_dos(l); CHECK(r && r->size == want.size() && !memcmp(r->ptr, want.data(), want.size()), "joining %zu pieces gives %zu bytes, expected %zu", n, r ? r->size : 0, want.size()); free(r); stringptrlist_freeall(l);
  Buf b2(text, true); stringptr s2 = {b2.p, text.size()}; r = stringptr_replace(&s2, &dp, &xs); want.clear(); for (size_t i = 0; i < n; i++) want += (i ? "x" : "") + std::to_string(i); CHECK(r && r->size == want.size() && !memcmp(r->ptr, want.data(), want.size()), "replacing %zu occurrences is wrong", n - 1); free(r); }
static void huge() { // sizes and positions beyond 31 and 32 bits
  u64 op = case_index(); size_t n = (op < 4 ? 1ull << 32 : 1ull << 31) + 4099; nontrivial(); pa_limit = 16ull << 30; char c1[] = "ab";
  if (op == 0 || op >= 4) { std::vector<size_t> at = {5, (1ull << 31) + 9, (1ull << 32) + 1, n - 1}; if (op >= 4) at = {5, (1ull << 31) + 9, n - 2}; size_t dl = op >= 4 ? 2 : 1; note("%s of %zu bytes", op == 0 ? "splitc" : op == 4 ? "splits" : "replace", n); Huge h(n + 1); h.p[n] = 'z'; for (size_t p : at) memcpy(h.p + p, c1, dl); stringptr b = {h.p, n}, d = {c1, 2}, w = {c1, 1};
    if (op == 5) { stringptr *r = stringptr_replace(&b, &d, &w); size_t rs = n - at.size(); CHECK(r && r->size == rs, "replace gives %zu bytes, expected %zu", r ? r->size : 0, rs); for (size_t i = 0; i < at.size(); i++) CHECK(r->ptr[at[i] - i] == 'a' && !r->ptr[at[i] - i - 1] && (at[i] - i + 1 == rs || !r->ptr[at[i] - i + 1]), "replacement %zu misplaced", i); CHECK(!r->ptr[rs], "not terminated"); stringptr_free(r); }
    else { sblist *l = op == 4 ? stringptr_splits(&b, &d) : stringptr_splitc(&b, 'a'); CHECK(l && s_size(l) == at.size() + 1, "%zu pieces, expected %zu", l ? s_size(l) : 0, at.size() + 1); size_t st = 0; for (size_t i = 0; i <= at.size(); i++) { size_t e = i < at.size() ? at[i] : n; stringptr *x = s_get(l, i); CHECK(x->ptr == h.p + st && x->size == e - st, "piece %zu is [%ld, +%zu], expected [%zu, +%zu]", i, (long)(x->ptr - h.p), x->size, st, e - st); CHECK(h.p[e] == 0, "piece %zu is not terminated", i); st = e + dl; } s_free(l); } }
  else if (op == 1) { note("replacement of 4.5 GB in total"); size_t k = 1500, m = 3u << 20; Huge h(m); h.p[0] = 's'; h.p[m - 1] = 'e'; std::string t; for (size_t i = 0; i < k; i++) t += "ab."; Buf tb(t, true); stringptr b = {tb.p, t.size()}, d = {c1, 2}, w = {h.p, m}; stringptr *r = stringptr_replace(&b, &d, &w); CHECK(r && r->size == k * (m + 1), "replace gives %zu bytes, expected %zu", r ? r->size : 0, k * (m + 1)); for (size_t i = 0; i < k; i++) { char *p = r->ptr + i * (m + 1); CHECK(p[0] == 's' && p[m - 1] == 'e' && p[m] == '.' && !p[m / 2], "replacement %zu of %zu wrong", i, k); } CHECK(!r->ptr[r->size], "not terminated"); stringptr_free(r); }
  else if (op == 2) { note("list of 4.5 GB in total"); size_t k = 1500, m = 3u << 20; Huge h(m); h.p[0] = 's'; h.p[m - 1] = 'e'; sblist *l = s_new(7); for (size_t i = 0; i < k; i++) s_add(l, h.p, m - i); for (int dos = 0; dos < 2; dos++) { stringptr *r = dos ? stringptrlist_tostring_dos(l) : stringptrlist_tostring(l); size_t o = 0, g = 1 + (size_t)dos; for (size_t i = 0; i < k; i++) o += m - i + g; CHECK(r && r->size == o, "joined size is %zu, expected %zu", r ? r->size : 0, o); o = 0; for (size_t i = 0; i < k; i++) { CHECK(r->ptr[o] == 's' && r->ptr[o + m - i] == (dos ? '\r' : '\n') && r->ptr[o + m - i + g - 1] == '\n', "line %zu misplaced", i); o += m - i + g; } stringptr_free(r); } s_free(l); }
  else { note("find among strings whose sizes differ by 2^32"); Huge h(n); sblist *l = s_new(2); s_add(l, h.p, 4099); s_add(l, h.p, n); s_add(l, h.p + 1, 3); stringptr big = {h.p, n}, sm = {h.p, 4099}, no = {h.p, (1ull << 32) + 3}; CHECK(stringptrlist_find(l, &big) == 1, "find of %zu bytes gives %zd", n, stringptrlist_find(l, &big)); CHECK(stringptrlist_find(l, &sm) == 0 && stringptrlist_find(l, &no) == -1 && !stringptrlist_contains(l, &no) && stringptrlist_contains(l, &big), "find"); s_free(l); }
  pa_limit = 3ull << 30;
}
Check the_check = {"C19", "texts and delimiters with overlapping, repeated, planted, adjacent and edge occurrences (zeros included) split, joined and replaced against find-based definitions, with the exact image of the cut buffer; list histories (add/set/insert/find/join/dup/free) against a vector model with allocation accounting; sorted insertion; all texts up to 8 letters over {a,b} with all delimiters up to 3; non-trivial: at least two pieces / a successful find / at least two sorted insertions",
  {{"huge", huge, 4, 6, ENUM | SLOW | LEAK}, {"tiny", tiny, 14 * 3 * 511, 14 * 3 * 2047, ENUM | LEAK}, {"splits", splits, 350000, 6000000, FUZZ | LEAK}, {"lists", lists, 150000, 3000000, FUZZ | LEAK}, {"sorted", sorted, 40000, 600000, FUZZ | LEAK}, {"splits-long", splits, 600, 9000, LEAK | LONGS}, {"lists-long", lists, 250, 4000, LEAK | LONGS}, {"many", many, 2, 300, LEAK}}};
