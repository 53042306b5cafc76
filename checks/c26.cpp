// C26: optparser
#include "pbt.hpp"
#include "capture.hpp"
#include <memory>
#include "optparser.h"
typedef std::string S;
static S gname() { switch (draw(3)) { case 0: return gstr(1, "ab"); case 1: return gstr(2 + maybelong(draw(2)), "ab"); case 2: return gstr(1 + draw(4), "ab-"); default: { S s = gbytes(1 + draw(5)); for (auto &c : s) if (!c || c == '=' || c == '-') c = 'q'; return s; } } }
static S fixname(S s) { if (s[0] == '-') s[0] = 'a'; return s; }
static S garg() { S n = fixname(gname()), d = S(1 + draw(chance(1, 8) ? 2 : 1), '-'); switch (weighted({4, 4, 3, 1, 1})) { case 0: return d + n; case 1: return d + n + "=" + (chance(1, 4) ? S() : chance(1, 4) ? gstr(draw(5), "a=-b") : gname()); case 2: return gname(); case 3: return oneof(std::vector<S>{"", "-", "--", "-=", "--=x", "=", "a=b", "---a"}); default: return "-" + gstr(2 + draw(3), "abltp"); } }
static void look() {
  std::vector<S> av{"prog"}; while (more(5) && av.size() < 40) av.push_back(garg()); if (chance(1, 30)) av.clear(); std::vector<std::unique_ptr<Buf>> keep; std::vector<char *> argv; for (auto &s : av) { keep.emplace_back(new Buf(s, true)); argv.push_back(keep.back()->p); note("%s", show(s).c_str()); } argv.push_back(0); std::unique_ptr<Buf> vb(new Buf(argv.data(), argv.size() * sizeof(char *))); op_state st; op_init(&st, (int)av.size(), (char **)vb->p); bool any = false;
  std::vector<S> names{fixname(gname()), "a", "b"}; for (auto &s : av) if (s.size() > 1 && s[0] == '-') { size_t o = s[1] == '-' ? 2 : 1; S n = s.substr(o, s.find('=', o) == S::npos ? S::npos : s.find('=', o) - o); if (n.size() && n[0] != '-') { names.push_back(n); names.push_back(n + "a"); if (n.size() > 1) names.push_back(n.substr(0, n.size() - 1)); } if (names.size() > 25) break; }
  for (auto &n : names) {
    char *want = 0; bool flag = false, combined = false;
    for (size_t i = 1; i < av.size(); i++) { const S &s = av[i]; if (s.empty() || s[0] != '-') continue; size_t o = 1; if (n.size() > 1 && s.size() > 1 && s[1] == '-') o = 2; if (!want) { if (s.compare(o, n.size() + 1, n + "=") == 0) want = argv[i] + o + n.size() + 1; else if (s.substr(o) == n && i + 1 < av.size()) want = argv[i + 1]; } if (s.substr(o) == n) flag = true; if (n.size() == 1 && s.size() > 2 && s[1] != '-' && s.find('=') == S::npos && s.find(n[0]) != S::npos) combined = true; }
    Buf nb(n, !chance(1, 3)); stringptr ns = {nb.p, n.size()}; if (chance(1, 4)) for (size_t i = 1; i < av.size(); i++) { size_t p = av[i].find(n); if (p != S::npos) { ns.ptr = argv[i] + p; LABEL("name is a slice of an argument"); break; } } char *g = op_get(&st, &ns); CHECK(g == want, "op_get(%s) = %s, expected %s", show(n).c_str(), g ? show(S(g)).c_str() : "NULL", want ? show(S(want)).c_str() : "NULL"); if (want) any = true; int h = op_hasflag(&st, &ns); if (!flag && combined) { LABEL("combined single-letter flags"); if (!h) known("combined-flags"); } else CHECK(!!h == flag, "op_hasflag(%s) = %d", show(n).c_str(), h); if (flag) LABEL("flag present"); CHECK(!memcmp(nb.p, n.data(), n.size()), "name modified");
  }
  if (any && av.size() > 2) nontrivial(); CHECK(!memcmp(vb->p, argv.data(), argv.size() * sizeof(char *)), "argument vector modified"); for (size_t i = 0; i < av.size(); i++) CHECK(!memcmp(argv[i], av[i].c_str(), av[i].size() + 1), "argument %zu modified", i);
  if (chance(1, 8)) { S all; for (size_t i = 1; i < av.size(); i++) all += av[i] + "\n"; Capture c(1); op_printall(&st); S got = c.done(); CHECK(got == all, "op_printall printed %s, expected %s", show(got).c_str(), show(all).c_str()); LABEL("printed"); }
}
static void many() { // more arguments than 16 bits count
  size_t n = 65530 + draw(3000); std::vector<char *> argv; static char w[] = "word", f[] = "--filler=1"; for (size_t i = 0; i < n; i++) argv.push_back(i % 3 ? w : f); size_t at[4] = {n - 1, 65535 + draw(1), 32768 + draw(1), 1 + draw(n - 4)}; at[1] = std::min(at[1], n - 2); Buf a(S("--last=9"), true), b(S("-b"), true), c(S("--cc"), true), v(S("value"), true); argv[at[3]] = w; argv[at[1]] = b; argv[at[2]] = c; argv[at[2] + 1] = v; argv[at[0]] = a; argv.push_back(0); op_state st; op_init(&st, (int)n, argv.data()); note("%zu arguments", n); nontrivial();
  auto get = [&](const char *k) { Buf kb(S(k), true); stringptr s = {kb.p, strlen(k)}; return op_get(&st, &s); }; auto flag = [&](const char *k) { Buf kb(S(k), true); stringptr s = {kb.p, strlen(k)}; return op_hasflag(&st, &s); }; CHECK(get("last") == a.p + 7, "the last of %zu arguments is not found", n); CHECK(flag("b") && get("b") == argv[at[1] + 1], "argument %zu of %zu is not found", at[1], n); CHECK(flag("cc") && get("cc") == v.p, "argument %zu of %zu is not found", at[2], n); CHECK(get("filler") == f + 9 && !get("absent") && !flag("absent"), "lookup among %zu arguments", n);
  if (chance(1, 3)) { S all; for (size_t i = 1; i < n; i++) all += S(argv[i]) + "\n"; Capture cp(1); op_printall(&st); S got = cp.done(); CHECK(got == all, "op_printall of %zu arguments printed %zu bytes, expected %zu", n, got.size(), all.size()); }
}
Check the_check = {"C26", "argument vectors mixing -name, --name, -name=value, -name value, empty values, values with dashes and equal signs, stray dashes and words over a two-letter alphabet (shared prefixes); every name present plus longer and shorter ones queried against the definition; pointers compared; non-trivial: at least one option found among at least two arguments",
  {{"look", look, 900000, 8000000, FUZZ}, {"many", many, 24, 600, LEAK}, {"look-long", look, 3000, 50000, LONGS}}};
