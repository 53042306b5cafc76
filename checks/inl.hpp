// Generated programs that use the header-only containers inline, in one function, compiled without
// sanitizers at the optimisation levels users build with; their printed states are compared with a model
// that ran the same history. (C03: tglist, tgilist; C06: bmap, hbmap)
#pragma once
#include "pbt.hpp"
#include <algorithm>
#include <cerrno>
#include <fcntl.h>
#include <fstream>
#include <map>
#include <spawn.h>
#include <sstream>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
extern char **environ;
namespace inl {
typedef std::string S;
static S fmt(const char *f, ...) { char b[1200]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b; }
static int sh(const std::vector<S> &a, const S &cwd, const S &outf) {
  std::vector<char *> v; for (auto &x : a) v.push_back((char *)x.c_str()); v.push_back(0); posix_spawn_file_actions_t fa; posix_spawn_file_actions_init(&fa); posix_spawn_file_actions_addopen(&fa, 0, "/dev/null", O_RDONLY, 0); posix_spawn_file_actions_addopen(&fa, 1, outf.c_str(), O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0600); posix_spawn_file_actions_adddup2(&fa, 1, 2); posix_spawn_file_actions_addchdir_np(&fa, cwd.c_str());
  pid_t p; int e = posix_spawnp(&p, v[0], &fa, 0, v.data(), environ), st; posix_spawn_file_actions_destroy(&fa); if (e) return -1; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {} return st;
}
static S slurp(const S &f) { std::ifstream i(f, std::ios::binary); std::stringstream s; s << i.rdbuf(); return s.str(); }
struct Ty { const char *c; bool st; int max; }; // values drawn in 0..max
static const Ty VT[] = {{"int", 0, 20000}, {"rec", 1, 20000}, {"long long", 0, 20000}, {"size_t", 0, 20000}, {"short", 0, 20000}, {"unsigned char", 0, 250}, {"double", 0, 20000}, {"rec3", 1, 100}};
static const Ty KT[] = {{"int", 0, 20000}, {"long long", 0, 20000}, {"size_t", 0, 20000}, {"short", 0, 20000}, {"ssize_t", 0, 20000}};
typedef unsigned long long U;
struct Con { int kind; Ty k, v; int id; bool sorted; int adds, addcap; std::vector<long> L; std::map<long, long> M; S idx; int nb; };
static void state(Con &c, S &src, S &exp) {
  U h = 0; size_t n; S C = fmt("c%d", c.id);
  if (c.kind <= 1) { n = c.L.size(); for (size_t i = 0; i < n; i++) h = h * 31 + (U)c.L[i]; S pf = c.kind ? "tgilist" : "tglist"; src += fmt("  h = 0; for (i = 0; i < (int)%s_getsize(%s); i++) h = h * 31 + (ull)%s_get(%s, i)%s;\n  printf(\"%%llu %%llu\\n\", (ull)%s_getsize(%s), h);\n", pf.c_str(), C.c_str(), pf.c_str(), C.c_str(), c.v.st ? ".a" : "", pf.c_str(), C.c_str()); }
  else if (c.kind == 2) { n = c.M.size(); for (auto &x : c.M) h = h * 31 + (U)x.first * 7 + (U)x.second; src += fmt("  h = 0; for (i = 0; i < (int)bmap_getsize(%s); i++) h = h * 31 + (ull)bmap_getkey(%s, i) * 7 + (ull)bmap_getval(%s, i)%s;\n  printf(\"%%llu %%llu\\n\", (ull)bmap_getsize(%s), h);\n", C.c_str(), C.c_str(), C.c_str(), c.v.st ? ".a" : "", C.c_str()); }
  else { n = c.M.size(); for (auto &x : c.M) h += ((U)x.first * 2654435761ULL) ^ (U)x.second; src += fmt("  h = 0; n = 0; hbmap_foreach(%s, it) { n++; h += ((ull)hbmap_getkey(%s, it) * 2654435761ULL) ^ (ull)hbmap_getval(%s, it)%s; }\n  printf(\"%%llu %%llu\\n\", n, h);\n", C.c_str(), C.c_str(), C.c_str(), c.v.st ? ".a" : ""); }
  exp += fmt("%llu %llu\n", (U)n, h);
}
// one operation (mostly a loop of calls) on container c
static void op(Con &c, S &src, bool &del) {
  S C = fmt("c%d", c.id), X = fmt("x%d", c.id), A = X + (c.v.st ? ".a" : ""), K = fmt("k%d", c.id); const char *cn = C.c_str(), *x = X.c_str(), *k = K.c_str(); int n = (int)oneof<u64>({1, 3, 17, 60, 150}), m = 1 + (int)draw(50), b = (int)draw(60); S N = chance(1, 2) ? fmt("%d", n) : fmt("%d + z", n);
  if (c.kind <= 1) {
    S P = c.kind ? "tgilist" : "tglist"; const char *p = P.c_str(); auto val = [&](int i) { return (long)((i * m + b) % (c.v.max + 1)); }; S setx = fmt("%s = (i * %d + %d) %% %d;", A.c_str(), m, b, c.v.max + 1);
    int which = (int)weighted({4, 4, 3, 2, 2, (unsigned)(c.kind ? 0 : 2), (unsigned)(c.kind ? 0 : 2)}); bool grows = which <= 1 || which == 6; if (grows) { n = std::min(n, c.addcap - c.adds); if (n <= 0) return; N = fmt("%d", n); c.adds += n; }
    switch (which) {
    case 0: src += fmt("  for (i = 0; i < %s; i++) { %s if (!%s_add(%s, %s)) return 9; }\n", N.c_str(), setx.c_str(), p, cn, x); for (int i = 0; i < n; i++) c.L.push_back(val(i)); c.sorted = false; break;
    case 1: src += fmt("  for (i = 0; i < %s; i++) { %s if (!%s_insert(%s, %s, (size_t)i * %d %% (%s_getsize(%s) + 1))) return 9; }\n", N.c_str(), setx.c_str(), p, cn, x, m, p, cn); for (int i = 0; i < n; i++) c.L.insert(c.L.begin() + (size_t)i * m % (c.L.size() + 1), val(i)); c.sorted = false; break;
    case 2: src += fmt("  for (i = 0; i < %s && !%s_empty(%s); i++) %s_delete(%s, (size_t)i * %d %% %s_getsize(%s));\n", N.c_str(), p, cn, p, cn, m, p, cn); for (int i = 0; i < n && !c.L.empty(); i++) c.L.erase(c.L.begin() + (size_t)i * m % c.L.size()); del = true; break;
    case 3: { bool back = draw(1); src += fmt("  while (%s_getsize(%s) > %d) %s_delete(%s, %s);\n", p, cn, b, p, cn, back ? fmt("%s_getsize(%s) - 1", p, cn).c_str() : "0"); while ((int)c.L.size() > b) c.L.erase(back ? c.L.end() - 1 : c.L.begin()); del = true; break; }
    case 4: src += fmt("  for (i = 0; i < (int)%s_getsize(%s); i += %d) { %s %s_set(%s, %s, i); }\n", p, cn, m, setx.c_str(), p, cn, x); for (int i = 0; i < (int)c.L.size(); i += m) c.L[i] = val(i); c.sorted = false; break;
    case 5: src += fmt("  tglist_sort(%s, cmp%d);\n", cn, c.id); std::sort(c.L.begin(), c.L.end()); c.sorted = true; break;
    case 6: if (!c.sorted) { src += fmt("  tglist_sort(%s, cmp%d);\n", cn, c.id); std::sort(c.L.begin(), c.L.end()); c.sorted = true; } src += fmt("  for (i = 0; i < %s; i++) { %s if (tglist_insert_sorted(%s, %s, cmp%d) == (ssize_t)-1) return 9; }\n", N.c_str(), setx.c_str(), cn, x, c.id); for (int i = 0; i < n; i++) c.L.insert(std::upper_bound(c.L.begin(), c.L.end(), val(i)), val(i)); break;
    default:;
    }
    return;
  }
  S P = c.kind == 2 ? "bmap" : "hbmap"; const char *p = P.c_str(); int mod = 1 + (int)draw(200); auto key = [&](int i) { return (long)((i * m + b) % mod); }; auto val = [&](int i) { return (long)((i * 3 + b) % (c.v.max + 1)); }; S setk = fmt("%s = (i * %d + %d) %% %d;", k, m, b, mod), setx = fmt("%s = (i * 3 + %d) %% %d;", A.c_str(), b, c.v.max + 1);
  int which = (int)weighted({5, 2, 3, 3, 3, 2, 2}); if (which <= 1) { n = std::min(n, c.addcap - c.adds); if (n <= 0) return; N = fmt("%d", n); c.adds += n; }
  switch (which) {
  case 0: src += fmt("  for (i = 0; i < %s; i++) { %s %s if (%s_insert(%s, %s, %s) == -1) return 9; }\n", N.c_str(), setk.c_str(), setx.c_str(), p, cn, k, x); for (int i = 0; i < n; i++) c.M[key(i)] = val(i); break;
  case 1: src += fmt("  for (i = 0; i < %s; i++) { %s %s if (!%s_contains(%s, %s)) if (%s_insert_nocheck(%s, %s, %s) == -1) return 9; }\n", N.c_str(), setk.c_str(), setx.c_str(), p, cn, k, p, cn, k, x); for (int i = 0; i < n; i++) c.M.emplace(key(i), val(i)); break;
  case 2: src += fmt("  for (i = 0; i < %s; i++) { %s if (%s_contains(%s, %s)) %s_delete(%s, %s_find(%s, %s)); }\n", N.c_str(), setk.c_str(), p, cn, k, p, cn, p, cn, k); for (int i = 0; i < n; i++) c.M.erase(key(i)); del = true; break;
  case 3: if (c.kind == 2) src += draw(1) ? fmt("  while (bmap_getsize(%s)) bmap_delete(%s, 0);\n", cn, cn) : fmt("  while (bmap_getsize(%s)) bmap_delete(%s, bmap_getsize(%s) - 1);\n", cn, cn, cn); else src += fmt("  hbmap_foreach(%s, it) { while (hbmap_iter_index_valid(%s, it)) hbmap_delete(%s, it); }\n", cn, cn, cn); c.M.clear(); del = true; break;
  case 4: { int q = 2 + (int)draw(5); if (c.kind == 2) src += fmt("  for (i = 0; i < (int)bmap_getsize(%s);) if (bmap_getkey(%s, i) %% %d == 0) bmap_delete(%s, i); else i++;\n", cn, cn, q, cn); else src += fmt("  hbmap_foreach(%s, it) { while (hbmap_iter_index_valid(%s, it) && hbmap_getkey(%s, it) %% %d == 0) hbmap_delete(%s, it); }\n", cn, cn, cn, q, cn); for (auto y = c.M.begin(); y != c.M.end();) if (y->first % q == 0) y = c.M.erase(y); else ++y; del = true; break; }
  case 5: src += fmt("  for (i = 0; i < %s; i++) { %s %s *p = %s_get(%s, %s); %s if (p) *p = %s; }\n", N.c_str(), setk.c_str(), c.v.c, p, cn, k, setx.c_str(), x); for (int i = 0; i < n; i++) { auto f = c.M.find(key(i)); if (f != c.M.end()) f->second = val(i); } break;
  default: src += fmt("  for (i = 0; i < %s; i++) { %s %s if (%s_contains(%s, %s)) %s_setvalue(%s, %s, %s_find(%s, %s)); }\n", N.c_str(), setk.c_str(), setx.c_str(), p, cn, k, p, cn, x, p, cn, k); for (int i = 0; i < n; i++) { auto f = c.M.find(key(i)); if (f != c.M.end()) f->second = val(i); }
  }
}
static void program(int kinds) { // kinds: first of the two container kinds
  static S dir; if (dir.empty()) { dir = S(scratch()) + "/i"; mkdir(dir.c_str(), 0755); }
  const char *r = getenv("VERIF_REPO"); S repo = r ? r : "/repo", decl, init, body, exp, fini; bool tgi = draw(1); int nc = 1 + (int)draw(2); std::vector<Con> cs(nc); bool del = false; int ops = 0;
  for (int i = 0; i < nc; i++) {
    Con &c = cs[i]; c.kind = kinds + (int)draw(1); c.id = i; c.v = VT[draw(7)]; c.k = KT[draw(4)]; c.sorted = true; c.adds = 0; c.addcap = 3000; c.nb = (int)oneof<u64>({1, 2, 5, 8, 64}); c.idx = oneof<S>({"size_t", "unsigned", "unsigned short", "unsigned char", "short"}); if (c.kind == 1 && c.idx == "unsigned char") c.addcap = 200;
    const char *kt = c.k.c, *vt = c.v.c; bool heap = draw(1); S C = fmt("c%d", i);
    if (c.kind == 0) decl += fmt("typedef tglist(%s) T%d;\n", vt, i); else if (c.kind == 1) decl += fmt("typedef tgilist(%s, %s) T%d;\n", vt, c.idx.c_str(), i); else if (c.kind == 2) decl += fmt("typedef bmap(%s, %s) T%d;\n", kt, vt, i); else decl += fmt("typedef hbmap(%s, %s, %d) T%d;\n", kt, vt, c.nb, i);
    decl += fmt("static int cmp%d(const void *a, const void *b) { %s x = *(const %s *)a, y = *(const %s *)b; return x%s < y%s ? -1 : x%s > y%s; }\n", i, c.kind < 2 ? vt : kt, c.kind < 2 ? vt : kt, c.kind < 2 ? vt : kt, c.kind < 2 && c.v.st ? ".a" : "", c.kind < 2 && c.v.st ? ".a" : "", c.kind < 2 && c.v.st ? ".a" : "", c.kind < 2 && c.v.st ? ".a" : "");
    if (c.kind == 3) decl += fmt("static unsigned hf%d(const %s k) { return (unsigned)k * 7u; }\n", i, kt);
    static const char *P[] = {"tglist", "tgilist", "bmap", "hbmap"}; S args = c.kind == 2 ? fmt("cmp%d", i) : c.kind == 3 ? fmt("cmp%d, hf%d", i, i) : S();
    init += fmt("  %s x%d; memset(&x%d, 0, sizeof x%d);%s\n", vt, i, i, i, c.kind >= 2 ? fmt(" %s k%d;", kt, i).c_str() : "");
    if (heap) init += fmt("  T%d *%s = %s_new(%s%s); if (!%s) return 8;\n", i, C.c_str(), P[c.kind], args.c_str(), c.kind == 3 ? fmt(", %d", c.nb).c_str() : "", C.c_str()); else init += fmt("  T%d v%d, *%s = &v%d; %s_init(%s%s%s);\n", i, i, C.c_str(), i, P[c.kind], C.c_str(), args.empty() ? "" : ", ", args.c_str());
    fini += c.kind < 2 ? fmt("  %s_%s(%s);\n", P[c.kind], heap ? "free" : "free_items", C.c_str()) : fmt("  %s_fini(%s, 0);%s\n", P[c.kind], C.c_str(), heap ? fmt(" free(%s);", C.c_str()).c_str() : "");
  }
  while (ops < 30 && more(9)) { Con &c = cs[draw(nc - 1)]; op(c, body, del); ops++; if (chance(2, 3)) state(c, body, exp); }
  for (auto &c : cs) state(c, body, exp); exp += "end\n";
  S src = S("#include <stdio.h>\n#include <string.h>\n#include <stdlib.h>\n#include <sys/types.h>\n") + (tgi && kinds == 2 ? "#define BMAP_USE_TGILIST\n" : "") + (kinds == 0 ? "#include \"tglist.h\"\n#include \"tgilist.h\"\n" : "#include \"hbmap.h\"\n#include \"bmap.h\"\n") + "typedef unsigned long long ull; typedef struct { int a; char c[20]; } rec; typedef struct { signed char a, b, c; } rec3;\n" + decl + "int main(int argc, char **argv) {\n  int i, z = argc - 1; ull h, n;" + (kinds ? " hbmap_iter it;" : "") + "\n" + init + body + fini + "  printf(\"end\\n\"); return z & 0 & (int)(size_t)argv;\n}\n";
  S cc = chance(1, 3) ? "clang" : "gcc", o = oneof<S>({"-O2", "-Os", "-O3", "-O1"}), std = oneof<S>({"-std=gnu99", "-std=gnu11", "-std=c99", "-std=gnu17"}); note("%s %s %s\n%s", cc.c_str(), o.c_str(), std.c_str(), src.c_str());
  unlink((dir + "/a.out").c_str()); { std::ofstream f(dir + "/a.c"); f << src; }
  int st = sh({cc, std, o, "-w", "-I" + repo + "/include", "a.c", "-o", "a.out"}, dir, dir + "/log"); if (st == -1 || (WIFSIGNALED(st) && WTERMSIG(st) == 9)) return; CHECK(st == 0, "%s %s does not compile the program: %s", cc.c_str(), o.c_str(), slurp(dir + "/log").substr(0, 900).c_str());
  st = sh({"prlimit", "--as=1500000000", "--core=0", "timeout", "-s", "KILL", "30", "./a.out"}, dir, dir + "/out"); S out = slurp(dir + "/out"); if (out.size() > 4000) out.resize(4000);
  CHECK(st == 0, "the program compiled by %s %s %s (status 0x%x); printed %s", cc.c_str(), o.c_str(), WIFEXITED(st) && WEXITSTATUS(st) == 137 ? "does not end or was killed" : "crashes or reports failure", st, show(out, 300).c_str());
  if (out != exp) { size_t l = 0, i = 0; while (i < out.size() && i < exp.size() && out[i] == exp[i]) { if (out[i] == '\n') l++; i++; } CHECK(false, "compiled by %s %s, printed state %zu differs from the model's: got \"%s\", expected \"%s\"", cc.c_str(), o.c_str(), l + 1, out.substr(out.rfind('\n', i ? i - 1 : 0) + 1, 60).c_str(), exp.substr(exp.rfind('\n', i ? i - 1 : 0) + 1, 60).c_str()); }
  if (cc == "clang") LABEL("inlined-clang"); else LABEL("inlined-gcc"); if (ops >= 3 && del) nontrivial();
}
}
