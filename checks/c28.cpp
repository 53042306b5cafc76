// C28: process_open / process_close with shell scripts as children
#include "pbt.hpp"
#include <cerrno>
#include <fcntl.h>
#include <memory>
#include <poll.h>
#include <csignal>
#include <ctime>
#include <spawn.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
extern "C" {
#include "proclib.h"
pid_t __real_waitpid(pid_t, int *, int); int __real_pipe(int[2]); int __real_posix_spawnp(pid_t *, const char *, const posix_spawn_file_actions_t *, const posix_spawnattr_t *, char *const[], char *const[]);
}
typedef std::string S;
static struct { bool on; int eintr; int pipefail; int spawnerr; bool fired; } F;
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (double)t.tv_sec + (double)t.tv_nsec * 1e-9; }
static const double LIMIT = 15;
extern "C" pid_t __wrap_waitpid(pid_t p, int *st, int o) {
  if (!F.on || (o & WNOHANG)) return __real_waitpid(p, st, o); if (F.eintr > 0) { F.eintr--; errno = EINTR; return -1; }
  double t0 = now(); unsigned spin = 0; while (1) { pid_t r = __real_waitpid(p, st, o | WNOHANG); if (r) return r; if (now() - t0 > LIMIT) { F.on = false; FAIL("process_close does not return: the child is still waiting after %g s", LIMIT); } struct timespec ts = {0, spin++ < 20 ? 100000 : 1000000}; nanosleep(&ts, 0); }
}
extern "C" int __wrap_pipe(int f[2]) { if (F.on && F.pipefail > 0 && --F.pipefail == 0) { F.fired = true; errno = EMFILE; return -1; } return __real_pipe(f); }
extern "C" int __wrap_posix_spawnp(pid_t *p, const char *f, const posix_spawn_file_actions_t *a, const posix_spawnattr_t *t, char *const v[], char *const e[]) { if (F.on && F.spawnerr) { F.fired = true; return F.spawnerr; } return __real_posix_spawnp(p, f, a, t, v, e); }
extern "C" size_t __sanitizer_get_current_allocated_bytes() __attribute__((weak)); // heap in use, the C library's included
static long heap() { static bool warm = false; if (!warm) { warm = true; struct process p; char a[] = "/bin/true", *v[] = {a, 0}; if (process_open(&p, v) == 0) process_close(&p); char b[] = "/nonexistent/x", *w[] = {b, 0}; if (process_open(&p, w) == 0) process_close(&p); } return __sanitizer_get_current_allocated_bytes ? (long)__sanitizer_get_current_allocated_bytes() : 0; }
struct Proc { struct process p; long held = 0; int kind; int status; S in, out, err; S env; bool open = false; };
static S nz(S s) { for (auto &c : s) if (!c) c = '!'; return s; }
static void child(Proc &x, size_t idx) {
  x.kind = (int)draw(12); x.status = (int)(chance(1, 3) ? draw(255) : draw(3)); S st = std::to_string(x.status), script; std::vector<S> args; bool big = chance(1, 12); S data = big ? gbytes(10) : gbytes(sizeish(200)); if (big) { size_t n = sizenear(300000, {65536, 65537, 131072}); S s(n, 0); gfill(&s[0], n, idx + draw(1000)); data = s; LABEL("more data than a pipe holds"); }
  x.env = "v" + std::to_string(draw(1000000));
  switch (x.kind) { case 0: script = "cat /proc/$$/cmdline; exit \"$1\""; while (more(3) && args.size() < 12) args.push_back(nz(gbytes(sizeish(20)))); break;
    case 1: script = "cat; exit \"$1\""; x.in = x.out = data; break; case 2: script = "cat >&2; exit \"$1\""; x.in = x.err = data; break; case 3: script = "printf %s \"$2\"; printf %s \"$3\" >&2; exit \"$1\""; args = {nz(gbytes(sizeish(50))), nz(gbytes(sizeish(50)))}; x.out = args[0]; x.err = args[1]; break;
    case 4: script = "printf %s \"$PBT_V\"; exit \"$1\""; x.out = x.env; break; case 5: script = "while IFS= read -r l; do printf '%s\\n' \"$l\"; done; exit \"$1\""; x.in = gstr(sizeish(60), "ab c\n\n") + "\n"; x.out = x.in; break; case 6: script = "exit \"$1\""; break; case 7: script = "cat /dev/zero 2>/dev/null; exit \"$1\""; LABEL("output left unread"); break; case 9: script = "cat /dev/zero >&2 2>/dev/null; cat /dev/zero >&2; exit \"$1\""; LABEL("error output left unread"); break; case 10: script = "cat >/dev/null; cat /dev/zero 2>/dev/null; cat /dev/zero >&2; exit \"$1\""; LABEL("output after the end of the input"); break; case 11: script = "exec 1>&- 2>&-; cat >/dev/null; exit \"$1\""; break; case 12: script = "exec 0<&-; cat /dev/zero 2>/dev/null; exit \"$1\""; break; default: script = "i=0; while [ $i -lt 80 ]; do [ -e /proc/$$/fd/$i ] && printf '%s ' $i; i=$((i+1)); done; exit \"$1\""; }
  std::vector<S> av{chance(1, 2) ? "sh" : "/bin/sh", "-c", script, "sh" , st}; av.insert(av.end(), args.begin(), args.end()); if (x.kind == 0) for (auto &a : av) x.out += a + S(1, 0); std::vector<std::unique_ptr<Buf>> keep; std::vector<char *> v; for (auto &a : av) { keep.emplace_back(new Buf(a, true)); v.push_back(keep.back()->p); } v.push_back(0); note("#%zu: %s", idx, show(script, 60).c_str()); setenv("PBT_V", x.env.c_str(), 1);
  long h0 = heap(); F.on = true; int r = process_open(&x.p, v.data()); F.on = false; x.held = heap() - h0; CHECK(r == 0, "process_open failed: %d, errno %d", r, errno); x.open = true; for (int i = 0; i < 3; i++) fcntl(x.p.fds[i], F_SETFL, fcntl(x.p.fds[i], F_GETFL) | O_NONBLOCK);
}
// send x.in and receive exactly what the child has to produce
static void exchange(Proc &x) {
  if (x.kind == 7 || x.kind > 8) return; size_t w = 0; S got[2]; const S *want[2] = {&x.out, &x.err}; double t0 = now(); if (x.kind == 8) { char b[4096]; while (now() - t0 < LIMIT) { struct pollfd p = {x.p.fds[1], POLLIN, 0}; poll(&p, 1, 1000); ssize_t r = read(x.p.fds[1], b, sizeof b); if (r > 0) got[0].append(b, (size_t)r); else if (r == 0) break; } x.out = got[0]; return; }
  while (w < x.in.size() || got[0].size() < want[0]->size() || got[1].size() < want[1]->size()) {
    struct pollfd p[3] = {{x.p.fds[1], POLLIN, 0}, {x.p.fds[2], POLLIN, 0}, {w < x.in.size() ? x.p.fds[0] : -1, POLLOUT, 0}}; poll(p, 3, 500); char b[65536]; bool eof = false; for (int i = 0; i < 2; i++) if (p[i].revents) { ssize_t r = read(x.p.fds[1 + i], b, sizeof b); if (r > 0) got[i].append(b, (size_t)r); else if (r == 0 && got[i].size() < want[i]->size()) eof = true; }
    if (p[2].revents) { ssize_t r = write(x.p.fds[0], x.in.data() + w, x.in.size() - w); if (r > 0) w += (size_t)r; else if (r < 0 && errno != EAGAIN) FAIL("the child's input is closed (errno %d) after %zu of %zu bytes", errno, w, x.in.size()); }
    if (eof && (p[0].revents & POLLHUP || p[1].revents & POLLHUP) && now() - t0 > 1) FAIL("the child ended its output after %zu/%zu and %zu/%zu bytes", got[0].size(), want[0]->size(), got[1].size(), want[1]->size()); if (now() - t0 > LIMIT) FAIL("no data: sent %zu of %zu, received %zu of %zu and %zu of %zu bytes", w, x.in.size(), got[0].size(), want[0]->size(), got[1].size(), want[1]->size());
  }
  for (int i = 0; i < 2; i++) CHECK(got[i] == *want[i], "%s received %s, expected %s", i ? "error stream" : "output", show(got[i], 60).c_str(), show(*want[i], 60).c_str());
}
static std::vector<int> inheritable() { std::vector<int> r; for (int f = 3; f < 300; f++) { int g = fcntl(f, F_GETFD); if (g >= 0 && !(g & FD_CLOEXEC)) r.push_back(f); } return r; }
static void failing(bool others) {
  F.fired = false; F.pipefail = F.spawnerr = 0; const char *prog = "/bin/true"; S path; int kind = (int)draw(4), expect = 0; switch (kind) { case 0: prog = "/nonexistent/prog"; expect = ENOENT; break; case 1: path = S(scratch()) + "/notexec"; { int f = open(path.c_str(), O_CREAT | O_WRONLY | O_CLOEXEC, 0644); if (f >= 0) close(f); } prog = path.c_str(); expect = EACCES; break; case 2: F.pipefail = 1 + (int)draw(2); expect = EMFILE; break; case 3: F.spawnerr = EAGAIN; expect = EAGAIN; break; default: prog = "no-such-program-anywhere"; expect = ENOENT; }
  char *v[] = {(char *)prog, 0}; struct process p; memset(&p, 0xA5, sizeof p); note("failing start %d", kind); long h0 = heap(); F.on = true; errno = 0; int r = process_open(&p, v); int e = errno; F.on = false; h0 = heap() - h0; F.pipefail = F.spawnerr = 0; bool inj = kind == 2 || kind == 3; if (inj && !F.fired) { if (r == 0) { F.on = true; process_close(&p); F.on = false; } return; } CHECK(r == -1, "process_open of an unstartable program returned %d", r); CHECK(e == expect, "errno is %d, expected %d", e, expect); CHECK(h0 <= 0, "%ld bytes of heap memory remain after a failed start", h0); LABEL("failing start"); (void)others;
}
static void session() {
  signal(SIGPIPE, SIG_IGN); F = {}; auto inh = inheritable(); size_t n = 1 + (chance(1, 2) ? draw(3) : 0); std::vector<std::unique_ptr<Proc>> ps; std::vector<size_t> order; if (chance(1, 3)) failing(false);
  for (size_t i = 0; i < n; i++) { ps.emplace_back(new Proc); child(*ps[i], i); order.push_back(i); if (chance(1, 2)) { exchange(*ps[i]); ps[i]->in.clear(); if (ps[i]->kind != 8) ps[i]->out.clear(), ps[i]->err.clear(); if (ps[i]->kind == 8) ps[i]->open = false; } if (chance(1, 10)) failing(true); }
  for (size_t i = order.size(); i > 1; i--) std::swap(order[i - 1], order[draw(i - 1)]); bool reversed = false; for (size_t k = 1; k < n; k++) if (order[k] < order[k - 1]) reversed = true; if (n > 1) LABEL("several open at once"); if (reversed) LABEL("closed in another order"); if (n > 1 || ps[0]->kind != 6) nontrivial();
  for (size_t k = 0; k < n; k++) { Proc &x = *ps[order[k]]; if (x.kind == 8) { if (x.open) exchange(x); std::vector<int> fds; const char *c = x.out.c_str(); while (*c) { char *e; long f = strtol(c, &e, 10); if (e == c) break; fds.push_back((int)f); c = e; while (*c == ' ') c++; } bool std3[3] = {}; for (int f : fds) { if (f < 3) { std3[f] = true; continue; } bool ok = false; for (int g : inh) ok = ok || g == f; CHECK(ok, "the child got the caller's descriptor %d (list: %s)", f, x.out.c_str()); } CHECK(std3[0] && std3[1] && std3[2], "standard streams missing in the child: %s", x.out.c_str()); LABEL("descriptor list"); }
    else exchange(x);
    F.eintr = chance(1, 6) ? 1 + (int)draw(2) : 0; int e0 = F.eintr; long h0 = heap(); F.on = true; int r = process_close(&x.p); F.on = false; F.eintr = 0; x.held += heap() - h0; CHECK(x.held <= 0, "%ld bytes of heap memory remain after process_close", x.held); note("close #%zu = %d", order[k], r); if (e0) LABEL("interrupted wait"); CHECK(r == x.status, "process_close returned %d, the program exits with %d", r, x.status); CHECK(__real_waitpid(x.p.pid, 0, WNOHANG) == -1 && errno == ECHILD, "the closed process was not collected"); }
  CHECK(__real_waitpid(-1, 0, WNOHANG) == -1 && errno == ECHILD, "a child process remains");
}
Check the_check = {"C28", "one to four concurrently open shell children (argument echo, cat with up to 300 kB, error stream, environment, line echo, early exit, unread endless output on either stream, also after the end of the input, early-closed streams, descriptor list) with generated arguments, data and exit codes, exchanged at generated times and closed in generated order, interrupted waits, unstartable programs and failing pipe/spawn calls; non-trivial: several processes or data exchanged",
  {{"session", session, 6000, 60000, FDS}}};
