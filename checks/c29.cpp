// C29: daemonize, run in grandchildren that report through a file
#include "pbt.hpp"
#include <cerrno>
#include <csignal>
#include <ctime>
#include <dirent.h>
#include <fcntl.h>
#include <set>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
extern "C" { void daemonize(void); pid_t __real_fork(void); void __real_exit(int) __attribute__((noreturn)); }
typedef std::string S;
struct Rep { volatile int done, nret; int pid, sid, pgrp, ppid, apid, acode, mdone, tty_errno, tty, nfd; int fds[64]; char link[64][64]; int flags[3]; int rd, wr1, wr2; mode_t um; char cwd[300]; unsigned long sum; int forkcalled; char env[32]; int sigign; };
static Rep *R; static bool inA, failfork;
extern "C" pid_t __wrap_fork(void) { if (inA && R) { R->forkcalled++; if (failfork) { errno = EAGAIN; return -1; } } return __real_fork(); }
extern "C" void __wrap_exit(int c) { if (inA) _exit(c); __real_exit(c); }
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (double)t.tv_sec + (double)t.tv_nsec * 1e-9; }
static int wait_exit(pid_t p, double limit = 20) { double t0 = now(); int st; while (1) { pid_t r = waitpid(p, &st, WNOHANG); if (r == p) return WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st); if (now() - t0 > limit) { kill(p, SIGKILL); waitpid(p, &st, 0); return 2000; } struct timespec ts = {0, 200000}; nanosleep(&ts, 0); } }
static void report() { // runs in the daemon
  R->pid = getpid(); R->sid = getsid(0); R->pgrp = getpgrp(); R->ppid = getppid(); DIR *d = opendir("/proc/self/fd"); if (d) { int self = dirfd(d); while (struct dirent *e = readdir(d)) { if (e->d_name[0] == '.') continue; int f = atoi(e->d_name); if (f == self || R->nfd >= 64) continue; char p[64]; snprintf(p, 64, "/proc/self/fd/%d", f); ssize_t k = readlink(p, R->link[R->nfd], 63); R->link[R->nfd][k > 0 ? k : 0] = 0; R->fds[R->nfd++] = f; } closedir(d); }
  for (int i = 0; i < 3; i++) R->flags[i] = fcntl(i, F_GETFL); char c; R->rd = (int)read(0, &c, 1); R->wr1 = (int)write(1, "x", 1); R->wr2 = (int)write(2, "x", 1); R->um = umask(022); umask(R->um); if (!getcwd(R->cwd, sizeof R->cwd)) R->cwd[0] = 0; snprintf(R->env, sizeof R->env, "%s", getenv("PBT_E") ? getenv("PBT_E") : "(none)"); int t = open("/dev/tty", O_RDWR | O_NOCTTY); R->tty = t >= 0; R->tty_errno = errno; struct sigaction sa; sigaction(SIGUSR1, 0, &sa); R->sigign = sa.sa_handler == SIG_IGN;
}
static void once() {
  if (!R) R = (Rep *)mmap(0, sizeof(Rep), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); memset((void *)R, 0, sizeof *R); S dir = S(scratch()) + "/d"; mkdir(dir.c_str(), 0755); char real[300]; if (!realpath(dir.c_str(), real)) return; S errf = dir + "/err";
  rlim_t lim = chance(1, 20) ? chance(1, 3) ? 32700 + draw(40000) : 1000 + draw(9000) : 256 + draw(500); { struct rlimit h; if (lim > 20000 && !getrlimit(RLIMIT_NOFILE, &h) && h.rlim_max < 80000) { h.rlim_max = 80000; setrlimit(RLIMIT_NOFILE, &h); } } { struct rlimit h; if (!getrlimit(RLIMIT_NOFILE, &h) && lim > h.rlim_max) lim = h.rlim_max; } if (lim > 32768) LABEL("limit above 32768"); else if (lim > 10000) LABEL("limit above 10000"); int top = (int)lim - 1; bool high = false; std::vector<int> extra; while (more(4) && extra.size() < 20) { extra.push_back(3 + (int)(chance(1, 4) ? draw((u64)top - 3) : chance(1, 6) ? (u64)top - 3 - draw(3) : draw(20))); high |= extra.back() > 255; } if (high) LABEL("descriptors above 255"); std::vector<int> kinds; for (size_t i = 0; i < extra.size(); i++) kinds.push_back((int)draw(3)); unsigned closemask = chance(1, 3) ? (unsigned)draw(7) : 0; bool tty = chance(1, 3), leader = !tty && chance(1, 4), newgrp = chance(1, 3); failfork = chance(1, 6); mode_t um = chance(1, 2) ? 022 : (mode_t)draw(0777); u64 memseed = draw(1000000); int ign = (int)draw(1); S env = "e" + std::to_string(draw(99999)); bool cwd = draw(1);
  note("%zu extra descriptors, closed std %u, terminal %d, session leader %d, own group %d, failing fork %d, umask %o, limit %lu", extra.size(), closemask, tty, leader, newgrp, failfork, um, (unsigned long)lim); if (extra.size() > 1 || tty) nontrivial(); if (tty) LABEL("controlling terminal"); if (failfork) LABEL("failing fork"); if (closemask) LABEL("standard streams closed before");
  fflush(stdout); fflush(stderr); pid_t m = __real_fork(); if (m < 0) return;
  if (m == 0) { // manager: owns the terminal, starts A, waits for the daemon's report
    int master = -1; signal(SIGHUP, SIG_IGN); if (tty) { setsid(); master = posix_openpt(O_RDWR | O_NOCTTY); if (master >= 0 && !grantpt(master) && !unlockpt(master)) { char n[64]; if (!ptsname_r(master, n, 64)) { int s = open(n, O_RDWR); if (s >= 0) ioctl(s, TIOCSCTTY, 0); } } }
    pid_t a = __real_fork(); if (a < 0) _exit(77);
    if (a == 0) {
      inA = true; signal(SIGHUP, SIG_DFL); if (leader) setsid(); else if (newgrp) setpgid(0, 0); setenv("PBT_E", env.c_str(), 1); if (cwd && chdir(dir.c_str())) _exit(78); if (!cwd && chdir("/")) _exit(78); umask(um); signal(SIGUSR1, ign ? SIG_IGN : SIG_DFL); std::vector<unsigned char> mem(5000); gfill(mem.data(), mem.size(), memseed);
      struct rlimit rl; getrlimit(RLIMIT_NOFILE, &rl); rl.rlim_cur = lim; setrlimit(RLIMIT_NOFILE, &rl); int e = open(errf.c_str(), O_CREAT | O_TRUNC | O_RDWR, 0600); if (failfork) closemask = 0; if (e >= 0) { dup2(e, 2); if (e > 2) close(e); } for (size_t i = 0; i < extra.size(); i++) { int f; int pp[2]; switch (kinds[i]) { case 0: f = open("/dev/null", O_RDONLY | O_CLOEXEC); break; case 1: f = memfd_create("x", 0); break; case 2: f = pipe(pp) ? -1 : pp[0]; break; default: f = open("/", O_RDONLY | O_DIRECTORY); } if (f >= 0 && f != extra[i]) { dup2(f, extra[i]); if (chance(0, 1)) {} } }
      for (int i = 0; i < 3; i++) if (closemask >> i & 1) close(i);
      R->apid = getpid(); daemonize(); inA = false; __sync_fetch_and_add(&R->nret, 1); unsigned long sum = 0; std::vector<unsigned char> cmp(5000); gfill(cmp.data(), cmp.size(), memseed); R->sum = memcmp(mem.data(), cmp.data(), mem.size()) != 0; (void)sum; { double t0 = now(); while (getppid() == R->apid && now() - t0 < 5) { struct timespec ts = {0, 200000}; nanosleep(&ts, 0); } } report(); __sync_synchronize(); R->done = 1; _exit(0);
    }
    R->acode = wait_exit(a); if (R->acode == 0) { double t0 = now(), lim = failfork && R->forkcalled ? 0.3 : 20; while (!R->done && now() - t0 < lim) { struct timespec ts = {0, 200000}; nanosleep(&ts, 0); } } R->mdone = 1; _exit(0);
  }
  int mc = wait_exit(m, 60); if (mc == 77 || mc == 78 || !R->mdone) return; S err; { int f = open(errf.c_str(), O_RDONLY | O_CLOEXEC); char b[300]; ssize_t k = f >= 0 ? read(f, b, sizeof b) : 0; if (k > 0) err.assign(b, (size_t)k); if (f >= 0) close(f); } unlink(errf.c_str()); rmdir(dir.c_str());
  if (failfork && R->forkcalled) { CHECK(R->acode != 0 && R->acode < 1000, "fork failed, but the process ended with status %d", R->acode); CHECK(!R->done && !R->nret, "fork failed, but a daemon runs"); CHECK(!err.empty(), "fork failed without a message"); return; }
  CHECK(R->acode == 0, "the original process ended with status %d (1000+n: signal n, 2000: did not end)", R->acode); CHECK(R->done, "the daemon did not report: it died or never returned from daemonize");
  CHECK(R->nret == 1, "%d processes returned from daemonize", R->nret); CHECK(R->pid != R->apid, "the daemon is the original process"); CHECK(R->ppid != R->apid, "the daemon is still a child of the original process"); CHECK(R->sid != getsid(0) && R->sid != 0, "the daemon stays in the old session"); CHECK(R->sid == R->pid || R->sid == R->pgrp, "session %d, process %d, group %d", R->sid, R->pid, R->pgrp); CHECK(!R->tty, "the daemon still has a controlling terminal");
  std::set<int> s; for (int i = 0; i < R->nfd; i++) { s.insert(R->fds[i]); CHECK(R->fds[i] < 3, "descriptor %d (%s) is still open in the daemon", R->fds[i], R->link[i]); CHECK(!strcmp(R->link[i], "/dev/null"), "standard descriptor %d is %s", R->fds[i], R->link[i]); } CHECK(s.size() == 3, "only %zu standard descriptors are open", s.size()); CHECK(R->rd == 0, "reading standard input gives %d", R->rd); CHECK(R->wr1 == 1 && R->wr2 == 1, "writing standard output/error gives %d/%d", R->wr1, R->wr2);
  CHECK(!R->sum, "memory contents changed"); CHECK(R->um == um, "umask changed to %o", R->um); CHECK(S(R->cwd) == (cwd ? S(real) : S("/")), "working directory changed to %s", R->cwd); CHECK(env == R->env, "environment changed"); CHECK(R->sigign == ign, "signal disposition changed");
}
Check the_check = {"C29", "daemonize run in disposable processes with generated descriptor tables (files, pipes, memory files, directories, descriptors up to the limit of 256..72000 as far as the hard limit allows, standard streams closed beforehand), controlling terminal, own group, umask, directory, environment, descriptor limit; the daemon reports session, parents, descriptors, terminal and state; failing fork injected; non-trivial: at least two extra descriptors or a terminal",
  {{"detach", once, 3500, 30000, FDS}}};
