#include "pbt.hpp"
#include <algorithm>
#include <cerrno>
#include <csignal>
#include <ctime>
#include <fcntl.h>
#include <dirent.h>
#include <ftw.h>
#include <map>
#include <set>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <sys/syscall.h>
#include <unistd.h>

u64 g_seed = 1; bool g_thorough = false;

static const size_t RECCAP = 1 << 20, HASHCAP = 1 << 20, NLAB = 192, MAXLEG = 32, MSGCAP = 8192;
struct Shared {
  volatile u64 cur_case; volatile int cur_leg; volatile int in_case; volatile int failed; volatile int hang; volatile int overflow; volatile int done;
  volatile u64 nrec; u64 rec[RECCAP];
  char msg[MSGCAP];
  u64 evals[MAXLEG], nontriv[MAXLEG], first_nt[MAXLEG][4]; u32 n_first_nt[MAXLEG]; volatile int stopped;
  u64 nhash; u64 hashes[HASHCAP]; u64 hash_dropped;
  char lab[NLAB][56]; u64 labcnt[NLAB]; u64 lablast[NLAB]; u32 nlab;
  char knownid[8][64]; u32 nknown;
};
static Shared *S;                       // of this process
enum Mode { RANDOM, REPLAY, BYTES };
static struct { Mode m; u64 s0, s1; const u64 *v; size_t n, pos; const u8 *b; size_t bn, bpos; } src;
static u64 caseno; static bool nt; static u64 ntkey; static bool ntkeyset; static bool fuzzing;
static bool desc; static std::string descbuf;
static unsigned cpu_limit = 20; static double wall_cap;
static std::string scratch_root, scratch_dir; static u64 casehash;

static u64 splitmix(u64 &x) { u64 z = (x += 0x9e3779b97f4a7c15ULL); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return z ^ (z >> 31); }
u64 hash64(const void *p, size_t n, u64 seed) {
  const u8 *b = (const u8 *)p; u64 h = seed ^ 0x9ae16a3b2f90404fULL ^ (n * 0x9e3779b97f4a7c15ULL);
  while (n >= 8) { u64 k; memcpy(&k, b, 8); h = (h ^ k) * 0xff51afd7ed558ccdULL; h ^= h >> 32; b += 8; n -= 8; }
  while (n--) { h = (h ^ *b++) * 0x100000001b3ULL; h ^= h >> 29; }
  h *= 0xc4ceb9fe1a85ec53ULL; return h ^ (h >> 33);
}
static u64 rnd() { // xorshift128+
  u64 x = src.s0, y = src.s1; src.s0 = y; x ^= x << 23; src.s1 = x ^ y ^ (x >> 17) ^ (y >> 26); return src.s1 + y;
}
u64 draw(u64 max) {
  u64 v;
  if (max == 0) return 0; // constant: not recorded
  switch (src.m) {
  case RANDOM: if (max == ~0ULL) v = rnd(); else { v = (u64)(((__uint128_t)rnd() * (max + 1)) >> 64); } break;
  case REPLAY: v = src.pos < src.n ? src.v[src.pos++] : 0; if (v > max) v = max == ~0ULL ? v : v % (max + 1); break;
  default: {
    int k = max <= 0xff ? 1 : max <= 0xffff ? 2 : max <= 0xffffffffu ? 4 : 8; v = 0;
    for (int i = 0; i < k; i++) v |= (u64)(src.bpos < src.bn ? src.b[src.bpos++] : 0) << (8 * i);
    if (max != ~0ULL) v %= max + 1; }
  }
  if (S->nrec < RECCAP) S->rec[S->nrec] = v, S->nrec = S->nrec + 1; else S->overflow = 1;
  casehash = (casehash ^ v) * 0x9fb21c651e98df25ULL; casehash ^= casehash >> 28;
  return v;
}
bool more(unsigned avg) { if (src.m == BYTES && src.bpos >= src.bn) { draw(1); return false; } return draw(avg) != 0; }
size_t weighted(std::initializer_list<unsigned> w) {
  u64 t = 0; for (unsigned x : w) t += x; u64 r = draw(t - 1); size_t i = 0;
  for (unsigned x : w) { if (r < x) return i; r -= x; i++; } return 0;
}
u64 anyu64() {
  switch (draw(5)) {
  case 0: return draw(255);
  case 1: { int b = (int)draw(63); return (1ULL << b) + (u64)range(-2, 2); }
  case 2: { int b = (int)draw(63); return draw(b == 63 ? ~0ULL : (2ULL << b) - 1); }
  case 3: return ~0ULL - draw(255);
  case 4: { u64 p = 1; int k = (int)draw(19); while (k--) p *= 10; return p + (u64)range(-2, 2); }
  default: return draw(~0ULL);
  }
}
u32 anyu32() {
  switch (draw(5)) {
  case 0: return (u32)draw(255);
  case 1: { int b = (int)draw(31); return (u32)((1ULL << b) + (u64)range(-2, 2)); }
  case 2: { int b = (int)draw(31); return (u32)draw((2ULL << b) - 1); }
  case 3: return (u32)(~0U - draw(255));
  case 4: { u64 p = 1; int k = (int)draw(9); while (k--) p *= 10; return (u32)(p + (u64)range(-2, 2)); }
  default: return (u32)draw(0xffffffffu);
  }
}
bool g_long;
size_t longsize() { static const size_t m[] = {256, 1024, 4096, 8192, 32768, 65536}; if (draw(3) == 3) return draw(80000); i64 v = (i64)m[draw(5)] + range(-3, 3); return (size_t)v; }
size_t sizeish(size_t max) {
  size_t r; if (g_long && max >= 30 && draw(2) == 2) return longsize();
  switch (draw(3)) {
  case 0: r = draw(std::min<size_t>(max, 12)); break;
  case 1: r = draw(std::min<size_t>(max, 130)); break;
  case 2: { int lg = 0; while ((2ULL << lg) <= max) lg++; int b = (int)draw(lg); i64 v = (i64)(1ULL << b) + range(-2, 2); r = v < 0 ? 0 : (size_t)v; break; }
  default: { int lg = 0; while ((2ULL << lg) <= max) lg++; int b = (int)draw(lg); r = draw((2ULL << b) - 1); }
  }
  return std::min(r, max);
}
size_t sizenear(size_t max, std::initializer_list<size_t> marks) {
  if (draw(2) < 2) return sizeish(max);
  size_t k = draw(marks.size() - 1); i64 v = (i64)marks.begin()[k] + range(-3, 3);
  return v < 0 ? 0 : g_long ? (size_t)v : std::min<size_t>((size_t)v, max);
}
u64 case_index() {
  // ENUM legs: index as the first choice
  u64 v;
  if (src.m == RANDOM) v = caseno; else if (src.m == REPLAY) v = src.pos < src.n ? src.v[src.pos++] : 0; else { v = 0; for (int i = 0; i < 8; i++) v |= (u64)(src.bpos < src.bn ? src.b[src.bpos++] : 0) << (8 * i); }
  S->rec[S->nrec] = v; S->nrec = S->nrec + 1; casehash = (casehash ^ v) * 0x9fb21c651e98df25ULL; casehash ^= casehash >> 28;
  return v;
}
void gfill(void *p, size_t n, u64 seed) { u8 *b = (u8 *)p; u64 x = seed; while (n >= 8) { u64 r = splitmix(x); memcpy(b, &r, 8); b += 8; n -= 8; } if (n) { u64 r = splitmix(x); memcpy(b, &r, n); } }
std::string gbytes(size_t n) {
  std::string s(n, 0);
  switch (draw(4)) {
  case 0: break;                                    // zeros
  case 1: { u8 c = (u8)draw(255); memset(&s[0], c, n); break; }
  case 2: if (n <= 64) { for (size_t i = 0; i < n; i++) s[i] = (char)draw(255); break; } /* fallthrough */
  case 3: gfill(&s[0], n, draw(0xffffffff)); break;
  default: { gfill(&s[0], n, draw(0xffffffff)); u8 m = (u8)(1 + draw(7)); for (auto &c : s) c = (char)((u8)c % m ? 'a' + (u8)c % m : (u8)c); }
  }
  return s;
}
std::string gstr(size_t n, const char *al) {
  size_t k = strlen(al); std::string s(n, al[0]);
  if (n <= 200) for (auto &c : s) c = al[draw(k - 1)];
  else { u64 x = draw(0xffffffff); for (auto &c : s) c = al[splitmix(x) % k]; }
  return s;
}
std::string show(const void *p, size_t n, size_t max) {
  const u8 *b = (const u8 *)p; std::string r = "\""; char t[8];
  for (size_t i = 0; i < n && i < max; i++) { if (b[i] == '"' || b[i] == '\\') { r += '\\'; r += (char)b[i]; } else if (b[i] >= 32 && b[i] < 127) r += (char)b[i]; else if (b[i] == '\n') r += "\\n"; else { snprintf(t, 8, "\\x%02x", b[i]); r += t; } }
  r += "\""; if (n > max) { char u[40]; snprintf(u, 40, "...(%zu bytes)", n); r += u; }
  return r;
}
// exact-size buffers; in recycling cases released ones are used again (poisoned meanwhile), see wrap_alloc.c
extern "C" { extern int pa_recycle; void __asan_poison_memory_region(void const volatile *, size_t) __attribute__((weak)); void __asan_unpoison_memory_region(void const volatile *, size_t) __attribute__((weak)); }
static std::pair<char *, size_t> bufpool[24]; static unsigned nbufpool;
static char *bufget(size_t n) {
  if (pa_recycle && __asan_unpoison_memory_region) for (unsigned i = nbufpool; i-- > 0;) if (bufpool[i].second == n) { char *p = bufpool[i].first; for (nbufpool--; i < nbufpool; i++) bufpool[i] = bufpool[i + 1]; __asan_unpoison_memory_region(p, n); return p; }
  return (char *)::operator new(n);
}
static void bufput(char *p, size_t n) {
  if (!pa_recycle || !__asan_poison_memory_region || n > 65536) { ::operator delete(p); return; }
  if (nbufpool == 24) { __asan_unpoison_memory_region(bufpool[0].first, bufpool[0].second); ::operator delete(bufpool[0].first); for (unsigned i = 0; i < 23; i++) bufpool[i] = bufpool[i + 1]; nbufpool--; }
  __asan_poison_memory_region(p, n); bufpool[nbufpool++] = {p, n};
}
static char *bufalloc(size_t n, char **base) { *base = bufget(n ? n : 16); return n ? *base : *base + 16; } // size 0: any access is out of bounds
Buf::Buf(size_t n_, int f) : n(n_) { p = bufalloc(n, &base); memset(base, f, n ? n : 16); }
Buf::Buf(const void *s, size_t n_) : n(n_) { p = bufalloc(n, &base); if (n) memcpy(p, s, n); }
Buf::Buf(const std::string &s, bool nul) : n(s.size() + nul) { p = bufalloc(n, &base); if (s.size()) memcpy(p, s.data(), s.size()); if (nul) p[s.size()] = 0; }
Huge::Huge(size_t n_, char fill) : p(0), n(n_) {
  static const size_t T = 32u << 20; size_t room = (n / T + 2) * T; char *m = (char *)mmap(0, room, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); CHECK(m != MAP_FAILED, "harness: address space");
  if (fill) { int fd = (int)syscall(SYS_memfd_create, "tile", 1); CHECK(fd >= 0 && !ftruncate(fd, (off_t)T), "harness: memfd"); char *t = (char *)mmap(0, T, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); CHECK(t != MAP_FAILED, "harness: tile"); memset(t, fill, T); munmap(t, T); for (size_t o = 0; o < room; o += T) CHECK(mmap(m + o, T, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_FIXED | MAP_NORESERVE, fd, 0) != MAP_FAILED, "harness: tiling"); syscall(SYS_close, fd); }
  p = m;
}
Huge::~Huge() { munmap(p, (n / (32u << 20) + 2) * (32u << 20)); }
Buf::~Buf() { bufput(base, n ? n : 16); }

void fail_(const char *file, int line, const char *fmt, ...) {
  char m[MSGCAP - 128]; va_list ap; va_start(ap, fmt); vsnprintf(m, sizeof m, fmt, ap); va_end(ap);
  const char *b = strrchr(file, '/'); b = b ? b + 1 : file;
  snprintf(S->msg, MSGCAP, "%s:%d: %s", b, line, m); S->failed = 1;
  if (fuzzing) { fprintf(stderr, "PROPERTY FAILED %s\n", S->msg); abort(); }
  _exit(77);
}
extern "C" void pa_doublefree(void) { fail_("alloc", 0, "a block was released twice"); }
extern "C" void pa_blowup(void) { fail_("alloc", 0, "library allocated more than %zu bytes in one case", pa_limit); }
bool describing() { return desc; }
void note(const char *fmt, ...) {
  if (!desc) return;
  char m[4096]; va_list ap; va_start(ap, fmt); vsnprintf(m, sizeof m, fmt, ap); va_end(ap);
  if (descbuf.size() < 20000) { descbuf += m; descbuf += "; "; std::string t = std::string(m) + "; "; syscall(SYS_write, 9, t.data(), t.size()); } // unbuffered: survives a crash
}
void nontrivial() { nt = true; }
void nontrivial_key(u64 k) { nt = true; ntkey = k; ntkeyset = true; }
void label_(const char *name, int *cache) {
  int i = *cache;
  if (i < 0) { for (i = 0; i < (int)S->nlab; i++) if (!strncmp(S->lab[i], name, 55)) break; if (i == (int)S->nlab) { if (i >= (int)NLAB) return; snprintf(S->lab[i], 56, "%s", name); S->lablast[i] = ~0ULL; S->nlab++; } *cache = i; }
  u64 id = caseno * MAXLEG + S->cur_leg; if (S->lablast[i] != id) { S->lablast[i] = id; S->labcnt[i]++; }
}
void known(const char *f) {
  for (u32 i = 0; i < S->nknown; i++) if (!strcmp(S->knownid[i], f)) return;
  if (S->nknown < 8) snprintf(S->knownid[S->nknown], 64, "%s", f), S->nknown++;
}
void case_cpu_limit(unsigned s) { cpu_limit = s; }
static int rmcb(const char *p, const struct stat *, int, struct FTW *) { return remove(p); }
const char *scratch() {
  if (scratch_dir.empty()) { char t[300]; snprintf(t, 300, "%s/w%d", scratch_root.c_str(), (int)getpid()); mkdir(t, 0755); scratch_dir = t; }
  return scratch_dir.c_str();
}
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

static std::set<std::string> fdset() { std::set<std::string> r; DIR *d = opendir("/proc/self/fd"); if (!d) return r; int self = dirfd(d); while (struct dirent *e = readdir(d)) if (e->d_name[0] != '.' && atoi(e->d_name) != self) r.insert(e->d_name); closedir(d); return r; }

static void run_leg(const Leg &l) {
  pa_recycle = 0; if (!(l.flags & (ENUM | RACY))) { S->nrec = 0; S->overflow = 0; pa_recycle = (int)draw(1); }
  g_long = l.flags & LONGS; casehash = 0x1234567; nt = false; ntkeyset = false; if (l.flags & (ENUM | RACY)) { S->nrec = 0; S->overflow = 0; } cpu_limit = (l.flags & SLOW) ? 200 : 20; descbuf.clear();
  std::set<std::string> f0; if (l.flags & FDS) f0 = fdset();
  pa_reset(); S->in_case = 1;
  l.fn();
  if ((l.flags & LEAK) && pa_live()) { char d[512]; pa_describe_live(d, sizeof d); fail_("leak", 0, "memory allocated by the library was not released: %zu blocks live at the end (%s)", pa_live(), d); }
  if (l.flags & FDS) { auto f1 = fdset(); if (f1 != f0) { std::string m; for (auto &x : f1) if (!f0.count(x)) m += " +" + x; for (auto &x : f0) if (!f1.count(x)) m += " -" + x; fail_("fds", 0, "open descriptors changed:%s", m.c_str()); } }
  S->in_case = 0;
}
static void seed_case(const Leg &l, u64 i) {
  u64 h = hash64(the_check.id, strlen(the_check.id), g_seed); h = hash64(l.name, strlen(l.name), h); h ^= i * 0xd6e8feb86659fd93ULL;
  src.m = RANDOM; src.s0 = splitmix(h); src.s1 = splitmix(h); if (!src.s0 && !src.s1) src.s1 = 1; caseno = i;
}
static void on_prof(int) { S->hang = 1; S->failed = 1; snprintf(S->msg, MSGCAP, "no termination: the case used more than its CPU limit"); _exit(78); }
static void arm(unsigned sec) { struct itimerval it = {{0, 0}, {(time_t)sec, 0}}; setitimer(ITIMER_PROF, &it, 0); }

static int W = 8; static double t0;
static void worker_main(int w) {
  signal(SIGPROF, on_prof); setpgid(0, 0); prctl(PR_SET_PDEATHSIG, SIGKILL);
  for (size_t li = 0; li < the_check.legs.size(); li++) {
    const Leg &l = the_check.legs[li]; long n = g_thorough ? l.thorough : l.quick; S->cur_leg = (int)li; int ww = W, w0 = w;
    if (l.flags & SOLO) { if (w0 != (int)(li % W)) continue; ww = 1; w0 = 0; }
    for (long i = w0; i < n; i += ww) {
      if ((i / ww) % 16 == 0 && now() - t0 > wall_cap) { S->stopped = 1; break; }
      S->cur_case = (u64)i; seed_case(l, (u64)i); arm((l.flags & SLOW) ? 200 : 20); { static bool tm = getenv("PBT_TIMES"); double b = tm ? now() : 0; run_leg(l); if (tm && now() - b > 0.5) { FILE *tf = fopen(getenv("PBT_TIMES"), "a"); if (tf) { fprintf(tf, "%s case %ld: %.1f s\n", l.name, i, now() - b); fclose(tf); } }; }
      S->evals[li]++;
      if (nt) {
        S->nontriv[li]++; if (S->n_first_nt[li] < 4 && (S->n_first_nt[li] == 0 || S->nontriv[li] > 20 * S->n_first_nt[li])) S->first_nt[li][S->n_first_nt[li]++] = (u64)i;
        u64 h = (ntkeyset ? ntkey * 0x9fb21c651e98df25ULL : casehash) ^ (li * 0x9e3779b97f4a7c15ULL); if (S->nhash < HASHCAP) S->hashes[S->nhash++] = h; else S->hash_dropped++;
      }
    }
  }
  arm(0); S->done = 1; _exit(0);
}
static Shared *mkshared() { Shared *p = (Shared *)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); if (p == MAP_FAILED) { perror("mmap"); exit(2); } return p; }
static std::string slurp(const std::string &f, size_t cap) { std::string r; FILE *h = fopen(f.c_str(), "r"); if (!h) return r; char b[4096]; size_t k; while (r.size() < cap && (k = fread(b, 1, sizeof b, h))) r.append(b, k); fclose(h); return r; }

struct Outcome { bool bad, hang; std::string msg, text; std::vector<u64> rec; bool overflow; bool nontriv; };
static Shared *SX; static std::string errfile;
// run one case in a child. kind 0: choices; 1: by seed (leg, index); 2: bytes; 3: history (worker w of W up to index)
static Outcome run_child(int leg, int kind, const std::vector<u64> &v, const std::string &bytes, u64 idx, bool describe, unsigned limit, int hw = 0, int hW = 1) {
  SX->failed = SX->hang = 0; SX->msg[0] = 0; SX->nrec = 0; SX->overflow = 0; SX->nlab = 0; SX->cur_leg = leg; SX->in_case = 0; SX->nknown = 0; SX->done = 0;
  int pfd[2]; if (pipe(pfd)) { perror("pipe"); exit(2); }
  fflush(stdout); fflush(stderr);
  pid_t pid = fork();
  if (!pid) {
    S = SX; scratch_dir.clear(); signal(SIGPROF, on_prof); setpgid(0, 0); prctl(PR_SET_PDEATHSIG, SIGKILL);
    int e = open(errfile.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); dup2(e, 2); if (e != 2) close(e);
    int nul = open("/dev/null", O_RDWR); dup2(nul, 0); dup2(nul, 1); if (nul > 2) close(nul);
    if (pfd[1] != 9) { dup2(pfd[1], 9); close(pfd[1]); } if (pfd[0] != 9) close(pfd[0]);
    desc = describe;
    const Leg &l = the_check.legs[leg];
    if (kind == 3) for (u64 i = hw; i < idx; i += hW) { desc = false; seed_case(l, i); S->cur_case = i; arm(limit); run_leg(l); }
    desc = describe;
    if (kind == 0) { src.m = REPLAY; src.v = v.data(); src.n = v.size(); src.pos = 0; caseno = 0; }
    else if (kind == 2) { src.m = BYTES; src.b = (const u8 *)bytes.data(); src.bn = bytes.size(); src.bpos = 0; caseno = 0; }
    else seed_case(l, idx);
    arm((l.flags & SLOW) ? std::max(limit, 200u) : limit); run_leg(l); arm(0);
    S->done = nt ? 2 : 1;
    _exit(0);
  }
  close(pfd[1]); std::string text; double start = now(); int st = 0; bool killed = false; double lim = (the_check.legs[leg].flags & SLOW) ? 600 : 60 + limit * 3;
  fcntl(pfd[0], F_SETFL, O_NONBLOCK);
  for (unsigned spin = 0;; spin++) {
    char b[4096]; ssize_t k; while ((k = read(pfd[0], b, sizeof b)) > 0) text.append(b, k);
    pid_t r = waitpid(pid, &st, WNOHANG); if (r == pid) { while ((k = read(pfd[0], b, sizeof b)) > 0) text.append(b, k); break; }
    if (now() - start > lim) { kill(-pid, SIGKILL); kill(pid, SIGKILL); killed = true; }
    struct timespec ts = {0, spin < 50 ? 100000 : spin < 200 ? 500000 : 5000000}; nanosleep(&ts, 0);
  }
  close(pfd[0]); kill(-pid, SIGKILL);
  char t[300]; snprintf(t, 300, "%s/w%d", scratch_root.c_str(), (int)pid); nftw(t, rmcb, 16, FTW_DEPTH | FTW_PHYS);
  Outcome o; o.hang = SX->hang || killed; o.overflow = SX->overflow; o.rec.assign(SX->rec, SX->rec + SX->nrec); o.text = text; o.nontriv = SX->done == 2;
  o.bad = !(WIFEXITED(st) && WEXITSTATUS(st) == 0 && SX->done);
  if (o.bad) {
    if (SX->failed) o.msg = SX->msg;
    else if (killed) o.msg = "no termination: the case blocked";
    else {
      std::string e = slurp(errfile, 20000); size_t p = e.find("ERROR: AddressSanitizer"); size_t q = e.find("WARNING: ThreadSanitizer");
      if (p == std::string::npos) p = q;
      if (p != std::string::npos) { o.msg = e.substr(p, 1500); } else { char m[100]; if (WIFSIGNALED(st)) snprintf(m, 100, "killed by signal %d", WTERMSIG(st)); else snprintf(m, 100, "exited with status %d inside the case", WEXITSTATUS(st)); o.msg = m; if (e.size()) o.msg += ": " + e.substr(0, 500); }
    }
  }
  return o;
}
static bool better(const std::vector<u64> &a, const std::vector<u64> &b) { if (a.size() != b.size()) return a.size() < b.size(); return a < b; }
static std::vector<u64> shrink(int leg, std::vector<u64> v, bool hang, long &evals) {
  double start = now(); unsigned lim = hang ? 3 : 10; double cap = hang ? 60 : 45; evals = 0;
  auto ok = [&](const std::vector<u64> &c, std::vector<u64> &out) { if (evals > 4000 || now() - start > cap) return false; evals++; Outcome o = run_child(leg, 0, c, "", 0, false, lim); if (!o.bad || (o.hang && !hang)) return false; out = o.rec.size() && !o.overflow && better(o.rec, c) ? o.rec : c; return true; };
  bool any = true;
  for (int round = 0; any && round < 12; round++) {
    any = false; std::vector<u64> out;
    for (size_t k = std::max<size_t>(1, v.size() / 2); k >= 1; k /= 2) { // delete chunks
      for (size_t i = v.size(); i-- > 0;) { if (i + 1 < k) break; size_t a = i + 1 - k; std::vector<u64> c(v); c.erase(c.begin() + a, c.begin() + a + k); if (ok(c, out)) { v = out; any = true; i = std::min(a + 1, v.size()); } else if (k > 1) i = i >= k - 1 ? i - (k - 1) + 0 : 0; if (evals > 4000 || now() - start > cap) return v; }
    }
    for (size_t k = std::max<size_t>(1, v.size() / 2); k >= 1; k /= 2) for (size_t a = 0; a + k <= v.size(); a += k) { bool z = true; for (size_t j = a; j < a + k; j++) if (v[j]) z = false; if (z) continue; std::vector<u64> c(v); for (size_t j = a; j < a + k; j++) c[j] = 0; if (ok(c, out) && better(out, v)) v = out, any = true; }
    for (size_t i = 0; i < v.size(); i++) { // minimise values; also decrement with deletion of the following element
      if (!v[i]) continue;
      u64 lo = 0, hi = v[i];
      while (lo < hi) { u64 mid = lo + (hi - lo) / 2; std::vector<u64> c(v); c[i] = mid; if (ok(c, out) && better(out, v)) { v = out; any = true; if (i >= v.size()) break; hi = std::min(mid, v[i]); } else lo = mid + 1; if (now() - start > cap) return v; }
      if (i < v.size() && v[i]) for (size_t del = 1; del <= 3 && i + del < v.size(); del++) { std::vector<u64> c(v); c[i]--; c.erase(c.begin() + i + 1, c.begin() + i + 1 + del); if (ok(c, out) && better(out, v)) { v = out; any = true; break; } }
    }
  }
  return v;
}
static std::string jesc(const std::string &s) { std::string r; char t[8]; for (unsigned char c : s) { if (c == '"' || c == '\\') r += '\\', r += (char)c; else if (c < 32 || c > 126) snprintf(t, 8, "\\u%04x", c), r += t; else r += (char)c; } return r; }

#ifdef PBT_FUZZER
static std::vector<int> flegs;
extern "C" int LLVMFuzzerInitialize(int *, char ***) {
  S = mkshared(); fuzzing = true; const char *e = getenv("VERIF_SEED"); if (e) g_seed = strtoull(e, 0, 10); g_thorough = true;
  scratch_root = "/tmp"; const char *only = getenv("PBT_LEG");
  for (size_t i = 0; i < the_check.legs.size(); i++) if ((the_check.legs[i].flags & FUZZ) && (!only || atoi(only) == (int)i)) flegs.push_back((int)i);
  return 0;
}
extern "C" int LLVMFuzzerTestOneInput(const u8 *d, size_t n) {
  if (flegs.empty() || n < 2) return 0;
  int li = flegs[d[0] % flegs.size()]; S->cur_leg = li; src.m = BYTES; src.b = d + 1; src.bn = n - 1; src.bpos = 0; caseno = 0; S->nlab = 0; run_leg(the_check.legs[li]); return 0;
}
#else
int main(int argc, char **argv) {
  std::string outf, replayf, replayout, bytesf; bool fzleg = false;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i]; auto nx = [&]() { return std::string(++i < argc ? argv[i] : ""); };
    if (a == "--seed") g_seed = strtoull(nx().c_str(), 0, 10); else if (a == "--tier") g_thorough = nx() == "thorough"; else if (a == "--out") outf = nx(); else if (a == "--replay") replayf = nx(); else if (a == "--replay-out") replayout = nx(); else if (a == "--bytes-file") bytesf = nx(); else if (a == "--scratch") scratch_root = nx(); else if (a == "--workers") W = atoi(nx().c_str()); else if (a == "--scale") { double sc = atof(nx().c_str()); for (auto &l : the_check.legs) if (!(l.flags & ENUM)) l.quick = (long)(l.quick * sc); } else if (a == "--wall") wall_cap = atof(nx().c_str()); else if (a == "--leg") { std::string ln = nx(); std::vector<Leg> k; for (auto &l : the_check.legs) if (ln == l.name) k.push_back(l); the_check.legs = k; }
  }
  (void)fzleg;
  if (scratch_root.empty()) { fprintf(stderr, "--scratch required\n"); return 2; }
  if (!wall_cap) wall_cap = g_thorough ? 3000 : 240;
  struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
  SX = mkshared(); S = SX; errfile = scratch_root + "/child.err"; t0 = now();
  if (the_check.legs.size() > MAXLEG) { fprintf(stderr, "too many legs\n"); return 2; }

  if (!replayf.empty()) { // re-run a recorded case against the current tree
    std::string t = slurp(replayf, 1 << 26); std::vector<u64> v; int leg = -1, kind = 0; u64 idx = 0; int hw = 0, hW = 1; char *line = strtok(&t[0], "\n");
    while (line) { if (!strncmp(line, "leg=", 4)) { for (size_t i = 0; i < the_check.legs.size(); i++) if (!strcmp(the_check.legs[i].name, line + 4)) leg = (int)i; } else if (!strncmp(line, "seedcase=", 9)) { kind = 1; unsigned long long a, b; sscanf(line + 9, "%llu %llu", &a, &b); g_seed = a; idx = b; } else if (!strncmp(line, "history=", 8)) { kind = 3; unsigned long long a, b; sscanf(line + 8, "%llu %d %d %llu", &a, &hw, &hW, &b); g_seed = a; idx = b; } else if (!strncmp(line, "choices=", 8)) { char *p = line + 8; while (*p) { char *e; u64 x = strtoull(p, &e, 10); if (e == p) break; v.push_back(x); p = e; } } line = strtok(0, "\n"); }
    if (leg < 0) { fprintf(stderr, "replay: unknown leg\n"); return 2; }
    Outcome o = run_child(leg, kind, v, "", idx, true, 20, hw, hW);
    printf("case: %s\n%s%s\n", o.text.c_str(), o.bad ? "FAILS: " : "holds", o.bad ? o.msg.c_str() : ""); return o.bad ? 1 : 0;
  }
  int fleg = -1; u64 fidx = 0; int fw = 0; Outcome first; bool found = false; std::string kindtext; std::vector<Shared *> sh; bool watchdogged = false;
  if (!bytesf.empty()) { // a libFuzzer artifact
    std::vector<int> fl; for (size_t i = 0; i < the_check.legs.size(); i++) if (the_check.legs[i].flags & FUZZ) fl.push_back((int)i);
    std::string b = slurp(bytesf, 1 << 24); if (fl.empty() || b.size() < 2) return 0; const char *only = getenv("PBT_LEG"); fleg = only ? atoi(only) : fl[(u8)b[0] % fl.size()];
    first = run_child(fleg, 2, {}, b.substr(1), 0, false, 20); if (!first.bad) return 0; found = true;
  } else {
    std::vector<pid_t> pids; std::vector<u64> lastc(W), lastl(W); std::vector<double> lastt(W, now());
    fflush(stdout); fflush(stderr);
    for (int w = 0; w < W; w++) {
      sh.push_back(mkshared()); pid_t p = fork();
      if (!p) { S = sh[w]; char f[400]; snprintf(f, 400, "%s/worker%d.err", scratch_root.c_str(), w); int e = open(f, O_WRONLY | O_CREAT | O_TRUNC, 0600); dup2(e, 2); close(e); int nul = open("/dev/null", O_RDWR); dup2(nul, 0); dup2(nul, 1); if (nul > 2) close(nul); worker_main(w); }
      pids.push_back(p);
    }
    int alive = W; std::vector<bool> gone(W);
    while (alive && !found) {
      struct timespec ts = {0, 5000000}; nanosleep(&ts, 0);
      for (int w = 0; w < W && !found; w++) {
        if (gone[w]) continue;
        int st; pid_t r = waitpid(pids[w], &st, WNOHANG);
        if (r == pids[w]) { gone[w] = true; alive--; if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0 && sh[w]->done)) { found = true; fw = w; first.msg = sh[w]->failed ? sh[w]->msg : "crash"; first.hang = sh[w]->hang; } }
        else { u64 c = sh[w]->cur_case, l = sh[w]->cur_leg + sh[w]->evals[sh[w]->cur_leg] * 1000; if (c != lastc[w] || l != lastl[w]) lastc[w] = c, lastl[w] = l, lastt[w] = now(); else if (now() - lastt[w] > ((the_check.legs[sh[w]->cur_leg].flags & SLOW) ? 500 : 120)) { found = true; watchdogged = true; fw = w; first.hang = true; first.msg = "no termination: the case blocked"; } }
      }
    }
    for (int w = 0; w < W; w++) { if (!gone[w]) { kill(-pids[w], SIGKILL); kill(pids[w], SIGKILL); int st; waitpid(pids[w], &st, 0); } kill(-pids[w], SIGKILL); char t[300]; snprintf(t, 300, "%s/w%d", scratch_root.c_str(), (int)pids[w]); nftw(t, rmcb, 16, FTW_DEPTH | FTW_PHYS); }
    if (found) { fleg = sh[fw]->cur_leg; fidx = sh[fw]->cur_case; first.rec.assign(sh[fw]->rec, sh[fw]->rec + sh[fw]->nrec); first.overflow = sh[fw]->overflow; }
  }
  double explore_s = now() - t0; bool violation = false; std::string vmsg, vtext; bool inconclusive = false; long sevals = 0; std::string rp;
  if (found) {
    const Leg &l = the_check.legs[fleg]; int kind = 0; std::vector<u64> v = first.rec; unsigned lim = 20; int hw = 0, hW = W; Outcome o; bool rep = false;
    if (!first.overflow) { rep = true; if (l.flags & RACY) { rep = false; for (int k = 0; k < 10 && !rep; k++) { o = run_child(fleg, 0, v, "", 0, false, lim); rep = o.bad; } } else for (int k = 0; k < 2 && rep; k++) { o = run_child(fleg, 0, v, "", 0, false, lim); rep = o.bad; } }
    if (!rep && bytesf.empty()) { kind = 1; rep = true; for (int k = 0; k < 3 && rep; k++) { o = run_child(fleg, 1, {}, "", fidx, false, lim); rep = o.bad; } }
    if (!rep && bytesf.empty()) { kind = 3; hw = (l.flags & SOLO) ? 0 : fw; hW = (l.flags & SOLO) ? 1 : W; rep = true; for (int k = 0; k < 3 && rep; k++) { o = run_child(fleg, 3, {}, "", fidx, false, lim, hw, hW); rep = o.bad; } }
    if (rep && kind == 0) { v = shrink(fleg, v, o.hang, sevals); if (l.flags & RACY) { rep = false; for (int k = 0; k < 20 && !rep; k++) { o = run_child(fleg, 0, v, "", 0, true, lim); rep = o.bad; } if (!rep) { rep = true; v = first.rec; o.msg = first.msg; } } else { for (int k = 0; k < 3 && rep; k++) { o = run_child(fleg, 0, v, "", 0, k == 2, lim); rep = o.bad; }
        if (!rep) { v = first.rec; rep = true; for (int k = 0; k < 2 && rep; k++) { o = run_child(fleg, 0, v, "", 0, k == 1, lim); rep = o.bad; } } } } // the shrunk case only looked like a hang: keep the original
    else if (rep) o = run_child(fleg, kind, {}, "", fidx, true, lim, hw, hW);
    if (rep) {
      violation = true; vmsg = o.msg; vtext = o.text;
      FILE *f = fopen(replayout.c_str(), "w"); if (!f) { perror(replayout.c_str()); return 2; }
      fprintf(f, "property=%s\nleg=%s\n", the_check.id, l.name);
      if (kind == 0) { fprintf(f, "choices="); for (u64 x : v) fprintf(f, "%llu ", (unsigned long long)x); fprintf(f, "\n"); }
      else if (kind == 1) fprintf(f, "seedcase=%llu %llu\n", (unsigned long long)g_seed, (unsigned long long)fidx);
      else fprintf(f, "history=%llu %d %d %llu\n", (unsigned long long)g_seed, hw, hW, (unsigned long long)fidx);
      std::string one = vmsg; fprintf(f, "# failure: "); for (char c : one) { fputc(c, f); if (c == '\n') fprintf(f, "#   "); } fprintf(f, "\n# case: %s\n", vtext.c_str()); fclose(f);
    } else { inconclusive = true; vmsg = first.msg; }
  }
  if (outf.size()) {
    FILE *f = fopen(outf.c_str(), "w"); if (!f) { perror(outf.c_str()); return 2; }
    u64 ev = 0, ntc = 0; std::map<std::string, u64> lab; std::vector<u64> hs; u64 drop = 0; bool stopped = false; std::set<std::string> kn;
    for (auto s : sh) { for (size_t i = 0; i < the_check.legs.size(); i++) ev += s->evals[i], ntc += s->nontriv[i]; for (u32 i = 0; i < s->nlab; i++) lab[s->lab[i]] += s->labcnt[i]; hs.insert(hs.end(), s->hashes, s->hashes + s->nhash); drop += s->hash_dropped; stopped |= s->stopped; for (u32 i = 0; i < s->nknown; i++) kn.insert(s->knownid[i]); }
    std::sort(hs.begin(), hs.end()); u64 distinct = std::unique(hs.begin(), hs.end()) - hs.begin();
    fprintf(f, "{\"evaluations\": %llu, \"nontrivial\": %llu, \"distinct_nontrivial\": %llu, \"hashes_dropped\": %llu, \"stopped_by_time\": %s, \"explore_s\": %.2f, \"workers\": %d,\n \"legs\": [", (unsigned long long)ev, (unsigned long long)ntc, (unsigned long long)distinct, (unsigned long long)drop, stopped ? "true" : "false", explore_s, W);
    for (size_t i = 0; i < the_check.legs.size(); i++) { u64 e = 0, n = 0; for (auto s : sh) e += s->evals[i], n += s->nontriv[i]; const Leg &l = the_check.legs[i]; long want = g_thorough ? l.thorough : l.quick; fprintf(f, "%s{\"leg\": \"%s\", \"cases\": %llu, \"nontrivial\": %llu, \"exhaustive\": %s}", i ? ", " : "", l.name, (unsigned long long)e, (unsigned long long)n, (l.flags & ENUM) && (long)e == want ? "true" : "false"); }
    fprintf(f, "],\n \"labels\": {"); bool c = false; for (auto &k : lab) fprintf(f, "%s\"%s\": %llu", c ? ", " : "", jesc(k.first).c_str(), (unsigned long long)k.second), c = true;
    fprintf(f, "},\n \"known\": ["); c = false; for (auto &k : kn) fprintf(f, "%s\"%s\"", c ? ", " : "", jesc(k).c_str()), c = true;
    fprintf(f, "],\n \"samples\": ["); c = false;
    if (!found) for (size_t i = 0; i < the_check.legs.size(); i++) { int got = 0; for (auto s : sh) { if (got >= 2) break; for (u32 k = 0; k < s->n_first_nt[i] && got < 2; k += 2) { Outcome o = run_child((int)i, 1, {}, "", s->first_nt[i][k], true, 20); std::string t = o.text.substr(0, 700); fprintf(f, "%s\"%s #%llu: %s\"", c ? ", " : "", the_check.legs[i].name, (unsigned long long)s->first_nt[i][k], jesc(t).c_str()); c = true; got++; } } }
    fprintf(f, "],\n \"rule\": \"%s\",\n \"violation\": %s, \"inconclusive\": %s, \"shrink_evals\": %ld, \"message\": \"%s\", \"case\": \"%s\", \"leg\": \"%s\"}\n", jesc(the_check.rule).c_str(), violation ? "true" : "false", inconclusive ? "true" : "false", sevals, jesc(vmsg).c_str(), jesc(vtext).c_str(), fleg >= 0 ? the_check.legs[fleg].name : "");
    fclose(f);
  }
  (void)watchdogged;
  if (violation) { fprintf(stderr, "%s: leg %s: %s\n  case: %s\n", the_check.id, the_check.legs[fleg].name, vmsg.c_str(), vtext.c_str()); return 1; }
  if (inconclusive) fprintf(stderr, "%s: NOTE a failure in leg %s case %llu could not be reproduced (%s): inconclusive\n", the_check.id, the_check.legs[fleg].name, (unsigned long long)fidx, vmsg.c_str());
  return 0;
}
#endif
#ifndef __has_feature
#define __has_feature(x) 0
#endif
extern "C" const char *__asan_default_options() { return "detect_leaks=0:allocator_release_to_os_interval_ms=-1:exitcode=99:quarantine_size_mb=8:allocator_may_return_null=1:max_malloc_fill_size=1048576:malloc_fill_byte=190:handle_abort=1:detect_stack_use_after_return=0:print_legend=0:print_full_thread_history=0:max_free_fill_size=4096:free_fill_byte=203"; }
extern "C" const char *__tsan_default_options() { return "exitcode=99:halt_on_error=1:report_signal_unsafe=0:die_after_fork=0"; }
