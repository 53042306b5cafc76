// short, interrupted and failing open/read/write/lseek calls for the library (linked with --wrap for those symbols).
// Inactive (plain pass-through) unless fio.on; every decision comes from the case's choices.
#pragma once
#include "pbt.hpp"
#include <cerrno>
#include <cstdarg>
#include <fcntl.h>
#include <functional>
#include <unistd.h>
extern "C" { int __real_open(const char *, int, ...); ssize_t __real_read(int, void *, size_t); ssize_t __real_write(int, const void *, size_t); off_t __real_lseek(int, off_t, int); }
struct FaultIO {
  bool on = false; unsigned shortp = 0, failp = 0, openp = 0; // chances out of 16 (openp: out of 16)
  long calls = 0, shorts = 0, fails = 0, changes = 0; long change_at = -1; std::function<void()> change; bool sticky = false; int stuck = 0;
  void arm() { on = true; calls = shorts = fails = changes = 0; stuck = 0; }
  void tick() { if (++calls > 200000) { on = false; FAIL("the operation does not terminate (more than 200000 system calls)"); } if (change && calls - 1 == change_at) { bool o = on; on = false; change(); on = o; changes++; } }
  bool deny(unsigned p) { if (stuck) { errno = stuck; return true; } if (p && chance(p, 16)) { static const int E[] = {EINTR, EIO, ENOSPC, EAGAIN}; int e = E[draw(3)]; fails++; if (sticky) stuck = e; errno = e; return true; } return false; }
  size_t cut(size_t n) { if (n > 1 && shortp && chance(shortp, 16)) { shorts++; return chance(1, 2) ? 1 + draw(std::min<size_t>(n - 2, 20)) : 1 + draw(n - 2); } return n; }
  bool faulty() const { return fails || changes; }
};
static FaultIO fio;
extern "C" int __wrap_open(const char *p, int fl, ...) { va_list ap; va_start(ap, fl); int m = va_arg(ap, int); va_end(ap); if (!fio.on) return __real_open(p, fl, m); fio.tick(); if (fio.deny(fio.openp)) return -1; return __real_open(p, fl, m); }
extern "C" ssize_t __wrap_read(int fd, void *b, size_t n) { if (!fio.on) return __real_read(fd, b, n); fio.tick(); if (fio.deny(fio.failp)) return -1; return __real_read(fd, b, fio.cut(n)); }
extern "C" ssize_t __wrap_write(int fd, const void *b, size_t n) { if (!fio.on) return __real_write(fd, b, n); fio.tick(); if (fio.deny(fio.failp)) return -1; return __real_write(fd, b, fio.cut(n)); }
extern "C" off_t __wrap_lseek(int fd, off_t o, int w) { if (!fio.on) return __real_lseek(fd, o, w); fio.tick(); return __real_lseek(fd, o, w); }
static std::string slurp(const std::string &p, bool *ok = 0) { std::string s; int f = __real_open(p.c_str(), O_RDONLY | O_CLOEXEC, 0); if (ok) *ok = f >= 0; if (f < 0) return s; char b[65536]; ssize_t r; while ((r = __real_read(f, b, sizeof b)) > 0) s.append(b, (size_t)r); close(f); return s; }
static bool spit(const std::string &p, const std::string &d) { int f = __real_open(p.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_CLOEXEC, 0644); if (f < 0) return false; size_t o = 0; while (o < d.size()) { ssize_t r = __real_write(f, d.data() + o, d.size() - o); if (r <= 0) { close(f); return false; } o += (size_t)r; } close(f); return true; }
