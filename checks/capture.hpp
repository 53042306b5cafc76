// captures what is written to a descriptor (memfd); optionally in place of fd 1 or 2
#pragma once
#include <string>
#include <sys/mman.h>
#include <unistd.h>
struct Capture {
  static int mem() { static int fd = -1; if (fd < 0) { int t = memfd_create("cap", 0); fd = dup2(t, 200); ::close(t); } return fd; }
  int repl, saved;
  explicit Capture(int replace = -1) : repl(replace), saved(-1) { if (ftruncate(mem(), 0)) {} lseek(mem(), 0, SEEK_SET); if (repl >= 0) { saved = dup2(repl, 201); dup2(mem(), repl); } }
  int fd() { return mem(); }
  std::string done() { if (saved >= 0) { dup2(saved, repl); ::close(saved); saved = -1; } off_t n = lseek(mem(), 0, SEEK_END); std::string s((size_t)n, 0); if (n && pread(mem(), &s[0], (size_t)n, 0) != n) s = "?"; return s; }
  ~Capture() { if (saved >= 0) { dup2(saved, repl); ::close(saved); } }
};
