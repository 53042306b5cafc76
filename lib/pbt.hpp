// Property-based testing runtime: choice-sequence generation, forked workers,
// crash/hang capture, generic shrinking, replay.  See DESIGN.md.
#pragma once
#include <cstdarg>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <initializer_list>
#include <string>
#include <vector>

typedef uint64_t u64; typedef int64_t i64; typedef uint32_t u32; typedef uint8_t u8;

enum { // leg flags
  LEAK = 1,      // library allocations must be balanced at the end of each case
  FUZZ = 2,      // pure in-memory: also driven by libFuzzer in the thorough tier
  ENUM = 4,      // case index enumerates a finite space (exhaustive leg); count is its size
  SOLO = 8,      // only worker 0 runs it (heavy cases)
  SLOW = 16,     // cases may legitimately take many seconds
  RACY = 128,    // schedule dependent: a failure counts when one of ten re-runs fails again
  LONGS = 64,    // sizes are often far beyond the usual ones (around 256, 4 Ki, 64 Ki)
  FDS = 32,      // the set of open descriptors must be unchanged at the end of each case
};
struct Leg { const char *name; void (*fn)(); long quick, thorough; unsigned flags; };
struct Check { const char *id; const char *rule; std::vector<Leg> legs; };
extern Check the_check;               // defined by the harness

// --- generation (all randomness of a case comes from here)
u64 draw(u64 max);                    // 0..max
static inline i64 range(i64 lo, i64 hi) { return lo + (i64)draw((u64)hi - (u64)lo); }
static inline bool chance(unsigned num, unsigned den) { return draw(den - 1) >= den - num; }
bool more(unsigned avg);              // "one more element?": false with probability 1/(avg+1)
size_t weighted(std::initializer_list<unsigned> w);
u64 anyu64();                         // boundary-biased 64-bit value
u32 anyu32();
size_t sizeish(size_t max);           // small-biased size 0..max with power-of-two neighbourhoods
extern bool g_long;                   // in a LONGS leg
size_t longsize();                    // around 256, 1 Ki, 4 Ki, 64 Ki or anything below 80000
static inline size_t maybelong(size_t n) { return g_long && draw(3) == 3 ? longsize() : n; }
size_t sizenear(size_t max, std::initializer_list<size_t> marks); // sizeish, or near one of marks
u64 case_index();                     // ENUM legs: the index
std::string gbytes(size_t n);         // n arbitrary bytes (several textures)
std::string gstr(size_t n, const char *alphabet); // n chars of alphabet
void gfill(void *p, size_t n, u64 seed);          // deterministic filler
template <class T> const T &oneof(const std::vector<T> &v) { return v[draw(v.size() - 1)]; }

// --- verdicts and bookkeeping
[[noreturn]] void fail_(const char *file, int line, const char *fmt, ...) __attribute__((format(printf, 3, 4)));
#define FAIL(...) fail_(__FILE__, __LINE__, __VA_ARGS__)
#define CHECK(c, ...) do { if (!(c)) fail_(__FILE__, __LINE__, __VA_ARGS__); } while (0)
void note(const char *fmt, ...) __attribute__((format(printf, 1, 2))); // describes the case (samples, replays)
bool describing();
void nontrivial();                    // this case is non-trivial by the check's rule
void nontrivial_key(u64 k);           // same, distinctness by k instead of by the choices
void label_(const char *name, int *cache);
#define LABEL(n) do { static int c_ = -1; label_(n, &c_); } while (0)
void known(const char *finding);      // the case shows a listed known finding (passes)
std::string show(const void *p, size_t n, size_t max = 80);
static inline std::string show(const std::string &s, size_t max = 80) { return show(s.data(), s.size(), max); }
u64 hash64(const void *p, size_t n, u64 seed = 0);
const char *scratch();                // private scratch directory of this process (created on demand, removed by the runner)
void case_cpu_limit(unsigned seconds);
extern u64 g_seed; extern bool g_thorough;

// exact-size heap copies so that one byte too many is seen by the sanitizer
struct Buf {
  char *p; size_t n; char *base;
  explicit Buf(size_t n_, int fillbyte = 0xA5);
  Buf(const void *src, size_t n_);
  explicit Buf(const std::string &s, bool nul = false);
  ~Buf();
  Buf(const Buf &) = delete; Buf &operator=(const Buf &) = delete;
  operator char *() { return p; }
  unsigned char *u() { return (unsigned char *)p; }
  std::string str() const { return std::string(p, n); }
};

// n bytes of address space that read as `fill` and cost next to no memory while they are only read
struct Huge {
  char *p; size_t n;
  explicit Huge(size_t n_, char fill = 0);
  ~Huge();
  Huge(const Huge &) = delete; Huge &operator=(const Huge &) = delete;
};

// --- allocation control (wrap_alloc.c; library objects are linked with --wrap)
extern "C" {
void pa_reset(void);
size_t pa_live(void);                 // live blocks allocated through the wrapped functions
size_t pa_live_bytes(void);
void pa_fail_at(long n);              // the n-th allocation from now fails (1 = next), 0 = never
void pa_fail_from(long n);            // the n-th and all later ones fail
long pa_count(void);                  // allocations since last pa_count_reset
void pa_count_reset(void);
extern size_t pa_limit;               // live bytes at which a case is ended as a blow-up (3 GiB)
int pa_fired(void);                   // an injected failure was delivered
int pa_is_live(const void *p);
size_t pa_frees(void);
void pa_describe_live(char *buf, size_t n);
}
