#include <stdlib.h>
#include <string.h>
#include "c08_ops.h"
#include "ssalloc.c"
static void *mk(int st) { ssa_pool *p; if (st) { SSINIT; return &SSA_POOL; } p = malloc(sizeof(ssa_pool)); memset(p, 0x5a, sizeof *p); ssa_init(p); return p; }
static void fr(void *p, int st) { if (!st) free(p); }
static void *al(void *p, int st, size_t n) { return st ? SSALLOC(n) : ssa_alloc(p, n); }
static void rel(void *p, int st, void *x) { if (st) SSFREE(x); else ssa_free(p, x); }
static void *relnull(void *p, int st, void *x) { if (st) { SSNULL(x) } else { ssa_free(p, x); x = 0; } return x; }
#define C2(a, b) a##b
#define C1(a, b) C2(a, b)
const c08_ops C1(c08_ssa, CFG) = { SSA_MAXELEM, SSA_ELEMSIZE, sizeof(ssa_pool), mk, fr, al, rel, relnull };
