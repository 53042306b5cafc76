#define _GNU_SOURCE
#include <stdlib.h>
#include <string.h>
#include "hbmap.h"
#include "c06_ops.h"
static __thread int hsel;
static int amp(void) { return hsel & 1 ? 65536 : 1; }
static int c_int(const void *a, const void *b) { int x = *(const int *)a, y = *(const int *)b; return (x < y ? -1 : x > y) * amp(); }
static int c_ll(const void *a, const void *b) { long long x = *(const long long *)a, y = *(const long long *)b; return (x < y ? -1 : x > y) * amp(); }
static int c_k16(const void *a, const void *b) { return memcmp(a, b, sizeof(c06_key16)); }
static int c_str(const void *a, const void *b) { return strcmp(*(char *const *)a, *(char *const *)b); }
static unsigned mixh(unsigned long long x) { switch (hsel) { case 0: return (unsigned)x; case 1: return 0; case 2: return (unsigned)(x >> 3); case 3: return 0xffffffffu; case 4: return (unsigned)(x & 1); default: x ^= x >> 33; x *= 0xff51afd7ed558ccdULL; x ^= x >> 33; return (unsigned)x; } }
static unsigned h_int(const int k) { return mixh((unsigned)k); }
static unsigned h_ll(const long long k) { return mixh((unsigned long long)k); }
static unsigned h_k16(const c06_key16 k) { return mixh((unsigned)k.a); }
static unsigned h_str(char *const k) { unsigned long long h = 5381; const char *s = k; while (*s) h = h * 33 + (unsigned char)*s++; return mixh(h); }

/* --- bmap */
#define B(N, KT, VT, CMP) typedef bmap_decl(N, KT, VT) M_##N; \
static void *N##mk(int st, int hf) { M_##N *m; hsel = hf; if (!st) return bmap_new(CMP); m = malloc(sizeof *m); memset(m, 0x5a, sizeof *m); bmap_init(m, CMP); return m; } \
static void N##fini(void *v, int st, int fl) { M_##N *m = v; bmap_fini(m, fl); free(m); } \
static int64_t N##insert(void *v, const void *k, const void *x) { M_##N *m = v; KT kk; VT vv; memcpy(&kk, k, sizeof kk); memcpy(&vv, x, sizeof vv); return bmap_insert(m, kk, vv); } \
static int64_t N##insn(void *v, const void *k, const void *x) { M_##N *m = v; KT kk; VT vv; memcpy(&kk, k, sizeof kk); memcpy(&vv, x, sizeof vv); return bmap_insert_nocheck(m, kk, vv); } \
static int64_t N##find(void *v, const void *k) { M_##N *m = v; KT kk; memcpy(&kk, k, sizeof kk); return bmap_find(m, kk); } \
static int N##get(void *v, const void *k, void *o) { M_##N *m = v; KT kk; VT *p; memcpy(&kk, k, sizeof kk); p = bmap_get(m, kk); if (p) memcpy(o, p, sizeof *p); return !!p; } \
static int N##getw(void *v, const void *k, const void *x) { M_##N *m = v; KT kk; VT *p; memcpy(&kk, k, sizeof kk); p = bmap_get(m, kk); if (p) memcpy(p, x, sizeof *p); return !!p; } \
static int N##cont(void *v, const void *k) { M_##N *m = v; KT kk; memcpy(&kk, k, sizeof kk); return bmap_contains(m, kk); } \
static void N##key(void *v, int64_t i, void *o) { M_##N *m = v; KT kk = bmap_getkey(m, i); memcpy(o, &kk, sizeof kk); } \
static void N##val(void *v, int64_t i, void *o) { M_##N *m = v; VT vv = bmap_getval(m, i); memcpy(o, &vv, sizeof vv); } \
static void N##setv(void *v, int64_t i, const void *x) { M_##N *m = v; VT vv; memcpy(&vv, x, sizeof vv); bmap_setvalue(m, vv, i); } \
static void N##del(void *v, int64_t i) { M_##N *m = v; bmap_delete(m, i); } \
static void N##delf(void *v, const void *k) { M_##N *m = v; KT kk; memcpy(&kk, k, sizeof kk); bmap_delete(m, bmap_find(m, kk)); } \
static void N##valf(void *v, const void *k, void *o) { M_##N *m = v; KT kk; VT vv; memcpy(&kk, k, sizeof kk); vv = bmap_getval(m, bmap_find(m, kk)); memcpy(o, &vv, sizeof vv); } \
static void N##setf(void *v, const void *k, const void *x) { M_##N *m = v; KT kk; VT vv; memcpy(&kk, k, sizeof kk); memcpy(&vv, x, sizeof vv); bmap_setvalue(m, vv, bmap_find(m, kk)); } \
static size_t N##size(void *v) { M_##N *m = v; return bmap_getsize(m); } \
static size_t N##fe(void *v, int64_t *o, size_t max) { M_##N *m = v; size_t i; for (i = 0; i < bmap_getsize(m); i++) if (i < max) o[i] = i; return i; } \
static void N##drain(void *v) { M_##N *m = v; while (bmap_getsize(m)) bmap_delete(m, bmap_getsize(m) - 1); } \
static size_t N##ks(void *v) { M_##N *m = v; return bmap_getkeysize(m); } static size_t N##vs(void *v) { M_##N *m = v; return bmap_getvalsize(m); }

/* --- hbmap */
#define H(N, KT, VT, NB, CMP, HF) typedef hbmap_decl(N, KT, VT, NB) M_##N; \
static void *N##mk(int st, int hf) { M_##N *m; hsel = hf; if (!st) return hbmap_new(CMP, HF, NB); m = malloc(sizeof *m); memset(m, 0x5a, sizeof *m); hbmap_init(m, CMP, HF); return m; } \
static void N##fini(void *v, int st, int fl) { M_##N *m = v; hbmap_fini(m, fl); free(m); } \
static int64_t N##insert(void *v, const void *k, const void *x) { M_##N *m = v; KT kk; VT vv; memcpy(&kk, k, sizeof kk); memcpy(&vv, x, sizeof vv); return hbmap_insert(m, kk, vv); } \
static int64_t N##insn(void *v, const void *k, const void *x) { M_##N *m = v; KT kk; VT vv; memcpy(&kk, k, sizeof kk); memcpy(&vv, x, sizeof vv); return hbmap_insert_nocheck(m, kk, vv); } \
static int64_t N##find(void *v, const void *k) { M_##N *m = v; KT kk; memcpy(&kk, k, sizeof kk); return hbmap_find(m, kk); } \
static int N##get(void *v, const void *k, void *o) { M_##N *m = v; KT kk; VT *p; memcpy(&kk, k, sizeof kk); p = hbmap_get(m, kk); if (p) memcpy(o, p, sizeof *p); return !!p; } \
static int N##getw(void *v, const void *k, const void *x) { M_##N *m = v; KT kk; VT *p; memcpy(&kk, k, sizeof kk); p = hbmap_get(m, kk); if (p) memcpy(p, x, sizeof *p); return !!p; } \
static int N##cont(void *v, const void *k) { M_##N *m = v; KT kk; memcpy(&kk, k, sizeof kk); return hbmap_contains(m, kk); } \
static void N##key(void *v, int64_t i, void *o) { M_##N *m = v; hbmap_iter it = i; KT kk = hbmap_getkey(m, it); memcpy(o, &kk, sizeof kk); } \
static void N##val(void *v, int64_t i, void *o) { M_##N *m = v; hbmap_iter it = i; VT vv = hbmap_getval(m, it); memcpy(o, &vv, sizeof vv); } \
static void N##setv(void *v, int64_t i, const void *x) { M_##N *m = v; hbmap_iter it = i; VT vv; memcpy(&vv, x, sizeof vv); hbmap_setvalue(m, vv, it); } \
static void N##del(void *v, int64_t i) { M_##N *m = v; hbmap_iter it = i; hbmap_delete(m, it); } \
static void N##delf(void *v, const void *k) { M_##N *m = v; KT kk; memcpy(&kk, k, sizeof kk); hbmap_delete(m, hbmap_find(m, kk)); } \
static void N##valf(void *v, const void *k, void *o) { M_##N *m = v; KT kk; VT vv; memcpy(&kk, k, sizeof kk); vv = hbmap_getval(m, hbmap_find(m, kk)); memcpy(o, &vv, sizeof vv); } \
static void N##setf(void *v, const void *k, const void *x) { M_##N *m = v; KT kk; VT vv; memcpy(&kk, k, sizeof kk); memcpy(&vv, x, sizeof vv); hbmap_setvalue(m, vv, hbmap_find(m, kk)); } \
static size_t N##size(void *v) { M_##N *m = v; size_t i, n = 0; for (i = 0; i < hbmap_getbucketcount(m); i++) n += bmap_getsize(&m->buckets[i]); return n; } \
static size_t N##fe(void *v, int64_t *o, size_t max) { M_##N *m = v; hbmap_iter it; size_t n = 0; hbmap_foreach(m, it) { if (n < max) o[n] = it; n++; if (n > max + 3) break; } return n; } \
static void N##drain(void *v) { M_##N *m = v; hbmap_iter i; size_t n = 0; hbmap_foreach(m, i) { while (hbmap_iter_index_valid(m, i)) { hbmap_delete(m, i); if (n++ > 1000000) return; } } } \
static size_t N##ks(void *v) { M_##N *m = v; return hbmap_getkeysize(m); } static size_t N##vs(void *v) { M_##N *m = v; return hbmap_getvalsize(m); }

#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)
#define SUF(N) N
#ifdef BMAP_USE_TGILIST
#define TGI 1
#else
#define TGI 0
#endif
#define E(N, KT, VT, HASHED, NB, P, KIND) { #N, sizeof(KT), sizeof(VT), HASHED, NB, P, TGI, KIND, N##mk, N##fini, N##insert, N##insn, N##find, N##get, N##cont, N##key, N##val, N##setv, N##del, N##delf, N##valf, N##setf, N##size, N##fe, N##drain, N##ks, N##vs, N##getw },
typedef char *str;
B(b_int_int, int, int, c_int) B(b_ll_v40, long long, c06_val40, c_ll) B(b_k16_char, c06_key16, char, c_k16) B(b_str_str, str, str, c_str)
H(h1_int_int, int, int, 1, c_int, h_int) H(h2_int_ll, int, long long, 2, c_int, h_int) H(h7_ll_v40, long long, c06_val40, 7, c_ll, h_ll) H(h16_k16_char, c06_key16, char, 16, c_k16, h_k16) H(h64_int_int, int, int, 64, c_int, h_int) H(h257_int_v40, int, c06_val40, 257, c_int, h_int) H(h5_str_str, str, str, 5, c_str, h_str) H(h70k_int_int, int, int, 70001, c_int, h_int) H(h300_ll_v40, long long, c06_val40, 300, c_ll, h_ll)
const c06_ops CAT(c06_tbl, TGI)[] = {
	E(b_int_int, int, int, 0, 0, 0, 0) E(b_ll_v40, long long, c06_val40, 0, 0, 0, 1) E(b_k16_char, c06_key16, char, 0, 0, 0, 2) E(b_str_str, str, str, 0, 0, 1, 3)
	E(h1_int_int, int, int, 1, 1, 0, 0) E(h2_int_ll, int, long long, 1, 2, 0, 0) E(h7_ll_v40, long long, c06_val40, 1, 7, 0, 1) E(h16_k16_char, c06_key16, char, 1, 16, 0, 2) E(h64_int_int, int, int, 1, 64, 0, 0) E(h257_int_v40, int, c06_val40, 1, 257, 0, 0) E(h5_str_str, str, str, 1, 5, 1, 3) E(h300_ll_v40, long long, c06_val40, 1, 300, 0, 1) E(h70k_int_int, int, int, 1, 70001, 0, 0)
};
const int CAT(c06_n, TGI) = sizeof CAT(c06_tbl, TGI) / sizeof *CAT(c06_tbl, TGI);
