#define _GNU_SOURCE
#include <stdlib.h>
#include <string.h>
#include "tglist.h"
#include "tgilist.h"
#include "c03_ops.h"
typedef struct { char c[20]; } r20; typedef struct { char c[3]; } r3; typedef struct { long long a[40]; } r320; typedef struct { char c[257]; } r257; typedef struct { char c[66000]; } r66k;
#define SORT_tglist(l, c) tglist_sort(l, c)
#define SORT_tgilist(l, c) ((void)0)
#define FOREACH_tglist(l, i) tglist_foreach(l, i)
#define FOREACH_tgilist(l, i) for (i = 0; i < tgilist_getsize(l); ++i)
#define BODY(K, N, T, ML, IDX) \
static void *K##N##mk(int st) { if (!st) { K##N *l = K##_new(); return l; } K##N *l = malloc(sizeof(K##N)); memset(l, 0x5a, sizeof *l); K##_init(l); return l; } \
static void K##N##fr(void *v, int st) { K##N *l = v; if (!st) { K##_free(l); } else { K##_free_items(l); free(l); } } \
static void K##N##re(void *v) { K##N *l = v; K##_free_items(l); K##_init(l); } \
static int K##N##add(void *v, const void *p) { K##N *l = v; T x; memcpy(&x, p, sizeof x); return K##_add(l, x); } \
static int K##N##ins(void *v, const void *p, size_t pos) { K##N *l = v; T x; memcpy(&x, p, sizeof x); return K##_insert(l, x, pos); } \
static int K##N##set(void *v, const void *p, size_t pos) { K##N *l = v; T x; memcpy(&x, p, sizeof x); return K##_set(l, x, pos); } \
static void K##N##del(void *v, size_t pos) { K##N *l = v; K##_delete(l, pos); } \
static void K##N##get(void *v, size_t pos, void *o) { K##N *l = v; T x = K##_get(l, pos); memcpy(o, &x, sizeof x); } \
static size_t K##N##size(void *v) { K##N *l = v; return K##_getsize(l); } \
static int K##N##empty(void *v) { K##N *l = v; return K##_empty(l); } \
static size_t K##N##fe(void *v, void *o, size_t max) { K##N *l = v; size_t i, n = 0; FOREACH_##K(l, i) { if (n < max) { T x = K##_get(l, i); memcpy((char *)o + n * sizeof(T), &x, sizeof x); } n++; if (n > max + 3) break; } return n; } \
static size_t K##N##isz(void *v) { K##N *l = v; return K##_itemsize(l); } \
static int K##N##ie(void *v, const void *p) { K##N *l = v; T x; memcpy(&x, p, sizeof x); return K##_insert(l, x, K##_getsize(l)); } \
static int K##N##im(void *v, const void *p) { K##N *l = v; T x; memcpy(&x, p, sizeof x); return K##_insert(l, x, K##_getsize(l) ? K##_getsize(l) / 2 : 0); } \
static void K##N##dl(void *v) { K##N *l = v; K##_delete(l, K##_getsize(l) - 1); } \
static int K##N##sl(void *v, const void *p) { K##N *l = v; T x; memcpy(&x, p, sizeof x); return K##_set(l, x, K##_getsize(l) - 1); } \
static int K##N##as(void *v, size_t i) { K##N *l = v; return K##_add(l, K##_get(l, i)); } \
static int K##N##is(void *v, size_t i, size_t pos) { K##N *l = v; T x = K##_get(l, i); return K##_insert(l, x, pos); } \
static void K##N##so(void *v, int (*c)(const void *, const void *)) { K##N *l = v; SORT_##K(l, c); } \
static void K##N##fv(void *v) { K##N *l = v; K##_free_values(l); }
#define ENTRY(K, N, T, M, I) { #K "<" #N ">", sizeof(T), M, I, K##N##mk, K##N##fr, K##N##re, K##N##add, K##N##ins, K##N##set, K##N##del, K##N##get, K##N##size, K##N##empty, K##N##fe, K##N##isz, K##N##ie, K##N##im, K##N##dl, K##N##sl, K##N##as, K##N##so, K##N##fv, K##N##is },
#define TG(F) F(tglist, uc, unsigned char, -1, 0) F(tglist, sh, short, -1, 0) F(tglist, in, int, -1, 0) F(tglist, ll, long long, -1, 0) F(tglist, r3, r3, -1, 0) F(tglist, r20, r20, -1, 0) F(tglist, r257, r257, -1, 0) F(tglist, r320, r320, -1, 0) F(tglist, r66k, r66k, -1, 0) F(tglist, pt, void *, -1, 0)
#define TGI(F) F(tgilist, inuc, int, 250, 1) F(tgilist, llus, long long, 65000, 1) F(tgilist, r20un, r20, -1, 1) F(tgilist, r320sz, r320, -1, 1) F(tgilist, r66kun, r66k, -1, 1) F(tgilist, ucsz, unsigned char, -1, 1) F(tgilist, pt, void *, -1, 1)
typedef tglist_decl(r66k, r66k) tglistr66k; typedef tgilist_decl(r66kun, r66k, unsigned) tgilistr66kun; typedef tglist_decl(uc, unsigned char) tglistuc; typedef tglist_decl(sh, short) tglistsh; typedef tglist_decl(in, int) tglistin; typedef tglist_decl(ll, long long) tglistll; typedef tglist_decl(r3, r3) tglistr3; typedef tglist_decl(r20, r20) tglistr20; typedef tglist_decl(r257, r257) tglistr257; typedef tglist_decl(r320, r320) tglistr320; typedef tglist(void *) tglistpt;
typedef tgilist_decl(inuc, int, unsigned char) tgilistinuc; typedef tgilist_decl(llus, long long, unsigned short) tgilistllus; typedef tgilist_decl(r20un, r20, unsigned) tgilistr20un; typedef tgilist_decl(r320sz, r320, size_t) tgilistr320sz; typedef tgilist_decl(ucsz, unsigned char, size_t) tgilistucsz; typedef tgilist(void *, unsigned) tgilistpt;
TG(BODY) TGI(BODY)
const c03_ops c03_tbl[] = { TG(ENTRY) TGI(ENTRY) };
const int c03_n = sizeof c03_tbl / sizeof *c03_tbl;
