#define _GNU_SOURCE
#include <stdlib.h>
#include <string.h>
#include "tglist.h"
typedef struct { int key; unsigned tag; char pad[12]; } rec20;
#define DEF(N, T) typedef tglist_decl(N, T) L_##N; \
 void *tgs_##N##_new(void) { L_##N *l = tglist_new(); return l; } \
 size_t tgs_##N##_ins(void *v, void *item, int (*c)(const void *, const void *)) { L_##N *l = v; T x; memcpy(&x, item, sizeof x); return tglist_insert_sorted(l, x, c); } \
 size_t tgs_##N##_size(void *v) { L_##N *l = v; return tglist_getsize(l); } \
 void *tgs_##N##_at(void *v, size_t i) { L_##N *l = v; return &tglist_get(l, i); } \
 void tgs_##N##_sort(void *v, int (*c)(const void *, const void *)) { L_##N *l = v; tglist_sort(l, c); } \
 void tgs_##N##_free(void *v) { L_##N *l = v; tglist_free(l); }
#define tglist_decl2(ID, T) tglist_decl(ID, T)
DEF(i32, int)
DEF(i64, long long)
DEF(r20, rec20)
typedef struct { int key; char pad[69993]; } rec70k;
DEF(r70k, rec70k)
