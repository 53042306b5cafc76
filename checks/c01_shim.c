#define _GNU_SOURCE
#include <stdlib.h>
#include <string.h>
#include <sys/types.h>
#include "sptrlist.h"
#include "stringlist.h"
/* flat functions over the macro interfaces */
sblist *sp_new(size_t n) { return sptrlist_new(n); }
void sp_init(sblist *l, size_t n) { sptrlist_init(l, n); }
int sp_add(sblist *l, void *p) { return sptrlist_add(l, p); }
int sp_set(sblist *l, void *p, size_t i) { return sptrlist_set(l, p, i); }
void *sp_get(sblist *l, size_t i) { return sptrlist_get(l, i); }
size_t sp_count(sblist *l) { return sptrlist_get_count(l); }
void sp_free_items(sblist *l) { sptrlist_free_items(l); }
void sp_free(sblist *l) { sptrlist_free(l); }
sblist *sl_new(size_t n) { return stringlist_new(n); }
int sl_add(sblist *l, char *s) { return stringlist_add(l, s); }
int sl_add_dup(sblist *l, char *s) { return stringlist_add_dup(l, s); }
char *sl_get(sblist *l, size_t i) { return stringlist_get(l, i); }
size_t sl_size(sblist *l) { return stringlist_getsize(l); }
void sl_delete(sblist *l, size_t i) { stringlist_delete(l, i); }
void sl_free(sblist *l) { stringlist_free(l); }
size_t sl_foreach(sblist *l, char **out, size_t max) { char *s; size_t n = 0; stringlist_foreach(l, s) { if (n < max) out[n] = s; n++; if (n > max + 4) break; } return n; }
size_t sl_iter(sblist *l, char **out, size_t max) { size_t i, n = 0; stringlist_iter(l, i) { if (n < max) out[n] = stringlist_get(l, i); n++; if (n > max + 4) break; } return n; }
