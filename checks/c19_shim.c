#include "stringptrlist.h"
#include "c19_ops.h"
int s_add(sblist *l, char *p, size_t n) { return stringptrlist_add(l, p, n); }
int s_set(sblist *l, size_t i, char *p, size_t n) { return stringptrlist_set(l, i, p, n); }
int s_insert(sblist *l, size_t pos, char *p, size_t n) { return stringptrlist_insert(l, pos, p, n); }
int s_insert_sorted(sblist *l, char *p, size_t n, int (*cmp)(const void *, const void *)) { return stringptrlist_insert_sorted(l, p, n, cmp); }
sblist *s_new(size_t n) { return stringptrlist_new(n); }
void s_free(sblist *l) { stringptrlist_free(l); }
stringptr *s_get(sblist *l, size_t i) { return stringptrlist_get(l, i); }
size_t s_size(sblist *l) { return stringptrlist_getsize(l); }
int s_empty(sblist *l) { return stringptrlist_empty(l); }
sblist *s_linesplit(stringptr *b) { return stringptr_linesplit(b); }
