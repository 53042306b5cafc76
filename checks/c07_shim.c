#include <stdlib.h>
#include "kvlist.h"
sblist *kvs_new(size_t n) { return kv_new(n); }
int kvs_add(sblist *l, char *k, size_t n, void *v) { return kv_add(l, k, n, v); }
int kvs_set(sblist *l, size_t i, char *k, size_t n, void *v) { return kv_set(l, i, k, n, v); }
char *kvs_key(sblist *l, size_t i) { return kv_get(l, i)->ptr; } size_t kvs_ksize(sblist *l, size_t i) { return kv_get(l, i)->size; } void *kvs_val(sblist *l, size_t i) { return kv_get(l, i)->value; }
int kvs_null(sblist *l, size_t i) { return kv_get(l, i) == 0; }
size_t kvs_size(sblist *l) { return kv_getsize(l); } void kvs_free(sblist *l) { kv_free(l); }
int kvs_find(sblist *l, char *k, size_t n, void **v) { stringptr s = { k, n }; return kv_find(l, &s, v); }
int kvs_find_null(sblist *l, int which, void **v) { stringptr s = { "x", 1 }; return which == 0 ? kv_find(0, &s, v) : which == 1 ? kv_find(l, 0, v) : kv_find(l, &s, 0); }
