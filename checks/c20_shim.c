#include "stringptrlist.h"
sblist *z_new(void) { return stringptrlist_new(4); }
int z_add(sblist *l, char *p, size_t n) { return !!stringptrlist_add(l, p, n); }
size_t z_size(sblist *l) { return stringptrlist_getsize(l); }
stringptr *z_get(sblist *l, size_t i) { return stringptrlist_get(l, i); }
void z_free(sblist *l) { stringptrlist_free(l); }
