#define _GNU_SOURCE
#include <stdlib.h>
#include <string.h>
#include "stringlist.h"
int sl_add_dup(sblist *l, char *s) { return stringlist_add_dup(l, s); }
char *sl_get(sblist *l, size_t i) { return stringlist_get(l, i); }
sblist *sl_new(size_t n) { return stringlist_new(n); }
