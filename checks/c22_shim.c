#include "filelist.h"
#include <stdlib.h>
void *fl_mk(void) { filelist *l = malloc(sizeof *l); if (l) memset(l, 0xA5, sizeof *l); return l; }
int fl_search(void *l, stringptr *d, stringptr *m, int dot, int dotdot, int nopath, int hidden) { return filelist_search(l, d, m, FLF_NONE | (dot ? FLF_INCLUDE_DOT : 0) | (dotdot ? FLF_INCLUDE_DOT_DOT : 0) | (nopath ? FLF_EXCLUDE_PATH : 0) | (hidden ? FLF_INCLUDE_HIDDEN : 0)); }
size_t fl_size(void *l) { return stringptrlist_getsize(((filelist *)l)->files); }
stringptr *fl_get(void *l, size_t i) { return stringptrlist_get(((filelist *)l)->files, i); }
void fl_free(void *l) { filelist_free(l); }
