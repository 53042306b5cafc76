#include "fileparser.h"
#include <stdlib.h>
void *fp_mk(void) { return calloc(1, sizeof(fileparser)); }
size_t fp_len(void *p) { return ((fileparser *)p)->len; }
size_t fp_bufsize(void) { return sizeof(((fileparser *)0)->buf); }
