#define _GNU_SOURCE
#include <stddef.h>
#include <stdlib.h>
#define PAGE_SIZE 4096
#include "guard_alloc.c"
void *ga_alloc(size_t n) { return guard_alloc(n); }
void ga_free(void *p, size_t n) { guard_free(p, n); }
