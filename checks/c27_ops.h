#pragma once
#include <stdint.h>
#include <stddef.h>
#include "stringptr_struct.h"
typedef struct { int kind; stringptr *sp; char *cs; int i; unsigned u; long l; unsigned long ul; } piece;
#ifdef __cplusplus
extern "C" {
#endif
void l_put(int fd, piece *p, int n); void l_macros(int fd, piece *p); void l_puts(int fd, stringptr *s); void l_putc(int fd, const char *s); void l_putd(int fd, uint64_t n, int s); void l_putln(int fd); void l_space(int fd); void l_err(int fd, const char *e); void l_perr(const char *e); void l_ts(int fd);
#ifdef __cplusplus
}
#endif
