#define _GNU_SOURCE
#include <stdint.h>
#include <stdio.h>
#include <string.h>
#include <errno.h>
#include "stdio-repl.h"
#include "c11_ops.h"
#define A a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9]
long s_snprintf(char *d, size_t n, const char *f, const uint64_t *a) { return ulz_snprintf(d, n, f, A); }
static long vs(char *d, size_t n, const char *f, ...) { va_list ap; long r; va_start(ap, f); r = vsnprintf(d, n, f, ap); va_end(ap); return r; }
long s_vsnprintf(char *d, size_t n, const char *f, const uint64_t *a) { return vs(d, n, f, A); }
long s_rsnprintf(char *d, size_t n, const char *f, const uint64_t *a) { return snprintf(d, n, f, A); }
void s_printf(const char *f, const uint64_t *a) { printf(f, A); }
void s_uprintf(const char *f, const uint64_t *a) { ulz_printf(f, A); }
void s_fprintf(int fd, const char *f, const uint64_t *a) { ulz_fprintf(fd, f, A); }
void s_dprintf(int fd, const char *f, const uint64_t *a) { if (fd & 1) dprintf(fd, f, A); else ulz_dprintf(fd, f, A); }
void s_fstdout(const char *f, const uint64_t *a) { fprintf(stdout, f, A); }
void s_fstderr(const char *f, const uint64_t *a) { fprintf(stderr, f, A); }
void s_puts(const char *s) { puts(s); }
void s_putsif(const char *s, int c) { if (c) puts(s); else puts(""); }
void s_perror(const char *s, int e) { errno = e; perror(s); }
