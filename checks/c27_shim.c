#include "logger.h"
#include "c27_ops.h"
static vario *mk(piece *p, vario *v) { switch (p->kind) { case 0: v->ptr = &p->sp; v->type = VT_STRINGPTR; break; case 1: v->ptr = &p->cs; v->type = VT_CHAR_STAR; break; case 2: v->ptr = &p->cs; v->type = VT_CONST_CHAR_STAR; break; case 3: v->ptr = &p->i; v->type = VT_INT; break; case 4: v->ptr = &p->u; v->type = VT_UNSIGNED; break; case 5: v->ptr = &p->l; v->type = VT_LONG; break; default: v->ptr = &p->ul; v->type = VT_ULONG; } return v; }
void l_put(int fd, piece *p, int n) { vario v[8]; int i; for (i = 0; i < n; i++) mk(&p[i], &v[i]); switch (n) { case 0: log_put(fd, VNIL); break; case 1: log_put(fd, &v[0], VNIL); break; case 2: log_put(fd, &v[0], &v[1], VNIL); break; case 3: log_put(fd, &v[0], &v[1], &v[2], VNIL); break; case 4: log_put(fd, &v[0], &v[1], &v[2], &v[3], VNIL); break; case 5: log_put(fd, &v[0], &v[1], &v[2], &v[3], &v[4], VNIL); break; case 6: log_put(fd, &v[0], &v[1], &v[2], &v[3], &v[4], &v[5], VNIL); break; case 7: log_put(fd, &v[0], &v[1], &v[2], &v[3], &v[4], &v[5], &v[6], VNIL); break; default: log_put(fd, &v[0], &v[1], &v[2], &v[3], &v[4], &v[5], &v[6], &v[7], VNIL); } }
void l_macros(int fd, piece *p) { log_put(fd, VARIS(p->sp), VARISL("lit"), VARIC(p->cs), VARICC(p->cs), VARII(p->i), VARIU(p->u), VARIL(p->l), VARIUL(p->ul), VNIL); }
void l_puts(int fd, stringptr *s) { log_puts(fd, s); }
void l_putc(int fd, const char *s) { log_putc(fd, s); }
void l_putd(int fd, uint64_t n, int s) { log_putd(fd, n, s); }
void l_putln(int fd) { log_putln(fd); }
void l_space(int fd) { log_putspace(fd); }
void l_err(int fd, const char *e) { log_puterror(fd, e); }
void l_perr(const char *e) { log_perror(e); }
void l_ts(int fd) { log_timestamp(fd); }
