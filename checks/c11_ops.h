#ifdef __cplusplus
extern "C" {
#endif
long s_snprintf(char *d, size_t n, const char *f, const uint64_t *a); long s_vsnprintf(char *d, size_t n, const char *f, const uint64_t *a); long s_rsnprintf(char *d, size_t n, const char *f, const uint64_t *a);
void s_printf(const char *f, const uint64_t *a); void s_uprintf(const char *f, const uint64_t *a); void s_fprintf(int fd, const char *f, const uint64_t *a); void s_dprintf(int fd, const char *f, const uint64_t *a);
void s_fstdout(const char *f, const uint64_t *a); void s_fstderr(const char *f, const uint64_t *a); void s_puts(const char *s); void s_putsif(const char *s, int c); void s_perror(const char *s, int e);
#ifdef __cplusplus
}
#endif
