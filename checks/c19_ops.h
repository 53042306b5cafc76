#ifdef __cplusplus
extern "C" {
#endif
int s_add(sblist *l, char *p, size_t n); int s_set(sblist *l, size_t i, char *p, size_t n); int s_insert(sblist *l, size_t pos, char *p, size_t n); int s_insert_sorted(sblist *l, char *p, size_t n, int (*cmp)(const void *, const void *));
sblist *s_new(size_t n); void s_free(sblist *l); stringptr *s_get(sblist *l, size_t i); size_t s_size(sblist *l); int s_empty(sblist *l); sblist *s_linesplit(stringptr *b);
#ifdef __cplusplus
}
#endif
