#ifdef __cplusplus
extern "C" {
#endif
stringptr *s_concat(stringptr **v, int n);
int s_macros(stringptr *a, stringptr *b, char *cstr, size_t clen);
#ifdef __cplusplus
}
#endif
