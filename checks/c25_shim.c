#include "iniparser.h"
void i_sec(sblist *l, stringptr *n, size_t *a, size_t *c) { ini_section s = iniparser_get_section(l, n); *a = s.startline; *c = s.linecount; }
void i_next(sblist *l, stringptr *n, size_t *a, size_t *c) { ini_section p = {*a, *c}, s = iniparser_get_next_section(l, n, &p); *a = s.startline; *c = s.linecount; }
void i_whole(sblist *l, size_t *a, size_t *c) { ini_section s = iniparser_file_as_section(l); *a = s.startline; *c = s.linecount; }
void i_val(sblist *l, size_t a, size_t c, stringptr *k, stringptr *r) { ini_section s = {a, c}; iniparser_getvalue(l, &s, k, r); }
ssize_t i_valat(sblist *l, size_t a, size_t c, stringptr *k, stringptr *r, size_t st) { ini_section s = {a, c}; return iniparser_getvalue_at(l, &s, k, r, st); }
size_t i_count(sblist *l) { return iniparser_count_sections(l); }
sblist *i_new(void) { return stringptrlist_new(4); }
void i_add(sblist *l, char *p, size_t n) { stringptrlist_add(l, p, n); }
size_t i_size(sblist *l) { return stringptrlist_getsize(l); }
stringptr *i_get(sblist *l, size_t i) { return stringptrlist_get(l, i); }
sblist *i_split(stringptr *s) { return stringptr_linesplit(s); }
void i_free(sblist *l) { stringptrlist_free(l); }
