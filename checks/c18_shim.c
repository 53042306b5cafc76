#include "stringptr.h"
#include "c18_ops.h"
stringptr *s_concat(stringptr **v, int n) {
	switch (n) {
	case 1: return stringptr_concat(v[0], (stringptr *)0);
	case 2: return stringptr_concat(v[0], v[1], SPNIL);
	case 3: return stringptr_concat(v[0], v[1], v[2], SPNIL);
	case 4: return stringptr_concat(v[0], v[1], v[2], v[3], SPNIL);
	case 5: return stringptr_concat(v[0], v[1], v[2], v[3], v[4], SPNIL);
	case 6: return stringptr_concat(v[0], v[1], v[2], v[3], v[4], v[5], SPNIL);
	case 7: return stringptr_concat(v[0], v[1], v[2], v[3], v[4], v[5], v[6], SPNIL);
	case 8: return stringptr_concat(v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], SPNIL);
	default: return stringptr_concat(v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11], SPNIL);
	}
}
int s_macros(stringptr *a, stringptr *b, char *cstr, size_t clen) {
	stringptr *n = 0, *d;
	SPDECLAREC(dc, cstr);
	stringptr init = SPINITIALIZER("ab\0c"), init2 = SP_INIT(cstr, 3);
	if (stringptr_getsize(a) != a->size || stringptr_get(a) != a->ptr || !!stringptr_empty(a) != (a->size == 0)) return 1;
	if (stringptr_getsize_s(a) != a->size || stringptr_get_s(a) != a->ptr || !!stringptr_empty_s(a) != (a->size == 0)) return 2;
	if (stringptr_getsize_s(n) != 0 || stringptr_get_s(n) != 0 || !stringptr_empty_s(n)) return 3;
	if (dc->ptr != cstr || dc->size != clen) return 4;
	if (init.size != 4 || memcmp(init.ptr, "ab\0c", 5) || init2.ptr != cstr || init2.size != 3) return 5;
	if ((SPLITERAL("xyz"))->size != 3 || (SPL(""))->size != 0 || memcmp((SPL("q\n"))->ptr, "q\n", 3)) return 6;
	if ((SPMAKE(cstr, clen / 2))->ptr != cstr || (SPMAKE(cstr, clen / 2))->size != clen / 2) return 7;
	if (EQ(a, b) != stringptr_eq(a, b) || !EQ(SPL("abc"), SPL("abc"))) return 8;
	d = SDUP(a); if (!d || !EQ(d, a)) return 9; stringptr_free(d); if (d) return 10;
	stringptr_free(d);
	return 0;
}
