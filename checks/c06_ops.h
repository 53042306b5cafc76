#ifndef C06_OPS_H
#define C06_OPS_H
#include <stddef.h>
#include <stdint.h>
typedef struct {
	const char *name; size_t ksz, vsz; int hashed, buckets, ptrs, tgi, kind; /* kind: 0 int key, 1 long long, 2 record, 3 char* */
	void *(*mk)(int style, int hashfn); void (*fini)(void *, int style, int flags);
	int64_t (*insert)(void *, const void *, const void *); int64_t (*insert_nocheck)(void *, const void *, const void *); int64_t (*find)(void *, const void *); int (*get)(void *, const void *, void *); int (*contains)(void *, const void *);
	void (*key)(void *, int64_t, void *); void (*val)(void *, int64_t, void *); void (*setval)(void *, int64_t, const void *); void (*del)(void *, int64_t); void (*del_find)(void *, const void *); void (*val_find)(void *, const void *, void *); void (*setval_find)(void *, const void *, const void *);
	size_t (*size)(void *); size_t (*foreach)(void *, int64_t *, size_t); void (*drain)(void *); size_t (*ks)(void *); size_t (*vs)(void *);
	int (*get_write)(void *, const void *, const void *);
} c06_ops;
typedef struct { int a; char pad[12]; } c06_key16; typedef struct { char c[40]; } c06_val40;
#endif
