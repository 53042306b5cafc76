#ifndef C03_OPS_H
#define C03_OPS_H
#include <stddef.h>
typedef struct {
	const char *name; size_t isz; size_t maxadds; int indexed;
	void *(*mk)(int style); void (*fr)(void *, int style); void (*reinit)(void *);
	int (*add)(void *, const void *); int (*ins)(void *, const void *, size_t); int (*set)(void *, const void *, size_t); void (*del)(void *, size_t);
	void (*get)(void *, size_t, void *); size_t (*size)(void *); int (*empty)(void *); size_t (*foreach)(void *, void *, size_t); size_t (*itemsize)(void *);
	int (*ins_end)(void *, const void *); int (*ins_mid)(void *, const void *); void (*del_last)(void *); int (*set_last)(void *, const void *); int (*add_self)(void *, size_t);
	void (*sort)(void *, int (*)(const void *, const void *)); void (*free_values)(void *); int (*ins_self)(void *, size_t, size_t);
} c03_ops;
#endif
