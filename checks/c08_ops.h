#ifndef C08_OPS_H
#define C08_OPS_H
#include <stddef.h>
typedef struct { size_t max, esz, poolsize; void *(*mk)(int); void (*fr)(void *, int); void *(*al)(void *, int, size_t); void (*rel)(void *, int, void *); void *(*relnull)(void *, int, void *); } c08_ops;
#endif
