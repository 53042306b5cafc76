#define BMAP_USE_TGILIST
#include "c06_body.inc"
