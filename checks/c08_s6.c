#define CFG 6
#define SSA_MAXELEM 1024
#define SSA_ELEMSIZE 8
#include "c08_ssa.inc"
