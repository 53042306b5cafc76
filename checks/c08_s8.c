#define CFG 8
#define SSA_MAXELEM 32
#define SSA_ELEMSIZE 7
#include "c08_ssa.inc"
