#define CFG 0
#define SSA_MAXELEM 2
#define SSA_ELEMSIZE 8
#include "c08_ssa.inc"
