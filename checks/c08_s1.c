#define CFG 1
#define SSA_MAXELEM 4
#define SSA_ELEMSIZE 1
#include "c08_ssa.inc"
