#define CFG 3
#define SSA_MAXELEM 16
#define SSA_ELEMSIZE 3
#include "c08_ssa.inc"
