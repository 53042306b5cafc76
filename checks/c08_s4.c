#define CFG 4
#define SSA_MAXELEM 64
#define SSA_ELEMSIZE 100
#include "c08_ssa.inc"
