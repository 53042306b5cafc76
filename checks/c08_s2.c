#define CFG 2
#define SSA_MAXELEM 8
#define SSA_ELEMSIZE 16
#include "c08_ssa.inc"
