#define CFG 9
#define SSA_MAXELEM 2048
#define SSA_ELEMSIZE 5
#include "c08_ssa.inc"
