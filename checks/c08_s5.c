#define CFG 5
#define SSA_MAXELEM 128
#define SSA_ELEMSIZE 24
#include "c08_ssa.inc"
