#define CFG 7
#define SSA_MAXELEM 256
#define SSA_ELEMSIZE 4096
#include "c08_ssa.inc"
