#include "c06_body.inc"
