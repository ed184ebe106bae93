#define ROOT R2
#include "res_part.inc"
