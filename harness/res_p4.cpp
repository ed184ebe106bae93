#define ROOT R4
#include "res_part.inc"
