#define ROOT R1
#include "res_part.inc"
