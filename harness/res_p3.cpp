#define ROOT R3
#include "res_part.inc"
