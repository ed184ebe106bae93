#define PART 0
#include "serde_part.inc"
