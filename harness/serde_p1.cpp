#define PART 1
#include "serde_part.inc"
