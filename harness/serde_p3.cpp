#define PART 3
#include "serde_part.inc"
