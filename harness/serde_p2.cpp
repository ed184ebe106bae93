#define PART 2
#include "serde_part.inc"
