#define PART 3
#include "yaml_part.inc"
