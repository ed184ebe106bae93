#define PART 0
#include "yaml_part.inc"
