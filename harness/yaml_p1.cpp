#define PART 1
#include "yaml_part.inc"
