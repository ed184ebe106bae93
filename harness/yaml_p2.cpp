#define PART 2
#include "yaml_part.inc"
