#define PART2
#include "ctrl.inc"
