#define PART1
#include "ctrl.inc"
