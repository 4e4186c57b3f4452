#define PART3
#include "ctrl.inc"
