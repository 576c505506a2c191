// P01: narrowing a view splits it at the documented place, inside its range
// vs: min=40
#include "sv_in.h"
#include "sv_narrow.inc"
