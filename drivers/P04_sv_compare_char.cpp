// P04: comparing views compares their characters
// vs: min=20
#include "sv_in.h"
#include <string_view>
#include "sv_cmp.inc"
