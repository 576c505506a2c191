// P04: the same for two byte characters
// vs: min=20 flags=-DVS_CHAR=char16_t,-DVS_WIDE
#include "sv_in.h"
#include <string_view>
#include "sv_cmp.inc"
