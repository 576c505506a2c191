// P02: the same for two byte characters
// vs: min=30 flags=-DVS_CHAR=char16_t,-DVS_WIDE skip=find_s,find_ptr_count,find_first_match_s,search_s
#include "sv_in.h"
#include "sv_find.inc"
