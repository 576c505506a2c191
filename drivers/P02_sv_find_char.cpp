// P02: searching reports the first / last position that matches
// vs: min=30 skip=find_s1_first,search_s1_first
#include "sv_in.h"
#include "sv_find.inc"
