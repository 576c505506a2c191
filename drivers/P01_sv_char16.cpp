// P01: the same for two byte characters
// vs: min=36 flags=-DVS_CHAR=char16_t
// vs: skip=remove_suffix,substr,try_pop_back_until_c_none,try_pop_back_until_c_keep_none,pop_front_until_s,pop_front_until_s_keep,remove_prefix_until_s,remove_prefix_until_s_keep,try_pop_front_until_s,try_pop_front_until_s_keep,try_pop_back_until_s,try_pop_back_until_s_keep,remove_prefix_until_s1,try_pop_back_until_s1,try_pop_back_until_s1_keep
#include "sv_in.h"
#include "sv_narrow.inc"
