#include "p_proto.cpp"
#include "plain.h"
ALSO(P09, matches, 2); ALSO(P09, filter_lists_and_search, 1); ALSO(P13, kinds, 1); ALSO(P13, replacement_order, 1); ALSO(P14, validate_full, 3); ALSO(P14, tag_accessors, 1); ALSO(P15, deletion, 1); ALSO(P16, expiration, 1);
