#include "p_lists.cpp"
#include "plain.h"
ALSO(P25, history, 2); ALSO(P25, read_foreign, 1); ALSO(P26, create_request, 1); ALSO(P27, history, 1); ALSO(P27, read_foreign, 1);
