#include "p_nips.cpp"
#include "plain.h"
ALSO(P18, response, 2); ALSO(P18, damaged_response, 1); ALSO(P18, strange_name, 1); ALSO(P18, verify, 1); ALSO(P19, references, 1); ALSO(P19, create, 1); ALSO(P20, difficulty_and_verify, 1); ALSO(P20, nonce_tag_history, 2); ALSO(P20, mine, 3); ALSO(P21, repost, 1); ALSO(P22, create_and_parse, 1); ALSO(P23, create, 1); ALSO(P23, verify_event, 2);
