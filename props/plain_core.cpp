#include "p_core.cpp"
#include "plain.h"
ALSO(P30, validate_and_env, 1); ALSO(P30, features, 1);
