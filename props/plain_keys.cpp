#include "p_keys.cpp"
#include "plain.h"
ALSO(P06, keypair_history, 2);
#ifndef VF_MBEDTLS
ALSO(P06, generate_under_faults, 2);
#endif
