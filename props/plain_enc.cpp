#include "p_enc.cpp"
#include "plain51.h"
ALSO51(P36, seal, 2); ALSO51(P36, refuse, 1); ALSO51(P37, open, 1); ALSO51(P37, refuse, 2); ALSO51(P38, seal, 1); ALSO51(P38, open, 1); ALSO51(P38, memory, 1);
