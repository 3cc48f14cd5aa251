#include "p_plist.cpp"
#include "plain51.h"
ALSO51(P45, round, 3); ALSO51(P45, foreign, 4); ALSO51(P45, surrogates, 1); ALSO51(P45, memory, 1); ALSO51(P45, random, 1);
