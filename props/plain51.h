// P51: checks of other properties, run on the library built with the sealed messages but without cJSON, threads and relay client
#pragma once
#include "vf.h"
#define ALSO51(ID, NAME, W) static ::vf::Reg reg51_##ID##_##NAME("P51", #ID "_" #NAME, W, ID##_##NAME)
