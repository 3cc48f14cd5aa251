// P48: checks of other properties, run on the library built without cJSON, threads and relay client
#pragma once
#include "vf.h"
#define ALSO(ID, NAME, W) static ::vf::Reg reg48_##ID##_##NAME("P48", #ID "_" #NAME, W, ID##_##NAME)
