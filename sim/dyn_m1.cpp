// World "dyn", universe 1: more operations.
#include "dyn_types.h"
#define UNIV UNIV_1
#include "dyn_more.h"
