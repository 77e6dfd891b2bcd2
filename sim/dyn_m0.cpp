// World "dyn", universe 0: more operations.
#include "dyn_types.h"
#define UNIV UNIV_0
#include "dyn_more.h"
